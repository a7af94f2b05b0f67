from .util import *
from . import c01

ID = "C02"
SRC = ["nsasm/rom.cc"]
DRIVER = "core"


def rom(g, name="rom"):
    """A symbolic ROM object: any image, any mapping."""
    I, P = g.I, g.P
    t = g.type("nsasm::Rom")
    r = I.sym(t, name)
    u8 = g.type("unsigned char")
    img = I.symseq(u8, name + ".data")
    r = r.set("data_", img)
    m = r.f["mapping_mode_"]
    P.assume(z3.ULE(m, 2))
    return r, img, m


def inputs(g, img, m, a, n):
    g.input("m", m)
    g.input("size", img.n)


def read_spec(img, m, av, n):
    """(fails at i, byte i) of a read at av"""
    def bad(i):
        x = z_addw(av, z3.Extract(31, 0, i))
        return b_or(z_unmapped(x, m), b_not(ult(z_offset(x, m), img.n)))

    def byte(i):
        return sget(img, z_offset(z_addw(av, z3.Extract(31, 0, i)), m))
    return bad, byte


def read(g):
    r, img, m = rom(g)
    a, av = addr(g, "a")
    n = g.input("n", g.fresh("n", 32))
    inputs(g, img, m, av, n)
    P = g.P
    this = P.alloc(r)
    res = g.call("nsasm::Rom::Read", this, a, n)
    ok, val = errorval(res)
    g.cover("success", ok)
    g.cover("failure", b_not(ok))
    bad, byte = read_spec(img, m, av, n)
    n64 = z3.SignExt(32, n)
    # success: exactly n bytes, each addressed byte present and equal
    i = P.fresh("i", z3.BitVecSort(64))
    P.touch("idx", i)
    P.touch("idx", z_offset(z_addw(av, z3.Extract(31, 0, i)), m))
    for x in list(P.touched):
        if x.startswith("it:"):
            P.touch(x, i)
    g.ensure(b_imp(ok, n >= 0), "negative lengths are rejected")
    if val is not None:
        g.ensure(b_imp(ok, eq(bv(val.n, 64), n64)), "exactly n bytes are returned")
        inr = b_and(ok, z3.ULT(i, n64))
        g.ensure(b_imp(inr, b_not(bad(i))), "success only when every addressed byte exists")
        P2 = b_imp(inr, eq(sget(val, i), byte(i)))
        g.ensure(P2, "byte i is the image byte at the offset of the address advanced by i")
    # failure: some addressed byte is missing (or n is negative)
    if ok is not True:
        failed = b_and(b_not(ok), n >= 0)
        if failed is not False and P.feasible(failed):
            P.assume(failed)
            # all addressed bytes exist: must be contradictory
            P.fact(("idx",), lambda j: b_imp(z3.ULT(j, n64), b_not(bad(j))))
            tail = [z3.BitVecVal(0, 64), n64 - 1]
            for t in tail:
                P.touch("idx", t)
            for t in P.iters:
                P.touch("idx", t)
            g.ensure(False, "fails only when some addressed byte does not exist")


def p_read(m, size, seed, a, n):
    if n < 0:
        return None
    off = p_offset(a, m)
    if n == 0:
        return b""
    # offsets of the n addresses
    bank = a & 0xff0000
    lows = (np.arange(n, dtype=np.int64) + (a & 0xffff)) & 0xffff
    uniq = np.unique(lows)
    if p_offset(bank | int(uniq[0]), m) is None or p_offset(bank | int(uniq[-1]), m) is None:
        return None
    base = p_offset(bank | int(uniq[-1]), m) - int(uniq[-1])
    offs = lows + base
    if offs.max() >= size:
        return None
    img = image(size, seed)
    return img[offs].tobytes()


def c_read(m, size, seed, a, n):
    b = p_read(m, size, seed, a, n)
    return Case("read %x %x %x %x %d" % (m, size, seed, a, n), want="err" if b is None else "ok " + p_bytes(b))


def goals():
    def rep(i):
        if i["size"] > 1 << 25 or s32(i["n"]) > 1 << 22:
            return []
        return [c_read(i["m"], i["size"], 3, i["a"], s32(i["n"]))]
    return [Goal("Rom::Read", read, rep), *c01.goals()]


SIZES = [0, 1, 2, 0x7fff, 0x8000, 0x8001, 0x10000, 0x18000, 0x20000, 0x12345]


def rand_read(r):
    m = r.randrange(3)
    a = rand_addr(r)
    o = p_offset(a, m)
    n = r.choice([0, 1, 2, 3, 4, 5, 0x10, 0x100, 0x7fff, 0x8000, 0x8001, 0xffff, 0x10000, 0x10001, 0x10002, 0x18000, -1, -5, r.randrange(70000)])
    size = r.choice(SIZES)
    if o is not None and r.random() < .6:
        size = min(0x500000, o + r.choice([0, 1, n, n - 1 if n > 0 else 0, n + 1, 5, 0x10000]))
        size = max(size, 0)
    return m, size, r.randrange(256), a, n


def cases(r, n):
    for _ in range(min(n, 1500) if n <= 3000 else n // 4):
        yield c_read(*rand_read(r))
