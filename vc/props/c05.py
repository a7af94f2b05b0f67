from .util import *
from . import c01, c02

ID = "C05"
SRC = ["nsasm/rom.cc", "/verif/replay/inst_rom.cc"]
DRIVER = "core"


def read_contract(g):
    """Rom::Read by its contract (discharged under 'Rom::Read')."""
    I, P = g.I, g.P

    def read(c):
        r = P.load(c.obj)
        img, m = r.f["data_"], r.f["mapping_mode_"]
        av, n = c.arg(0).f["value_"], bv(c.arg(1), 32)
        bad, byte = c02.read_spec(img, m, av, n)
        n64 = z3.SignExt(32, n)
        ok = P.fresh("read.ok", z3.BoolSort())
        w = P.fresh("read.bad", z3.BitVecSort(64))
        # fails exactly when n is negative or some addressed byte is missing
        P.fact(("idx",), lambda j: b_imp(b_and(ok, z3.ULT(j, n64)), b_not(bad(j))))
        P.touch("idx", w)
        P.assume(b_or(ok, n < 0, b_and(z3.ULT(w, n64), bad(w))))
        P.assume(b_imp(ok, n >= 0))
        u8 = g.type("unsigned char")
        s = Seq(n=n64, fn=lambda i: byte(bv(i, 64)), et=u8, ver=newver())
        err = I.sym(g.type("nsasm::Error"), "read.error")
        return Rec(c.rt.key, {"value": VarV(merge(ok, 1, 0), (err, s))}, c.rt.tn)
    I.contracts["nsasm::Rom::Read"] = read


def write(g):
    I, P = g.I, g.P
    read_contract(g)
    r, img, m = c02.rom(g)
    g.input("m", m)
    g.input("size", img.n)
    a, av = addr(g, "a")
    data = I.symseq(g.type("unsigned char"), "data")
    n = g.input("n", data.n)
    P.assume(z3.ULE(n, 0x7fffffff))
    g.inseq("data", data)
    up = UPtr(Ptr(P.alloc(r)))
    t = g.type("nsasm::RomIdentityTest")
    this = P.alloc(Rec(t.key, {"rom_": up}, t.tn))
    res = g.call("nsasm::RomIdentityTest::Write", this, a, SpanV(P.alloc(data), 0, n))
    ok, _ = errorval(res)
    g.cover("success", ok)
    g.cover("failure", b_not(ok))
    bad, byte = c02.read_spec(img, m, av, n)
    i = P.fresh("i", z3.BitVecSort(64))
    P.touch("idx", i)
    for t in [k for k in P.touched if k.startswith("it:")]:
        P.touch(t, i)
    inr = b_and(ok, ult(i, n))
    g.ensure(b_imp(inr, b_not(bad(i))), "accepted only when the ROM has every byte")
    g.ensure(b_imp(inr, eq(sget(data, i), byte(i))), "accepted only when every byte matches")
    if ok is not True and P.feasible(b_not(ok)):
        P.assume(b_not(ok))
        P.fact(("idx",), lambda j: b_imp(ult(j, n), b_and(b_not(bad(j)), eq(sget(data, j), byte(j)))))
        for t in P.iters:
            P.touch("idx", t)
        g.ensure(False, "rejected only when a byte is missing or differs")


def p_id(m, size, seed, a, b):
    w = c02.p_read(m, size, seed, a, len(b))
    return "ok" if w is not None and w == b else "err"


def c_id(m, size, seed, a, b):
    return Case("id %x %x %x %x %s" % (m, size, seed, a, b.hex() or "-"), want=p_id(m, size, seed, a, b))


def c_id2(m, size, seed, a, n, flip):
    w = c02.p_read(m, size, seed, a, n)
    good = w is not None and not (0 <= flip < n)
    return Case("id2 %x %x %x %x %x %d" % (m, size, seed, a, n, flip), want="ok" if good else "err")


def goals():
    def rep(i):
        if i["size"] > 1 << 25 or i["n"] > 1 << 20:
            return []
        out = [c_id2(i["m"], i["size"], 3, i["a"], i["n"], f) for f in (-1, 0, i["n"] - 1, i["n"] // 2)]
        return out
    return [Goal("RomIdentityTest::Write", write, rep), Goal("Rom::Read", c02.read), *c01.goals()]


def cases(r, n):
    for _ in range(n // 4):
        m, size, seed, a, k = c02.rand_read(r)
        k = abs(k) % 0x12000
        if r.random() < .5:
            yield c_id2(m, size, seed, a, k, r.choice([-1, -1, 0, k - 1, r.randrange(max(1, k))]))
        else:
            k %= 64
            b = bytearray(c02.p_read(m, size, seed, a, k) or bytes(k))
            if b and r.random() < .5:
                b[r.randrange(len(b))] ^= 1 << r.randrange(8)
            yield c_id(m, size, seed, a, bytes(b))
