from .util import *
from . import c01, c02

ID = "C04"
SRC = ["nsasm/rom.cc", "/verif/replay/inst_rom.cc"]
DRIVER = "core"


def ctor(g):
    """Wrapping a ROM starts from that ROM's data and takes it over."""
    I, P = g.I, g.P
    r, img, m = c02.rom(g)
    cell = P.alloc(r)
    up = UPtr(Ptr(cell))
    f = g.find("nsasm::RomOverwriter::RomOverwriter", pred=lambda f: len(f.ps) == 1 and f.ps[0][2].strip().tn == "std::unique_ptr")
    g.under(f)
    o = I.construct(f.info, g.type("nsasm::RomOverwriter"), [P.alloc(up)])
    d = o.f["data_"]
    i = P.fresh("i", z3.BitVecSort(64))
    P.touch("idx", i)
    g.ensure(eq(bv(d.n, 64), bv(img.n, 64)), "the image has the ROM's size")
    g.ensure(b_imp(ult(i, img.n), eq(sget(d, i), sget(img, i))), "the image has the ROM's bytes")
    g.ensure(isinstance(o.f["rom_"], UPtr) and lv_same(o.f["rom_"].p.lv, cell) is True, "the ROM is kept")
    g.ensure(I.P.load(cell) is r or val_eq(I.P.load(cell).f["mapping_mode_"], m), "the ROM is unchanged")


def overwriter(g):
    I, P = g.I, g.P
    r, rimg, m = c02.rom(g)
    up = UPtr(Ptr(P.alloc(r)))
    t = g.type("nsasm::RomOverwriter")
    u8 = g.type("unsigned char")
    img = I.symseq(u8, "image")
    o = Rec(t.key, {"rom_": up, "data_": img}, t.tn)
    return o, img, m


def write(g):
    I, P = g.I, g.P
    o, img, m = overwriter(g)
    g.input("m", m)
    g.input("size", img.n)
    a, av = addr(g, "a")
    u8 = g.type("unsigned char")
    data = I.symseq(u8, "data")
    n = g.input("n", data.n)
    P.assume(z3.ULE(n, 65536))
    sp = SpanV(P.alloc(data), 0, n)
    this = P.alloc(o)
    r = g.call("nsasm::RomOverwriter::Write", this, a, sp)
    ok, _ = errorval(r)
    g.cover("success", ok)
    g.cover("failure", b_not(ok))
    bad, _ = c02.read_spec(img, m, av, n)
    new = P.load(this).f["data_"]

    def off(i):
        return z_offset(z_addw(av, z3.Extract(31, 0, i)), m)
    g.ensure(eq(bv(new.n, 64), bv(img.n, 64)), "the image size is unchanged")
    g.ensure(lv_same(P.load(this).f["rom_"].p.lv, o.f["rom_"].p.lv) is True, "the ROM is kept")
    i, x = P.fresh("i", z3.BitVecSort(64)), P.fresh("x", z3.BitVecSort(64))
    for t in [k for k in P.touched if k.startswith("it:")]:
        P.touch(t, i)
    P.touch("idx", i)
    P.touch("idx", off(i))
    P.touch("idx", x)
    inr = b_and(ok, ult(i, n))
    g.ensure(b_imp(inr, b_not(bad(i))), "success only when every addressed byte exists")
    P.touch("idx", z3.simplify(off(i)))
    g.ensure(b_imp(inr, eq(sget(new, off(i)), sget(data, i))), "byte i is stored at the offset of the address advanced by i")
    # frame
    P.ghost["save"] = None
    frame = Fact1(P, n, off, x)
    g.ensure(b_imp(b_and(ok, ult(x, img.n), frame), eq(sget(new, x), sget(img, x))), "every other byte is unchanged")
    if ok is not True and P.feasible(b_not(ok)):
        P.assume(b_not(ok))
        P.fact(("idx",), lambda j: b_imp(ult(j, n), b_not(bad(j))))
        for t in [z3.BitVecVal(0, 64)] + P.iters:
            P.touch("idx", t)
        g.ensure(False, "fails only when some addressed byte does not exist")


def Fact1(P, n, off, x):
    """A proposition implying that x is none of the offsets off(j), j < n."""
    A = P.fresh("untouched", z3.BoolSort())
    for t in [k for k in P.touched if k.startswith("it:")] + ["idx"]:
        P.fact((t,), lambda j: b_imp(b_and(A, ult(j, n)), off(j) != x))
    return A


def p_ow(m, size, seed, hdr, writes):
    img = bytearray(image(size, seed).tobytes())
    out = ""
    for a, ln, s in writes:
        d = image(ln, s).tobytes()
        good = True
        for i in range(ln):
            o = p_offset(p_addw(a, i), m)
            if o is None or o >= size:
                good = False
                break
            img[o] = d[i]
        out += "ok " if good else "err "
        if not good:
            return None
    h = image(hdr, seed + 1).tobytes() if hdr else b""
    return out + "ok " + p_bytes(h + bytes(img))


def c_ow(m, size, seed, hdr, writes):
    line = "ow %x %x %x %x %d" % (m, size, seed, hdr, len(writes)) + "".join(" %x %x %x" % w for w in writes)
    ref = p_ow(m, size, seed, hdr, writes)
    if ref is not None:
        return Case(line, want=ref)
    # a failing write: everything before it succeeds, it fails; the image size stays
    k = 1
    while p_ow(m, size, seed, hdr, writes[:k]) is not None:
        k += 1

    def ok(out):
        w = out.split()
        return w[:k] == ["ok"] * (k - 1) + ["err"] and len(w) == len(writes) + 2 and w[-2] == "ok" and w[-1].startswith("%d:" % (size + hdr))
    return Case(line, check=ok)


def goals():
    def rep(i):
        return [c_ow(i["m"], i["size"], 5, 0, [(i["a"], i["n"], 9)])] if i["size"] < 1 << 25 and i["n"] <= 65536 else []
    return [Goal("RomOverwriter::RomOverwriter", ctor, lambda i: [c_ow(0, 0x8000, 1, 0, [])]),
            Goal("RomOverwriter::Write", write, rep), *c01.goals()]


def cases(r, n):
    for _ in range(n // 20):
        m = r.randrange(3)
        ws = []
        top = 0
        for _ in range(r.randrange(0, 4)):
            a = rand_addr(r)
            ln = r.choice([0, 1, 2, 3, 17, 0x100, 0x7fff, 0x8000, r.randrange(0x3000)])
            if r.random() < .8:
                for _ in range(20):
                    if p_offset(a, m) is not None and (r.random() < .2 or p_offset(p_addw(a, max(0, ln - 1)), m) is not None):
                        break
                    a = rand_addr(r)
            o = p_offset(a, m)
            ws.append((a, ln, r.randrange(256)))
            if o is not None:
                top = max(top, o + r.choice([0, 1, ln, ln + 1, max(0, ln - 1), 0x10000]))
        yield c_ow(m, min(top, 0x480000) if r.random() < .9 else r.choice(c02.SIZES[1:]), r.randrange(256), r.choice([0, 0x200]), ws)
