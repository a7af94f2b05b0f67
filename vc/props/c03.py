from .util import *
from . import c02

ID = "C03"
SRC = ["nsasm/memory.cc", "nsasm/rom.cc"]
DRIVER = "core"


def source(g):
    """Any input source: Read() is its contract, an arbitrary answer."""
    I, P = g.I, g.P
    u8 = g.type("unsigned char")
    asked = []
    fail = P.fresh("source.fails", z3.BoolSort())
    img = I.symseq(u8, "source.data")
    msg = I.sym(g.type("nsasm::Error"), "source.error")

    def read(c):
        a, n = c.arg(0), c.arg(1)
        asked.append((a.f["value_"], n))
        # contract of InputSource::Read: fails, or gives exactly n bytes
        ok = Seq(n=bv(n, 64) if not isc(n) else n, fn=lambda i: bv(img.get(i), 8), et=u8, ver=newver())
        key = c.rt.key
        return Rec(key, {"value": VarV(merge(fail, 0, 1), (msg, ok))}, c.rt.tn)
    I.contracts["nsasm::InputSource::Read"] = read
    obj = Rec(g.type("nsasm::InputSource").key, {}, "nsasm::InputSource")
    return obj, asked, fail, img, msg


def reader(name, w):
    def goal(g):
        obj, asked, fail, img, msg = source(g)
        a, av = addr(g, "a")
        g.input("fails", fail)
        for i in range(3):
            g.input("b%d" % i, bv(img.get(i), 8))
        r = g.call("nsasm::InputSource::" + name, g.P.alloc(obj), a)
        g.ensure(len(asked) == 1, "the source is asked once")
        g.ensure(eq(asked[0][0], av), "at the given address")
        g.ensure(eq(bv(asked[0][1], 32), w), "for %d bytes" % w)
        ok, v = errorval(r)
        g.cover("success", ok)
        g.cover("failure", b_not(ok))
        g.ensure(eq(zb(ok), z3.Not(fail)), "succeeds exactly when the source does")
        e = r.f["value"].alts[0]
        if e is not None:
            g.ensure(b_imp(b_not(ok), val_eq(e, msg)), "the source's error is handed on")
        if v is not None:
            want = z3.BitVecVal(0, 32)
            for i in range(w):
                want = want | (z3.ZeroExt(24, bv(img.get(i), 8)) << (8 * i))
            g.ensure(b_imp(ok, eq(bv(v, 32), want)), "little-endian unsigned value")
    return goal


def c_src(w, a, b, fail, err="boom"):
    log = " $%06x/%d" % (a, w)
    if fail or len(b) < w:
        out = "err " + hx(err)
    else:
        out = "ok %d" % int.from_bytes(b[:w], "little")
    return Case("src %d %x %s %d %s" % (w, a, hx(b.decode("latin1")), fail, hx(err)), want=out + log)


def goals():
    out = []
    for name, w in (("ReadByte", 1), ("ReadWord", 2), ("ReadLong", 3)):
        out.append(Goal("InputSource::" + name, reader(name, w),
                        lambda i, w=w: [c_src(w, i["a"], bytes(i["b%d" % k] for k in range(3)), int(i["fails"]))]))
    # the ROM's Read is one implementation of the assumed contract
    return out + [Goal("Rom::Read", c02.read)]


def cases(r, n):
    for _ in range(n):
        b = bytes(r.choice([0, 1, 0x7f, 0x80, 0xff, r.randrange(256)]) for _ in range(r.choice([0, 1, 2, 3, 3, 3, 4])))
        yield c_src(r.randrange(1, 4), rand_addr(r), b, r.randrange(5) == 0, r.choice(["x", "some error", ""]))
    for _ in range(n // 20):
        m, size, seed, a, _ = c02.rand_read(r)
        w = r.randrange(1, 4)
        b = c02.p_read(m, size, seed, a, w)
        yield Case("%s %x %x %x %x" % (("rb", "rw", "rl")[w - 1], m, size, seed, a),
                   want="err" if b is None else "ok %d" % int.from_bytes(b, "little"))
