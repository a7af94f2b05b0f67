from .util import *

ID = "C06"
SRC = ["nsasm/rom.cc", "nsasm/ranges.cc"]
DRIVER = "core"


def addwrapped(g):
    a, av = addr(g, "a")
    off = g.input("off", g.fresh("off", 32))
    lv = g.P.alloc(a)
    r = g.call("nsasm::Address::AddWrapped", lv, off)
    g.ensure(eq(r.f["value_"], z_addw(av, off)), "bank kept, offset added modulo 65536")
    g.ensure(eq(g.P.load(lv).f["value_"], av), "the address itself is unchanged")


def parts(g):
    a, av = addr(g, "a")
    lv = g.P.alloc(a)
    b = g.call("nsasm::Address::Bank", lv)
    o = g.call("nsasm::Address::BankAddress", lv)
    g.ensure(eq(bv(b, 32), z3.LShR(av, 16)), "bank is bits 16-23")
    g.ensure(eq(bv(o, 16), z3.Extract(15, 0, av)), "bank address is bits 0-15")


def rebuild(g):
    b, o = g.input("bank", g.fresh("bank", 8)), g.input("off", g.fresh("off", 16))
    f = g.find("nsasm::Address::Address", pred=lambda f: len(f.ps) == 2)
    r = construct(g, f, b, o)
    g.ensure(eq(r.f["value_"], z3.ZeroExt(8, z3.Concat(b, o))), "address rebuilt from bank and in-bank part")
    v = g.input("v", g.fresh("v", 32))
    g.P.assume(z3.ULE(v, 0xffffff))
    f = g.find("nsasm::Address::Address", pred=lambda f: len(f.ps) == 1 and f.ps[0][2].strip().k == "int")
    r = construct(g, f, v)
    g.ensure(eq(r.f["value_"], v), "address built from its number")


def construct(g, f, *args):
    g.under(f)
    t = g.type("nsasm::Address")
    return g.I.construct(f.info, t, list(args))


CMP = {"==": lambda a, b: a == b, "!=": lambda a, b: a != b, "<": z3.ULT, "<=": z3.ULE, ">": z3.UGT, ">=": z3.UGE}


def compare(g):
    a, av = addr(g, "a")
    b, bv_ = addr(g, "b")
    for op, spec in CMP.items():
        r = g.call("nsasm::Address::operator" + op, g.P.alloc(a), b)
        g.ensure(zb(r) == spec(av, bv_), "operator%s agrees with the numbers" % op)


def subtract(g):
    a, av = addr(g, "a")
    b, bw = addr(g, "b")
    r = g.call("nsasm::Address::SubtractWrapped", g.P.alloc(a), b)
    ok, v = errorval(r)
    g.cover("success", ok)
    g.cover("failure", b_not(ok))
    g.ensure(eq(zb(ok), z3.LShR(av, 16) == z3.LShR(bw, 16)), "fails exactly when the banks differ")
    if v is not None:
        v = bv(v, 32)
        g.ensure(b_imp(ok, z3.And(v >= -32768, v <= 32767)), "distance in -32768..32767")
        g.ensure(b_imp(ok, z_addw(bw, v) == av), "added with wrapping to the subtrahend gives the minuend")
        # and it is the only such number
        w = g.fresh("w", 32)
        g.ensure(b_imp(ok, b_imp(b_and(w >= -32768, w <= 32767, z_addw(bw, w) == av), w == v)), "the distance is unique")


def c_addw(a, o):
    return Case("addw %x %d" % (a, o), want="$%06x" % p_addw(a, o))


def c_sub(a, b):
    if a >> 16 != b >> 16:
        w = "err"
    else:
        d = (a - b) & 0xffff
        w = "ok %d" % (d - 0x10000 if d > 0x7fff else d)
    return Case("subw %x %x" % (a, b), want=w)


def c_cmp(a, b):
    return Case("cmp %x %x" % (a, b), want="".join("01"[x] for x in (a == b, a != b, a < b, a <= b, a > b, a >= b)))


def c_bank(a):
    return Case("bank %x" % a, want="%d %d $%06x" % (a >> 16, a & 0xffff, a))


def goals():
    return [Goal("Address::AddWrapped", addwrapped, lambda i: [c_addw(i["a"], s32(i["off"]))]),
            Goal("Address::Bank/BankAddress", parts, lambda i: [c_bank(i["a"])]),
            Goal("Address::Address", rebuild, lambda i: [Case("mk %x %x" % (i["bank"], i["off"]), want="$%02x%04x" % (i["bank"], i["off"]))]
                 + ([c_bank(i["v"])] if "v" in i else [])),
            Goal("Address comparisons", compare, lambda i: [c_cmp(i["a"], i["b"])]),
            Goal("Address::SubtractWrapped", subtract, lambda i: [c_sub(i["a"], i["b"])])]


def cases(r, n):
    for _ in range(n):
        a, b = rand_addr(r), rand_addr(r)
        if r.random() < .6:
            b = (a & 0xff0000) | (b & 0xffff)
        o = r.choice([0, 1, -1, 2, 0x7fff, 0x8000, -0x8000, 0xffff, 0x10000, -0x10000, 2**31 - 1, -2**31, r.randrange(-2**31, 2**31),
                      r.randrange(-70000, 70000)])
        yield c_addw(a, o)
        yield c_sub(a, b)
        yield c_cmp(a, b)
        yield c_bank(a)
        yield Case("mk %x %x" % (a >> 16, a & 0xffff), want="$%06x" % a)
