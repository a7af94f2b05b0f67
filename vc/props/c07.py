from .util import *

ID = "C07"
SRC = ["nsasm/rom.cc"]
DRIVER = "core"
NT = 7
W = {1: 8, 2: 16, 3: 24, 4: 8, 5: 16, 6: 24}


def ntype(g, name):
    t = g.input(name, g.fresh(name, 32))
    g.P.assume(z3.ULT(t, NT))
    return t


def z_cast(t, v):
    """The unique value of the type's range congruent to v."""
    r = v
    for k, w in W.items():
        low = z3.Extract(w - 1, 0, v)
        x = z3.ZeroExt(32 - w, low) if k <= 3 else z3.SignExt(32 - w, low)
        r = z3.If(t == k, x, r)
    return r


def cast(g):
    t = ntype(g, "t")
    v = g.input("v", g.fresh("v", 32))
    r = bv(g.call("nsasm::CastTo", None, t, v), 32)
    g.ensure(eq(r, z_cast(t, v)), "value of the type congruent to the operand")
    # the range, stated directly
    for k, w in W.items():
        lo, hi = (0, 2 ** w - 1) if k <= 3 else (-2 ** (w - 1), 2 ** (w - 1) - 1)
        g.ensure(b_imp(t == k, z3.And(r >= lo, r <= hi, (r - v) & (2 ** w - 1) == 0)), "range and congruence of type %d" % k)
    g.ensure(b_imp(t == 0, r == v), "unsized type leaves the value alone")


def z_size(t):
    r = z3.BitVecVal(0, 32)
    for k in range(1, 7):
        r = z3.If(t == k, z3.BitVecVal((k - 1) % 3 + 1, 32), r)
    return r


def z_signed(t):
    return z3.And(z3.UGE(t, 4), z3.ULE(t, 6))


def conv(g, a, b):
    return bv(g.call("nsasm::ArtihmeticConversion", None, a, b), 32)


def combine(g):
    a, b = ntype(g, "a"), ntype(g, "b")
    r = conv(g, a, b)
    g.ensure(z3.ULT(r, NT), "the combination is a type")
    g.ensure(eq(r, conv(g, b, a)), "commutative")
    sa, sb = z_size(a), z_size(b)
    g.ensure(z_size(r) == z3.If(z3.UGE(sa, sb), sa, sb), "as wide as the wider operand")
    g.ensure(z_signed(r) == z3.Or(z_signed(a), z_signed(b)), "signed exactly when an operand is signed")


def laws(g):
    a = ntype(g, "a")
    zero = z3.BitVecVal(0, 32)
    g.ensure(eq(conv(g, a, a), a), "idempotent")
    g.ensure(b_and(eq(conv(g, a, zero), a), eq(conv(g, zero, a), a)), "the unsized type is neutral")


def assoc(g):
    a, b, c = ntype(g, "a"), ntype(g, "b"), ntype(g, "c")
    g.ensure(eq(conv(g, conv(g, a, b), c), conv(g, a, conv(g, b, c))), "associative")


def signs(g):
    a = ntype(g, "a")
    u, s, i = (g.call("nsasm::" + n, None, a) for n in ("Unsigned", "Signed", "IsSigned"))
    u, s = bv(u, 32), bv(s, 32)
    g.ensure(b_and(z_size(u) == z_size(a), b_not(z_signed(u))), "Unsigned keeps the width")
    g.ensure(b_and(z_size(s) == z_size(a), b_imp(a != 0, z_signed(s))), "Signed keeps the width")
    g.ensure(zb(i) == z_signed(a), "IsSigned")


def p_cast(t, v):
    if t == 0:
        return v
    w = W[t]
    v &= 2 ** w - 1
    return v - 2 ** w if t > 3 and v >> (w - 1) else v


def p_conv(a, b):
    if not a or not b:
        return a or b
    s = a > 3 or b > 3
    w = max((a - 1) % 3, (b - 1) % 3) + 1
    return w + 3 * s


def c_cast(t, v):
    return Case("cast %d %d" % (t, v), want=str(p_cast(t, v)))


def c_conv(a, b):
    return Case("conv %d %d" % (a, b), want=str(p_conv(a, b)))


def c_sgn(a):
    return Case("sgn %d" % a, want="%d %d %d" % (a - 3 if a > 3 else a, a + 3 if 0 < a < 4 else a, a > 3))


def goals():
    return [Goal("CastTo", cast, lambda i: [c_cast(i["t"], s32(i["v"]))]),
            Goal("ArtihmeticConversion: width, sign, commutative", combine, lambda i: [c_conv(i["a"], i["b"]), c_conv(i["b"], i["a"])]),
            Goal("ArtihmeticConversion: idempotent, neutral", laws, lambda i: [c_conv(i["a"], i["a"]), c_conv(i["a"], 0), c_conv(0, i["a"])]),
            Goal("ArtihmeticConversion: associative", assoc, lambda i: [c_conv(i[x], i[y]) for x in "abc" for y in "abc"]),
            Goal("Unsigned/Signed/IsSigned", signs, lambda i: [c_sgn(i["a"])])]


def cases(r, n):
    for a in range(7):
        yield c_sgn(a)
        for b in range(7):
            yield c_conv(a, b)
    for _ in range(n):
        v = r.choice([0, 1, -1, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0xffff, 0x10000, 0x7fffff, 0x800000, 0xffffff, 0x1000000,
                      2**31 - 1, -2**31, r.randrange(-2**31, 2**31), -r.randrange(1, 70000)])
        yield c_cast(r.randrange(7), v)
