"""The tracked processor state: helpers shared by C20-C24."""
from .util import *

Q = "nsasm::StatusFlags::"
OFF, ON, ORIG, UNK = 0, 1, 2, 3         # the documented meaning of the four bit states


def nums(g):
    e = g.prog.enums["nsasm::BitState"]
    return [e["B_off"], e["B_on"], e["B_original"], e["B_unknown"]]


def state4(g, name="s", inp=True):
    """Four symbolic bit states."""
    t = g.type("nsasm::BitState")
    out = []
    for n in "emxc":
        v = g.fresh(name + n, t.w)
        g.P.assume(z3.ULE(v, 3))
        if inp:
            g.input(name + n, v)
        out.append(v)
    return out


def inv(e, m, x, c=None):
    """The states a 65816 can be in, as far as they are known."""
    one = lambda b: b_and(b_imp(eq(e, ON), eq(b, ON)), b_imp(eq(b, OFF), eq(e, OFF)), b_imp(eq(b, ORIG), b_or(eq(e, OFF), eq(e, ORIG))))
    return b_and(one(m), one(x))


def constrained(b, e):
    """b, as far as it is compatible with e (documented at ConstrainedForEBit)."""
    w = e.size()
    k = lambda v: z3.BitVecVal(v, w)
    return z3.If(e == ON, k(ON), z3.If(e == OFF, b, z3.If(b == ON, k(ON), z3.If(z3.And(b == ORIG, e == ORIG), k(ORIG), k(UNK)))))


def make(g, bits):
    t = g.type("nsasm::StatusFlags")
    f = g.find(Q + "StatusFlags", pred=lambda f: len(f.ps) == 4)
    return g.I.construct(f.info, t, list(bits))


def state(g, name="s", inp=True):
    """An arbitrary state of the class invariant: every one of them is
    constructible (goal `every state is constructible' of C21)."""
    b = state4(g, name, inp)
    g.P.assume(inv(*b))
    return make(g, b), b


def get(g, v):
    lv = v if isinstance(v, LV) else g.P.alloc(v)
    w = g.type("nsasm::BitState").w
    return [bv(g.I.call_fn(g.find(Q + n + "Bit"), lv, []), w) for n in "EMXC"]


def same4(a, b):
    return b_and(*[eq(x, y) for x, y in zip(a, b)])


# ---- python twins -------------------------------------------------------------------
def p_con(b, e):
    if e == ON:
        return ON
    if e == OFF or b == ON:
        return b
    return ORIG if b == ORIG and e == ORIG else UNK


def p_make(e, m, x, c):
    return (e, p_con(m, e), p_con(x, e), c)


def p_states():
    return [s for s in ((e, m, x, c) for e in range(4) for m in range(4) for x in range(4) for c in range(4)) if p_make(*s) == s]


def p_merge(a, b):
    u = lambda p, q: p if p == q else UNK
    return p_make(*[u(p, q) for p, q in zip(a, b)])
