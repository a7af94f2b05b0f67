from .util import *
from .st import *
from . import st

ID = "C22"
SRC = ["nsasm/execution_state.cc"]
DRIVER = "state"


# ---- what a tracked state describes ------------------------------------------------------
class Machine:
    """A machine state together with the one at subroutine entry: the flags
    e, m, x, c, the registers, and one stack entry (kind, content)."""

    def __init__(self, g, name="M"):
        self.b = [g.fresh("%s.%s" % (name, n), 1) for n in "emxc"]
        self.o = [g.fresh("%s.%s0" % (name, n), 1) for n in "emxc"]
        self.r = {n: g.fresh("%s.%s" % (name, n), 16) for n in ("a", "x", "y", "dbr")}
        self.r0 = {n: g.fresh("%s.%s0" % (name, n), 16) for n in ("a", "x", "y", "dbr")}
        self.kind, self.cont = g.fresh(name + ".kind", 8), g.fresh(name + ".content", 16)


def d_bit(s, b, o):
    return b_and(b_imp(eq(s, OFF), b == 0), b_imp(eq(s, ON), b == 1), b_imp(eq(s, ORIG), b == o))


def d_flags(f4, M, which=(0, 1, 2, 3)):
    return b_and(*[d_bit(f4[i], M.b[i], M.o[i]) for i in which])


def rt(g, n):
    return enumval(g, "nsasm::RegisterValue::Type", "T_" + n)


def sv(g, n):
    return enumval(g, "nsasm::StackValue::Type", "T_" + n)


def enumval(g, q, n):
    return g.prog.enums[q][n]


def d_reg(g, v, cur, orig):
    """v: RegisterValue record"""
    t = bv(v.f["type_"], 16)
    return b_and(b_imp(eq(t, rt(g, "value")), bv(v.f["value_"], 16) == cur), b_imp(eq(t, rt(g, "original")), cur == orig))


def reg(g, name, inp=True):
    """An arbitrary RegisterValue of its invariant (every one the constructors make)."""
    I = g.I
    t = g.type("nsasm::RegisterValue")
    v = I.sym(t, name)
    ty, x = v.f["type_"], v.f["value_"]
    g.P.assume(z3.ULE(ty, 2))
    g.P.assume(b_imp(b_not(eq(ty, rt(g, "value"))), x == 0))
    if inp:
        g.input(name + ".type", ty)
        g.input(name + ".value", x)
    return v


def reginv(g, v):
    t = bv(v.f["type_"], 16)
    return b_and(z3.ULE(t, 2), b_imp(b_not(eq(t, rt(g, "value"))), eq(bv(v.f["value_"], 16), 0)))


def unionf(v):
    """(type, value_, flags_) of a StackValue record."""
    u = [x for n, x in v.f.items() if isinstance(x, Rec) and x.tn == "union"][0]
    return v.f["type_"], u.f["value_"], u.f["flags_"]


def d_entry(g, v, M):
    ty, val, fl = unionf(v)
    ty = bv(ty, 8)
    is_ = lambda n: eq(ty, sv(g, n))
    k, c = M.kind, M.cont
    out = []
    byte = lambda: k == 0
    for n in ("unknown", "byte", "flags", "dbr"):
        out.append(b_imp(is_(n), byte()))
    if val is not None:
        out.append(b_imp(is_("byte"), c == z3.ZeroExt(8, bv(val, 8))))
    if fl is not None:
        f4 = [bv(fl.f[n + "_bit_"], 8) for n in "emxc"]
        bits = [z3.Extract(0, 0, c), z3.Extract(5, 5, c), z3.Extract(4, 4, c), z3.Extract(0, 0, c)]
        out.append(b_imp(is_("flags"), b_and(*[d_bit(f4[i], bits[i], M.o[i]) for i in (1, 2, 3)])))
    out.append(b_imp(is_("dbr"), c == (M.r0["dbr"] & 0xff)))
    for i, r in enumerate("axy"):
        out.append(b_imp(is_(r + "_hi"), b_and(byte(), c == z3.LShR(M.r0[r], 8))))
        out.append(b_imp(is_(r + "_lo"), b_and(byte(), c == (M.r0[r] & 0xff))))
        out.append(b_imp(is_(r + "_varsize"), b_and(k == i + 1, b_imp(eq(bv(val, 8), 1), c == M.r0[r]) if val is not None else True)))
    return b_and(*out)


def entryinv(g, v):
    ty, val, fl = unionf(v)
    ty = bv(ty, 8)
    is_ = lambda n: eq(ty, sv(g, n))
    var = b_or(*[is_(r + "_varsize") for r in "axy"])
    f4 = [bv(fl.f[n + "_bit_"], 8) for n in "emxc"] if fl is not None else None
    return b_and(z3.ULE(ty, 12), b_imp(is_("flags"), inv(*f4) if f4 is not None else False),
                 b_imp(b_not(b_or(is_("byte"), var, is_("flags"))), eq(bv(val, 8), 0) if val is not None else False),
                 b_imp(var, z3.ULE(bv(val, 8), 1) if val is not None else False))


def entry(g, name, inp=True):
    v = g.I.sym(g.type("nsasm::StackValue"), name)
    g.P.assume(entryinv(g, v))
    if inp:
        ty, val, fl = unionf(v)
        g.input(name + ".type", ty)
        g.input(name + ".value", val)
        for n in "emxc":
            g.input(name + "." + n, bv(fl.f[n + "_bit_"], 8))
    return v


def stack(g, name):
    """An arbitrary stack of any depth; an abandoned one holds nothing."""
    I, P = g.I, g.P
    t = g.type("nsasm::Stack")
    ft = dict(I.fields(t))
    s = I.symseq(ft["stack_"].ta[0], name)
    ab = g.fresh(name + ".abandoned", None)
    P.assume(b_imp(ab, s.n == 0))
    P.fact(("idx",), lambda i: b_imp(ult(i, s.n), entryinv(g, s.get(i))))
    v = Rec(t.key, {"abandoned_": ab, "stack_": s}, t.tn)
    g.input(name + ".abandoned", ab)

    def show(m):
        n = m.eval(s.n, model_completion=True).as_long()
        out = []
        for i in range(min(n, 20)):
            ty, val, fl = unionf(s.get(i))
            ev = lambda x: m.eval(x, model_completion=True).as_long()
            out.append((ev(ty), ev(val), tuple(ev(fl.f[k + "_bit_"]) for k in "emxc")))
        return dict(len=n, entries=out)
    g.input(name, show)
    return v


def z_merge4(a, b):
    u = lambda p, q: z3.If(p == q, p, z3.BitVecVal(UNK, 8))
    e, m, x, c = [u(p, q) for p, q in zip(a, b)]
    return e, constrained(m, e), constrained(x, e), c


def m_entry(g, x, y):
    """What merging two mergeable well-formed entries gives (contract of
    StackValue::operator|=, proved by the goal `merge of entry')."""
    (ta, va, fa), (tb, vb, fb) = unionf(x), unionf(y)
    ta, tb, va, vb = bv(ta, 8), bv(tb, 8), bv(va, 8), bv(vb, 8)
    k = lambda v: z3.BitVecVal(v, 8)
    is_ = lambda t, n: t == sv(g, n)
    var = z3.Or(*[is_(ta, n + "_varsize") for n in "axy"])
    ty = z3.If(z3.And(ta == tb, z3.Not(z3.And(is_(ta, "byte"), va != vb))), ta, k(sv(g, "unknown")))
    val = z3.If(ty == k(sv(g, "unknown")), k(0), z3.If(z3.And(var, va != vb), k(0), va))
    fs = ["%s_bit_" % n for n in "emxc"]
    m4 = z_merge4([bv(fa.f[n], 8) for n in fs], [bv(fb.f[n], 8) for n in fs])
    un = [n for n, v in x.f.items() if isinstance(v, Rec) and v.tn == "union"][0]
    u = x.f[un]
    return Rec(x.key, {"type_": ty, un: Rec(u.key, {"value_": val, "flags_": Rec(fa.key, dict(zip(fs, m4)), fa.tn)}, "union")}, x.tn)


def entry_contracts(g):
    """StackValue's operations, as their own goals prove them."""
    I = g.I
    var = lambda v: b_or(*[eq(bv(v.f["type_"], 8), sv(g, n + "_varsize")) for n in "axy"])
    mergeable = lambda x, y: b_or(eq(bv(x.f["type_"], 8), bv(y.f["type_"], 8)), b_and(b_not(var(x)), b_not(var(y))))

    def val(c, i):
        v = c.arg(i)
        return I.P.load(v) if isinstance(v, LV) else v

    def full(v):
        ty, x, fl = unionf(v)
        if x is None or fl is None:
            raise Unsupported("a stack entry with an inactive member")
        return v

    def cm(c):
        return mergeable(full(I.P.load(c.obj)), full(val(c, 0)))

    def mg(c):
        x, y = full(I.P.load(c.obj)), full(val(c, 0))
        I.P.oblige(mergeable(x, y), "precondition", I.where(), "entries merged are mergeable")
        I.P.write(c.obj, m_entry(g, x, y))
        return c.obj

    def same(c):
        return entry_eq(g, full(I.P.load(c.obj)), full(val(c, 0)))
    I.contracts["nsasm::StackValue::CanMergeWith"] = cm
    I.contracts["nsasm::StackValue::operator|="] = mg
    I.contracts["nsasm::StackValue::operator=="] = same


# ---- the goals -----------------------------------------------------------------------
def bits(g):
    a, b, _, _ = state4(g, "s")
    r = g.call(g.find("nsasm::operator|", ptypes=["nsasm::BitState", "nsasm::BitState"]), None, a, b)
    r = bv(r, 8)
    x, o = g.fresh("x", 1), g.fresh("o", 1)
    g.ensure(b_imp(b_or(d_bit(a, x, o), d_bit(b, x, o)), d_bit(r, x, o)), "the merged bit describes what either one describes")
    g.ensure(b_imp(eq(a, b), eq(r, a)), "merging equal bits changes nothing")
    g.ensure(z3.ULE(r, 3), "a bit state")


def two(g, kind):
    if kind == "flags":
        (s, a), (t, b) = state(g, "s"), state(g, "t")
        return s, t
    if kind == "reg":
        return reg(g, "s"), reg(g, "t")
    if kind == "entry":
        return entry(g, "s"), entry(g, "t")
    return stack(g, "s"), stack(g, "t")


CLS = {"flags": "nsasm::StatusFlags", "reg": "nsasm::RegisterValue", "entry": "nsasm::StackValue", "stack": "nsasm::Stack", "es": "nsasm::ExecutionState"}


def run_merge(g, kind, s, t):
    lv = g.P.alloc(s)
    q = CLS[kind] + "::operator|="
    f = g.find(q)
    g.call(f, lv, g.P.alloc(t))
    return g.P.load(lv)


def run_eq(g, kind, s, t):
    return g.call(CLS[kind] + "::operator==", g.P.alloc(s), g.P.alloc(t))


def merge_small(kind):
    def f(g):
        s, t = two(g, kind)
        M = Machine(g)
        if kind == "flags":
            # the states a processor can be in
            for b in (M.b, M.o):
                g.P.assume(z3.Implies(b[0] == 1, z3.And(b[1] == 1, b[2] == 1)))
            D = lambda v: d_flags(get(g, v), M)
        elif kind == "reg":
            D = lambda v: d_reg(g, v, M.r["a"], M.r0["a"])
        else:
            # entries of unknown width are only merged with their like
            g.P.assume(g.call("nsasm::StackValue::CanMergeWith", g.P.alloc(s), g.P.alloc(t)))
            D = lambda v: d_entry(g, v, M)
        r = run_merge(g, kind, s, t)
        ds, dt, dr = D(s), D(t), D(r)
        g.cover("described by the left only", b_and(ds, b_not(dt)))
        g.cover("described by the right only", b_and(dt, b_not(ds)))
        g.cover("not described", b_not(dr))
        g.ensure(b_imp(ds, dr), "the merged state describes what the left one describes")
        g.ensure(b_imp(dt, dr), "the merged state describes what the right one describes")
        r2 = run_merge(g, kind, t, s)
        g.ensure(run_eq(g, kind, r, r2), "merging is commutative")
        g.ensure(run_eq(g, kind, run_merge(g, kind, r, t), r), "merging the same state again changes nothing")
        g.ensure(run_eq(g, kind, run_merge(g, kind, s, s), s), "merging a state with itself changes nothing")
        g.ensure(b_or(run_eq(g, kind, r, s), rank_less(g, kind, r, s)), "merging changes nothing or loses knowledge (so repeated merging ends)")
        if kind == "reg":
            g.ensure(reginv(g, r), "a well-formed register value")
        if kind == "entry":
            g.ensure(entryinv(g, r), "a well-formed stack entry")
            g.ensure(entry_eq(g, r, m_entry(g, s, t)), "the merge keeps what both agree on")
    return f


def rank(g, kind, v):
    """How much is known: a number below 2^8."""
    one = lambda c: z3.If(zb(c), z3.BitVecVal(1, 8), z3.BitVecVal(0, 8))
    if kind == "flags":
        return sum((one(b_not(eq(b, UNK))) for b in get(g, v)), z3.BitVecVal(0, 8))
    if kind == "reg":
        return one(b_not(eq(bv(v.f["type_"], 16), rt(g, "unknown"))))
    ty, val, fl = unionf(v)
    ty = bv(ty, 8)
    r = z3.BitVecVal(0, 8)
    if fl is not None:
        r = z3.If(ty == sv(g, "flags"), 1 + rank(g, "flags", fl), r)
    var = b_or(*[eq(ty, sv(g, n + "_varsize")) for n in "axy"])
    if val is not None:
        r = z3.If(zb(var), bv(val, 8), r)
    return z3.If(zb(b_or(var, eq(ty, sv(g, "flags")), eq(ty, sv(g, "unknown")))), r, z3.BitVecVal(1, 8))


def rank_less(g, kind, a, b):
    return z3.ULT(rank(g, kind, a), rank(g, kind, b))


def equality(kind):
    def f(g):
        s, t = two(g, kind)
        M = Machine(g)
        e = run_eq(g, kind, s, t)
        g.cover("equal", e)
        g.cover("different", b_not(e))
        D = {"flags": lambda v: d_flags(get(g, v), M), "reg": lambda v: d_reg(g, v, M.r["a"], M.r0["a"]), "entry": lambda v: d_entry(g, v, M)}[kind]
        g.ensure(b_imp(e, eq(zb(D(s)), zb(D(t)))), "equal states describe the same")
        g.ensure(run_eq(g, kind, s, s), "a state equals itself")
        g.ensure(eq(e, run_eq(g, kind, t, s)), "equality is symmetric")
        if kind == "entry":
            g.ensure(eq(e, entry_eq(g, s, t)), "entries are equal exactly when the same is known of them")
        if kind == "reg":
            g.ensure(eq(e, val_eq(s, t)), "registers are equal exactly when the same is known of them")
            n = g.call(CLS[kind] + "::operator!=", g.P.alloc(s), g.P.alloc(t))
            g.ensure(eq(n, b_not(e)), "!= is the negation")
    return f


def can_merge(g):
    s, t = entry(g, "s"), entry(g, "t")
    c = g.call("nsasm::StackValue::CanMergeWith", g.P.alloc(s), g.P.alloc(t))
    var = lambda v: b_or(*[eq(bv(v.f["type_"], 8), sv(g, n + "_varsize")) for n in "axy"])
    same = eq(bv(s.f["type_"], 8), bv(t.f["type_"], 8))
    g.ensure(eq(c, b_or(same, b_and(b_not(var(s)), b_not(var(t))))), "entries of unknown width merge only with the same register's")


def entry_eq(g, x, y):
    """spec equality of two well-formed entries"""
    (ta, va, fa), (tb, vb, fb) = unionf(x), unionf(y)
    ta, tb = bv(ta, 8), bv(tb, 8)
    fl = eq(ta, sv(g, "flags"))
    c = eq(ta, tb)
    c = b_and(c, b_imp(fl, val_eq(fa, fb) if fa is not None and fb is not None else False))
    return b_and(c, b_imp(b_not(fl), eq(bv(va, 8), bv(vb, 8)) if va is not None and vb is not None else False))


def merge_stack(g):
    I, P = g.I, g.P
    entry_contracts(g)
    s, t = stack(g, "s"), stack(g, "t")
    a, b = s.f["stack_"], t.f["stack_"]
    r = run_merge(g, "stack", s, t)
    q = r.f["stack_"]
    i = g.fresh("i", 64)
    for x in [i] + list(P.iters):
        P.touch("idx", x)
        for tg in [k for k in P.touched if k.startswith("it:")]:
            P.touch(tg, x)
    ab, n = r.f["abandoned_"], bv(q.n, 64)
    g.cover("merged", b_and(b_not(ab), n == 2))
    g.cover("abandoned by width", b_and(ab, b_not(s.f["abandoned_"]), b_not(t.f["abandoned_"]), a.n == b.n))
    g.ensure(b_imp(ab, n == 0), "an abandoned stack holds nothing")
    g.ensure(b_imp(b_not(ab), b_and(b_not(s.f["abandoned_"]), b_not(t.f["abandoned_"]), eq(n, a.n), eq(n, b.n))), "is kept only when both have the same depth")
    var = lambda v: b_or(*[eq(bv(v.f["type_"], 8), sv(g, k + "_varsize")) for k in "axy"])
    clash = lambda x, y: b_and(b_or(var(x), var(y)), b_not(eq(bv(x.f["type_"], 8), bv(y.f["type_"], 8))))
    M = Machine(g)
    inr = b_and(b_not(ab), ult(i, n))
    if P.feasible(inr):
        x, y, z = a.get(i), b.get(i), q.get(i)
        g.ensure(b_imp(b_and(inr, d_entry(g, x, M)), d_entry(g, z, M)), "entry i describes what the left one describes")
        g.ensure(b_imp(b_and(inr, d_entry(g, y, M)), d_entry(g, z, M)), "entry i describes what the right one describes")
        g.ensure(b_imp(inr, b_or(entry_eq(g, z, x), rank_less(g, "entry", z, x))), "entry i is unchanged or loses knowledge")
        g.ensure(b_imp(inr, entryinv(g, z)), "entry i is well-formed")
        g.ensure(b_imp(b_and(inr, entry_eq(g, x, y)), entry_eq(g, z, x)), "equal entries stay")
    if P.feasible(ab):
        # precise: abandoned only for a reason
        P.assume(ab)
        g.reach()
        tags = tuple(k for k in P.touched if k.startswith("it:"))
        P.assume(b_not(s.f["abandoned_"]))
        P.assume(b_not(t.f["abandoned_"]))
        P.assume(eq(a.n, b.n))
        for tg in tags + ("idx",):
            P.fact((tg,), lambda j: b_imp(ult(j, a.n), b_not(clash(a.get(j), b.get(j)))))
        for y in P.iters:
            P.touch("idx", y)
        g.ensure(False, "is abandoned only when depths differ, an operand is, or entries of unknown width clash")


def stack_equality(g):
    P = g.P
    entry_contracts(g)
    s, t = stack(g, "s"), stack(g, "t")
    a, b = s.f["stack_"], t.f["stack_"]
    e = run_eq(g, "stack", s, t)
    g.cover("equal", e)
    g.cover("different", b_not(e))
    i = g.fresh("i", 64)
    P.touch("idx", i)
    g.ensure(b_imp(e, b_and(eq(s.f["abandoned_"], t.f["abandoned_"]), eq(a.n, b.n))), "equal stacks have the same depth and are both tracked or not")
    g.ensure(b_imp(b_and(e, ult(i, a.n)), entry_eq(g, a.get(i), b.get(i))), "equal stacks have the same entries")
    P.fact(("idx",), lambda j: b_imp(b_and(ult(j, a.n)), entry_eq(g, a.get(j), b.get(j))))
    g.ensure(b_imp(b_and(eq(s.f["abandoned_"], t.f["abandoned_"]), eq(a.n, b.n)), e), "stacks with the same entries are equal")


def es_type(g):
    t = g.type("nsasm::ExecutionState")
    return t, dict(g.I.fields(t))


def es(g, name):
    """An arbitrary whole state; returns (record, parts)."""
    t, ft = es_type(g)
    f, b = state(g, name)
    parts = {n: reg(g, "%s.%s" % (name, n)) for n in ("a_reg_", "x_reg_", "y_reg_", "dbr_")}
    parts["flags_"] = f
    parts["stack_"] = stack(g, name + ".stack")
    if set(ft) != set(parts):
        raise Unsupported("the components of ExecutionState")
    return Rec(t.key, {n: parts[n] for n in ft}, t.tn)


def same_stack(g, p, q):
    """the same stack: flag, depth, and the entry at an arbitrary position"""
    a, b = p.f["stack_"], q.f["stack_"]
    i = z3.BitVec("any.position", 64)
    c = b_and(eq(p.f["abandoned_"], q.f["abandoned_"]), eq(bv(a.n, 64), bv(b.n, 64)))
    return c if a.items == () or b.items == () else b_and(c, b_imp(ult(i, a.n), val_eq(a.get(i), b.get(i))))


def merge_es(fn):
    def f(g):
        I, P = g.I, g.P
        s, t = es(g, "s"), es(g, "t")
        ghost = P.alloc(Rec("ghost", {"n": 0}))
        out = stack(g, "merged")

        def c(call):
            # contract of Stack::operator|= (proved above): some merged stack
            h = P_().load(ghost)
            b = call.arg(0)
            l, b = P_().load(call.obj), P_().load(b) if isinstance(b, LV) else b
            P_().write(ghost, Rec("ghost", {"n": b_and(eq(h.f["n"], 0), same_stack(g, l, s.f["stack_"]), same_stack(g, b, t.f["stack_"]))}))
            P_().write(call.obj, out)
            return call.obj

        def P_():
            return I.P
        I.contracts["nsasm::Stack::operator|="] = c
        if fn == "operator|":
            r = g.call(CLS["es"] + "::operator|", P.alloc(s), P.alloc(t))
            r = P.load(r) if isinstance(r, LV) else r
        else:
            r = run_merge(g, "es", s, t)
        h = P.load(ghost)
        g.ensure(h.f["n"] if not isc(h.f["n"]) or h.f["n"] is True else False, "the stacks are merged")
        g.ensure(same_stack(g, r.f["stack_"], out), "the merged stack is kept")
        for n in ("a_reg_", "x_reg_", "y_reg_", "dbr_"):
            g.ensure(val_eq(r.f[n], run_merge(g, "reg", s.f[n], t.f[n])), "%s is the merge of both" % n)
        g.ensure(same4(get(g, r.f["flags_"]), get(g, run_merge(g, "flags", s.f["flags_"], t.f["flags_"]))), "the flags are the merge of both")
    return f


def es_equality(g):
    I, P = g.I, g.P
    s, t = es(g, "s"), es(g, "t")
    se = g.fresh("stacks.equal", None)

    def c(call):
        return se
    I.contracts["nsasm::Stack::operator=="] = c
    e = run_eq(g, "es", s, t)
    n = g.call(CLS["es"] + "::operator!=", P.alloc(s), P.alloc(t))
    g.cover("equal", e)
    g.ensure(eq(n, b_not(e)), "!= is the negation")
    g.ensure(eq(e, b_and(se, same4(get(g, s.f["flags_"]), get(g, t.f["flags_"])), *[val_eq(s.f[k], t.f[k]) for k in ("a_reg_", "x_reg_", "y_reg_", "dbr_")])),
             "states are equal exactly when all components are")


def es_start(g):
    """The state at entry: everything not stated is as it was on entry."""
    t, ft = es_type(g)
    s, b = state(g)
    f = g.find(CLS["es"] + "::ExecutionState", pred=lambda f: len(f.ps) == 1 and f.ps[0][2].strip().tn == "nsasm::StatusFlags")
    g.under(f)
    r = g.I.construct(f.info, t, [g.P.alloc(s)])
    M = Machine(g)
    k = get(g, r.f["flags_"])
    for bb in (M.b, M.o):
        g.P.assume(z3.Implies(bb[0] == 1, z3.And(bb[1] == 1, bb[2] == 1)))
    for x, y in zip(M.b, M.o):
        g.P.assume(x == y)
    g.ensure(b_imp(d_flags(b, M), d_flags(k, M)), "at entry, the flags describe the machine")
    g.ensure(b_and(b_not(r.f["stack_"].f["abandoned_"]), eq(r.f["stack_"].f["stack_"].n, 0)), "the stack is empty")
    for n in ("a_reg_", "x_reg_", "y_reg_", "dbr_"):
        g.ensure(d_reg(g, r.f[n], M.r["a"], M.r["a"]), "registers are claimed to hold no more than their entry values")


def goals():
    G = [Goal("merge of bits", bits)]
    for k in ("flags", "reg", "entry"):
        G.append(Goal("merge of " + k, merge_small(k), rep(k), policy={"merge_ifs": k != "entry"}))
        G.append(Goal("equality of " + k, equality(k), rep(k)))
    G += [Goal("CanMergeWith", can_merge), Goal("merge of stacks", merge_stack, rep("stack")), Goal("equality of stacks", stack_equality, rep("stack")),
          Goal("ExecutionState |=", merge_es("operator|="), rep("es")), Goal("ExecutionState |", merge_es("operator|"), rep("es")),
          Goal("ExecutionState ==", es_equality, rep("es")), Goal("ExecutionState at entry", es_start)]
    return G


# ---- real code -------------------------------------------------------------------------
T_UNK, T_BYTE, T_FLAGS = 0, 1, 2
VARS = (5, 8, 11)
ZERO = (0, 0, 0, 0)
_desc = {}


def p_flags(f):
    """the processor states (e, m, x, c now; e, m, x, c at entry) f describes"""
    if f not in _desc:
        out = set()
        for w in range(256):
            b = [w >> i & 1 for i in range(8)]
            if (b[0] and not (b[1] and b[2])) or (b[4] and not (b[5] and b[6])):
                continue
            if all(s == UNK or (s < 2 and b[i] == s) or (s == ORIG and b[i] == b[i + 4]) for i, s in enumerate(f)):
                out.add(w)
        _desc[f] = out
    return _desc[f]


def pushed(f):
    return p_flags((UNK,) + tuple(f[1:]))


def p_ent(e):
    """a canonical well-formed entry"""
    t, v, f = e
    if t == T_BYTE:
        return (t, v & 255, ZERO)
    if t == T_FLAGS:
        return (t, 0, p_make(*f))
    return (t, v & 1 if t in VARS else 0, ZERO)


def covers_ent(r, e):
    if r == e:
        return True
    if r[0] == T_UNK:
        return e[0] not in VARS
    if r[0] != e[0]:
        return False
    if r[0] == T_FLAGS:
        return pushed(e[2]) <= pushed(r[2])
    return r[0] in VARS and r[1] == 0


def rank_ent(e):
    if e[0] == T_FLAGS:
        return 1 + sum(b != UNK for b in e[2])
    return e[1] if e[0] in VARS else 0 if e[0] == T_UNK else 1


def mergeable(a, b):
    return a[0] == b[0] or (a[0] not in VARS and b[0] not in VARS)


def merged_ent(r, a, b):
    return covers_ent(r, a) and covers_ent(r, b) and (r == a or rank_ent(r) < rank_ent(a)) and p_ent(r) == r


def merged_reg(r, a, b):
    return r == a == b or (r == (0, 0) and a != b)


def merged_flags(r, a, b):
    k = lambda f: sum(x != UNK for x in f)
    return p_flags(a) <= p_flags(r) and p_flags(b) <= p_flags(r) and (r == a or k(r) < k(a)) and p_make(*r) == r and (a != b or r == a)


def merged_stk(r, a, b):
    """None: abandoned"""
    if r is None:
        return a is None or b is None or len(a) != len(b) or any(not mergeable(x, y) for x, y in zip(a, b))
    return a is not None and b is not None and len(r) == len(a) == len(b) and all(mergeable(y, z) and merged_ent(x, y, z) for x, y, z in zip(r, a, b))


class W:
    def __init__(self, out):
        self.w = out.split()

    def n(self):
        return int(self.w.pop(0))

    def ent(self):
        return (self.n(), self.n(), tuple(self.n() for _ in range(4)))

    def reg(self):
        return (self.n(), self.n())

    def flags(self):
        return tuple(self.n() for _ in range(4))

    def stk(self):
        n = self.n()
        return None if n < 0 else [self.ent() for _ in range(n)]

    def state(self):
        return [self.reg() for _ in range(4)] + [self.flags(), self.stk()]

    def bar(self):
        if self.w.pop(0) != "|":
            raise ValueError


def ok_(f):
    def check(out):
        try:
            return f(W(out))
        except (ValueError, IndexError):
            return False
    return check


def s_ent(e):
    return "%d %d %d %d %d %d" % (e[:2] + tuple(e[2]))


def s_stk(s):
    return "-1" if s is None else " ".join(["%d" % len(s)] + [s_ent(e) for e in s])


def s_es(s):
    return " ".join(["%d %d" % tuple(r) for r in s[:4]] + ["%d %d %d %d" % tuple(s[4]), s_stk(s[5])])


def c_ent(a, b):
    a, b = p_ent(a), p_ent(b)

    def ok(w):
        if [w.n() for _ in range(5)] != [mergeable(a, b)] * 2 + [a == b] * 2 + [1]:
            return False
        if not mergeable(a, b):
            return not w.w
        x, y, z, v = w.ent(), w.ent(), w.ent(), w.ent()
        return merged_ent(x, a, b) and x == y and z == a and v == x
    return Case("ent %s %s" % (s_ent(a), s_ent(b)), check=ok_(ok))


def c_reg(a, b):
    def ok(w):
        if [w.n() for _ in range(3)] != [a == b, a == b, a != b]:
            return False
        x, y, z, v = w.reg(), w.reg(), w.reg(), w.reg()
        return merged_reg(x, a, b) and x == y and z == a and v == x
    return Case("reg %d %d %d %d" % (a + b), check=ok_(ok))


def c_stk(a, b):
    a, b = [x if x is None else [p_ent(e) for e in x] for x in (a, b)]

    def ok(w):
        if [w.n(), w.n()] != [a == b] * 2:
            return False
        x = w.stk()
        w.bar()
        return merged_stk(x, a, b) and w.stk() == x
    return Case("stk %d %s %s" % (len(a or ()), s_stk(a), s_stk(b)), check=ok_(ok))


def c_flags(a, b):
    a, b = p_make(*a), p_make(*b)

    def ok(w):
        return merged_flags(w.flags(), a, b)
    return Case("st %d %d %d %d | %d %d %d %d ." % (a + b), check=ok_(ok))


def c_es(a, b):
    norm = lambda s: list(s[:4]) + [p_make(*s[4]), s[5] if s[5] is None else [p_ent(e) for e in s[5]]]
    a, b = norm(a), norm(b)

    def ok(w):
        if [w.n(), w.n()] != [a == b, a != b]:
            return False
        x = w.state()
        w.bar()
        return (all(merged_reg(x[i], a[i], b[i]) for i in range(4)) and merged_flags(x[4], a[4], b[4]) and merged_stk(x[5], a[5], b[5])
                and w.state() == x)
    return Case("es %d %s %s" % (len(a[5] or ()), s_es(a), s_es(b)), check=ok_(ok))


def c_es0(f):
    f = p_make(*f)
    ok = lambda w: all(w.reg()[0] in (0, 1) for _ in range(4)) and {x for x in p_flags(f) if x >> 4 == (x & 15)} <= p_flags(w.flags()) and w.stk() == []
    return Case("es0 %d %d %d %d" % f, check=ok_(ok))


def from_model(i, p):
    """an entry of a model"""
    return (i[p + ".type"], i[p + ".value"], tuple(i[p + "." + n] for n in "emxc"))


def rep(k):
    def f(i):
        if k == "entry":
            return [c_ent(from_model(i, "s"), from_model(i, "t"))]
        if k == "reg":
            r = [(i[n + ".type"], i[n + ".value"]) for n in "st"]
            return [c_reg(*r)]
        st = lambda n: None if i[n + ".abandoned"] else [e for e in i[n]["entries"]]
        fl = lambda n: tuple(i[n + x] for x in "emxc")
        if k == "flags":
            return [c_flags(fl("s"), fl("t"))]
        if k == "stack":
            a, b = st("s"), st("t")
            if (a and i["s"]["len"] > 20) or (b and i["t"]["len"] > 20):
                return []
            return [c_stk(a, b)]
        es = []
        for n in "st":
            if i[n + ".stack"]["len"] > 20:
                return []
            es.append([(i["%s.%s_.type" % (n, r)], i["%s.%s_.value" % (n, r)]) for r in ("a_reg", "x_reg", "y_reg", "dbr")] + [fl(n), st(n + ".stack")])
        return [c_es(*es)]
    return f


NCASES = 4000


def r_ent(rnd):
    return (rnd.randrange(13) if rnd.random() < .8 else rnd.choice((1, 2)), rnd.choice((0, 1, 2, 255)), rnd.choice(p_states()))


def r_reg(rnd):
    t = rnd.randrange(3)
    return (t, rnd.choice((0, 1, 256, 65535)) if t == 2 else 0)


def r_near(rnd, s):
    """a stack close to s"""
    if s is None or rnd.random() < .1:
        return r_stk(rnd)
    s = [e if rnd.random() < .7 else r_ent(rnd) if rnd.random() < .3 else (e[0], rnd.choice((0, 1, 2)), rnd.choice(p_states())) for e in s]
    return s + [r_ent(rnd)] if rnd.random() < .1 else s


def r_stk(rnd):
    return None if rnd.random() < .1 else [r_ent(rnd) for _ in range(rnd.choice((0, 1, 2, 3, 5, 18)))]


def cases(rnd, n):
    ents = [(t, v, ZERO) for t in range(13) for v in ((0, 1, 255) if t == 1 else (0, 1) if t in VARS else (0,)) if t != 2]
    for a in ents:
        for b in ents:
            yield c_ent(a, b)
    for s in p_states():
        yield c_es0(s)
        for t in rnd.sample(p_states(), 8):
            yield c_flags(s, t)
    for _ in range(n):
        k = rnd.randrange(5)
        if k == 0:
            yield c_ent(r_ent(rnd), r_ent(rnd))
        elif k == 1:
            yield c_reg(r_reg(rnd), r_reg(rnd))
        elif k == 2:
            yield c_flags(rnd.choice(p_states()), rnd.choice(p_states()))
        else:
            a = r_stk(rnd)
            b = r_near(rnd, a)
            if k == 3:
                yield c_stk(a, b)
            else:
                x = [r_reg(rnd) for _ in range(4)]
                y = [r if rnd.random() < .7 else r_reg(rnd) for r in x]
                f = rnd.choice(p_states())
                yield c_es(x + [f, a], y + [f if rnd.random() < .3 else rnd.choice(p_states()), b])


ASSUMPTIONS = ["a BitState holds one of its four values; a RegisterValue and a StackValue are as their constructors make them",
               "stack depth stays below 2^40"]
