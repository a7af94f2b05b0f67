from .util import *
from .st import *
from .c22 import (reg, reginv, rt, sv, stack, entryinv, entry_eq, d_entry, d_reg, unionf, CLS, Machine, p_ent, s_stk, s_ent, ok_, W, r_ent, r_stk, r_reg,
                  s_es, VARS, T_UNK, T_BYTE, T_FLAGS, ZERO)

ID = "C23"
SRC = ["nsasm/execution_state.cc"]
DRIVER = "state"
S = "nsasm::Stack::"
REGS = {"A": ("a", 1), "X": ("x", 2), "Y": ("y", 2)}       # register, index of its width bit


def push_reg(g, r, lv, v, f):
    g.call(S + "Push" + r, lv, v, f)


def pull_reg(g, r, lv, f):
    return g.call(S + "Pull" + r, lv, f)


def parts(g, lv):
    s = g.P.load(lv)
    return s.f["abandoned_"], bv(s.f["stack_"].n, 64), s.f["stack_"]


def unknown(g, v):
    return eq(bv(v.f["type_"], 16), rt(g, "unknown"))


def untouched(g, s0, lv, drop=0, add=0, what="what lies below is unchanged"):
    """lv holds s0 without its top `drop' entries and with `add' more."""
    P = g.P
    ab, n, q = parts(g, lv)
    a = s0.f["stack_"]
    i = g.fresh("below", 64)
    P.touch("idx", i)
    inr = b_and(ult(i, a.n - drop))
    g.ensure(eq(n, a.n - drop + add), "the depth is right")
    if P.feasible(inr):
        g.ensure(b_imp(inr, entry_eq(g, q.get(i), a.get(i))), what)


def wellformed(g, lv):
    ab, n, q = parts(g, lv)
    g.ensure(b_imp(ab, eq(n, 0)), "an abandoned stack holds nothing")
    i = g.fresh("any", 64)
    g.P.touch("idx", i)
    inr = ult(i, n)
    if q.items is None and g.P.feasible(inr):
        g.ensure(b_imp(inr, entryinv(g, q.get(i))), "entries stay well-formed")


def mirror(r):
    def f(g):
        P = g.P
        s, v = stack(g, "s"), reg(g, "v")
        st, b = state(g, "f")
        w = b[REGS[r][1]]
        lv = P.alloc(s)
        push_reg(g, r, lv, v, P.alloc(st))
        out = pull_reg(g, r, lv, P.alloc(st))
        out = P.load(out) if isinstance(out, LV) else out
        ab, n, q = parts(g, lv)
        lost = b_or(s.f["abandoned_"], eq(w, UNK))
        g.cover("pulled back", b_and(b_not(ab), w == OFF, v.f["type_"] == 2))
        g.cover("entry width", b_and(b_not(ab), w == ORIG))
        g.ensure(eq(ab, lost), "tracking goes on exactly when the width is known or as on entry")
        g.ensure(b_imp(lost, unknown(g, out)), "no value when tracking is lost")
        if P.feasible(b_not(lost)):
            P.assume(b_not(lost))
            untouched(g, s, lv)
            t, x = bv(out.f["type_"], 16), bv(out.f["value_"], 16)
            val = eq(v.f["type_"], rt(g, "value"))
            g.ensure(b_imp(b_and(val, w == ON), b_and(eq(t, v.f["type_"]), eq(x, v.f["value_"] & 0xff))), "8 bits: the value pushed, truncated")
            g.ensure(b_imp(w == OFF, b_and(eq(t, v.f["type_"]), eq(x, v.f["value_"]))), "16 bits: the value pushed")
            g.ensure(b_imp(b_not(val), eq(t, v.f["type_"])), "an original or unknown value stays so")
            g.ensure(b_imp(b_and(w == ORIG, val), unknown(g, out)), "entry width: a number is not kept")
            g.ensure(reginv(g, out), "a well-formed register value")
    return f


def describes_push(r):
    def f(g):
        P = g.P
        s, v = stack(g, "s"), reg(g, "v")
        st, b = state(g, "f")
        w = b[REGS[r][1]]
        lv = P.alloc(s)
        push_reg(g, r, lv, v, P.alloc(st))
        wellformed(g, lv)
        ab, n, q = parts(g, lv)
        g.ensure(eq(ab, b_or(s.f["abandoned_"], eq(w, UNK))), "abandoned exactly when it was or the width is unknown")
        if not P.feasible(b_not(ab)):
            return
        P.assume(b_not(ab))
        M = Machine(g)
        rn = REGS[r][0]
        cur = M.r[rn]
        P.assume(d_reg(g, v, cur, M.r0[rn]))
        a = s.f["stack_"]
        for ww, pushed in ((ON, [(0, cur & 0xff)]), (OFF, [(0, z3.LShR(cur, 8)), (0, cur & 0xff)]), (ORIG, [("axy".index(rn) + 1, cur)])):
            if not P.feasible(w == ww):
                continue
            g.ensure(b_imp(w == ww, eq(n, a.n + len(pushed))), "width %d: the number of entries" % ww)
            for j, (k, c) in enumerate(pushed):
                N = Machine.__new__(Machine)
                N.__dict__.update(M.__dict__)
                N.kind, N.cont = z3.BitVecVal(k, 8), c
                P.touch("idx", z3.simplify(a.n + j))
                g.ensure(b_imp(w == ww, d_entry(g, q.get(z3.simplify(a.n + j)), N)), "width %d: entry %d describes what the processor pushes" % (ww, j))
    return f


def top(g, s, k):
    """the k-th entry from the top"""
    a = s.f["stack_"]
    i = z3.simplify(a.n - k)
    g.P.touch("idx", i)
    return a.get(i)


def isvar(g, v, only=None):
    return b_or(*[eq(bv(v.f["type_"], 8), sv(g, n + "_varsize")) for n in (only or "axy")])


def any_pull(r):
    def f(g):
        P = g.P
        s = stack(g, "s")
        st, b = state(g, "f")
        rn = REGS[r][0]
        w = b[REGS[r][1]]
        lv = P.alloc(s)
        out = pull_reg(g, r, lv, P.alloc(st))
        out = P.load(out) if isinstance(out, LV) else out
        ab, n, q = parts(g, lv)
        wellformed(g, lv)
        g.ensure(reginv(g, out), "a well-formed register value")
        g.ensure(b_imp(ab, unknown(g, out)), "nothing is invented when tracking is lost")
        g.ensure(b_imp(b_or(s.f["abandoned_"], eq(w, UNK)), ab), "an unknown width or stack loses tracking")
        a = s.f["stack_"]
        was = b_not(s.f["abandoned_"])
        t, x = bv(out.f["type_"], 16), bv(out.f["value_"], 16)
        for ww in (ON, OFF, ORIG):
            c = b_and(was, w == ww)
            if not P.feasible(c):
                continue
            k = 2 if ww == OFF else 1
            few = b_and(c, ult(a.n, k))
            g.ensure(b_imp(few, ab), "width %d: too few entries lose tracking" % ww)
            c = b_and(c, b_not(ult(a.n, k)))
            if not P.feasible(c):
                continue
            tops = [top(g, s, j + 1) for j in range(k)]
            bad = b_not(isvar(g, tops[0], rn)) if ww == ORIG else b_or(*[isvar(g, e) for e in tops])
            g.ensure(b_imp(c, eq(ab, bad)), "width %d: tracking is lost exactly when entries of another width are on top" % ww)
            M, M2 = Machine(g), Machine(g, "M2")
            M2.r0, M2.o = M.r0, M.o
            d = d_entry(g, tops[0], M)
            if ww == OFF:
                P.touch("idx", z3.simplify(a.n - 2))
                d = b_and(d, d_entry(g, tops[1], M2))
                cont, o = (M2.cont << 8) | M.cont, M.r0[rn]
            elif ww == ON:
                cont, o = M.cont, M.r0[rn] & 0xff
            else:
                cont, o = M.cont, M.r0[rn]
            good = b_and(c, b_not(ab), d)
            g.ensure(b_imp(b_and(good, eq(t, rt(g, "value"))), eq(x, cont)), "width %d: a value pulled is the processor's" % ww)
            g.ensure(b_imp(b_and(good, eq(t, rt(g, "original"))), eq(cont, o)), "width %d: claimed original only if it is" % ww)
            i = g.fresh("below%d" % ww, 64)
            P.touch("idx", i)
            ok = b_and(c, b_not(ab))
            if P.feasible(ok):
                g.ensure(b_imp(ok, eq(n, a.n - k)), "width %d: that many entries are gone" % ww)
                inr = b_and(ok, ult(i, a.n - k))
                if P.feasible(inr):
                    g.ensure(b_imp(inr, entry_eq(g, q.get(i), a.get(i))), "width %d: what lies below is unchanged" % ww)
    return f


def pull_byte(fn):
    def f(g):
        P = g.P
        s = stack(g, "s")
        lv = P.alloc(s)
        out = g.call(S + fn, lv)
        out = P.load(out) if isinstance(out, LV) else out
        ab, n, q = parts(g, lv)
        wellformed(g, lv)
        a = s.f["stack_"]
        g.ensure(entryinv(g, out), "a well-formed entry")
        g.ensure(b_imp(ab, eq(bv(out.f["type_"], 8), sv(g, "unknown"))), "nothing is invented when tracking is lost")
        gone = b_or(s.f["abandoned_"], eq(a.n, 0))
        g.ensure(b_imp(gone, ab), "nothing to pull loses tracking")
        if P.feasible(b_not(gone)):
            P.assume(b_not(gone))
            t = top(g, s, 1)
            v = isvar(g, t)
            g.ensure(eq(ab, v if fn == "PullByte" else b_not(v)), "tracking is lost exactly when the top has another width")
            if P.feasible(b_not(ab)):
                P.assume(b_not(ab))
                g.ensure(entry_eq(g, out, t), "the top is pulled")
                untouched(g, s, lv, 1)
    return f


def bytes_(kind):
    """kind: the overload under proof"""
    def f(g):
        P, I = g.P, g.I
        s = stack(g, "s")
        lv = P.alloc(s)
        x = g.fresh("x", 16)
        has = g.fresh("has", None)
        g.input("x", x)
        g.input("has", has)
        word = "Word" in kind
        w = 16 if word else 8
        v = x if word else z3.Extract(7, 0, x)
        if "Unknown" in kind:
            has = False
            g.call(S + kind, lv)
        elif kind.endswith("?"):
            fn = g.find(S + kind[:-1], pred=lambda f: "optional" in str(f.ps[0][2].strip().tn))
            g.call(fn, lv, OptV(has, v))
        else:
            has = True
            fn = g.find(S + kind, pred=lambda f: "optional" not in str(f.ps[0][2].strip().tn))
            g.call(fn, lv, v)
        wellformed(g, lv)
        ab, n, q = parts(g, lv)
        g.ensure(eq(ab, s.f["abandoned_"]), "pushing does not lose tracking")
        if not P.feasible(b_not(ab)):
            return
        P.assume(b_not(ab))
        untouched(g, s, lv, 0, 2 if word else 1)
        want = [z3.Extract(7, 0, x)] + ([z3.Extract(15, 8, x)] if word else [])
        for j, e in enumerate(want):
            r = g.call(S + "PullByte", lv)
            r = P.load(r) if isinstance(r, LV) else r
            ty, val, _ = unionf(r)
            g.ensure(eq(bv(ty, 8), z3.If(zb(has), z3.BitVecVal(sv(g, "byte"), 8), z3.BitVecVal(sv(g, "unknown"), 8))), "byte %d comes off as pushed" % j)
            g.ensure(b_imp(has, eq(bv(val, 8), e)), "byte %d has its value" % j)
        untouched(g, s, lv)
    return f


def flags_mirror(g):
    P = g.P
    s = stack(g, "s")
    st, b = state(g, "f")
    lv = P.alloc(s)
    g.call(S + "PushFlags", lv, P.alloc(st))
    wellformed(g, lv)
    r = g.call(S + "PullByte", lv)
    r = P.load(r) if isinstance(r, LV) else r
    ab, n, q = parts(g, lv)
    g.ensure(eq(ab, s.f["abandoned_"]), "tracking goes on")
    if P.feasible(b_not(ab)):
        P.assume(b_not(ab))
        g.ensure(eq(bv(r.f["type_"], 8), sv(g, "flags")), "flags come off")
        k = g.call("nsasm::StackValue::flags", P.alloc(r))
        g.ensure(same4(get(g, k), b), "the flags pushed")
        untouched(g, s, lv)


def dbr_mirror(g):
    P = g.P
    s, v = stack(g, "s"), reg(g, "v")
    lv = P.alloc(s)
    g.call(S + "PushDBR", lv, v)
    wellformed(g, lv)
    r = g.call(S + "PullByte", lv)
    r = P.load(r) if isinstance(r, LV) else r
    ab, n, q = parts(g, lv)
    g.ensure(eq(ab, s.f["abandoned_"]), "tracking goes on")
    if P.feasible(b_not(ab)):
        P.assume(b_not(ab))
        ty, val, _ = unionf(r)
        ty = bv(ty, 8)
        M = Machine(g)
        is_ = lambda n: eq(v.f["type_"], rt(g, n))
        g.ensure(b_imp(is_("value"), b_and(eq(ty, sv(g, "byte")), eq(bv(val, 8), z3.Extract(7, 0, v.f["value_"])))), "the value pushed")
        g.ensure(b_imp(is_("original"), eq(ty, sv(g, "dbr"))), "the entry value of the data bank")
        g.ensure(b_imp(is_("unknown"), eq(ty, sv(g, "unknown"))), "unknown stays unknown")
        untouched(g, s, lv)


def es(g, stk):
    """A whole state around the given stack; returns (record, flag bits, flag record)."""
    t = g.type(CLS["es"])
    f, b = state(g, "f")
    fields = {n: (stk if n == "stack_" else f if n == "flags_" else reg(g, n)) for n, _ in g.I.fields(t)}
    return Rec(t.key, fields, t.tn), b


def es_flags(g):
    """PHP, any change of the flags, PLP."""
    P, I = g.P, g.I
    s = stack(g, "s")
    rec, b = es(g, s)
    lv = P.alloc(rec)
    g.call(CLS["es"] + "::PushFlags", lv)
    f2, b2 = state(g, "now")
    P.write(lv.field("flags_") if hasattr(lv, "field") else LV(lv.root, lv.path + (("f", "flags_"),)), f2)
    g.call(CLS["es"] + "::PullFlags", lv)
    r = P.load(lv)
    k = get(g, r.f["flags_"])
    ab = s.f["abandoned_"]
    g.ensure(eq(k[0], b2[0]), "e is not on the stack")
    w = 8
    con = lambda v: constrained(v, b2[0])
    g.ensure(b_imp(b_not(ab), b_and(eq(k[1], con(b[1])), eq(k[2], con(b[2])), eq(k[3], b[3]))), "m, x and c come back as far as e allows")
    g.ensure(b_imp(ab, b_and(eq(k[1], con(z3.BitVecVal(UNK, k[1].size()))), eq(k[2], con(z3.BitVecVal(UNK, k[1].size()))), eq(k[3], UNK))), "and are unknown without a tracked stack")
    g.ensure(eq(r.f["stack_"].f["abandoned_"], ab), "tracking goes on")


def es_pull_flags(g):
    """PLP from any state."""
    P = g.P
    s = stack(g, "s")
    rec, b = es(g, s)
    lv = P.alloc(rec)
    g.call(CLS["es"] + "::PullFlags", lv)
    r = P.load(lv)
    k = get(g, r.f["flags_"])
    a = s.f["stack_"]
    g.ensure(eq(k[0], b[0]), "e is not on the stack")
    ab2 = r.f["stack_"].f["abandoned_"]
    sv_ = P.alloc(r.f["stack_"])
    wellformed(g, sv_)
    top_ok = b_and(b_not(s.f["abandoned_"]), b_not(eq(a.n, 0)))
    M = Machine(g)
    for bb in (M.b, M.o):
        P.assume(z3.Implies(bb[0] == 1, z3.And(bb[1] == 1, bb[2] == 1)))
    from .c22 import d_flags, d_bit
    P.assume(d_bit(b[0], M.b[0], M.o[0]))
    if P.feasible(top_ok):
        t = top(g, s, 1)
        # the flags the processor pulls
        P.assume(b_imp(top_ok, d_entry(g, t, M)))
        P.assume(b_imp(b_and(top_ok, M.kind == 0), b_and(M.b[3] == z3.Extract(0, 0, M.cont), *[b_imp(M.b[0] == 0, M.b[i] == z3.Extract(j, j, M.cont)) for i, j in ((1, 5), (2, 4))])))
        g.ensure(b_imp(b_and(top_ok, b_not(isvar(g, t))), d_flags(k, M)), "the flags describe the ones pulled")
        g.ensure(b_imp(top_ok, eq(ab2, isvar(g, t))), "tracking is lost when the top has another width")
    g.ensure(b_imp(b_not(top_ok), ab2), "nothing to pull loses tracking")
    g.ensure(b_imp(ab2, d_flags(k, M)), "whatever is pulled is described when tracking is lost")


def es_reg(r, full):
    """The whole-state operations are the stack's on the tracked register and flags."""
    def f(g):
        P = g.P
        s = stack(g, "s")
        rec, b = es(g, s)
        lv, lv2 = P.alloc(rec), P.alloc(s)
        field = r.lower() + "_reg_"
        w = b[REGS[r][1]]
        g.call(CLS["es"] + "::Push" + full, lv)
        v0 = P.load(lv).f[field]
        g.ensure(val_eq(v0, rec.f[field]), "pushing leaves the register alone")
        P.write(LV(lv.root, lv.path + (("f", field),)), reg(g, "other"))
        g.call(CLS["es"] + "::Pull" + full, lv)
        r2 = P.load(lv)
        out, v = r2.f[field], rec.f[field]
        kept = b_and(b_not(s.f["abandoned_"]), b_not(eq(w, UNK)))
        g.ensure(eq(r2.f["stack_"].f["abandoned_"], b_not(kept)), "tracking goes on exactly when the width is known or as on entry")
        g.ensure(same4(get(g, r2.f["flags_"]), b), "the flags are unchanged")
        t = eq(v.f["type_"], rt(g, "value"))
        g.ensure(b_imp(b_not(kept), unknown(g, out)), "no value when tracking is lost")
        g.ensure(b_imp(b_and(kept, w == OFF), val_eq(out, v)), "16 bits: the value pushed")
        g.ensure(b_imp(b_and(kept, b_not(t)), val_eq(out, v)), "an original or unknown value stays so")
        g.ensure(b_imp(b_and(kept, w == ON, t), b_and(eq(out.f["type_"], v.f["type_"]), eq(out.f["value_"], v.f["value_"] & 0xff))), "8 bits: the value pushed, truncated")
        lv3 = P.alloc(r2.f["stack_"])
        wellformed(g, lv3)
        if P.feasible(kept):
            P.assume(kept)
            untouched(g, s, lv3)
    return f


def goals():
    G = []
    for r in REGS:
        G += [Goal("push then pull %s" % r, mirror(r), rep_mirror(r)), Goal("push %s" % r, describes_push(r)), Goal("pull %s from any state" % r, any_pull(r), rep_pull("l" + r.lower()))]
    for k in ("PushByte", "PushByte?", "PushUnknownByte", "PushWord", "PushWord?", "PushUnknownWord"):
        G.append(Goal("%s then PullByte" % k, bytes_(k), rep_bytes(k)))
    G += [Goal("PullByte from any state", pull_byte("PullByte"), rep_pull("lb")), Goal("PullVarsize from any state", pull_byte("PullVarsize"), rep_pull("lv")),
          Goal("push then pull flags", flags_mirror), Goal("push then pull DBR", dbr_mirror),
          Goal("PHP then PLP", es_flags), Goal("PLP from any state", es_pull_flags)]
    for r, full in (("A", "Accumulator"), ("X", "XRegister"), ("Y", "YRegister")):
        G.append(Goal("whole state: push then pull %s" % r, es_reg(r, full)))
    return G


# ---- real code -------------------------------------------------------------------------
HI, LO, VAR, DBR = {"a": 3, "x": 6, "y": 9}, {"a": 4, "x": 7, "y": 10}, {"a": 5, "x": 8, "y": 11}, 12


class Model:
    """The tracked stack by its documentation."""

    def __init__(self, s):
        self.s = None if s is None else [p_ent(e) for e in s]

    def put(self, *es):
        if self.s is not None:
            self.s += es

    def byte(self):
        if not self.s or self.s[-1][0] in VARS:
            self.s = None
            return (T_UNK, 0, ZERO)
        return self.s.pop()

    def var(self):
        if not self.s or self.s[-1][0] not in VARS:
            self.s = None
            return (T_UNK, 0, ZERO)
        return self.s.pop()

    def push(self, r, v, w):
        if self.s is None:
            return
        if w == UNK:
            self.s = None
        elif w == ORIG:
            self.put((VAR[r], int(v[0] == 1), ZERO))
        else:
            b = lambda t, x: (T_UNK, 0, ZERO) if v[0] == 0 else (t, 0, ZERO) if v[0] == 1 else (T_BYTE, x & 255, ZERO)
            if w == OFF:
                self.put(b(HI[r], v[1] >> 8))
            self.put(b(LO[r], v[1]))

    def pull(self, r, w):
        if self.s is None or w == UNK:
            self.s = None
            return (0, 0)
        if w == ORIG:
            e = self.var()
            if e[0] != VAR[r]:
                self.s = None
                return (0, 0)
            return (e[1], 0)
        l = self.byte()
        h = self.byte() if w == OFF else (HI[r] if l[0] == LO[r] else T_BYTE, 0)
        if l[0] == LO[r] and h[0] == HI[r]:
            return (1, 0)
        if l[0] == T_BYTE and h[0] == T_BYTE:
            return (2, h[1] << 8 | l[1])
        return (0, 0)


def c_hist(s, ops):
    """ops: tuples; the outcome of every pull is compared, and the final stack."""
    m = Model(s)
    want, line = [], ["hist %s" % s_stk(None if s is None else m.s)]
    for o in ops:
        line.append(" ".join(str(x) for x in o))
        k = o[0]
        if k in ("pa", "px", "py"):
            f = p_make(*o[3:7])
            m.push(k[1], (o[1], o[2] if o[1] == 2 else 0), f[1 if k == "pa" else 2])
        elif k in ("la", "lx", "ly"):
            f = p_make(*o[1:5])
            want.append("%d %d" % m.pull(k[1], f[1 if k == "la" else 2]))
        elif k == "pb":
            m.put((T_BYTE, o[1], ZERO))
        elif k == "pw":
            m.put((T_BYTE, o[1] >> 8, ZERO), (T_BYTE, o[1] & 255, ZERO))
        elif k == "ob":
            m.put((T_BYTE, o[2], ZERO) if o[1] else (T_UNK, 0, ZERO))
        elif k == "ow":
            m.put(*([(T_BYTE, o[2] >> 8, ZERO), (T_BYTE, o[2] & 255, ZERO)] if o[1] else [(T_UNK, 0, ZERO)] * 2))
        elif k == "ub":
            m.put((T_UNK, 0, ZERO))
        elif k == "uw":
            m.put((T_UNK, 0, ZERO), (T_UNK, 0, ZERO))
        elif k == "pd":
            m.put((T_UNK, 0, ZERO) if o[1] == 0 else (DBR, 0, ZERO) if o[1] == 1 else (T_BYTE, o[2] & 255, ZERO))
        elif k == "pf":
            m.put((T_FLAGS, 0, p_make(*o[1:5])))
        elif k == "lb":
            want.append(s_ent(m.byte()))
        elif k == "lv":
            want.append(s_ent(m.var()))
        elif k == "lf":     # PLP with the given flags now
            e = m.byte()
            now = p_make(*o[1:5])
            f = e[2] if e[0] == T_FLAGS else (0, UNK, UNK, UNK)
            want.append("%d %d %d %d" % p_make(now[0], *f[1:]))
        elif k == "ab":
            m.s = None
    want.append(s_stk(m.s))
    want = " ".join(" ".join(want).split())
    return Case(" ".join(line) + " . %d" % len(m.s or ()), check=lambda out: " ".join(out.split()) == want, want=want)


def mstack(i, cap=20):
    if i["s"]["len"] > cap:
        return None
    return [[None if i["s.abandoned"] else [e for e in i["s"]["entries"]]]]


def fl(i, p="f"):
    return tuple(i[p + n] for n in "emxc")


def rep_mirror(r):
    def f(i):
        s = mstack(i)
        if s is None:
            return []
        k = r.lower()
        return [c_hist(s[0][0], [("p" + k, i["v.type"], i["v.value"]) + fl(i), ("l" + k,) + fl(i)])]
    return f


def rep_pull(op):
    def f(i):
        s = mstack(i)
        if s is None:
            return []
        return [c_hist(s[0][0], [(op,) + (fl(i) if op[1] in "axy" else ())])]
    return f


def rep_bytes(k):
    def f(i):
        s = mstack(i)
        if s is None:
            return []
        op = {"PushByte": ("pb", i["x"] & 255), "PushByte?": ("ob", int(i["has"]), i["x"] & 255), "PushUnknownByte": ("ub",), "PushWord": ("pw", i["x"]),
              "PushWord?": ("ow", int(i["has"]), i["x"]), "PushUnknownWord": ("uw",)}[k]
        return [c_hist(s[0][0], [op, ("lb",), ("lb",)])]
    return f


NCASES = 4000


def r_op(rnd):
    k = rnd.choice(["pa", "px", "py", "la", "lx", "ly"] * 3 + ["pb", "pw", "ob", "ow", "ub", "uw", "pd", "pf", "lb", "lb", "lv", "lf", "lf"])
    f = rnd.choice(p_states()) if rnd.random() < .5 else rnd.choice([(OFF, OFF, OFF, UNK), (OFF, ON, ON, UNK), (ORIG, ORIG, ORIG, ORIG)])
    if k in ("pa", "px", "py"):
        return (k,) + r_reg(rnd) + f
    if k in ("la", "lx", "ly", "pf", "lf"):
        return (k,) + f
    if k in ("pb", "pw"):
        return (k, rnd.randrange(256 if k == "pb" else 65536))
    if k in ("ob", "ow"):
        return (k, rnd.randrange(2), rnd.randrange(256 if k == "ob" else 65536))
    if k == "pd":
        return (k,) + r_reg(rnd)
    return (k,)


def cases(rnd, n):
    for f in p_states():
        for v in ((0, 0), (1, 0), (2, 0x1234)):
            for k in "axy":
                yield c_hist([(1, 9, ZERO)], [("p" + k,) + v + f, ("l" + k,) + f])
    for f in [(OFF, OFF, OFF, 0), (OFF, ON, ON, 1), (ORIG, ORIG, ORIG, 2), (UNK, UNK, UNK, 3)]:
        for k in ("la", "lx", "ly", "lf", "lb", "lv"):
            for s in (None, []) + tuple([(t, 1, ZERO)] for t in range(13)):
                yield c_hist(s, [(k,) + (f if k in ("la", "lx", "ly", "lf") else ())])
    for _ in range(n):
        yield c_hist(r_stk(rnd), [r_op(rnd) for _ in range(rnd.randrange(1, 9))])


ASSUMPTIONS = ["a BitState holds one of its four values; a RegisterValue and a StackValue are as their constructors make them",
               "stack depth stays below 2^40"]
