from .util import *
from .st import *
from .ins import instr, context
from . import ins, isa
from .c22 import d_flags, d_bit, d_entry, entry_eq, sv, stack, Machine, CLS, unionf, reg, p_flags, pushed, p_ent, s_es, W, r_reg, r_stk, VARS, T_FLAGS, T_BYTE
from .c23 import es, parts, wellformed, top, isvar
from .c10 import NAMES

ID = "C24"
SRC = ins.SRC
DRIVER = "instr"
MN = NAMES["Mnemonic"]
CARRY = {"adc", "sbc", "add", "sub", "asl", "lsr", "rol", "ror", "cmp", "cpx", "cpy"}
CALLS = {"jmp", "jsl", "jsr", "brk", "cop"}
ENDS = {"rti", "rts", "rtl", "stp"}
PUSH = {"pha": "m", "phx": "x", "phy": "x", "php": 1, "phb": 1, "phk": 1, "phd": 2, "pea": 2, "pei": 2, "per": 2}
PULL = {"pla": "m", "plx": "x", "ply": "x", "plp": 1, "plb": 1, "pld": 2}
MOVES_S = {"tcs", "txs"}
BRANCH = {"bcc", "bcs", "beq", "bmi", "bne", "bpl", "bra", "brl", "bvc", "bvs"}


def mnum(g, mn):
    e = g.prog.enums["nsasm::Mnemonic"]
    return int(e["PM_" + mn if mn in ("add", "sub") else "M_" + mn])


def native(b):
    return z3.Implies(b[0] == 1, z3.And(b[1] == 1, b[2] == 1))


def width(w, b):
    """bytes the processor pushes or pulls"""
    k = lambda v: z3.BitVecVal(v, 8)
    return k(w) if isinstance(w, int) else z3.If(b[1 if w == "m" else 2] == 1, k(1), k(2))


def entry_width(g, v, o):
    """bytes a tracked entry stands for, given the entry flags o"""
    k = lambda n: z3.BitVecVal(n, 8)
    return z3.If(zb(isvar(g, v, "a")), z3.If(o[1] == 1, k(1), k(2)), z3.If(zb(isvar(g, v, "xy")), z3.If(o[2] == 1, k(1), k(2)), k(1)))


def step(mn, taken=False):
    """Execute (or ExecuteBranch) of one mnemonic in any addressing mode, from any state."""
    def f(g):
        I, P = g.I, g.P
        ins_ = instr(g, mn=mnum(g, mn), suf=0)
        # contract of CheckConsistency: accepts or rejects, and changes nothing (C20)
        cc = g.fresh("consistent", None)

        def check(c):
            return I.sym(c.rt, "check")
        I.contracts["nsasm::Instruction::CheckConsistency"] = check
        yf = yields(g, ins_)
        s = stack(g, "s")
        rec, b = es(g, s)
        M = Machine(g)
        P.assume(native(M.b))
        P.assume(native(M.o))
        P.assume(d_flags(b, M))
        lv = P.alloc(rec)
        if taken:
            r = g.call(ins.Q + "ExecuteBranch", ins_.lv, Ptr(lv))
        else:
            r = g.call(ins.Q + "Execute", ins_.lv, Ptr(lv), OptV(False, None), context(g), NULL)
        ok, _ = errorval(r)
        if not P.feasible(ok):
            return
        P.assume(ok)
        g.reach()
        after = P.load(lv)
        k = get(g, after.f["flags_"])
        # the processor
        N = Machine.__new__(Machine)
        N.__dict__.update(M.__dict__)
        e, m, x, c = M.b
        one = z3.BitVecVal(1, 1)
        zero = z3.BitVecVal(0, 1)
        any1 = lambda n: g.fresh("new." + n, 1)
        a = s.f["stack_"]
        has = b_and(b_not(s.f["abandoned_"]), b_not(eq(a.n, 0)))
        what = "the tracked flags describe the processor's after it"
        if mn in ENDS:
            return                      # nothing follows
        if mn in CARRY:
            c = any1("c")
        elif mn in ("clc", "sec"):
            c = zero if mn == "clc" else one
        elif mn in ("rep", "sep"):
            v = g.fresh("operand", 8)
            P.assume(b_imp(ins_.ok1, v == z3.Extract(7, 0, ins_.v1)))
            to = zero if mn == "rep" else one
            bit = lambda old, n: z3.If(z3.Extract(n, n, v) == 1, to, old)
            m, x, c = z3.If(e == 1, m, bit(m, 5)), z3.If(e == 1, x, bit(x, 4)), bit(c, 0)
        elif mn == "xce":
            e, c = c, e
            m, x = z3.If(e == 1, one, m), z3.If(e == 1, one, x)
        elif mn == "plp":
            p = g.fresh("pulled", 8)
            if P.feasible(has):
                t = top(g, s, 1)
                M.kind, M.cont = z3.BitVecVal(0, 8), z3.ZeroExt(8, p)
                P.assume(b_imp(b_and(has, b_not(isvar(g, t))), d_entry(g, t, M)))
            m, x, c = z3.If(e == 1, one, z3.Extract(5, 5, p)), z3.If(e == 1, one, z3.Extract(4, 4, p)), z3.Extract(0, 0, p)
        elif mn in CALLS:
            c = any1("c")
            ye, ym, yx = any1("e"), any1("m"), any1("x")
            P.assume(native([ye, ym, yx]))
            if P.feasible(yf[0]):
                Y = Machine.__new__(Machine)
                Y.__dict__.update(M.__dict__)
                Y.b = [ye, ym, yx, c]
                P.assume(b_imp(yf[0], d_flags(yf[1], Y, (0, 1, 2))))
            pick = lambda y, old: z3.If(zb(yf[0]), y, old)
            e, m, x = pick(ye, e), pick(ym, m), pick(yx, x)
        elif mn in ("bcc", "bcs"):
            P.assume(c == (1 if (mn == "bcs") == taken else 0))
        N.b = [e, m, x, c]
        for n, i in (("e", 0), ("m", 1), ("x", 2), ("c", 3)):
            g.ensure(d_bit(k[i], N.b[i], N.o[i]), "%s: %s" % (n, what))
        g.ensure(inv(*k), "a status a processor can be in")
        # the stack
        q = after.f["stack_"]
        ql = P.alloc(q)
        wellformed(g, ql)
        ab, n, qs = parts(g, ql)
        g.ensure(b_imp(s.f["abandoned_"], ab), "what is not tracked stays so")
        live = b_not(ab)
        if mn in MOVES_S:
            g.ensure(ab, "moving the stack pointer ends stack tracking")
            return
        if not P.feasible(live):
            return
        P.assume(live)
        i = g.fresh("below", 64)
        P.touch("idx", i)
        if mn in PUSH:
            w = width(PUSH[mn], M.b)
            d = z3.simplify(n - a.n)
            g.ensure(b_and(ule(a.n, n), z3.ULE(d, 2)), "at most two entries are pushed")
            tot = z3.BitVecVal(0, 8)
            for j in range(2):
                at = z3.simplify(a.n + j)
                inr = b_and(ult(at, n))
                if not P.feasible(inr):
                    continue
                P.touch("idx", at)
                v = qs.get(at)
                tot = tot + z3.If(zb(inr), entry_width(g, v, M.o), z3.BitVecVal(0, 8))
                fl = eq(bv(v.f["type_"], 8), sv(g, "flags"))
                if mn == "php":
                    rnd = g.fresh("rest", 8)
                    byte = z3.Concat(z3.Extract(7, 6, rnd), M.b[1], M.b[2], z3.Extract(3, 1, rnd), M.b[3])
                    M.kind, M.cont = z3.BitVecVal(0, 8), z3.ZeroExt(8, byte)
                    g.ensure(b_imp(inr, d_entry(g, v, M)), "the entry pushed describes the flags pushed")
                else:
                    g.ensure(b_imp(inr, b_not(fl)), "only PHP pushes flags")
            g.ensure(tot == w, "as many bytes are pushed as the processor pushes")
            inr = ult(i, a.n)
        elif mn in PULL:
            w = width(PULL[mn], M.b)
            g.ensure(ule(n, a.n), "entries are taken off")
            d = z3.simplify(a.n - n)
            g.ensure(z3.ULE(d, 2), "at most two entries are taken off")
            tot = z3.BitVecVal(0, 8)
            for j in range(2):
                at = z3.simplify(a.n - 1 - j)
                inr = z3.ULT(z3.BitVecVal(j, 64), d)
                if not P.feasible(inr):
                    continue
                P.touch("idx", at)
                tot = tot + z3.If(zb(inr), entry_width(g, a.get(at), M.o), z3.BitVecVal(0, 8))
            g.ensure(tot == w, "as many bytes are taken off as the processor pulls")
            inr = ult(i, n)
        else:
            g.ensure(eq(n, a.n), "the depth stays")
            inr = ult(i, n)
        if P.feasible(inr):
            g.ensure(b_imp(inr, entry_eq(g, qs.get(i), a.get(i))), "the rest of the stack is unchanged")
    return f


def yields(g, s):
    """(declares flags, which) of the instruction's return convention."""
    st_, b = state(g, "y")
    t = g.type("nsasm::ReturnConvention")
    which = g.fresh("convention", 8)
    g.P.assume(z3.ULE(which, 2))
    g.input("convention", which)
    v = s.rec.f["return_convention"].f["state_"]
    alts = list(v.alts)
    alts[1] = st_
    r = Rec(t.key, {"state_": VarV(which, tuple(alts))}, t.tn)
    s.rec = Rec(s.rec.key, {**s.rec.f, "return_convention": r}, s.rec.tn)
    g.P.write(s.lv, s.rec)
    return eq(which, 1), b


def goals():
    G = []
    for m in MN:
        G.append(Goal("after " + m, step(m), rep(m)))
        if m in BRANCH:
            G.append(Goal("after %s, taken" % m, step(m, True), rep(m, True)))
    return G


# ---- real code -------------------------------------------------------------------------
def machines(f):
    """processor states (e, m, x, c now, e, m, x, c on entry) f describes"""
    return [[w >> i & 1 for i in range(8)] for w in p_flags(f)]


def p_after(mn, taken, b, arg, ys, entry):
    """e, m, x, c afterwards, every way the processor may go"""
    e, m, x, c = b[:4]
    if mn in CARRY:
        return [(e, m, x, 0), (e, m, x, 1)]
    if mn in ("clc", "sec"):
        return [(e, m, x, int(mn == "sec"))]
    if mn in ("rep", "sep"):
        to, out = int(mn == "sep"), []
        for v in ([arg] if arg is not None else (0, 1, 0x10, 0x20, 0x31, 0xff)):
            out.append((e, m if e or not v & 32 else to, x if e or not v & 16 else to, to if v & 1 else c))
        return out
    if mn == "xce":
        return [(c, 1 if c else m, 1 if c else x, e)]
    if mn == "plp":
        # flags that were pushed; anything else may be any byte
        o = tuple(b[4:])
        if entry is not None and entry[0] == T_FLAGS:
            ps = {(w >> 1 & 1, w >> 2 & 1, w >> 3 & 1) for w in pushed(tuple(entry[2])) if tuple(w >> k & 1 for k in range(4, 8)) == o}
        else:
            ps = {(p & 1, p >> 1 & 1, p >> 2) for p in range(8)}
        return [(e, 1 if e else p[0], 1 if e else p[1], p[2]) for p in ps]
    if mn in CALLS:
        if ys is None:
            return [(e, m, x, 0), (e, m, x, 1)]
        o = b[4:]
        return [tuple(q[:3]) + (cc,) for q in machines(ys) if q[4:] == o for cc in (0, 1)]
    if mn in ("bcc", "bcs"):
        return [(e, m, x, c)] if c == int((mn == "bcs") == taken) else []
    return [(e, m, x, c)]


def width_of(w, f):
    """bytes pushed or pulled: a number or None, when it is not known"""
    if isinstance(w, int):
        return w
    return {ON: 1, OFF: 2}.get(f[1 if w == "m" else 2])


def p_width(es):
    """bytes the entries stand for; None when that is up to the flags on entry"""
    return None if any(e[0] in VARS for e in es) else len(es)


def c_exec(mn, am, suf, a1, a2, ys, st_, taken=False):
    f, stk = p_make(*st_[4]), None if st_[5] is None else [p_ent(e) for e in st_[5]]
    ys = None if ys is None else p_make(*ys)
    arg = lambda v: "?" if v is None else "v %d" % v
    conv = "0" if ys is None else "1 %d %d %d %d" % ys
    line = "exec %d %d %s %d %d %s %s %s %s" % (int(taken), len(stk or ()) + 4, mn, am, suf, arg(a1), arg(a2), conv, s_es(list(st_[:4]) + [f, stk]))

    def ok(out):
        if out.strip() == "err":
            return True
        w = W(out)
        k, q = w.flags(), w.stk()
        if w.w or p_make(*k) != k:
            return False
        if mn in ENDS:
            return True
        good = p_flags(k)
        top_ = stk[-1] if stk else None
        for b in machines(f):
            for n in p_after(mn, taken, b, a1, ys, top_):
                if (n[0] | n[1] << 1 | n[2] << 2 | n[3] << 3 | b[4] << 4 | b[5] << 5 | b[6] << 6 | b[7] << 7) not in good:
                    return False
        if stk is None:
            return q is None
        if q is None:
            return True
        if mn in MOVES_S:
            return False
        n = len(stk)
        if mn in PUSH:
            new = q[n:]
            v = [e for e in new if e[0] in VARS]
            if v and (len(new) != 1 or not isinstance(PUSH[mn], str) or f[1 if PUSH[mn] == "m" else 2] != ORIG):
                return False
            if q[:n] != stk or (not v and len(new) != width_of(PUSH[mn], f)):
                return False
            if mn == "php":
                return new[0][0] != T_BYTE and (new[0][0] != T_FLAGS or p_flags(f) <= {w | h for w in pushed(tuple(new[0][2])) for h in (0, 1)})
            return all(e[0] != T_FLAGS for e in new)
        if mn in PULL:
            old = stk[len(q):]
            v = [e for e in old if e[0] in VARS]
            if v and (len(old) != 1 or not isinstance(PULL[mn], str) or f[1 if PULL[mn] == "m" else 2] != ORIG):
                return False
            return q == stk[:len(q)] and (bool(v) or len(old) == width_of(PULL[mn], f))
        return q == stk

    def check(out):
        try:
            return ok(out)
        except (ValueError, IndexError):
            return False
    return Case(line, check=check, nontrivial=True)


def rep(mn, taken=False):
    def f(i):
        if not i["s.abandoned"] and i["s"]["len"] > 20:
            return []
        b = lambda n: n in i and bool(i[n])
        regs = [(i["s.%s_.type" % r], i["s.%s_.value" % r]) for r in ("a_reg", "x_reg", "y_reg", "dbr")]
        st_ = regs + [tuple(i["s" + n] for n in "emxc"), None if i["s.abandoned"] else list(i["s"]["entries"])]
        ys = tuple(i["y" + n] for n in "emxc") if i["convention"] == 1 else None
        sx = lambda v: v - (1 << 32) if v >> 31 else v
        a = [sx(i["v%d" % k]) if b("ok%d" % k) else None for k in (1, 2)]
        return [c_exec(mn, i["mode"], 0, a[0], a[1], ys, st_, taken)]
    return f


MODES_OF = {}
for (_m, _a) in isa.OPC:
    MODES_OF.setdefault(_m, []).append(isa.MODE_ORDER.index(_a))
for _p, _r in (("add", "adc"), ("sub", "sbc")):
    MODES_OF[_p] = MODES_OF[_r]
NCASES = 6000


def cases(rnd, n):
    def st_(f=None, s=0):
        f = f or rnd.choice(p_states())
        return [r_reg(rnd) for _ in range(4)] + [f, r_stk(rnd) if s == 0 else s]
    num = lambda: rnd.choice((None, 0, 1, 0x10, 0x20, 0x30, 0x31, 0xff, 0x1234, -1, 2**31 - 1, -2**31, rnd.randrange(1 << 24)))
    for mn in MN:
        for f in p_states():
            yield c_exec(mn, rnd.choice(MODES_OF[mn]), 0, num(), num(), None, st_(f), mn in BRANCH and rnd.random() < .5)
    for _ in range(n):
        mn = rnd.choice(MN)
        if rnd.random() < .4:
            mn = rnd.choice(("rep", "sep", "xce", "plp", "php", "jsr", "mvn", "phb", "pld", "pea", "pha", "plx"))
        s = 0 if rnd.random() < .6 else [(T_FLAGS, 0, rnd.choice(p_states()))] if rnd.random() < .7 else []
        ys = rnd.choice(p_states()) if mn in CALLS and rnd.random() < .5 else None
        yield c_exec(mn, rnd.choice(MODES_OF[mn]), 0, num(), num(), ys, st_(None, s), mn in BRANCH and rnd.random() < .5)


ASSUMPTIONS = ["CheckConsistency accepts or rejects and changes nothing (C20)", "an operand evaluates to the value the assembler writes, whenever it evaluates",
               "the e flag cannot be cleared while m or x reads as 0 in emulation mode", "stack depth stays below 2^40"]
