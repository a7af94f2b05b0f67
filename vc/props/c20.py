from .util import *
from .st import *
from .ins import instr, Q
from . import ins, isa, c17
from .c17 import numbers

ID = "C20"
SRC = c17.SRC
DRIVER = "instr"
MN, SHORT = c17.MN, c17.SHORT
PAIRS = isa.encode()
REAL = {m: SHORT.get(m, (m,))[0] for m in MN}
IMM = {m: "m" for m, a in isa.OPC if a == "A_imm_fm"}
IMM.update({m: "x" for m, a in isa.OPC if a == "A_imm_fx"})
FLAG = {m: "m" if m in isa.M_WIDE else "x" if m in isa.X_WIDE else None for m in MN}
S_NONE, S_B, S_W = 0, 1, 2


def setup(g):
    s = instr(g)
    # a name for a message: any string (C10)
    g.I.contracts["nsasm::ToString"] = lambda c: g.I.sym(c.rt, "name")
    f, b = state(g, "f")
    mn, md = numbers(g)
    mode = lambda n: eq(s.am, int(md[n]))
    is_ = lambda ms: b_or(*[s.mn == mn[m] for m in ms])
    return s, f, b, mn, mode, is_


def consistency(g):
    s, f, b, mn, mode, is_ = setup(g)
    sfx = g.prog.enums["nsasm::Suffix"]
    r = g.call(Q + "CheckConsistency", s.lv, g.P.alloc(f))
    ok, _ = errorval(r)
    m, x = b[1], b[2]
    known = lambda v: b_or(eq(v, ON), eq(v, OFF))
    legal = b_or(*[b_and(mode(a), is_([k for k in MN if (REAL[k], a) in PAIRS])) for a in isa.MODE_ORDER])
    um, ux = is_([k for k in MN if FLAG[k] == "m"]), is_([k for k in MN if FLAG[k] == "x"])
    none, sb, sw = [eq(s.suf, int(sfx["S_" + n])) for n in ("none", "b", "w")]
    suffix = b_or(none, b_and(b_or(um, ux), *[b_imp(u, b_and(b_imp(sw, b_not(eq(v, ON))), b_imp(sb, b_not(eq(v, OFF))))) for u, v in ((um, m), (ux, x))]))
    im, ix = is_([k for k in MN if IMM.get(REAL[k]) == "m"]), is_([k for k in MN if IMM.get(REAL[k]) == "x"])
    size = b_and(b_imp(mode("A_imm_fm"), known(m)), b_imp(mode("A_imm_fx"), known(x)))
    for u, v in ((im, m), (ix, x)):
        size = b_and(size, b_imp(b_and(u, mode("A_imm_b")), eq(v, ON)), b_imp(b_and(u, mode("A_imm_w")), eq(v, OFF)))
    for w, c in (("accepted", ok), ("illegal pair", b_not(legal)), ("suffix rejected", b_and(legal, b_not(suffix))), ("size rejected", b_and(legal, suffix, b_not(size)))):
        g.cover(w, c)
    g.ensure(b_imp(ok, legal), "a combination that exists")
    g.ensure(b_imp(ok, suffix), "no suffix contradicts the flag, and none is on an instruction of one size")
    g.ensure(b_imp(ok, size), "an immediate's size is known and that of the flag")
    g.ensure(b_imp(b_and(legal, suffix, size), ok), "everything else is accepted")


def fix(g):
    s, f, b, mn, mode, is_ = setup(g)
    P = g.P
    r = g.call(Q + "FixAddressingMode", s.lv, P.alloc(f))
    ok, _ = errorval(r)
    after = P.load(s.lv)
    now = after.f["addressing_mode"]
    md = g.prog.enums["nsasm::AddressingMode"]
    to = lambda n: eq(now, int(md[n]))
    var = b_or(mode("A_imm_fm"), mode("A_imm_fx"))
    v = merge(mode("A_imm_fm"), b[1], b[2])
    for w, c in (("8 bits", b_and(var, eq(v, ON))), ("16 bits", b_and(var, eq(v, OFF))), ("unknown", b_and(var, b_not(ok)))):
        g.cover(w, c)
    g.ensure(eq(ok, b_or(b_not(var), eq(v, ON), eq(v, OFF))), "fails exactly when the size depends on a flag that is not known")
    g.ensure(b_imp(b_not(ok), eq(now, s.am)), "a failure changes nothing")
    g.ensure(b_imp(b_not(var), eq(now, s.am)), "another mode stays")
    g.ensure(b_imp(b_and(var, eq(v, ON)), to("A_imm_b")), "8 bits when the flag is set")
    g.ensure(b_imp(b_and(var, eq(v, OFF)), to("A_imm_w")), "16 bits when the flag is clear")
    for n in s.rec.f:
        if n in ("mnemonic", "suffix"):
            g.ensure(eq(after.f[n], s.rec.f[n]), "the %s stays" % n)
    size = bv(g.call(Q + "SerializedSize", s.lv), 32)
    short = is_(list(SHORT))
    g.ensure(b_imp(b_and(var, ok), size == z3.If(zb(eq(v, ON)), z3.BitVecVal(2, 32), z3.BitVecVal(3, 32)) + z3.If(zb(short), z3.BitVecVal(1, 32), z3.BitVecVal(0, 32))),
             "the instruction is then as long as the processor takes it to be")


def fixed_is_consistent(g):
    """Fixing the mode and checking agree."""
    s, f, b, mn, mode, is_ = setup(g)
    P = g.P
    fl = P.alloc(f)
    c0, _ = errorval(g.call(Q + "CheckConsistency", s.lv, fl))
    ok, _ = errorval(g.call(Q + "FixAddressingMode", s.lv, fl))
    g.ensure(b_imp(c0, ok), "an accepted instruction can be sized")
    if P.feasible(ok):
        P.assume(ok)
        c1, _ = errorval(g.call(Q + "CheckConsistency", s.lv, fl))
        g.ensure(b_imp(c0, c1), "a sized instruction is still accepted")
        g.ensure(b_imp(b_and(c1, b_not(mode("A_imm_fm")), b_not(mode("A_imm_fx"))), c0), "and nothing becomes acceptable by it")


def goals():
    return [Goal("CheckConsistency", consistency, rep("chk")), Goal("FixAddressingMode", fix, rep("fix")), Goal("fix, then check", fixed_is_consistent, rep("chk", "fix"))]


# ---- real code -------------------------------------------------------------------------
def p_chk(mn, am, suf, f):
    mode = isa.MODE_ORDER[am]
    if (REAL[mn], mode) not in PAIRS:
        return False
    val = lambda k: f[1 if k == "m" else 2]
    k = FLAG[mn]
    if suf and (k is None or (suf == S_W and val(k) == ON) or (suf == S_B and val(k) == OFF)):
        return False
    if mode == "A_imm_fm" or mode == "A_imm_fx":
        return val(mode[-1]) in (ON, OFF)
    if mode in ("A_imm_b", "A_imm_w") and REAL[mn] in IMM:
        return val(IMM[REAL[mn]]) == (ON if mode == "A_imm_b" else OFF)
    return True


def p_fix(am, f):
    mode = isa.MODE_ORDER[am]
    if mode not in ("A_imm_fm", "A_imm_fx"):
        return "ok %d" % am
    v = f[1 if mode[-1] == "m" else 2]
    if v in (ON, OFF):
        return "ok %d" % isa.MODE_ORDER.index("A_imm_b" if v == ON else "A_imm_w")
    return "err %d" % am


def c_chk(op, mn, am, suf, f):
    f = p_make(*f)
    line = "%s %s %d %d v 1 v 1 0 %d %d %d %d" % ((op, mn, am, suf) + f)
    if op == "chk":
        ok = p_chk(mn, am, suf, f)
        return Case(line, want="ok" if ok else "err", nontrivial=ok)
    return Case(line, want=p_fix(am, f), nontrivial=am >= 25)


def rep(*ops):
    return lambda i: [c_chk(o, MN[i["mnemonic"]], i["mode"], i["suffix"], tuple(i["f" + n] for n in "emxc")) for o in ops]


NCASES = 9000


def cases(rnd, n):
    states = p_states()
    for mn in MN:
        for am in range(27):
            for suf in range(3):
                yield c_chk("chk", mn, am, suf, rnd.choice(states))
    for (mn, a) in PAIRS:
        for suf in range(3):
            for _ in range(4):
                yield c_chk("chk", mn, isa.MODE_ORDER.index(a), suf, rnd.choice(states))
    for f in states:
        for am in (2, 3, 25, 26, rnd.randrange(27)):
            yield c_chk("fix", rnd.choice(MN), am, rnd.randrange(3), f)


ASSUMPTIONS = ["the opcode table and the flag each mnemonic's data size follows (vc/props/isa.py) are the 65816's"]
