from .util import *
from .ins import context
from . import isa, c17
from .c17 import SHORT, MN

ID = "C16"
SRC = ["nsasm/addressing_mode.cc", "nsasm/opcode_map.cc"]
DRIVER = "instr"
PAIRS = set(isa.encode())
REAL = {m: SHORT.get(m, (m,))[0] for m in MN}
SA = "imp acc imm dir dir_x dir_y ind ind_x ind_y lng lng_y stk stk_y mov".split()
# operand size -> mode of each form that takes an address
ADDR = {"dir": ("A_dir_b", "A_dir_w", "A_dir_l"), "dir_x": ("A_dir_bx", "A_dir_wx", "A_dir_lx"), "dir_y": ("A_dir_by", "A_dir_wy", None),
        "ind": ("A_ind_b", "A_ind_w", None), "ind_x": ("A_ind_bx", "A_ind_wx", None), "ind_y": ("A_ind_by", None, None),
        "lng": ("A_lng_b", "A_lng_w", None), "lng_y": ("A_lng_by", None, None)}
OFFSET = {"stk": "A_stk", "stk_y": "A_stk_y"}
REL = {m: a for m, a in isa.OPC if a in c17.REL}
TYPES = "unknown byte word long signed_byte signed_word signed_long".split()


def rule(m, sa):
    """What a form of an instruction means: None (no such form), a mode, ("sized", modes by operand size),
    ("byte"/"word", mode) for an operand that must fit, ("bytes", mode) for two, ("name", mode) for a branch."""
    r = REAL[m]
    has = lambda a: a and (r, a) in PAIRS
    if r in REL:
        return ("name", REL[r]) if sa == "dir" else None
    if sa in ("imp", "acc"):
        return "A_acc" if has("A_acc") else "A_imp" if sa == "imp" and has("A_imp") else None
    if sa == "imm":
        for a in ("A_imm_fm", "A_imm_fx"):
            if (r, a) in set(isa.OPC):
                return a
        return ("byte", "A_imm_b") if has("A_imm_b") else ("word", "A_imm_w") if has("A_imm_w") else None
    if sa in ADDR:
        t = tuple(a if has(a) else None for a in ADDR[sa])
        return ("sized", t) if any(t) else None
    if sa in OFFSET:
        return ("byte", OFFSET[sa]) if has(OFFSET[sa]) else None
    return ("bytes", "A_mov") if has("A_mov") else None


def operands(g):
    """Contract of two operand expressions: a type, a value or none, a plain name or not; the same every time."""
    I, P = g.I, g.P
    t = g.type("nsasm::Expression")
    nt = g.type("nsasm::NumericType").w
    out = []
    for i in (1, 2):
        ty, v, ok, name = g.fresh("type%d" % i, nt), g.fresh("v%d" % i, 32), g.fresh("ok%d" % i, None), g.fresh("name%d" % i, None)
        P.assume(z3.ULT(ty, len(TYPES)))
        for n, x in (("type", ty), ("v", v), ("ok", ok), ("name", name)):
            g.input("%s%d" % (n, i), x)
        out.append((ty, v, ok, name, P.alloc(Rec(t.key, {}, t.tn))))
    err = I.sym(g.type("nsasm::Error"), "error")

    def which(c):
        for o in out:
            if c.obj.root == o[4].root:
                return o
        raise Unsupported("another expression")
    I.contracts["nsasm::Expression::Type"] = lambda c: which(c)[0]
    I.contracts["nsasm::Expression::Evaluate"] = lambda c: Rec(c.rt.key, {"value": VarV(merge(which(c)[2], 1, 0), (err, which(c)[1]))}, c.rt.tn)
    I.contracts["nsasm::Expression::SimpleIdentifier"] = lambda c: OptV(which(c)[3], I.sym(g.type("std::basic_string<char>"), "ident"))
    I.contracts["nsasm::ToString"] = lambda c: I.sym(c.rt, "text")
    return out


def deduce(sa):
    def f(g):
        I, P = g.I, g.P
        mn, md = c17.numbers(g)
        nt = g.prog.enums["nsasm::NumericType"]
        m = g.fresh("m", 32)
        P.assume(z3.ULT(m, len(g.prog.enums["nsasm::Mnemonic"])))
        g.input("m", m)
        a1, a2 = operands(g)
        r = g.call("nsasm::DeduceMode", None, m, int(g.prog.enums["nsasm::SyntacticAddressingMode"]["SA_" + sa]), a1[4], a2[4])
        ok, mode = errorval(r)
        mode = bv(0 if mode is None else mode, 32)  # no value where every path is an error
        size = lambda o, n: b_or(eq(o[0], int(nt["T_" + n])), eq(o[0], int(nt["T_signed_" + n])))

        def fits(o, n):
            lo, hi = {"byte": (-0x80, 0xff), "word": (-0x8000, 0xffff)}[n]
            return b_or(size(o, n), b_and(eq(o[0], int(nt["T_unknown"])), o[2], o[1] >= lo, o[1] <= hi))
        groups = {}
        for x in MN:
            groups.setdefault(rule(x, sa), []).append(x)
        for k, ms in groups.items():
            is_ = b_or(*[m == mn[x] for x in ms])
            to = lambda a: eq(mode, int(md[a]))
            what = "%s%s" % (ms[0], " and %d others" % (len(ms) - 1) if len(ms) > 1 else "")
            if k is None:
                g.ensure(b_imp(is_, b_not(ok)), "%s: no such form" % what)
            elif isinstance(k, str):
                g.ensure(b_imp(is_, b_and(ok, to(k))), "%s: %s" % (what, k))
            elif k[0] == "sized":
                some = []
                for n, a in zip(("byte", "word", "long"), k[1]):
                    if a:
                        some.append(size(a1, n))
                        g.ensure(b_imp(b_and(is_, size(a1, n)), b_and(ok, to(a))), "%s: %s with a %s operand" % (what, a, n))
                g.ensure(b_imp(b_and(is_, b_not(b_or(*some))), b_not(ok)), "%s: no other operand size" % what)
            elif k[0] == "name":
                g.ensure(b_imp(is_, eq(ok, a1[3])), "%s: a name is required" % what)
                g.ensure(b_imp(b_and(is_, ok), to(k[1])), "%s: %s" % (what, k[1]))
            else:
                need = b_and(fits(a1, "byte"), fits(a2, "byte")) if k[0] == "bytes" else fits(a1, k[0])
                g.ensure(b_imp(is_, eq(ok, need)), "%s: accepted when the operand fits a %s" % (what, k[0].rstrip("s")))
                g.ensure(b_imp(b_and(is_, ok), to(k[1])), "%s: %s" % (what, k[1]))
        # whatever is accepted can be encoded
        eff = z3.If(m == mn["add"], z3.BitVecVal(int(mn["adc"]), 32), z3.If(m == mn["sub"], z3.BitVecVal(int(mn["sbc"]), 32), m))
        leg = g.call("nsasm::IsLegalCombination", None, eff, mode)
        g.ensure(b_imp(ok, leg), "the mode is one the instruction has")
    return f


def goals():
    return [Goal("form " + s, deduce(s), rep(s)) for s in SA]


# ---- real code -------------------------------------------------------------------------
def p_deduce(m, sa, a1, a2):
    """a = (type, value or None, name?)"""
    k = rule(m, sa)
    if k is None or isinstance(k, str):
        return k
    if k[0] == "name":
        return k[1] if a1[2] else None
    if k[0] == "sized":
        n = TYPES[a1[0]].replace("signed_", "")
        return k[1][("byte", "word", "long").index(n)] if n != "unknown" else None

    def fits(a, n):
        lo, hi = {"byte": (-0x80, 0xff), "word": (-0x8000, 0xffff)}[n]
        t = TYPES[a[0]]
        return t.replace("signed_", "") == n or (t == "unknown" and a[1] is not None and lo <= a[1] <= hi)
    n = k[0].rstrip("s")
    return k[1] if fits(a1, n) and (k[0] != "bytes" or fits(a2, n)) else None


def c_ded(m, sa, a1, a2):
    w = p_deduce(m, sa, a1, a2)
    arg = lambda a: "%d %d %d %d" % (a[0], a[1] is not None, a[1] or 0, int(a[2]))
    return Case("ded %s %d %s %s" % (m, SA.index(sa), arg(a1), arg(a2)), want="err" if w is None else "ok %d" % isa.MODE_ORDER.index(w), nontrivial=w is not None)


def rep(sa):
    def f(i):
        sx = lambda v: v - (1 << 32) if v >> 31 else v
        a = [(i["type%d" % k], sx(i["v%d" % k]) if i["ok%d" % k] else None, bool(i["name%d" % k])) for k in (1, 2)]
        return [c_ded(MN[i["m"]], sa, a[0], a[1])]
    return f


NCASES = 8000


def cases(rnd, n):
    num = lambda: rnd.choice((None, 0, 1, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0xffff, 0x10000, -1, -0x80, -0x81, -0x8000, -0x8001, 2**31 - 1, -2**31, rnd.randrange(1 << 24)))
    a = lambda: (rnd.choice((0, 0, 0, 1, 2, 3, 4, 5, 6)), num(), rnd.random() < .5)
    for m in MN:
        for sa in SA:
            for t in range(7):
                yield c_ded(m, sa, (t, num(), rnd.random() < .5), a())
    forms = [(m, s) for m in MN for s in SA if rule(m, s) is not None]
    for _ in range(n):
        m, s = rnd.choice(forms)
        yield c_ded(m, s, a(), a())


ASSUMPTIONS = ["an operand expression has one of the seven types, and gives the same type, value or error and name every time it is asked",
               "the opcode table of vc/props/isa.py is the 65816's"]
