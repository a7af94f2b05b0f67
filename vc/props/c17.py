from .util import *
from .ins import instr, context, Sink, Q
from . import ins, isa
from .c10 import NAMES

ID = "C17"
SRC = ["nsasm/instruction.cc", "nsasm/opcode_map.cc", "nsasm/addressing_mode.cc", "/verif/replay/inst_instr.cc"]
DRIVER = "instr"
MN = NAMES["Mnemonic"]
REL = ("A_rel8", "A_rel16")
SHORT = {"add": ("adc", 0x18), "sub": ("sbc", 0x38)}


def numbers(g):
    mn = {n.split("_", 1)[1].lower(): v for n, v in g.prog.enums["nsasm::Mnemonic"].items()}
    return mn, dict(g.prog.enums["nsasm::AddressingMode"])


def opcodes(mode):
    """mnemonic -> (prefix or None, opcode) of the mnemonics that take this mode, operand size known"""
    out = {}
    enc = isa.encode()
    for m in MN:
        r, p = SHORT.get(m, (m, None))
        if (r, mode) in enc and mode not in ("A_imm_fm", "A_imm_fx"):
            out[m] = (p, enc[r, mode])
    return out


def assemble(mode):
    """Assemble and SerializedSize of any mnemonic in one addressing mode."""
    def f(g):
        I, P = g.I, g.P
        mn, md = numbers(g)
        s = instr(g, am=int(md[mode]))
        a, av = addr(g, "at")
        k = Sink(g)
        size = g.call(Q + "SerializedSize", s.lv)
        r = g.call(Q + "Assemble", s.lv, a, context(g), k.ptr)
        ok, _ = errorval(r)
        n, wa, wl, b = k.log()
        if opcodes(mode):
            g.cover("writes", eq(n, 1))
        g.cover("writes nothing", eq(n, 0))
        one = eq(n, 1)
        g.ensure(b_or(eq(n, 0), one), "at most one write")
        g.ensure(b_imp(one, wa == av), "at the requested address")
        g.ensure(eq(ok, b_and(one, k.ok)), "succeeds exactly when the write does")
        g.ensure(b_imp(one, wl == z3.SignExt(32, bv(size, 32))), "as many bytes as reported beforehand")
        tab = opcodes(mode)
        said = r.f["value"].v
        g.ensure(b_imp(b_and(one, b_not(k.ok)), val_eq(said, k.err)), "the sink's error is handed on")
        legal = b_or(*[s.mn == mn[m] for m in tab])
        need = [s.ok1] if isa.BYTES[mode] not in (0,) else []
        if mode == "A_mov":
            need.append(s.ok2)
        g.ensure(b_imp(b_not(legal), b_not(one)), "nothing is written for a combination that does not exist")
        g.ensure(b_imp(b_not(b_and(*need)), b_not(one)), "nothing is written when an operand has no value")
        if need:
            g.ensure(b_imp(b_and(legal, b_not(s.ok1)), val_eq(said, s.err["arg1"])), "the operand's error is handed on")
        if mode == "A_mov":
            g.ensure(b_imp(b_and(legal, s.ok1, b_not(s.ok2)), val_eq(said, s.err["arg2"])), "the second operand's error is handed on")
        if mode in REL:
            return                      # when and with which displacement: C19
        g.ensure(b_imp(b_and(legal, *need), one), "assembled whenever the operands have values")
        nb = isa.BYTES[mode] if isinstance(isa.BYTES[mode], int) else 0
        bytes_ = [z3.Extract(8 * i + 7, 8 * i, s.v1) for i in range(nb)]
        if mode == "A_mov":
            bytes_ = [z3.Extract(7, 0, s.v2), z3.Extract(7, 0, s.v1)]
        for m, (pre, op) in tab.items():
            want = ([z3.BitVecVal(pre, 8)] if pre is not None else []) + [z3.BitVecVal(op, 8)] + bytes_
            g.ensure(b_imp(b_and(one, s.mn == mn[m]), b_and(wl == len(want), *[x == y for x, y in zip(b, want)])), "the encoding of " + m)
    return f


def far(g):
    I, P = g.I, g.P
    mn, md = numbers(g)
    s = instr(g)
    a, av = addr(g, "at")
    r = g.call(Q + "FarBranchTarget", s.lv, a)
    is_ = lambda m, ms: b_and(s.am == int(md[m]), b_or(*[s.mn == mn[x] for x in ms]))
    lng, wrd = is_("A_dir_l", ("jmp", "jsl")), is_("A_dir_w", ("jmp", "jsr"))
    g.cover("far", r.has)
    g.ensure(eq(r.has, b_and(s.ok1, b_or(lng, wrd))), "jumps and calls to an absolute address with a value have a target")
    if r.v is not None:
        v = bv(r.v.f["value_"], 32)
        g.ensure(b_imp(b_and(r.has, lng), v == s.v1 & 0xffffff), "the target is the three bytes encoded")
        g.ensure(b_imp(b_and(r.has, wrd), v == (av & 0xff0000) | (s.v1 & 0xffff)), "the target is the two bytes encoded, in the bank of the instruction")


def goals():
    return [Goal("assemble " + m, assemble(m), rep(m)) for m in isa.MODE_ORDER] + [Goal("far branch target", far, rep_far)]


# ---- real code -------------------------------------------------------------------------
def p_asm(mn, am, a1, a2, at):
    """bytes, or None when nothing is written"""
    mode = isa.MODE_ORDER[am]
    tab = opcodes(mode)
    if mn not in tab:
        return None
    pre, op = tab[mn]
    n = isa.BYTES[mode]
    if (n and a1 is None) or (mode == "A_mov" and a2 is None):
        return None
    if mode == "A_mov":
        b = bytes((a2 & 255, a1 & 255))
    elif mode in REL:
        nxt = p_addw(at, 1 + n)
        if not 0 <= a1 <= 0xffffff or a1 >> 16 != at >> 16:
            return None
        d = (a1 - nxt) & 0xffff
        d -= (d & 0x8000) << 1
        if n == 1 and not -128 <= d <= 127:
            return None
        b = (d & ((1 << 8 * n) - 1)).to_bytes(n, "little")
    else:
        b = (a1 & ((1 << 8 * n) - 1)).to_bytes(n, "little") if n else b""
    return bytes(([pre] if pre is not None else []) + [op]) + b


def s_instr(mn, am, suf, a1, a2):
    arg = lambda v: "?" if v is None else "v %d" % v
    return "%s %d %d %s %s 0" % (mn, am, suf, arg(a1), arg(a2))


def c_asm(mn, am, suf, a1, a2, at, fail):
    b = p_asm(mn, am, a1, a2, at)
    tail = "err" if b is None else "%s %06x=%s" % ("sink" if fail else "ok", at, b.hex())

    def check(out):
        size, _, rest = out.strip().partition(" ")
        return rest == tail and (b is None or int(size) == len(b))
    return Case("asm %s %x %d" % (s_instr(mn, am, suf, a1, a2), at, int(fail)), check=check, want=("? " if b is None else "%d " % len(b)) + tail, nontrivial=b is not None)


def c_far(mn, am, a1, at):
    k = isa.MODE_ORDER[am]
    t = None
    if a1 is not None and k == "A_dir_l" and mn in ("jmp", "jsl"):
        t = a1 & 0xffffff
    if a1 is not None and k == "A_dir_w" and mn in ("jmp", "jsr"):
        t = (at & 0xff0000) | (a1 & 0xffff)
    return Case("far %s %x" % (s_instr(mn, am, 0, a1, None), at), want="none" if t is None else "%06x" % t, nontrivial=t is not None)


def operands(i):
    sx = lambda v: v - (1 << 32) if v >> 31 else v
    return [sx(i["v%d" % k]) if i.get("ok%d" % k) else None for k in (1, 2)]


def rep(mode):
    def f(i):
        a = operands(i)
        return [c_asm(MN[m], isa.MODE_ORDER.index(mode), i["suffix"], a[0], a[1], i["at"], not i["sink.ok"])
                for m in ([i["mnemonic"]] if "mnemonic" in i else range(len(MN)))]
    return f


def rep_far(i):
    return [c_far(MN[i["mnemonic"]], i["mode"], operands(i)[0], i["at"])]


NCASES = 6000
NUMS = (None, 0, 1, 0x7f, 0x80, 0xff, 0x100, 0x1234, 0xffff, 0x10000, 0x123456, 0xffffff, 0x1000000, 0x1000001, 0x7fffffff, -1, -2**31)


def cases(rnd, n):
    pairs = [(m, a) for a in range(27) for m in opcodes(isa.MODE_ORDER[a])]
    for m, a in pairs:
        for _ in range(3):
            at = rand_addr(rnd) & 0xffffff
            v = rnd.choice(NUMS) if isa.MODE_ORDER[a] not in REL or rnd.random() < .3 else p_addw(at, rnd.choice((2, 3)) + rnd.choice((-129, -128, 0, 127, 128, 5, 0x8000)))
            yield c_asm(m, a, 0, v, rnd.choice(NUMS), at, rnd.random() < .2)
    for _ in range(n):
        k = rnd.random()
        at = rand_addr(rnd) & 0xffffff
        if k < .5:
            yield c_asm(rnd.choice(MN), rnd.randrange(27), rnd.randrange(3), rnd.choice(NUMS + (rnd.randrange(1 << 24),)), rnd.choice(NUMS), at, rnd.random() < .2)
        elif k < .7:
            m, a = rnd.choice(pairs)
            yield c_asm(m, a, rnd.randrange(3), rnd.randrange(-2**31, 2**31), rnd.choice(NUMS), at, rnd.random() < .2)
        else:
            yield c_far(rnd.choice(("jmp", "jsl", "jsr", "lda", "jmp")), rnd.choice((5, 6, 13, rnd.randrange(27))), rnd.choice(NUMS + (rnd.randrange(1 << 24),)), at)


ASSUMPTIONS = ["Expression::Evaluate gives a number or an error, the same one every time (C25)", "an output sink answers with success or an error and keeps no hold on the bytes",
               "the opcode table of vc/props/isa.py is the 65816's"]
