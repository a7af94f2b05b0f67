from .util import *
from .st import *
from .ins import context, Sink, Q
from . import ins, isa, c17

ID = "C18"
SRC = ["nsasm/decode.cc"] + c17.SRC
DRIVER = "instr"


def decode(op):
    name, mode = isa.OPC[op]

    def f(g):
        I, P = g.I, g.P
        g.I.contracts["nsasm::ToString"] = lambda c: g.I.sym(c.rt, "name")
        n = g.fresh("n", 64)
        P.assume(z3.ULE(n, 1 << 40))
        P.assume(z3.UGE(n, 1))
        u8 = g.type("unsigned char")
        img = I.symseq(u8, "bytes")
        data = Seq(n=n, fn=lambda i: bv(img.get(i), 8), et=u8, ver=newver())
        P.assume(eq(img.get(0), op))
        b = [z3.BitVecVal(op, 8)] + [bv(img.get(i), 8) for i in (1, 2, 3)]
        for i in (1, 2, 3):
            g.input("b%d" % i, b[i])
        g.input("n", n)
        st_, fb = state(g, "f")
        lv = P.alloc(data)
        fl = P.alloc(st_)
        r = g.call("nsasm::Decode", None, SpanV(lv, 0, n), fl)
        ok, v = errorval(r)
        w = isa.BYTES[mode]
        flag = None if isinstance(w, int) else fb[1 if w == "m" else 2]
        on, off = (eq(flag, ON), eq(flag, OFF)) if flag is not None else (None, None)
        size = z3.BitVecVal(1 + w, 64) if flag is None else z3.If(zb(on), z3.BitVecVal(2, 64), z3.BitVecVal(3, 64))
        can = b_and(b_or(on, off) if flag is not None else True, z3.UGE(n, size))
        g.cover("decodes", ok)
        if w != 0:
            g.cover("fails", b_not(ok))
        g.ensure(eq(ok, can), "fails exactly for too few bytes and unknown operand sizes")
        if not P.feasible(ok):
            return
        P.assume(ok)
        ins_ = P.alloc(v)
        c, _ = errorval(g.call(Q + "CheckConsistency", ins_, fl))
        g.ensure(c, "the instruction is consistent with the status")
        sz = bv(g.call(Q + "SerializedSize", ins_), 32)
        g.ensure(z3.ZeroExt(32, sz) == size, "as long as the bytes the processor takes")
        if mode in c17.REL:
            e = g.call("nsasm::ExpressionOrNull::Evaluate", ins_.sub(("f", "arg1")), context(g))
            vok, num = errorval(e)
            k = b[1] if w == 1 else z3.Concat(b[2], b[1])
            g.ensure(b_and(vok, bv(num, 32) == z3.SignExt(32 - 8 * w, k)), "the operand is the displacement")
            return
        a, av = addr(g, "at")
        s = Sink(g, fails=False)
        done, _ = errorval(g.call(Q + "Assemble", ins_, a, context(g), s.ptr))
        m, wa, wl, out = s.log()
        g.ensure(b_and(done, eq(m, 1)), "assembles")
        g.ensure(b_and(wl == size, *[b_imp(z3.ULT(z3.BitVecVal(i, 64), size), out[i] == b[i]) for i in range(4)]), "to the bytes decoded")
    return f


def goals():
    return [Goal("decode %02x (%s %s)" % (i, m, a), decode(i), rep(i)) for i, (m, a) in enumerate(isa.OPC)]


# ---- real code -------------------------------------------------------------------------
def c_dec(b, f):
    f = p_make(*f)
    m, mode = isa.OPC[b[0]] if b else (None, None)
    w = isa.BYTES[mode] if b else None
    if isinstance(w, str):
        v = f[1 if w == "m" else 2]
        w = {ON: 1, OFF: 2}.get(v)
        mode = {1: "A_imm_b", 2: "A_imm_w"}.get(w)
    if w is None or len(b) < 1 + w:
        want = "err"
    else:
        a = b[1:1 + w]
        am = isa.MODE_ORDER.index(mode)
        head = "%s %d %d 1" % (m, am, 1 + w)
        if mode in c17.REL:
            n = int.from_bytes(a, "little", signed=True)
            want = (head, n)
        else:
            want = (head, b" 123456=" + (b[:1 + w]).hex().encode())

    def check(out):
        out = out.strip()
        if want == "err":
            return out == "err"
        h, x = want
        if not out.startswith(h + " "):
            return False
        rest = out[len(h) + 1:]
        if isinstance(x, int):
            a1 = rest.split()[0]
            return a1.partition(":")[2] == str(x)
        return rest.endswith(x.decode())
    return Case("dec %s %d %d %d %d" % ((hx(b),) + f), check=check, want=str(want), nontrivial=want != "err")


def rep(op):
    def f(i):
        n = min(i["n"], 4)
        return [c_dec(bytes([op] + [i["b%d" % k] for k in (1, 2, 3)])[:n], tuple(i["f" + x] for x in "emxc"))]
    return f


NCASES = 8000


def cases(rnd, n):
    states = p_states()
    yield c_dec(b"", (0, 0, 0, 0))
    for op in range(256):
        for k in range(5):
            yield c_dec(bytes([op] + [rnd.choice((0, 1, 0x7f, 0x80, 0xff, rnd.randrange(256))) for _ in range(4)])[:k + 1], rnd.choice(states))
        for f in ((OFF, OFF, OFF, 0), (OFF, ON, ON, 1), (OFF, ON, OFF, 1), (UNK, UNK, UNK, UNK), (ORIG, ORIG, ORIG, ORIG)):
            yield c_dec(bytes([op, 0x12, 0x85, 0xf6]), f)
    for _ in range(n):
        yield c_dec(bytes(rnd.randrange(256) for _ in range(rnd.choice((1, 2, 3, 4, 4, 4, 6)))), rnd.choice(states))


ASSUMPTIONS = ["the opcode table of vc/props/isa.py is the 65816's", "at most 2^40 bytes are supplied"]
