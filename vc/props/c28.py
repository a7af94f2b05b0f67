from .util import *
from .st import *
from .ins import context, Sink, Q
from . import ins, isa, c17, c18
from .c22 import p_states
from .. import lib

ID = "C28"
SRC = ["nsasm/" + f for f in ("token.cc", "parse.cc", "instruction.cc", "addressing_mode.cc", "expression.cc", "decode.cc", "opcode_map.cc", "mnemonic.cc", "statement.cc",
                              "calling_convention.cc")]
DRIVER = "parse"
OPS = [i for i, (m, a) in enumerate(isa.OPC) if a not in c17.REL]


def spelled(g, s):
    """The characters of a text in which numbers stand printed in hexadecimal."""
    out = []
    for x in s.p:
        if isinstance(x, tuple) and x[0] == "x":
            _, v, w, up = x
            v = bv(v, 32)
            w = max(w, 1)
            while w < 8 and not g.P.branch(z3.ULT(v, 1 << 4 * w)):
                w += 1
            for i in reversed(range(w)):
                n = z3.simplify(z3.ZeroExt(4, z3.Extract(4 * i + 3, 4 * i, v)))
                out.append(("c", z3.simplify(z3.If(z3.ULT(n, 10), n + 48, n + (55 if up else 87)))))
        else:
            out.append(x)
    return StrV(out)


def digits(c):
    """strtol of a text of known length: the number its digits spell."""
    cs = lib.to_str(c.I, c.arg(0)).chars()
    base = c.arg(2)
    if cs is None or not isc(base):
        raise Unsupported("strtol of something else")
    v = z3.BitVecVal(0, 64)
    for ch in cs:
        ch = bv(ch, 8)
        d = z3.If(z3.ULE(ch, ord("9")), ch - ord("0"), z3.If(z3.UGE(ch, ord("a")), ch - ord("a") + 10, ch - ord("A") + 10))
        c.P.oblige(z3.ULT(d, base), "precondition", c.I.where(), "strtol is given digits")
        v = v * base + z3.ZeroExt(56, d)
    return z3.simplify(v)


def strip(c):
    """The text without the white space it starts with."""
    cs = lib.to_str(c.I, c.arg(0)).chars()
    if cs is None:
        raise Unsupported("white space of something else")
    while cs:
        x = bv(cs[0], 8)
        if not c.P.branch(z3.simplify(z3.Or(x == 32, z3.And(z3.UGE(x, 9), z3.ULE(x, 13))))):
            break
        cs = cs[1:]
    return StrV([bytes((x,)) if isc(x) else ("c", x) for x in cs])


def there_and_back(op):
    name, mode = isa.OPC[op]

    def f(g):
        I, P = g.I, g.P
        for n in ("strtol", "std::strtol"):
            I.contracts[n] = digits
        I.contracts["absl::StripLeadingAsciiWhitespace"] = strip
        u8 = g.type("unsigned char")
        b = [z3.BitVecVal(op, 8)] + [g.fresh("b%d" % i, 8) for i in (1, 2, 3)]
        for i in (1, 2, 3):
            g.input("b%d" % i, b[i])
        st_, fb = state(g, "f")
        fl = P.alloc(st_)
        ok, v = errorval(g.call("nsasm::Decode", None, SpanV(P.alloc(Seq(b, et=u8, ver=newver())), 0, 4), fl))
        if not P.branch(ok):
            return
        lv = P.alloc(v)
        w = isa.BYTES[mode]
        flag = fb[{"m": 1, "x": 2}[w]] if not isinstance(w, int) else None
        size = (2 if P.branch(eq(flag, ON)) else 3) if flag is not None else 1 + w
        # the suffix its flags imply, or none
        sfx = g.fresh("suffix", None)
        g.input("suffix", sfx)
        if P.branch(sfx):
            x = fb[1] if name in isa.M_WIDE else fb[2] if name in isa.X_WIDE else None
            if x is not None:
                e = g.prog.enums["nsasm::Suffix"]
                if P.branch(eq(x, ON)):
                    P.write(lv.f("suffix"), e["S_b"])
                elif P.branch(eq(x, OFF)):
                    P.write(lv.f("suffix"), e["S_w"])
        text = g.call(Q + "ToString", lv)
        text = spelled(g, P.load(text) if isinstance(text, LV) else text)
        loc = P.load(P.alloc(I.sym(g.type("nsasm::Location"), "location")))
        ok, toks = errorval(g.call("nsasm::Tokenize", None, text, loc))
        g.ensure(ok, "what is printed is made of tokens")
        if toks is None:
            return
        ok, sts = errorval(g.call("nsasm::Parse", None, SpanV(P.alloc(toks), 0, toks.n)))
        g.ensure(ok, "it is an instruction the parser takes")
        if sts is None:
            return
        g.ensure(eq(sts.n, 1), "one statement")
        s = P.alloc(sts)
        t = P.load(s.sub(("e", 0)))
        g.ensure(eq(t.idx, 0), "and no label")
        if t.alts[0] is None:
            return
        d = t.alts[0].f["data_"]
        g.ensure(eq(d.idx, 0), "an instruction")
        if d.alts[0] is None:
            return
        j = P.alloc(d.alts[0])
        ok, _ = errorval(g.call(Q + "CheckConsistency", j, fl))
        g.ensure(ok, "consistent with the same status")
        ok, _ = errorval(g.call(Q + "FixAddressingMode", j, fl))
        g.ensure(ok, "with a definite operand size")
        a, av = addr(g, "at")
        k = Sink(g, fails=False)
        done, _ = errorval(g.call(Q + "Assemble", j, a, context(g), k.ptr))
        m, wa, wl, out = k.log()
        g.cover("read back")
        g.ensure(b_and(done, eq(m, 1)), "it assembles")
        g.ensure(b_and(eq(wl, size), *[out[i] == b[i] for i in range(size)]), "to the bytes it was decoded from")
    return f


def goals():
    return [Goal("opcode %02x (%s %s)" % (i, *isa.OPC[i]), there_and_back(i), rep(i), policy={"merge_ifs": False, "loop_policy": {"*": "unroll"}}) for i in OPS]


# ---- real code ---------------------------------------------------------------------------------------------
def c_rt(b, f, s):
    f = p_make(*f)
    mode = isa.OPC[b[0]][1]
    w = isa.BYTES[mode]
    if isinstance(w, str):
        w = {ON: 1, OFF: 2}.get(f[1 if w == "m" else 2])

    def check(out):
        out = out.strip()
        if w is None or len(b) < 1 + w:
            return out == "err"
        return out.partition(" ")[2].strip() == "123456=" + b[:1 + w].hex()
    return Case("rt %s %d %d %d %d %d" % ((hx(b),) + f + (s,)), check=check, want="err" if w is None else b[:1 + w].hex(), nontrivial=w is not None)


def rep(op):
    return lambda i: [c_rt(bytes([op] + [i["b%d" % k] for k in (1, 2, 3)]), tuple(i["f" + x] for x in "emxc"), s) for s in (0, 1)]


NCASES = 6000


def cases(rnd, n):
    states = p_states()
    for op in OPS:
        for s in (0, 1):
            for f in ((OFF, OFF, OFF, 0), (OFF, ON, ON, 1), (OFF, ON, OFF, 1), (OFF, OFF, ON, 1), (UNK, UNK, UNK, UNK)):
                yield c_rt(bytes([op, 0x12, 0x85, 0xf6]), f, s)
                yield c_rt(bytes([op] + [rnd.choice((0, 1, 0x7f, 0x80, 0xff, rnd.randrange(256))) for _ in range(3)]), f, s)
    for _ in range(n):
        yield c_rt(bytes([rnd.choice(OPS)] + [rnd.randrange(256) for _ in range(3)]), rnd.choice(states), rnd.randrange(2))


TRUSTED = ["strtol of hexadecimal digits is the number they spell"]
ASSUMPTIONS = ["the opcode table of vc/props/isa.py is the 65816's"]
