from .util import *
from . import isa, c10

ID = "C15"
SRC = ["nsasm/opcode_map.cc"]
DRIVER = "op"


def numbers(g):
    """mnemonic and mode names -> enumerator values of the tree under check"""
    mn = {n.split("_", 1)[1].lower(): v for n, v in g.prog.enums["nsasm::Mnemonic"].items()}
    md = dict(g.prog.enums["nsasm::AddressingMode"])
    return mn, md


def args(g, mode=True):
    m, a = g.fresh("m", 32), g.fresh("a", 32)
    g.P.assume(z3.ULT(m, 128))
    g.P.assume(z3.ULT(a, 32))
    g.input("m", m)
    g.input("a", a)
    return m, a


def table(g, m, a):
    """[(condition, opcode)]"""
    mn, md = numbers(g)
    return [(z3.And(m == mn[x], a == md[y]), op) for (x, y), op in isa.encode().items()]


def decode(g):
    mn, md = numbers(g)
    op = g.input("op", g.fresh("op", 8))
    r = g.call("nsasm::DecodeOpcode", None, op)
    x, y = bv(r.f["first"], 32), bv(r.f["second"], 32)
    for i, (m, a) in enumerate(isa.OPC):
        g.ensure(b_imp(op == i, b_and(x == mn[m], y == md[a])), "opcode %02x is %s %s" % (i, m, a))


def back(g):
    op = g.input("op", g.fresh("op", 8))
    r = g.call("nsasm::DecodeOpcode", None, op)
    e = g.call("nsasm::EncodeOpcode", None, r.f["first"], r.f["second"])
    g.ensure(b_and(e.has, eq(bv(e.v, 8), op) if e.v is not None else False), "a decoded opcode encodes to itself")


def encode(g):
    m, a = args(g)
    r = g.call("nsasm::EncodeOpcode", None, m, a)
    t = table(g, m, a)
    g.cover("encodes", r.has)
    g.cover("does not encode", b_not(r.has))
    g.ensure(eq(r.has, b_or(*[c for c, _ in t])), "encodes exactly the pairs of the table")
    if r.v is not None:
        v = z3.BitVecVal(0, 8)
        for c, op in t:
            v = z3.If(c, z3.BitVecVal(op, 8), v)
        g.ensure(b_imp(r.has, eq(bv(r.v, 8), v)), "the opcode of the pair")


def legal(g):
    m, a = args(g)
    r = g.call("nsasm::IsLegalCombination", None, m, a)
    g.ensure(eq(r, b_or(*[c for c, _ in table(g, m, a)])), "legal exactly for the pairs of the table")


CLASS = {
    "ImmediateArgumentUsesMBit": [x for x, a in isa.OPC if a == "A_imm_fm"] + ["add", "sub"],
    "ImmediateArgumentUsesXBit": [x for x, a in isa.OPC if a == "A_imm_fx"],
    "TakesOffsetArgument": [x for x, a in isa.OPC if a in ("A_rel8", "A_rel16")],
    "TakesLongOffsetArgument": [x for x, a in isa.OPC if a == "A_rel16"],
}


def classify(fn):
    def f(g):
        mn, md = numbers(g)
        m, _ = args(g)
        r = g.call("nsasm::" + fn, None, m)
        g.ensure(eq(r, b_or(*[m == mn[x] for x in CLASS[fn]])), "%s agrees with the table" % fn)
    return f


def goals():
    allm = lambda i: [c_enc(m, a) for m in ([i["m"]] if "m" in i else range(128)) for a in ([i["a"]] if "a" in i else range(32))] + [c_cls(m) for m in ([i["m"]] if "m" in i else range(128))]
    dec = lambda i: [c_dec(o) for o in ([i["op"]] if "op" in i else range(256))]
    return [Goal("DecodeOpcode", decode, dec), Goal("decode, encode", back, dec), Goal("EncodeOpcode", encode, allm), Goal("IsLegalCombination", legal, allm)] + \
        [Goal(fn, classify(fn), allm) for fn in CLASS]


# ---- the real code ----------------------------------------------------------------------
MN = c10.NAMES["Mnemonic"]
ENC = isa.encode()


def c_dec(op):
    m, a = isa.OPC[op]
    return Case("dec %x" % op, want="%d %d" % (MN.index(m), isa.MODE_ORDER.index(a)))


def c_enc(m, a):
    k = (MN[m] if m < len(MN) else None, isa.MODE_ORDER[a] if a < len(isa.MODE_ORDER) else None)
    return Case("enc %d %d" % (m, a), want="%s %d" % ("%02x" % ENC[k] if k in ENC else "none", k in ENC), nontrivial=k in ENC)


def c_cls(m):
    n = MN[m] if m < len(MN) else None
    return Case("cls %d" % m, want=" ".join("%d" % (n in CLASS[f]) for f in CLASS))


NCASES = 4500


def cases(rnd, n):
    for o in range(256):
        yield c_dec(o)
    for m in range(128):
        yield c_cls(m)
        for a in range(32):
            yield c_enc(m, a)


ASSUMPTIONS = ["a Mnemonic holds a value below 128 and an AddressingMode one below 32 (the values such enumerations can represent)",
               "the opcode table of vc/props/isa.py is the 65816's"]
