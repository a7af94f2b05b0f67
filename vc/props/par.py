"""The parser's vocabulary: an arbitrary line of tokens, abstract operand expressions and the contracts of the
expression grammar's functions."""
from .util import *
from ..loops import diff, get_at
from ..engine import Undecided

PARSE = "nsasm::"
TYPES = "unknown byte word long signed_byte signed_word signed_long".split()
U, B64, B32 = "unknown", z3.BitVecSort(64), z3.BitVecSort(32)


def wide(x):
    """An index of any width, as 64 bits."""
    return bv(x, 64) if isc(x) else x if x.size() == 64 else z3.ZeroExt(64 - x.size(), x)


class Line:
    """n tokens, the last of which is an end of line.  kind(i), punct(i), number(i), type(i): what token i is."""

    def __init__(s, g, name="tok"):
        I, P = g.I, g.P
        s.g = g
        t = g.type("nsasm::Token")
        s.n = g.fresh("n", 64)
        P.assume(z3.And(z3.UGT(s.n, 0), z3.ULE(s.n, 1 << 40)))
        s.seq = I.symseq(t, name, n=s.n)
        s.lv = P.alloc(s.seq)
        vt = dict(I.fields(t))["value_"].strip()
        s.alt = {}
        for i, a in enumerate(vt.ta):
            s.alt[str(a.tn or a.s or "").split("::")[-1].split("<")[0]] = i
        names = [a.s for a in vt.ta]
        for key in ("Punctuation", "EndOfLine", "Mnemonic", "Suffix", "DirectiveName", "basic_string", "int"):
            ix = [i for i, x in enumerate(names) if key in x or (key == "basic_string" and "string" in x)]
            if len(ix) != 1:
                raise Unsupported("the alternatives of Token: %s" % names)
            s.alt[key] = ix[0]
        s.alts = len(names)
        # the tokenizer's contract: known kinds and types, end of line last and nowhere else
        P.fact(("idx",), lambda i: b_imp(ult(i, s.n), s.wf(i)))
        s.touch(s.n - 1)

    def wf(s, i):
        v = s.val(i)
        return b_and(z3.ULT(wide(v.idx), s.alts), eq(s.is_(i, "EndOfLine"), i == s.n - 1), z3.ULT(s.type(i), len(TYPES)))

    def touch(s, i):
        s.g.P.touch("idx", z3.simplify(bv(i, 64)))

    def rec(s, i):
        return s.seq.get(bv(i, 64))

    def val(s, i):
        return s.rec(i).f["value_"]

    def is_(s, i, key):
        v = s.val(i)
        return wide(v.idx) == s.alt[key]

    def punct(s, i, *chars):
        v = s.val(i).alts[s.alt["Punctuation"]]
        return b_and(s.is_(i, "Punctuation"), b_or(*[bv(v, 32) == (ord(c) if isinstance(c, str) else c) for c in chars]))

    def number(s, i):
        return bv(s.val(i).alts[s.alt["int"]], 32)

    def text(s, i):
        return s.val(i).alts[s.alt["basic_string"]]

    def type(s, i):
        return bv(s.rec(i).f["type_"], 32)

    def span(s, p):
        return SpanV(s.lv, bv(p, 64), z3.simplify(s.n - bv(p, 64)))

    def pos(s, sp):
        """Position of a span of this line (it always reaches to the end)."""
        if not isinstance(sp, SpanV):
            raise Unsupported("a span of something else")
        if sp.lv.root != s.lv.root:
            v = s.g.P.load(sp.lv)       # the same line, held elsewhere
            if not (isinstance(v, Seq) and isinstance(v.n, z3.ExprRef) and v.n.eq(s.n)):
                raise Unsupported("a span of something else")
            s.lv = sp.lv
        s.g.P.oblige(bv(sp.off, 64) + bv(sp.n, 64) == s.n, "invariant", s.g.goal, "the position runs to the end of the line")
        return z3.simplify(bv(sp.off, 64))


class Ex:
    """What an expression means in the context at hand: type, whether it evaluates, to what (0 when not)."""

    def __init__(s, t, ok, v):
        s.t, s.ok, s.v = t, ok, z3.simplify(z3.If(zb(ok), bv(v, 32), z3.BitVecVal(0, 32)))

    def same(s, o):
        return b_and(bv(s.t, 32) == bv(o.t, 32), eq(zb(s.ok), zb(o.ok)), s.v == o.v)


class Family:
    """Uninterpreted results over some arguments: parsed ok, next position, expression."""

    def __init__(s, name, *sorts):
        f = lambda n, r: z3.Function("%s.%s" % (name, n), *sorts, r)
        s.pok_, s.end_, s.t_, s.ok_, s.v_ = f("parsed", z3.BoolSort()), f("end", B64), f("type", B32), f("evaluates", z3.BoolSort()), f("value", B32)

    def at(s, *a):
        return s.pok_(*a), s.end_(*a), Ex(s.t_(*a), s.ok_(*a), s.v_(*a))


def abstract(g, ex):
    """An expression object about which only its meaning is known."""
    t = g.type("nsasm::Expression")
    return g.P.alloc(Rec(t.key, {"#t": ex.t, "#ok": ex.ok, "#v": ex.v}, t.tn))


def wrap(g, lv):
    """ExpressionOrNull holding the object."""
    e = g.type("nsasm::ExpressionOrNull")
    fs = g.I.fields(e)
    if len(fs) != 1:
        raise Unsupported("the fields of ExpressionOrNull")
    return Rec(e.key, {fs[0][0]: UPtr(Ptr(lv))}, e.tn)


def expressions(g):
    """Contracts of abstract expressions."""
    I = g.I
    err = I.sym(g.type("nsasm::Error"), "not evaluable")

    def of(c):
        v = c.P.load(c.obj)
        if not isinstance(v, Rec) or "#t" not in v.f:
            raise Unsupported("an unknown expression")
        return v
    I.contracts["nsasm::Expression::Type"] = lambda c: of(c).f["#t"]
    I.contracts["nsasm::Expression::Evaluate"] = lambda c: Rec(c.rt.key, {"value": VarV(merge(of(c).f["#ok"], 1, 0), (err, of(c).f["#v"]))}, c.rt.tn)
    I.contracts["nsasm::Expression::Copy"] = lambda c: UPtr(Ptr(c.P.alloc(of(c))))
    I.contracts["nsasm::Token::ToString"] = lambda c: I.sym(c.rt, "token text")


def meaning(g, e, ctx):
    """What an ExpressionOrNull value means: evaluates the real code on it."""
    I, P = g.I, g.P
    lv = P.alloc(e)
    f = g.find("nsasm::ExpressionOrNull::Type")
    t = I.dispatch_any(f.info, lv, [], None)
    f = g.find("nsasm::ExpressionOrNull::Evaluate")
    r = I.dispatch_any(f.info, lv, [ctx], None)
    ok, v = errorval(P.load(r) if isinstance(r, LV) else r)
    return Ex(bv(t, 32), zb(ok), bv(0 if v is None else v, 32))


def comb(a, b):
    """Type of a combination: the wider, signed when either is; an untyped operand takes the other's."""
    a, b = bv(a, 32), bv(b, 32)
    un = lambda t: z3.If(z3.UGE(t, 4), t - 3, t)
    sg = z3.Or(z3.UGE(a, 4), z3.UGE(b, 4))
    w = z3.If(z3.UGT(un(a), un(b)), un(a), un(b))
    return z3.If(a == 0, b, z3.If(b == 0, a, z3.If(sg, w + 3, w)))


def cast(t, v):
    r = v
    for k, bits, sg in ((1, 8, 0), (2, 16, 0), (3, 24, 0), (4, 8, 1), (5, 16, 1), (6, 24, 1)):
        x = z3.Extract(bits - 1, 0, v)
        r = z3.If(t == k, (z3.SignExt if sg else z3.ZeroExt)(32 - bits, x), r)
    return r


def binary(op, a, b):
    t = comb(a.t, b.t)
    ok = b_and(a.ok, b.ok)
    if op == "+":
        v = a.v + b.v
    elif op == "-":
        v = a.v - b.v
    elif op == "*":
        v = a.v * b.v
    else:
        ok = b_and(ok, b.v != 0)
        v = a.v / b.v
    return Ex(t, ok, v)


def unary(op, a):
    if op == "-":
        return Ex(z3.If(z3.And(z3.UGE(a.t, 1), z3.ULE(a.t, 3)), a.t + 3, a.t), a.ok, 0 - a.v)
    sh = {"<": 0, ">": 8, "^": 16}[op]
    return Ex(z3.BitVecVal(1, 32), a.ok, z3.LShR(a.v, sh) & 0xff)


def ites(cases, other):
    for c, x in reversed(cases):
        other = tuple(b_ite(zb(c), zb(a), zb(b)) if i == 0 else z3.If(zb(c), a, b) if i == 1 else
                      Ex(z3.If(zb(c), bv(a.t, 32), bv(b.t, 32)), b_ite(zb(c), zb(a.ok), zb(b.ok)), z3.If(zb(c), a.v, b.v)) for i, (a, b) in enumerate(zip(x, other)))
    return other


class Grammar:
    """expr -> term {+- term}; term -> factor {*/ factor}; factor -> [-<>^] factor | comp.
    f[X].at(p): what X gives from position p."""

    def __init__(s, g, line):
        s.g, s.line = g, line
        s.f = {x: Family(x, B64) for x in ("Expr", "Term", "Factor", "Comp")}
        s.rest = {x: Family(x + " rest", B64, B32, z3.BoolSort(), B32) for x in ("Expr", "Term")}
        s.fresh()

    def fresh(s):
        pass

    def post(s, x, p):
        """What is known of any x parsed at p (its own contract)."""
        pok, end, e = s.f[x].at(p)
        return b_imp(pok, b_and(ult(p, end), ult(end, s.line.n), z3.ULT(e.t, len(TYPES))))

    LEVEL = {"Expr": ("Term", "+-"), "Term": ("Factor", "*/")}

    def unfold(s, x, p, e):
        """Definition of what remains of x after e, at p."""
        sub, ops = s.LEVEL[x]
        pok, end, b = s.f[sub].at(p + 1)
        s.line.touch(p)
        cs = []
        for op in ops:
            r = binary(op, e, b)
            nxt = s.rest[x].at(end, r.t, zb(r.ok), r.v)
            cs.append((b_and(s.line.punct(p, op), b_not(pok)), (False, p, e)))
            cs.append((s.line.punct(p, op), nxt))
        return ites(cs, (True, p, e))

    def rest_at(s, x, p, e):
        return s.rest[x].at(p, e.t, zb(e.ok), e.v)


def res_eq(a, b):
    """Two results (parsed, end, expression) agree."""
    return b_and(eq(zb(a[0]), zb(b[0])), b_imp(a[0], b_and(a[1] == b[1], a[2].same(b[2]))))


# ---- reference reader ------------------------------------------------------------------------------------------------------------------------
DIRS = "begin db dl dw end entry equ halt mode module org remote".split()
WORDS = {"export": 258, "noreturn": 259, "yields": 260}
MULTI = {"+++": 262, "---": 264, "::": 257, "++": 261, "--": 263}
_mn = set()
BIG = ("big", None, 0)      # a literal that does not fit an int: nothing is claimed about it


def mnemonics():
    from . import isa
    if not _mn:
        _mn.update(m for m, _ in isa.OPC)
        _mn.update(("add", "sub"))
    return _mn


def p_tokens(text):
    """Tokens of a line: (kind, value, type); None when the text is not a line of tokens."""
    out, i, n = [], 0, len(text)
    hexd, idc = "0123456789abcdefABCDEF", "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_"
    ident = idc + "0123456789"

    def run(j, cs):
        while j < n and text[j] in cs:
            j += 1
        return j
    while True:
        i = run(i, " \t\n\v\f\r")
        if i >= n or text[i] == ";":
            return out + [("eol", None, 0)]
        c = text[i]
        for k in (3, 2):
            if text[i:i + k] in MULTI:
                out.append(("p", MULTI[text[i:i + k]], 0))
                i += k
                break
        else:
            d = text[i + 1:i + 2]
            if c in "()[],:#+-*/@{}><^":
                out.append(("p", ord(c), 0))
                i += 1
            elif (c == "$" and d and d in hexd) or (c == "0" and d and d in "xX" and text[i + 2:i + 3] and text[i + 2] in hexd):
                a = i + (1 if c == "$" else 2)
                i = run(a, hexd)
                out.append(BIG if int(text[a:i], 16) >> 31 else ("num", int(text[a:i], 16), 1 if i - a <= 2 else 2 if i - a <= 4 else 3))
            elif c == "%" and d and d in "01":
                a = i + 1
                i = run(a, "01")
                out.append(BIG if int(text[a:i], 2) >> 31 else ("num", int(text[a:i], 2), 1 if i - a <= 8 else 2 if i - a <= 16 else 3))
            elif c in "0123456789":
                a = i
                i = run(a, "0123456789")
                out.append(BIG if int(text[a:i]) >> 31 else ("num", int(text[a:i]), 0))
            elif c == ".":
                a = i
                i = run(i + 1, ident)
                w = text[a + 1:i].lower()
                if w in DIRS:
                    out.append(("dir", w, 0))
                elif w in ("b", "w"):
                    out.append(("suf", w, 0))
                else:
                    return None
            elif c in idc:
                a = i
                i = run(i, ident)
                w = text[a:i]
                l = w.lower()
                out.append(("mn", l, 0) if l in mnemonics() else ("p", ord(w.upper()), 0) if l in ("a", "s", "x", "y") else
                           ("p", WORDS[l], 0) if l in WORDS else ("id", w, 0))
            else:
                return None


def p_lookup(mod, name):
    if name[0] == "u":
        return None
    v = 1 if mod is None else 7
    for c in (name if mod is None else mod + "::" + name).encode():
        v = (v * 31 + c) & 0xffffffff
    return s32(v)


def p_cast(t, v):
    if not t:
        return v
    b = (8, 16, 24)[(t - 1) % 3]
    v &= (1 << b) - 1
    return v - (1 << b) if t > 3 and v >> (b - 1) else v


def p_comb(a, b):
    if not a or not b:
        return a or b
    u = max((a - 1) % 3, (b - 1) % 3) + 1
    return u + 3 if a > 3 or b > 3 else u


class Bad(Exception):
    pass


def p_expr(ts, i):
    """(next position, type, value or None)"""
    def P(j, c):
        return ts[j][0] == "p" and ts[j][1] == (c if isinstance(c, int) else ord(c))

    def level(i, ops, sub):
        i, t, v = sub(i)
        while any(P(i, o) for o in ops):
            o = chr(ts[i][1])
            i, t2, v2 = sub(i + 1)
            t = p_comb(t, t2)
            if v is None or v2 is None or (o == "/" and v2 == 0):
                v = None
            elif o == "/":
                q = abs(v) // abs(v2)
                v = s32(q if (v < 0) == (v2 < 0) else -q)
            else:
                v = s32(v + v2 if o == "+" else v - v2 if o == "-" else v * v2)
        return i, t, v

    def factor(i):
        for o in "-<>^":
            if P(i, o):
                j, t, v = factor(i + 1)
                if o == "-":
                    return j, t + 3 if 1 <= t <= 3 else t, None if v is None else s32(-v)
                return j, 1, None if v is None else (v >> {"<": 0, ">": 8, "^": 16}[o]) & 0xff
        return comp(i)

    def comp(i):
        k, v, t = ts[i]
        if k == "num":
            return i + 1, t, p_cast(t, v)
        lt = 2
        if P(i, "@"):
            i, lt = i + 1, 3
            if ts[i][0] != "id" and not P(i, 257):
                raise Bad
        if P(i, 257):
            if ts[i + 1][0] != "id":
                raise Bad
            return i + 2, lt, p_lookup("", ts[i + 1][1])
        if ts[i][0] == "id":
            if P(i + 1, 257):
                if ts[i + 2][0] != "id":
                    raise Bad
                return i + 3, lt, p_lookup(ts[i][1], ts[i + 2][1])
            return i + 1, lt, p_lookup(None, ts[i][1])
        if P(i, "("):
            i, t, v = expr(i + 1)
            if not P(i, ")"):
                raise Bad
            return i + 1, t, v
        raise Bad

    def term(i):
        return level(i, "*/", factor)

    def expr(i):
        return level(i, "+-", term)
    return expr(i)


def p_whole(text):
    """(type, value or None) of a line that is one expression; None when it is not."""
    ts = p_tokens(text)
    if ts is None:
        return None
    try:
        i, t, v = p_expr(ts, 0)
    except Bad:
        return None
    return (t, v) if ts[i][0] == "eol" or ts[i][:2] == ("p", ord(":")) else None


def rand_num(rnd):
    k = rnd.randrange(6)
    if k == 0:
        return "$%0*x" % (rnd.randrange(1, 8), rnd.randrange(1 << rnd.choice((4, 8, 16, 24, 31))))
    if k == 1:
        return "%" + format(rnd.randrange(1 << rnd.randrange(1, 31)), "0%db" % rnd.randrange(1, 20))
    if k == 2:
        return "0x%X" % rnd.randrange(1 << rnd.choice((8, 16, 24)))
    return str(rnd.choice((0, 1, 2, 3, 7, 10, 255, 256, 65535, 2 ** 31 - 1, 2 ** 31 - 2, rnd.randrange(1 << 31))))


def rand_expr(rnd, d):
    sp = lambda: rnd.choice(("", "", " ", "  "))
    if d <= 0 or rnd.random() < .2:
        return rnd.choice((rand_num(rnd), rand_num(rnd), rnd.choice(("foo", "undef", "m::n", "::g", "@far", "@m::n", "@::g", "q1", "u::v", "Foo_2"))))
    k = rnd.randrange(7)
    if k < 4:
        op = rnd.choice("+-*/")
        r = rand_expr(rnd, d - 1)
        return rand_expr(rnd, d - 1) + sp() + op + (" " if r[0] in "+-" else sp()) + r
    if k < 6:
        r = rand_expr(rnd, d - 1)
        return rnd.choice("-<>^") + (" " if r[0] == "-" else sp()) + r
    return "(" + sp() + rand_expr(rnd, d - 1) + sp() + ")"
