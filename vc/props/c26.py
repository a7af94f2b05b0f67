from .par import *
from .. import lib

ID = "C26"
SRC = ["nsasm/token.cc"]
DRIVER = "parse"
B8 = z3.BitVecSort(8)
SPELLED = z3.Function("number spelled", B32, B64, B64, B64)      # base, first digit, digits


def between(c, *rs):
    return b_or(*[z3.And(z3.UGE(c, ord(a)), z3.ULE(c, ord(b))) for a, b in rs])


HEX = lambda c: between(c, "09", "af", "AF")
BIN = lambda c: between(c, "01")
DEC = lambda c: between(c, "09")
WS = lambda c: b_or(c == 32, between(c, "\t\r"))
IDF = lambda c: b_or(between(c, "az", "AZ"), c == ord("_"))
IDC = lambda c: b_or(IDF(c), DEC(c))


class Text:
    def __init__(s, g):
        P = g.P
        s.g = g
        s.n = g.fresh("length", 64)
        P.assume(z3.ULT(s.n, 1 << 31))
        f = z3.Function("char", B64, B8)
        s.raw = f

        def fn(i):
            g.I.P.touch("idx", z3.simplify(bv(i, 64)))
            return f(z3.simplify(bv(i, 64)))
        s.fn = fn

    def at(s, p):
        return StrV([("s", s.fn, z3.simplify(bv(p, 64)), z3.simplify(s.n - bv(p, 64)), "text")])

    def where(s, v):
        """Position of a view that runs to the end of the text."""
        x = v.sub()
        if x is None or x[4] != "text":
            raise Unsupported("a view of something else")
        s.g.P.oblige(bv(x[2], 64) + bv(x[3], 64) == s.n, "invariant", s.g.goal, "what remains runs to the end of the line")
        return z3.simplify(bv(x[2], 64))

    def run(s, a, cls, name):
        """End of the longest run of characters of a class from a on: the one position with these facts."""
        P = s.g.I.P
        e = P.fresh(name, B64)
        n = s.n
        P.assume(b_and(z3.UGE(e, a), z3.ULE(e, n)))
        P.assume(b_or(e == n, b_not(cls(s.raw(e)))))
        P.fact(("idx",), lambda i: b_imp(b_and(z3.UGE(i, a), z3.ULT(i, e)), cls(s.raw(i))))
        P.touch("idx", e)
        return e


class Scan:
    """Invariant of the tokenizer's loop: what remains is a suffix of the line; every turn deals with one token."""

    def __init__(s, g, text, kind):
        s.g, s.x, s.kind = g, text, kind

    def at(s, I, L):
        s.I = I
        P = I.P
        st = P.store
        views = [r for r, v in st.items() if isinstance(v, StrV) and v.sub() and v.sub()[4] == "text"]
        seqs = [r for r, v in st.items() if isinstance(v, Seq) and "Token" in str(v.et and v.et.s)]
        if len(views) != 1 or len(seqs) != 1:
            raise Undecided("the state of the tokenizer")
        s.view, s.seq = views[0], seqs[0]
        return s

    def establish(s):
        P = s.I.P
        s.x.where(P.store[s.view])
        s.g.ensure(eq(P.store[s.seq].n, 0), "no tokens before the first")

    def havoc(s):
        g, x, I = s.g, s.x, s.I
        P = I.P
        p = P.fresh("at", B64)
        P.assume(z3.ULE(p, x.n))
        s.p = p
        P.write(LV(s.view, ()), x.at(p))
        s.m = P.fresh("tokens", B64)
        P.assume(z3.ULE(s.m, 1 << 40))
        s.old = I.symseq(g.type("nsasm::Token"), "earlier", n=s.m)
        P.write(LV(s.seq, ()), s.old)
        # what stands at the next character that is no white space
        q = s.q = x.run(p, WS, "q")
        c = lambda i: x.raw(z3.simplify(q + i))
        for i in range(3):
            P.touch("idx", z3.simplify(q + i))
        has = lambda k: z3.UGT(x.n - q, k)
        dollar = b_and(has(1), c(0) == ord("$"), HEX(c(1)))
        zerox = b_and(has(2), c(0) == ord("0"), between(c(1), "xx", "XX"), HEX(c(2)))
        pct = b_and(has(1), c(0) == ord("%"), BIN(c(1)))
        dec = b_and(has(0), DEC(c(0)), b_not(zerox))
        s.is_ = {"$": dollar, "0x": zerox, "%": pct, "decimal": dec}
        s.ident = b_and(has(0), IDF(c(0)))
        s.end = b_or(b_not(has(0)), c(0) == ord(";"))
        k = s.kind
        if k in s.is_:
            P.assume(s.is_[k])
            s.a = z3.simplify(q + {"$": 1, "0x": 2, "%": 1, "decimal": 0}[k])
            s.e = x.run(s.a, {"%": BIN, "decimal": DEC}.get(k, HEX), "e")
            s.base = {"%": 2, "decimal": 10}.get(k, 16)
            s.g.input("text", s.show)
        elif k == "name":
            P.assume(s.ident)
            s.e = x.run(q, IDC, "e")
            s.g.input("text", s.show)
        elif k == "end":
            P.assume(s.end)
            s.g.input("text", s.show)
        else:
            P.assume(b_not(b_or(s.end, s.ident, *s.is_.values())))
            s.g.input("text", s.show)

    def show(s, m):
        n = m.eval(s.x.n - s.p, model_completion=True).as_long()
        at = m.eval(s.p, model_completion=True).as_long()
        f = lambda i: m.eval(s.x.raw(z3.BitVecVal(at + i, 64)), model_completion=True).as_long()
        return bytes(f(i) for i in range(min(n, 60)))

    def may(s, root, path):
        return root in (s.view, s.seq)

    def touch(s):
        """The proof looks at the positions where the runs end."""
        P = s.I.P
        P.touch("idx", z3.simplify(s.q))
        for t in list(P.touched):
            if t.startswith("it:"):
                for v in (s.q - s.p,) + ((s.e - s.a, s.e - s.q, s.e - s.q - 1) if hasattr(s, "a") else (s.e - s.q, s.e - s.q - 1) if hasattr(s, "e") else ()):
                    P.touch(t, z3.simplify(v))

    def back(s):
        g, x, P = s.g, s.x, s.I.P
        s.touch()
        p = x.where(P.store[s.view])
        P.touch("idx", p)
        r = P.store[s.seq]
        g.cover("a token")
        g.reach()
        g.ensure(b_and(z3.ULE(p, x.n), z3.UGT(p, s.p)), "something is consumed", "termination")
        g.ensure(eq(r.n, s.m + 1), "one token is added")
        i = g.fresh("earlier", 64)
        P.touch("idx", i)
        if P.feasible(ult(i, s.m)):
            g.ensure(b_imp(ult(i, s.m), val_eq(r.get(i), s.old.get(i))), "the earlier tokens stay")
        t = r.get(s.m)
        v = t.f["value_"]
        lit = s.line_alts(v)
        if s.kind in s.is_:
            g.ensure(eq(wide(v.idx), lit), "the token is a number")
            val = v.alts[lit]
            if val is not None:
                want = z3.Extract(31, 0, SPELLED(z3.BitVecVal(s.base, 32), s.a, s.e - s.a))
                fits = z3.ULT(SPELLED(z3.BitVecVal(s.base, 32), s.a, s.e - s.a), 1 << 31)
                g.ensure(b_imp(fits, bv(val, 32) == want), "it is the number its digits spell")
            d = s.e - s.a
            ty = z3.BitVecVal(0, 32) if s.kind == "decimal" else z3.If(z3.ULE(d, 8 if s.base == 2 else 2), z3.BitVecVal(1, 32), z3.If(z3.ULE(d, 16 if s.base == 2 else 4), z3.BitVecVal(2, 32), z3.BitVecVal(3, 32)))
            g.ensure(bv(t.f["type_"], 32) == ty, "its type is given by the number of digits")
            g.ensure(p == s.e, "and the scan goes on after its last digit")
        elif s.kind == "end":
            g.ensure(False, "nothing is read at the end of the line or in a comment")
        else:
            g.ensure(b_not(eq(wide(v.idx), lit)), "what is no literal gives no number")
            if s.kind == "name":
                g.ensure(p == s.e, "a name takes all its letters and digits")

    def line_alts(s, v):
        t = dict(s.I.fields(s.g.type("nsasm::Token")))["value_"].strip()
        ix = [i for i, a in enumerate(t.ta) if a.s == "int"]
        s.eol = [i for i, a in enumerate(t.ta) if "EndOfLine" in a.s][0]
        return ix[0]


def scan(kind):
    def f(g):
        I, P = g.I, g.P
        x = Text(g)
        inv = Scan(g, x, kind)

        def hoare(I, L):
            if "Tokenize" not in L.name or hasattr(inv, "I"):
                return None
            return inv.at(I, L)
        g.I.hoare = hoare

        def strip(c):
            v = c.arg(0)
            v = c.P.load(v) if isinstance(v, LV) else v
            y = v.sub()
            at = x.where(v)
            if hasattr(inv, "q") and z3.is_bv_value(z3.simplify(at - inv.p)) and z3.simplify(at - inv.p).as_long() == 0:
                return x.at(inv.q)          # the end of the same run of white space
            return x.at(x.run(at, WS, "stripped"))
        I.contracts["absl::StripLeadingAsciiWhitespace"] = strip

        def strtol(c):
            v = lib.to_str(I, c.arg(0)).sub()
            if v is None or v[4] != "text" or not isinstance(c.arg(1), Null):
                raise Unsupported("strtol of something else %s" % (v,))
            return SPELLED(bv(c.arg(2), 32), bv(v[2], 64), bv(v[3], 64))
        for n in ("strtol", "strtoul", "strtoll", "std::strtol"):
            I.contracts[n] = strtol
        for n in ("ToMnemonic", "ToSuffix", "ToDirectiveName"):
            I.contracts["nsasm::" + n] = lambda c: I.sym(c.rt, "found")
        I.contracts["absl::AsciiStrToLower"] = lambda c: I.sym(c.rt, "lower case")
        loc = P.alloc(I.sym(g.type("nsasm::Location"), "location"))
        r = g.call("nsasm::Tokenize", None, x.at(0), P.load(loc))
        r = P.load(r) if isinstance(r, LV) else r
        v = r.f["value"]
        ok = eq(v.idx, 1)
        if not hasattr(inv, "q"):
            return
        inv.touch()
        if kind in inv.is_ or kind == "name":
            g.ensure(False, "a literal or a name is never the end, nor an error")
        elif kind == "end":
            g.cover("the end")
            g.ensure(ok, "at the end of the line the tokens are returned")
            if P.feasible(ok):
                s = v.alts[1]
                g.ensure(eq(s.n, inv.m + 1), "with one more")
                t = s.get(inv.m).f["value_"]
                inv.line_alts(t)
                g.ensure(eq(wide(t.idx), inv.eol), "an end of line")
                i = g.fresh("earlier", 64)
                if P.feasible(ult(i, inv.m)):
                    g.ensure(b_imp(ult(i, inv.m), val_eq(s.get(i), inv.old.get(i))), "after the others")
        else:
            g.ensure(b_not(ok), "only the end of the line ends the tokens")
    return f


def retry(i):
    t = i.get("text", b"").decode("latin-1")
    return [c for c in (c_tok(t[:n]) for n in sorted({len(t), *range(1, min(len(t), 40))})) if c]


KINDS = ("$", "0x", "%", "decimal", "name", "other", "end")


def goals():
    return [Goal({"name": "names", "other": "everything else", "end": "end of the line"}.get(k, "literal " + k), scan(k),
                 retry, policy={"merge_ifs": False}) for k in KINDS]


# ---- real code ---------------------------------------------------------------------------------------------
def show(t):
    k, v, ty = t
    return {"eol": "eol", "id": "id:%s" % (v and hx(v.encode("latin-1")) if isinstance(v, str) else ""), "num": "num:%s:%d" % (v, ty), "mn": "mn:%s" % v, "p": "p:%s" % v,
            "suf": "suf:.%s" % v, "dir": "dir:.%s" % (v.upper() if isinstance(v, str) else "")}[k] + " "


def c_tok(text):
    r = p_tokens(text)
    if r is not None and BIG in r:
        return None
    return Case("tok " + hx(text.encode("latin-1")), want="err" if r is None else "".join(map(show, r)), nontrivial=r is not None and any(t[0] == "num" for t in r))


NCASES = 20000
FIXED = ["", " ", ";", "$0", "$00", "$000", "$0000", "$00000", "$7fffffff", "$0000000000000001", "0x0", "0x00", "0x000", "0XaB", "0x", "0xg", "$", "$g", "%", "%2", "%0", "%00000000",
         "%000000000", "%0000000000000000", "%00000000000000000", "%01111111111111111111111111111111", "0", "00", "0000000000", "2147483647", "007", "1$2", "1%1", "$1%1", "%1$1", "12abc", "$12gh",
         "%12", "abc12", "abc$12", "a1", "x$1", "1;$2", "1 ; 2", "\t$1\v", "-$10", "<$1234", "$1+$2", "#$12,$34", "lda #$1234", "0x12x", "1.b", ".db 1,2", "1:2", "0x1_", "_1", "$aBcD", "%10.w",
         "\x80", "1\x80", "$1\xff", "0b1", "1e5"]


def cases(rnd, n):
    yield from filter(None, map(c_tok, FIXED))
    bits = ["lda", "adc", "foo", "X", "a", "yields", "export", ".db", ".w", ".", "#", "(", ")", "[", "]", "+", "++", "+++", "-", "::", ":", ",", "@", "^", "<", ">", "*", "/", "{", "}", ";", "!", "_1a", "0x", "%", "$"]
    for _ in range(n):
        t = ""
        for _ in range(rnd.randrange(1, 6)):
            t += rnd.choice((rand_num(rnd), rand_num(rnd), rand_num(rnd).upper(), rnd.choice(bits))) + rnd.choice(("", "", " ", "\t", "\r"))
        c = c_tok(t)
        if c:
            yield c


TRUSTED = ["strtol(digits, null, base) is the number the digits spell in that base when it fits a long", "absl::StripLeadingAsciiWhitespace removes exactly the leading white space"]
ASSUMPTIONS = ["a line has fewer than 2^31 characters", "a literal fits an int (the property's domain)",
               "which names are mnemonics, registers, keywords or directives is not decided here (C10 covers the tables)"]
