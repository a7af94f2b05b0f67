from .util import *

ID = "C10"
SRC = ["nsasm/mnemonic.cc"]
DRIVER = "core"
KINDS = {
    "Mnemonic": ("nsasm::Mnemonic", "nsasm::ToMnemonic", "nsasm::AllMnemonics", ("M_", "PM_")),
    "Suffix": ("nsasm::Suffix", "nsasm::ToSuffix", "nsasm::AllSuffixes", ("S_",)),
    "Directive": ("nsasm::DirectiveName", "nsasm::ToDirectiveName", None, ("D_",)),
}
# what the assembler's items are called (from the instruction set and the documentation), by enumerator
SPELL = {"Mnemonic": lambda e: e.split("_", 1)[1], "Suffix": lambda e: "." + e.split("_", 1)[1],
         "Directive": lambda e: "." + e.split("_", 1)[1].upper()}


def items(prog, kind):
    """(enumerator, value) of every item of the enumeration in /repo's source."""
    q, _, _, pre = KINDS[kind]
    if q not in prog.enums:
        raise Unsupported("enumeration " + q)
    out = sorted(((n, int(v)) for n, v in prog.enums[q].items() if n.startswith(pre)), key=lambda x: x[1])
    return [(n, v) for n, v in out if not (kind == "Suffix" and n == "S_none")]


def tostr(g, kind, v):
    q = KINDS[kind][0]
    f = g.find("nsasm::ToString", pred=lambda f: len(f.ps) == 1 and f.ps[0][2].strip().s.replace("const ", "") == q)
    r = g.call(f, None, v)
    return r


def lower_eq(s, name):
    """s spells name, in any letter case."""
    from .. import lib
    return lib.LOWER(s.p[0][2]) == str_code(S(name.lower()))


def names(kind):
    def f(g):
        its = items(g.prog, kind)
        g.ensure(len(its) > 0, "there are items")
        seen = {}
        for n, v in its:
            r = tostr(g, kind, v)
            t = r.lit()
            if t is None:
                raise Unsupported("the name of %s is not a literal" % n)
            t = t.decode()
            g.input("item", lambda m, v=v: v)
            g.ensure(t != "", "%s has a non-empty name" % n)
            g.ensure(t.lower() == SPELL[kind](n).lower(), "%s prints as its assembler spelling" % n)
            g.ensure(t.lower() not in seen, "the name of %s is not the name of %s in any letter case" % (n, seen.get(t.lower())))
            seen[t.lower()] = n
        g.P.inputs.pop("item", None)
        w = g.input("value", g.fresh("value", 32))
        g.P.assume(z3.And(*[w != v for _, v in its]))
        r = tostr(g, kind, w)
        g.ensure(r.empty(), "a value outside the enumeration prints as the empty string")
    return f


def lookup(kind):
    def f(g):
        from .. import lib
        its = items(g.prog, kind)
        nm = {}
        for n, v in its:
            r = tostr(g, kind, v).lit()
            if r is None:
                raise Unsupported("the name of %s is not a literal" % n)
            nm[v] = r.decode()
        s = g.I.sym(g.find(KINDS[kind][1]).ps[0][2].strip(), "s")
        code = s.p[0][2]
        # what letter case means for the two conversions of the library
        lits = set(nm.values()) | {""}
        for t in lits:
            g.P.assume((lib.LOWER(code) == str_code(S(t.lower()))) == (lib.UPPER(code) == str_code(S(t.upper()))))
        g.P.assume((lib.LOWER(code) == str_code(S(""))) == (code == str_code(S(""))))
        for t in lits:
            g.P.assume(b_imp(code == str_code(S(t)), lib.LOWER(code) == str_code(S(t.lower()))))

        def show(m):
            for t in sorted(lits):
                if z3.is_true(m.eval(lib.LOWER(code) == str_code(S(t.lower())), model_completion=True)):
                    return t
            return "?"
        g.input("s", show)
        q = KINDS[kind][1]
        r = g.call(q, None, s)
        any_ = b_or(*[lower_eq(s, t) for t in nm.values()])
        g.cover("found", r.has)
        g.cover("not found", b_not(r.has))
        g.ensure(eq(r.has, any_), "found exactly when the string spells a name")
        for v, t in nm.items():
            g.ensure(b_imp(lower_eq(s, t), b_and(r.has, eq(bv(r.v, 32), v) if r.v is not None else False)), "'%s' in any letter case yields its item" % t)
    return f


def listing(kind):
    def f(g):
        its = items(g.prog, kind)
        r = g.call(KINDS[kind][2], None)
        v = g.P.load(r) if isinstance(r, LV) else r
        if v.items is None:
            raise Unsupported("the list is not concrete")
        got = [x for x in v.items]
        g.ensure(all(isc(x) for x in got) and sorted(got) == sorted(x for _, x in its), "every item exactly once, and nothing else")
    return f


NAMES = {
    "Mnemonic": ("adc and asl bit cld cli clv cmp cpx cpy dec dex dey eor inc inx iny lda ldx ldy lsr mvn mvp nop ora pea pei per pha phb phd "
                 "phk phx phy pla plb pld plx ply rol ror sbc sed sei sta stp stx sty stz tax tay tcd tcs tdc trb tsb tsc tsx txa txs txy tya "
                 "tyx wai wdm xba bcc bcs beq bmi bne bpl bra brk brl bvc bvs cop jmp jsl jsr rti rtl rts clc php plp rep sec sep xce add "
                 "sub").split(),
    "Suffix": [None, ".b", ".w"],
    "Directive": [".BEGIN", ".DB", ".DL", ".DW", ".END", ".ENTRY", ".EQU", ".HALT", ".MODE", ".MODULE", ".ORG", ".REMOTE"],
}
# values an enumeration of this width can hold (others are undefined behaviour for the caller)
REPR = {"Mnemonic": 128, "Suffix": 4, "Directive": 16}
OP = {"Mnemonic": ("mn2s", "s2mn"), "Suffix": ("sf2s", "s2sf"), "Directive": ("dn2s", "s2dn")}


def c_name(kind, v):
    ns = NAMES[kind]
    t = ns[v] if 0 <= v < len(ns) and ns[v] else ""

    def chk(o):
        try:
            return bytes.fromhex(o if o != "-" else "").decode().lower() == t.lower()
        except ValueError:
            return False
    return Case("%s %d" % (OP[kind][0], v), chk, want="the name '%s'" % t)


def c_look(kind, s):
    ns = [x.lower() if x else None for x in NAMES[kind]]
    low = "".join(chr(ord(c) + 32) if "A" <= c <= "Z" else c for c in s)
    w = str(ns.index(low)) if low in ns else "none"
    return Case("%s %s" % (OP[kind][1], hx(s)), want=w)


C_ALL = Case("all", lambda o: [sorted(int(x) for x in p.split(",") if x) for p in o.split(" ")] == [list(range(len(NAMES["Mnemonic"]))), [1, 2]],
             want="each mnemonic and each suffix exactly once")


def goals():
    out = []
    for k in KINDS:
        out.append(Goal("ToString(%s)" % k, names(k), lambda i, k=k: [c_name(k, j) for j in range(REPR[k])] if "value" in i else [c_name(k, i["item"])] if "item" in i else [c_name(k, j) for j in range(len(NAMES[k]))]))

        def rl(i, k=k):
            t = i.get("s", "?")
            return [c_look(k, x) for x in ([t, t.upper(), t.lower()] if t != "?" else [])] + [c_look(k, x) for x in ("zzz", ".", " ", "\0")]
        out.append(Goal("To%s(string)" % k, lookup(k), rl))
        if KINDS[k][2]:
            out.append(Goal(KINDS[k][2], listing(k), lambda i: [C_ALL]))
    return out


def cases(r, n):
    yield C_ALL
    for k in KINDS:
        for v in range(REPR[k]):
            yield c_name(k, v)
        for t in NAMES[k]:
            if t:
                for s in {t.lower(), t.upper(), t.capitalize(), t[:-1] + t[-1].swapcase(), t + "\0", t[:-1], t + " ", t + "a"}:
                    yield c_look(k, s)
        for _ in range(n // 10):
            t = r.choice([x for x in NAMES[k] if x])
            t = list("".join(r.choice([c.upper(), c.lower()]) for c in t))
            if r.random() < .4:
                t[r.randrange(len(t))] = chr(r.choice([r.randrange(1, 256), ord(t[0]) ^ 32, ord(t[-1]) ^ 1]))
            yield c_look(k, "".join(t))
