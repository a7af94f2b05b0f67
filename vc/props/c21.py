from .util import *
from .st import *

ID = "C21"
SRC = ["nsasm/execution_state.cc"]
DRIVER = "state"


def ctor(g):
    b = state4(g)
    e, m, x, c = b
    r = get(g, make(g, b))
    g.cover("consistent", inv(*b))
    g.cover("inconsistent", b_not(inv(*b)))
    g.ensure(inv(*r), "a constructed state is one of the processor's")
    g.ensure(eq(r[0], e), "e is as given")
    g.ensure(eq(r[3], c), "c is as given")
    g.ensure(b_imp(inv(*b), same4(r, b)), "every state is constructible")
    g.ensure(eq(r[1], constrained(m, e)), "m is as given as far as e allows")
    g.ensure(eq(r[2], constrained(x, e)), "x is as given as far as e allows")


def default(g):
    t = g.type("nsasm::StatusFlags")
    f = g.find(Q + "StatusFlags", pred=lambda f: len(f.ps) == 4)
    r = get(g, g.I.construct(f.info, t, [z3.BitVecVal(UNK, 8)] * 4))
    g.ensure(same4(r, [z3.BitVecVal(UNK, 8)] * 4), "the unknown state knows nothing")


def setter(n):
    def f(g):
        s, b = state(g)
        v = g.input("v", g.fresh("v", 8))
        g.P.assume(z3.ULE(v, 3))
        lv = g.P.alloc(s)
        g.call(Q + "Set%sBit" % n, lv, v)
        r = get(g, lv)
        i = "EMXC".index(n)
        for j in range(4):
            if j != i:
                g.ensure(eq(r[j], b[j]), "the flag %s is unchanged" % "emxc"[j])
        g.ensure(eq(r[i], v if n == "C" else constrained(v, b[0])), "the flag is set as far as e allows")
        g.ensure(inv(*r), "the state stays one of the processor's")
    return f


def incoming(g):
    s, b = state(g)
    lv = g.P.alloc(s)
    g.call(Q + "SetIncoming", lv)
    r = get(g, lv)
    for n, p, q in zip("emxc", b, r):
        g.ensure(eq(q, z3.If(p == UNK, z3.BitVecVal(ORIG, 8), p)), "an unknown %s becomes the one on entry, a known one stays" % n)
    g.ensure(inv(*r), "the state stays one of the processor's")


def exchange(g):
    s, b = state(g)
    lv = g.P.alloc(s)
    g.call(Q + "ExchangeCE", lv)
    r = get(g, lv)
    g.ensure(inv(*r), "the state stays one of the processor's")
    known = lambda v: z3.ULE(v, 1)
    g.ensure(b_imp(known(b[3]), eq(r[0], b[3])), "a known c becomes e")
    g.ensure(b_imp(known(b[0]), eq(r[3], b[0])), "a known e becomes c")


def merging(fn):
    def f(g):
        s, a = state(g, "s")
        t, b = state(g, "t")
        if fn == "operator|":
            r = g.call(g.find("nsasm::operator|", ptypes=["nsasm::StatusFlags", "nsasm::StatusFlags"]), None, g.P.alloc(s), g.P.alloc(t))
        else:
            lv = g.P.alloc(s)
            g.call(Q + fn, lv, g.P.alloc(t))
            r = lv
        g.ensure(inv(*get(g, r)), "the state stays one of the processor's")
    return f


def relation(g):
    s, a = state(g, "s")
    t, b = state(g, "t")
    e = g.call(Q + "operator==", g.P.alloc(s), g.P.alloc(t))
    g.cover("equal", e)
    g.cover("different", b_not(e))
    g.ensure(eq(e, same4(a, b)), "states are equal exactly when all four flags are")
    n = g.call(Q + "operator!=", g.P.alloc(s), g.P.alloc(t))
    g.ensure(eq(n, b_not(e)), "!= is the negation")


# ---- names ---------------------------------------------------------------------------
NAMES = {"unk": (UNK, UNK, UNK), "emu": (ON, ON, ON), "native": (OFF, UNK, UNK)}
for _m, _mv in (("", UNK), ("m8", ON), ("m16", OFF)):
    for _x, _xv in (("", UNK), ("x8", ON), ("x16", OFF)):
        if _m + _x:
            NAMES[_m + _x] = (OFF, _mv, _xv)


def low(c):
    return z3.If(z3.And(z3.UGE(c, 0x41), z3.ULE(c, 0x5a)), c + 32, c)


def symname(g):
    fn = g.P.fresh_fn("name", [z3.BitVecSort(64)], z3.BitVecSort(8))
    n = g.fresh("len", 64)
    g.P.assume(z3.ULE(n, 1 << 40))
    s = StrV([("s", fn, z3.BitVecVal(0, 64), n, "name")])

    def show(m):
        k = m.eval(n, model_completion=True).as_long()
        return "".join(chr(m.eval(fn(z3.BitVecVal(i, 64)), model_completion=True).as_long()) for i in range(min(k, 12)))
    g.input("name", show)
    return s, fn, n


def from_name(g):
    s, fn, n = symname(g)
    spells = lambda t: z3.And(n == len(t), *[low(fn(z3.BitVecVal(i, 64))) == ord(ch) for i, ch in enumerate(t)])
    r = g.call(Q + "FromName", None, s)
    g.cover("found", r.has)
    g.cover("not found", b_not(r.has))
    g.ensure(eq(r.has, z3.Or(*[spells(t) for t in NAMES])), "accepts exactly the state names, in any letter case")
    if r.v is not None:
        b = get(g, r.v)
        g.ensure(b_imp(r.has, inv(*b)), "the state read is one of the processor's")
        for t, want in NAMES.items():
            g.ensure(b_imp(spells(t), same4(b[:3], want)), "'%s' reads as its state" % t)


def round_trip(g):
    s, b = state(g)
    e, m, x, c = b
    P = g.P
    r = g.call(Q + "ToName", P.alloc(s))
    t = r.lit()
    if t is None:
        # spelled from parts: decide the parts
        raise Unsupported("the name is not a literal")
    t = t.decode()
    g.ensure(t in NAMES, "the name printed is a state name")
    if t not in NAMES:
        return
    g.cover("prints " + t)
    g.ensure(eq(b_not(z3.ULE(e, 1)), t == "unk"), "the unknown name is printed exactly when e is unknown")
    back = g.call(Q + "FromName", None, S(t))
    g.ensure(back.has, "the name printed is accepted")
    if back.v is None:
        return
    q = get(g, back.v)
    kn = z3.ULE(e, 1)
    same_known = lambda p, q: b_and(eq(z3.ULE(p, 1), z3.ULE(q, 1)), b_imp(z3.ULE(p, 1), eq(p, q)))
    g.ensure(b_imp(kn, b_and(same_known(e, q[0]), same_known(m, q[1]), same_known(x, q[2]))), "reading the name back gives the same known e, m and x")
    g.ensure(b_imp(b_not(kn), b_not(z3.ULE(q[0], 1))), "an unknown e is read back as unknown")


def to_string(g):
    s, b = state(g)
    P = g.P
    n = g.call(Q + "ToName", P.alloc(s))
    r = g.call(Q + "ToString", P.alloc(s))
    c = b[3]
    tail = ", c=1" if P.branch(c == ON) else ", c=0" if P.branch(c == OFF) else ""
    g.ensure(str_eq(r, n + S(tail)), "the description is the name and the known carry")


def goals():
    rp = lambda ops: lambda i: [c_ops(tuple(i.get("s" + k, 0) for k in "emxc"), o) for o in ops(i)]
    tt = lambda i: tuple(i.get("t" + k, 0) for k in "emxc")
    G = [Goal("StatusFlags", ctor, rp(lambda i: [[]])), Goal("unknown", default)]
    G += [Goal("Set%sBit" % n, setter(n), rp(lambda i, n=n: [[(n.lower(), i.get("v", 0))]])) for n in "MXC"]
    G += [Goal("SetIncoming", incoming, rp(lambda i: [[("in",)]])), Goal("ExchangeCE", exchange, rp(lambda i: [[("xce",)]]))]
    G += [Goal(f, merging(f), rp(lambda i: [[("|",) + tt(i)]])) for f in ("operator|", "operator|=")]
    G += [Goal("operator==", relation, lambda i: [c_eq(tuple(i.get("s" + k, 0) for k in "emxc"), tt(i))])]
    G += [Goal("FromName", from_name, lambda i: [c_name(i["name"])]), Goal("ToName, FromName", round_trip, rp(lambda i: [[]]), policy={"merge_ifs": False}),
          Goal("ToString", to_string, rp(lambda i: [[]]), policy={"merge_ifs": False})]
    return G


# ---- the real code ----------------------------------------------------------------------
def p_name(s):
    for n, v in NAMES.items():
        if s[0] == ON and n == "emu" or s[0] in (ORIG, UNK) and n == "unk":
            return n
        kn = tuple(v if v < 2 else UNK for v in s[:3])
        if s[0] == OFF and v == kn and n != "unk":
            return n


def p_ops(s, ops):
    s = p_make(*s)
    for o in ops:
        e, m, x, c = s
        if o[0] == "m":
            s = (e, p_con(o[1], e), x, c)
        elif o[0] == "x":
            s = (e, m, p_con(o[1], e), c)
        elif o[0] == "c":
            s = (e, m, x, o[1])
        elif o[0] == "in":
            s = tuple(ORIG if v == UNK else v for v in s)
        elif o[0] == "|":
            s = p_merge(s, p_make(*o[1:]))
        elif o[0] == "xce":
            f = lambda v: v if v < 2 else None
            s = (f(c), None, None, f(e)), s
            break
    return s


def p_inv(e, m, x):
    return all((e != ON or b == ON) and (b != OFF or e == OFF) and (b != ORIG or e in (OFF, ORIG)) for b in (m, x))


def c_ops(s, ops):
    want = p_ops(s, ops)
    line = "st %d %d %d %d " % tuple(s) + " ".join(" ".join(str(v) for v in o) for o in ops) + " ."

    def ok(out):
        w = out.split()
        if len(w) < 5:
            return False
        v = [int(x) for x in w[:4]]
        if not p_inv(*v[:3]) or w[4] != p_name(v):
            return False
        if isinstance(want[0], tuple):
            return all(p is None or p == q for p, q in zip(want[0], v))
        return tuple(v) == tuple(want)
    return Case(line, check=ok)


def c_eq(a, b):
    return Case("steq %d %d %d %d %d %d %d %d" % (tuple(a) + tuple(b)), want="%d" % (p_make(*a) == p_make(*b)))


def c_name(s):
    v = NAMES.get("".join(chr(ord(c) + 32) if "A" <= c <= "Z" else c for c in s))
    return Case("stname " + hx(s), want="none" if v is None else "%d %d %d" % v, nontrivial=v is not None)


NCASES = 3000


def cases(rnd, n):
    for s in p_states():
        yield c_ops(s, [])
    for t in NAMES:
        for v in (t, t.upper(), t.title(), t + " ", t[:-1], " " + t, t + "x", t.replace("m", "n")):
            yield c_name(v)
    al = "emxunkativ816MX06 "
    for _ in range(n):
        k = rnd.randrange(4)
        if k == 0:
            yield c_name("".join(rnd.choice(al) for _ in range(rnd.randrange(7))))
        elif k == 1:
            a, b = rnd.choice(p_states()), rnd.choice(p_states())
            yield c_eq(a, b if rnd.random() < .7 else a)
        else:
            ops = []
            for _ in range(rnd.randrange(6)):
                ops.append(rnd.choice([("m", rnd.randrange(4)), ("x", rnd.randrange(4)), ("c", rnd.randrange(4)), ("in",), ("|",) + rnd.choice(p_states())]))
            if rnd.random() < .3:
                ops.append(("xce",))
            yield c_ops(tuple(rnd.randrange(4) for _ in range(4)), ops)


ASSUMPTIONS = ["a BitState holds one of its four values"]
