"""Modules and assemblers: an arbitrary module's lines, its names, and contracts of the parts of a line."""
from .util import *
from .. import hashmap
from ..loops import diff, get_at
from ..engine import Undecided
from .par import wide

INT = z3.IntSort()
B64, B32 = z3.BitVecSort(64), z3.BitVecSort(32)
SRC = ["nsasm/module.cc", "nsasm/assembler.cc", "nsasm/ranges.cc", "/verif/replay/inst_asm.cc"]


def opaque(I, t, name, over={}):
    """A record of the type whose fields are unknown, except those given."""
    f = {}
    for n, ft in I.fields(t):
        f[n] = over[n] if n in over else Opaque("%s.%s" % (name, n))
    for n in over:
        if n not in f:
            raise Unsupported("%s has no field %s" % (t.s, n))
    return Rec(t.key, f, t.tn)


class Lines:
    """n lines of a module.  kind(i): 0 instruction, 1 directive; dn(i), mn(i): which; has(i), val(i): the value of the
    line; size(i): bytes it takes (contract of Statement::SerializedSize)."""

    def __init__(s, g, name="line", **over):
        I, P = g.I, g.P
        s.g = g
        s.n = g.fresh("lines", 64)
        P.assume(z3.ULE(s.n, 1 << 31))
        s.t = g.type("nsasm::Module::Line")
        s.ft = dict(I.fields(s.t))
        s.st, s.it, s.dt = g.type("nsasm::Statement"), g.type("nsasm::Instruction"), g.type("nsasm::Directive")
        f = lambda n, r: P.fresh_fn("%s.%s" % (name, n), [B64], r)
        s.kind, s.has, s.val, s.size = f("directive", z3.BoolSort()), f("has value", z3.BoolSort()), f("value", B32), f("size", B32)
        wd = dict(I.fields(s.dt))["name"].strip().w
        wm = dict(I.fields(s.it))["mnemonic"].strip().w
        s.dn, s.mn, s.reached = f("name", z3.BitVecSort(wd)), f("mnemonic", z3.BitVecSort(wm)), f("reached", z3.BoolSort())
        s.over = over
        s.dirs, s.mns = g.prog.enums["nsasm::DirectiveName"], g.prog.enums["nsasm::Mnemonic"]
        P.fact(("idx",), lambda i: b_imp(ult(i, s.n), z3.ULT(s.dn(i), len(s.dirs))))
        P.fact(("idx",), lambda i: b_imp(ult(i, s.n), z3.ULT(s.mn(i), len(s.mns))))
        vt = dict(I.fields(s.st))["data_"].strip()
        s.alt = [j for k in ("Instruction", "Directive") for j, a in enumerate(vt.ta) if a.strip().tn == "nsasm::" + k]
        if len(s.alt) != 2 or len(vt.ta) != 2:
            raise Unsupported("the kinds of a statement")
        s.rest = {}
        for t in (s.it, s.dt, s.t):
            for n, ft in I.fields(t):
                if n in over or (t is s.t and n in ("statement", "value", "reached")):
                    continue
                try:
                    s.rest[t.tn, n] = I.symfn(ft, "%s.%s" % (name, n), [B64])
                except Unsupported:
                    s.rest[t.tn, n] = lambda i, n=n: Opaque("line." + n)
        s.seq = Seq(n=s.n, fn=s.line, et=s.t, ver=newver())

    def isdir(s, i, *names):
        i = bv(i, 64)
        return b_and(s.kind(i), b_or(*[s.dn(i) == int(s.dirs["D_" + x]) for x in names]))

    def line(s, i):
        i = bv(i, 64)
        memo = s.__dict__.setdefault("memo", (s.over, s.has, s.val, s.reached, s.rest, {}))
        if memo[:5] != (s.over, s.has, s.val, s.reached, s.rest):       # a copy with other parts
            memo = s.memo = (s.over, s.has, s.val, s.reached, s.rest, {})
        if i.get_id() not in memo[5]:
            memo[5][i.get_id()] = (i, s.make(i))
        return memo[5][i.get_id()][1]

    def make(s, i):
        I, g = s.g.I, s.g
        ex = g.type("nsasm::ExpressionOrNull")
        arg = lambda k: Rec(ex.key, dict({n: Opaque("expression") for n, _ in I.fields(ex)}, **{"$line": i, "$arg": k}), ex.tn)

        def rec(t, **known):
            f = {n: known[n] if n in known else s.rest[t.tn, n](i) for n, _ in I.fields(t)}
            return Rec(t.key, dict(f, **{"$line": i}), t.tn)
        ins = rec(s.it, mnemonic=s.mn(i), arg1=arg(1), arg2=arg(2))
        d = rec(s.dt, name=s.dn(i), argument=arg(0))
        alts = [None, None]
        alts[s.alt[0]], alts[s.alt[1]] = ins, d
        idx = merge(s.kind(i), z3.BitVecVal(s.alt[1], 64), z3.BitVecVal(s.alt[0], 64))
        st = Rec(s.st.key, {"data_": VarV(idx, tuple(alts)), "$line": i}, s.st.tn)
        lt = g.type("nsasm::LabelValue")
        lv = Rec(lt.key, {"value_": s.val(i)}, lt.tn)
        f = {}
        for n, t in s.ft.items():
            if n in s.over:
                f[n] = s.over[n](i)
            elif n == "statement":
                f[n] = st
            elif n == "value":
                f[n] = OptV(s.has(i), lv)
            elif n == "reached":
                f[n] = s.reached(i)
            else:
                f[n] = s.rest[s.t.tn, n](i)
        f["$line"] = i
        return Rec(s.t.key, f, s.t.tn)

    def of(s, c):
        """Index of the line the object belongs to."""
        v = c.P.load(c.obj)
        if not isinstance(v, Rec) or "$line" not in v.f:
            raise Unsupported("part of an unknown line")
        return v.f["$line"]


def result(c, ok, err, val=None, void=False):
    if void:
        return Rec(c.rt.key, {"value": OptV(b_not(ok), err)}, c.rt.tn)
    return Rec(c.rt.key, {"value": VarV(merge(ok, 1, 0), (err, val))}, c.rt.tn)


def some(g, name):
    return g.I.sym(g.type("nsasm::Error"), name)


def once_only(L):
    """do ... while (false)"""
    c = L.s.get("c")
    while c is not None and c["k"] in ("full", "cast", "mat"):
        c = c["e"]
    return L.k == "do" and c is not None and ((c["k"] == "bool" and not c["v"]) or (c["k"] == "int" and str(c["v"]) == "0"))


def changed(I, L, pre=()):
    """The leaves of the store an iteration of the loop changes, when begun with arbitrary values in the cells pre."""
    P = I.P

    def once():
        for lv, mk in pre:
            I.P.write(lv, mk())
        if L.k != "do":
            I.P.assume(L.cond())
        return "go" if L.body() is None else "exit"

    def leaves():
        st0 = I.P.store
        I.P.store = dict(st0)
        try:
            outs = I.P.explore(once, quiet=True)
        finally:
            I.P.store = st0
        ls = set()
        for o in outs:
            if o.val == "go":
                for r in st0:
                    if o.store[r] is not st0[r]:
                        ps = []
                        diff(st0[r], o.store[r], (), ps)
                        ls |= {(r, tuple(p)) for p in ps if not any(r == lv.root and tuple(p[:len(lv.path)]) == tuple(lv.path) for lv, _ in pre)}
        return sorted(ls, key=str)
    return P.memoize("changed", lambda: P.untouched(leaves))


class Inv:
    """A stated loop invariant.  cells: [(lv, maker of an arbitrary value)]; holds(pos) -> [(condition, text)] with pos the
    position of the loop (iterator or counter, None when there is none).  Counters, iterators and temporaries of the loop
    are found by running its body once."""

    def __init__(s, g, I, L, cells, holds, start=None, pre=(), own=None):
        s.g, s.cells, s.holds, s.start = g, list(cells), holds, start
        s.I, s.L, s.pos_ = I, L, None
        scan = own is None
        own = own or []
        for r, p in changed(I, L, pre) if scan else ():
            if s.may(r, p):
                continue
            lv = LV(r, p)
            v = get_at(I.P.store[r], p)
            own.append((lv, v))
        ints = [(lv, v) for lv, v in own if isinstance(v, int) or isinstance(v, z3.BitVecRef)]
        its = [(lv, v) for lv, v in own if isinstance(v, It)]
        maps = [(lv, v) for lv, v in own if isinstance(v, hashmap.MPtrIt)]
        s.flags = [lv for lv, v in own if isinstance(v, bool) or isinstance(v, z3.BoolRef)]
        ints = [(lv, v) for lv, v in ints if not isinstance(v, bool)]
        for lv in s.flags:
            s.cells.append((lv, lambda: I.P.fresh("flag", z3.BoolSort())))
        left = [x for x in own if not any(x[0] is y[0] for y in ints + its + maps) and not any(x[0] is f for f in s.flags)]
        if left:
            raise Undecided("the loop changes something else: %s" % [(lv, type(v).__name__) for lv, v in left])
        s.bound = []
        s.maps = [lv for lv, _ in maps]
        for lv, v in its:
            n = I.P.load(v.lv).n
            s.cells.append((lv, lambda lv=lv, v=v: v.at(I.P.fresh("at", B64))))
            s.bound.append((lv, bv(n, 64)))
            s.pos_ = s.pos_ or (lv, lambda x: bv(x.i, 64))
        for lv, v in ints:
            w = 64 if isinstance(v, int) else v.size()
            s.cells.append((lv, lambda w=w: I.P.fresh("at", z3.BitVecSort(w))))
            s.pos_ = s.pos_ or (lv, lambda x: wide(x))
        for lv, v in maps:
            s.cells.append((lv, lambda v=v: s.anykey(v)))

    def anykey(s, v):
        P = s.I.P
        k = P.fresh("key", hashmap.key_sort(s.I, v.t.ta[0]))
        end = P.fresh("end", z3.BoolSort())
        m = v.map(s.I)
        P.touch_raw(m.tag, k)
        P.assume(b_or(end, m.has(k)))
        return hashmap.MPtrIt(v.lv, v.t, end, k)

    def pos(s):
        if s.pos_ is None:
            return None
        return s.pos_[1](s.I.P.load(s.pos_[0]))

    def rev(s):
        """Does the loop go backwards?"""
        x = s.I.P.load(s.pos_[0])
        return isinstance(x, It) and x.rev

    def all(s):
        return [(z3.ULE(bv(s.I.P.load(lv).i, 64), n), "the iterator stays inside") for lv, n in s.bound] + list(s.holds(s.pos()))

    def establish(s):
        for c, t in s.all():
            s.g.ensure(c, t + " (initially)", "invariant")

    def havoc(s):
        P = s.I.P
        for lv, mk in s.cells:
            P.write(lv, mk())
        p = s.pos()
        if p is not None:
            P.touch("idx", z3.simplify(p))
        for c, t in s.all():
            P.assume(c)
        if s.start:
            s.start()

    def may(s, root, path):
        return any(root == lv.root and tuple(path[:len(lv.path)]) == tuple(lv.path) for lv, _ in s.cells)

    def back(s):
        for c, t in s.all():
            s.g.ensure(c, t + " (kept)", "invariant")
        s.g.reach()


mode = {"prove": False}
KEYSORT = {}        # sorts of the keys of maps, where they are not codes


def at_this_point(P, body):
    """body, read in the store as it is now, whenever it is instantiated."""
    snap = dict(P.store)

    def f(*xs):
        st = P.store
        P.store = dict(snap)
        try:
            return body(*xs)
        finally:
            P.store = st
    return f


class QInv(Inv):
    """An invariant with quantified laws: laws(inv) -> [(tags, body, text)] for the state now."""
    scoped = False      # each law is proved apart from the others

    def __init__(s, g, I, L, cells, laws, start=None, pre=(), own=None):
        Inv.__init__(s, g, I, L, cells, lambda at: [], start=start, pre=pre, own=own)
        s.laws, s.atback = laws, None

    def prove(s, when):
        P = s.I.P
        Inv_all = [(c, t) for c, t in s.all()]
        for c, t in Inv_all:
            s.g.ensure(c, "%s (%s)" % (t, when), "invariant")
        def one(tags, body, text):
            xs = [P.fresh("any", B64 if tag == "idx" else KEYSORT.get(tag, INT)) for tag in tags]
            for tag, x in zip(tags, xs):
                P.touch_raw(tag, x)
            mode["prove"] = True
            try:
                c = body(*xs)
            finally:
                mode["prove"] = False
            s.g.ensure(c, "%s (%s)" % (text, when), "invariant")
        for law in s.laws(s):
            if s.scoped:
                P.scoped(lambda: one(*law))
            else:
                one(*law)

    def establish(s):
        s.prove("initially")

    def havoc(s):
        P = s.I.P
        for lv, mk in s.cells:
            P.write(lv, mk())
        p = s.pos()
        if p is not None:
            P.touch("idx", z3.simplify(p))
        for c, t in s.all():
            P.assume(c)
        for tags, body, text in s.laws(s):
            if tags:
                P.fact(tags, at_this_point(P, body))
            else:
                P.assume(body())
        if s.start:
            s.start()

    def back(s):
        s.prove("kept")
        if s.atback:
            s.atback()
        s.g.reach()


# ---- whole assemblies, concretely ------------------------------------------------------------------------
class Fail(Exception):
    pass


REG = ["foo", "bar", "baz", "quux"]
MODS = ["m1", "m2"]


def render(module):
    """Text of a module: a list of (labels, statement); a label is (name, exported)."""
    out = []
    for labels, st in module:
        l = "".join("%s%s: " % ("export " if e else "", n) for n, e in labels)
        k = st[0] if st else ""
        if k in ("org", "equ"):
            t = ".%s %s" % (k, xpr(st[1], ""))
        elif k in ("db", "dw", "dl"):
            t = ".%s %s" % (k, ", ".join(xpr(e, {"db": "<", "dw": "", "dl": "@"}[k]) for e in st[1]))
        elif k == "module":
            t = ".module " + st[1]
        elif k == "bra":
            t = "bra " + st[1]
        else:
            t = {"begin": "{", "end": "}", "entry": ".entry m8x8", "nop": "nop", "rts": "rts", "": ""}[k]
        out.append(l + t)
    return "\n".join(out) + "\n"


def xpr(e, pre):
    """(qualifier or None, name or None, number)"""
    q, n, v = e
    if n is None:
        return "%d" % v if v >= 0 else "-%d" % -v
    t = n if q is None else "%s::%s" % (q, n)
    return pre + t if not v else "%s(%s+%d)" % ("<" if pre == "<" else "", t, v) if v > 0 else "%s(%s-%d)" % ("<" if pre == "<" else "", t, -v)


class Mod:
    def __init__(s, items):
        s.name, s.lines, s.glob = None, [], {}
        pend, open_ = [], []
        for labels, st in items:
            pend += labels
            if not st:
                continue
            i = len(s.lines)
            l = dict(st=st, scopes=tuple(open_), locals={}, val=None)
            s.lines.append(l)
            for n, e in pend:
                d = s.glob if e or not open_ else s.lines[open_[-1]]["locals"]
                if n in d:
                    raise Fail("duplicate")
                d[n] = i
            pend = []
            if st[0] == "module":
                if s.name is not None:
                    raise Fail("two names")
                s.name = st[1]
            elif st[0] == "begin":
                open_.append(i)
            elif st[0] == "end":
                if not open_:
                    raise Fail("unmatched")
                open_.pop()
        if open_:
            raise Fail("unmatched")
        s.name = s.name or ""

    def local(s, q, n, scopes):
        if q is None:
            for i in reversed(scopes):
                if n in s.lines[i]["locals"]:
                    return s.lines[i]["locals"][n]
        elif q != s.name:
            return None
        return s.glob.get(n)

    def flow(s):
        seen, todo = set(), [i + 1 for i, l in enumerate(s.lines) if l["st"][0] == "entry"]
        while todo:
            i = todo.pop()
            if i in seen:
                continue
            if i >= len(s.lines):
                raise Fail("past the end")
            seen.add(i)
            st = s.lines[i]["st"]
            if st[0] in ("db", "dw", "dl", "org"):
                raise Fail("into data")
            if st[0] == "bra":
                t = s.local(None, st[1], s.lines[i]["scopes"])
                if t is None:
                    raise Fail("no target")
                todo.append(t)
            elif st[0] != "rts":
                todo.append(i + 1)
        for i, l in enumerate(s.lines):
            if l["st"][0] in ("nop", "rts", "bra") and i not in seen:
                raise Fail("unreached")

    def layout(s):
        pc = None
        for l in s.lines:
            st = l["st"]
            if st[0] == "org":
                q, n, v = st[1]
                if n is not None or not 0 <= v <= 0xffffff:
                    raise Fail("origin")
                pc = v
            z = {"db": 1, "dw": 2, "dl": 3}.get(st[0], 0) * (len(st[1]) if st[0] in ("db", "dw", "dl") else 0) + {"nop": 1, "rts": 1, "bra": 2}.get(st[0], 0)
            if z and pc is None:
                raise Fail("no address")
            if pc is not None:
                if st[0] != "equ":
                    l["val"] = pc
                pc = p_addw(pc, z)


def wrap32(v):
    return (v + (1 << 31)) % (1 << 32) - (1 << 31)


def p_program(texts):
    """{address: byte}, or None when it is an error."""
    try:
        ms = [Mod(t) for t in texts]
        exports = {}
        order, left = [], list(ms)
        deps = {id(m): {(q or "", n) for l in m.lines if l["st"][0] == "equ" for q, n, _ in [l["st"][1]]
                        if n is not None and m.local(q, n, l["scopes"]) is None} for m in ms}
        while left:
            go = [m for m in left if deps[id(m)] <= set(exports)]
            if not go:
                raise Fail("cycle")
            m = go[0]
            left.remove(m)
            order.append(m)
            for n in m.glob:
                if (m.name, n) in exports:
                    raise Fail("exported twice")
                exports[m.name, n] = m

        def value(m, e, scopes):
            q, n, v = e
            if n is None:
                return v
            i = m.local(q, n, scopes)
            if i is None:
                o = exports.get((q or "", n))
                if o is None:
                    raise Fail("undefined")
                x = o.lines[o.glob[n]]["val"]
            else:
                x = m.lines[i]["val"]
            if x is None:
                raise Fail("no value")
            return wrap32(x + v)
        for m in order:
            m.flow()
            m.layout()
        for m in order:
            for l in m.lines:
                if l["st"][0] == "equ":
                    l["val"] = value(m, l["st"][1], l["scopes"])
        out = {}
        for m in order:
            for l in m.lines:
                st, bs = l["st"], []
                if st[0] in ("db", "dw", "dl"):
                    for e in st[1]:
                        bs += list((value(m, e, l["scopes"]) & 0xffffffff).to_bytes(4, "little"))[:{"db": 1, "dw": 2, "dl": 3}[st[0]]]
                elif st[0] == "nop":
                    bs = [0xea]
                elif st[0] == "rts":
                    bs = [0x60]
                elif st[0] == "bra":
                    t = m.lines[m.local(None, st[1], l["scopes"])]["val"]
                    if t is None or t < 0 or t >> 16 != l["val"] >> 16:
                        raise Fail("branch")
                    d = (t - l["val"] - 2 + 0x8000) % 0x10000 - 0x8000
                    if not -128 <= d <= 127:
                        raise Fail("branch")
                    bs = [0x80, d & 255]
                for k, b in enumerate(bs):
                    a = p_addw(l["val"], k)
                    if a in out:
                        raise Fail("written twice")
                    out[a] = b
            if any(m.lines[i]["val"] is None for i in m.glob.values()):
                raise Fail("label without a value")
        return out
    except Fail:
        return None


def rand_program(rnd, depth=True):
    n = rnd.choice([1, 1, 2, 2, 3])
    base = rnd.choice([0x8000, 0x8000, 0x8000, 0x18000, 0xfff8, 0xffffe0, 0x7ffff0])
    out = []
    for k in range(n):
        names = REG[:rnd.choice([2, 3, 4])]
        name = rnd.choice([None, None, "m1", "m2", "m%d" % (k % 2 + 1)])
        items = [([], ("module", name))] if name else []
        if rnd.random() < .95:
            items.append(([], ("org", (None, None, base + rnd.choice([0, 0, 1, 8, 16 * k, 16 * k, 64 * k, 64 * k, 0x10000 * k, 0x10000 * k, 0x10000 * k])))))
        free, lvl, used = True, 0, [set()]

        def expr():
            r = rnd.random()
            q = None if rnd.random() < .75 else rnd.choice(MODS + [""])
            if r < .25:
                return (None, None, rnd.choice([0, 1, 255, 256, 32768, 16777215, 16777216, -1, -2147483647, 2147483647]))
            return (q if q != "" else None, rnd.choice(names), rnd.choice([0, 0, 0, 1, -1, 300]))

        def labels(p):
            ls = []
            while rnd.random() < p:
                l = (rnd.choice(names), rnd.random() < .15)
                if rnd.random() < .03 or not (l[0] in used[0 if l[1] else -1]):
                    used[0 if l[1] else -1].add(l[0])
                    ls.append(l)
                p *= .4
            return ls
        code = rnd.random() < .3
        for _ in range(rnd.randrange(1, 9)):
            r = rnd.random()
            ls = labels(.45)
            if r < .15:
                items.append((ls, ("begin",)))
                lvl += 1
                used.append(set())
            elif r < .3 and (lvl or rnd.random() < .05):
                items.append((ls, ("end",)))
                lvl = max(0, lvl - 1)
                if len(used) > 1:
                    used.pop()
            elif r < .5:
                items.append((ls or labels(.9), ("equ", expr())))
            elif r < .55:
                items.append((ls, ("org", (None, None, base + rnd.choice([0, 2, 16, 32, 33, 40, -3])))))
            elif r < .6 and ls:
                items.append((ls, None))
            elif code and r < .75:
                items += [(ls, ("entry",)), (labels(.5), ("nop",)), ([], (("bra", rnd.choice(names)) if rnd.random() < .5 else ("rts",)))]
            else:
                k2 = rnd.choice(["db", "dw", "dl", "dw"])
                items.append((ls, (k2, [expr() for _ in range(rnd.choice([1, 1, 2, 3]))])))
        while lvl and rnd.random() < .97:
            items.append(([], ("end",)))
            lvl -= 1
        out.append(items)
    return out


def programs(rnd, n):
    """Random assemblies, half of them such that assemble."""
    for _ in range(n):
        for _ in range(8):
            p = rand_program(rnd)
            w = p_program(p)
            if w is not None:
                break
        yield p, w
        m = [list(x) for x in p]            # a small change
        k = rnd.randrange(len(m))
        if m[k]:
            j = rnd.randrange(len(m[k]))
            r = rnd.random()
            if r < .3:
                m[k].insert(j, m[k][rnd.randrange(len(m[k]))])
            elif r < .6:
                del m[k][j]
            else:
                m[k][j] = ([(rnd.choice(REG), rnd.random() < .3)], m[k][j][1])
        yield m, p_program(m)


def show_program(w, q=None):
    if w is None:
        return "err"
    b = "".join("%x:%x," % (a, w[a]) for a in sorted(w))
    return "ok %s %s" % (b, "".join("01"[a in w] for a in q or []))


def c_asm(p, w, owned=True):
    q = []
    if owned:
        s = set(w or ())
        q = sorted({x for a in s for x in (a - 1, a, a + 1, (a & 0xff0000), p_addw(a, 1)) if 0 <= x < 1 << 24})[:80]
    return Case("asm %d %s %d %s" % (len(p), " ".join(hx(render(m).encode()) for m in p), len(q), " ".join("%x" % a for a in q)), want=show_program(w, q), nontrivial=bool(w))


def c_orders(p, w):
    return Case("orders %d %s" % (len(p), " ".join(hx(render(m).encode()) for m in p)), want=show_program(w), nontrivial=bool(w) and len(p) > 1)
