"""Associative containers.  A container whose keys are all known is a list of
entries (MapC); otherwise it is a pair of functions of the encoded key (MapV):
membership and value."""
import z3
from . import values as V
from .values import *
from .engine import Fact

B64 = z3.BitVecSort(64)


# ---- key encoding -------------------------------------------------------------
def key_sort(I, t):
    t = t.strip()
    if t.k in ("int", "enum"):
        return z3.BitVecSort(t.w)
    if t.k == "bool":
        return z3.BitVecSort(1)
    if t.k == "rec":
        if t.tn in ("std::basic_string", "std::basic_string_view"):
            return z3.IntSort()
        if t.tn == "std::pair":
            a, b = key_sort(I, t.ta[0]), key_sort(I, t.ta[1])
            if a.kind() == z3.Z3_BV_SORT and b.kind() == z3.Z3_BV_SORT:
                return z3.BitVecSort(a.size() + b.size())
            raise Unsupported("map key")
        n = 0
        for _, ft in I.fields(t):
            if leafy(ft):
                return coded(I, t)
            s = key_sort(I, ft)
            if s.kind() != z3.Z3_BV_SORT:
                return coded(I, t)
            n += s.size()
        return z3.BitVecSort(n)
    if t.k == "ptr":
        return B64
    raise Unsupported("map key of type " + t.s)


def leafy(t):
    t = t.strip()
    return t.k == "rec" and t.tn in ("std::optional", "absl::optional")


# ---- keys made of strings and optionals: a code (Int) with a constructor and projections ---------
def leaves(I, t):
    """[(sort, read(record), ...)] of the parts of a coded key."""
    out = []
    for n, ft in I.fields(t):
        if leafy(ft):
            out.append((n, ft.strip().ta[0], True))
        else:
            out.append((n, ft, False))
    return out


def parts(I, t):
    ss = []
    for n, ft, opt in leaves(I, t):
        if opt:
            ss.append(z3.BoolSort())
        ss.append(key_sort(I, ft))
    return ss


def zero_of(s):
    return z3.IntVal(0) if s.kind() == z3.Z3_INT_SORT else z3.BitVecVal(0, s.size())


def coded(I, t):
    P = V.CUR
    tag = "code:" + t.s.replace("const ", "")
    if not any(f.tags == (tag,) for f in P.facts):
        mk, pr = coder(I, t)

        def law(x):
            if x.decl().eq(mk):
                return b_and(*[p(x) == a for p, a in zip(pr, x.children())])
            ps = [p(x) for p in pr]
            c = mk(*ps) == x
            k = 0
            for n, ft, opt in leaves(I, t):
                if opt:
                    c = b_and(c, b_or(ps[k], ps[k + 1] == zero_of(ps[k + 1].sort())))
                    k += 1
                k += 1
            return c
        P.fact((tag,), law)
    return z3.IntSort()


def coder(I, t):
    nm = t.s.replace("const ", "")
    ss = parts(I, t)
    return z3.Function("key.mk." + nm, *ss, z3.IntSort()), [z3.Function("key.%d.%s" % (i, nm), z3.IntSort(), s) for i, s in enumerate(ss)]


def enc_coded(I, v, t):
    coded(I, t)
    mk, pr = coder(I, t)
    a = []
    for n, ft, opt in leaves(I, t):
        x = v.f[n]
        if opt:
            s = key_sort(I, ft)
            if x.has is False or x.v is None:
                a += [z3.BoolVal(False), zero_of(s)]
                continue
            e = enc(I, x.v, ft)
            h = zb(x.has)
            if not z3.is_true(h) and not (e.decl().name().startswith("key.") and e.num_args() == 1):
                e = z3.If(h, e, zero_of(s))
            a += [h, e]
        else:
            a.append(enc(I, x, ft))
    if all(x.num_args() == 1 and x.decl().eq(p) for x, p in zip(a, pr)) and len({x.arg(0).get_id() for x in a}) == 1:
        return a[0].arg(0)
    r = z3.simplify(mk(*a))
    V.CUR.touch_raw("code:" + t.s.replace("const ", ""), r)
    return r


def dec_coded(I, x, t):
    coded(I, t)
    mk, pr = coder(I, t)
    if x.decl().eq(mk):
        a = x.children()
    else:
        a = [p(x) for p in pr]
    V.CUR.touch_raw("code:" + t.s.replace("const ", ""), x)
    f, k = {}, 0
    for n, ft, opt in leaves(I, t):
        if opt:
            h = z3.simplify(a[k])
            h = True if z3.is_true(h) else False if z3.is_false(h) else h
            f[n] = OptV(h, dec(I, a[k + 1], ft))
            k += 2
        else:
            f[n] = dec(I, a[k], ft)
            k += 1
    return Rec(t.key, f, t.tn)


def enc(I, v, t):
    t = t.strip()
    if t.k in ("int", "enum"):
        return bv(v, t.w)
    if t.k == "bool":
        return bv(v, 1)
    if t.k == "ptr":
        if not isinstance(v, Ptr) or not v.lv.path or v.lv.path[-1][0] != "e":
            raise Unsupported("pointer as a key")
        b = I.ptrbases.setdefault(t.s.replace("const ", ""), (v.lv.root, v.lv.path[:-1]))
        if b != (v.lv.root, v.lv.path[:-1]):
            raise Unsupported("pointers into different objects")
        return bv(v.lv.path[-1][1], 64)
    if key_sort(I, t).kind() == z3.Z3_INT_SORT and t.tn not in ("std::basic_string", "std::basic_string_view"):
        return enc_coded(I, v, t)
    if t.tn in ("std::basic_string", "std::basic_string_view"):
        return str_code(v)
    if t.tn == "std::pair":
        return z3.simplify(z3.Concat(enc(I, v.f["first"], t.ta[0]), enc(I, v.f["second"], t.ta[1])))
    ps = [enc(I, v.f[n], ft) for n, ft in I.fields(t)]
    return ps[0] if len(ps) == 1 else z3.simplify(z3.Concat(*ps))


def dec(I, x, t):
    t = t.strip()
    if t.k in ("int", "enum"):
        return _c(x, t)
    if t.k == "bool":
        return x == 1
    if t.k == "ptr":
        b = I.ptrbases.get(t.s.replace("const ", ""))
        if b is None:
            raise Unsupported("pointer key into nothing")
        return Ptr(LV(b[0], b[1] + (("e", x),)))
    if key_sort(I, t).kind() == z3.Z3_INT_SORT and t.tn not in ("std::basic_string", "std::basic_string_view"):
        return dec_coded(I, x, t)
    if t.tn in ("std::basic_string", "std::basic_string_view"):
        n = z3.Function("str.len", z3.IntSort(), B64)(x)
        return StrV([("o", "key", x, n)])
    if t.tn == "std::pair":
        n2 = key_sort(I, t.ta[1]).size()
        return pair(dec(I, z3.simplify(z3.Extract(x.size() - 1, n2, x)), t.ta[0]), dec(I, z3.simplify(z3.Extract(n2 - 1, 0, x)), t.ta[1]))
    fs = I.fields(t)
    if len(fs) == 1:
        return Rec(t.key, {fs[0][0]: dec(I, x, fs[0][1])}, t.tn)
    hi = x.size()
    f = {}
    for n, ft in fs:
        w = key_sort(I, ft).size()
        f[n] = dec(I, z3.simplify(z3.Extract(hi - 1, hi - w, x)), ft)
        hi -= w
    return Rec(t.key, f, t.tn)


def _c(x, t):
    s = z3.simplify(x)
    if z3.is_bv_value(s):
        return norm(s.as_long(), t.w, t.sg)
    return s


class MapC:
    """Known entries (distinct keys), in iteration order."""

    def __init__(self, t, seq):
        self.t, self.seq = t, seq

    def proj_get(self, path, p):
        if p[0] == "items":
            return self.seq
        return to_func(path.eng.interp, self).proj_get(path, p)

    def proj_set(self, path, p, x):
        if p[0] == "items":
            return MapC(self.t, x)
        return to_func(path.eng.interp, self).proj_set(path, p, x)

    def merge(self, c, o):
        I = V.CUR.eng.interp
        if isinstance(o, MapC) and not self.seq.items and not o.seq.items:
            return self
        if isinstance(o, (MapC, MapV)):
            return to_func(I, self).merge(c, to_func(I, o))
        raise NotMergeable("map")

    def equals(self, o):
        raise Unsupported("map comparison")

    def moved(self):
        return MapC(self.t, Seq((), et=self.seq.et))

    def havoc(self, I):
        return to_func(I, self).havoc(I)

    def rename(self, f):
        return MapC(self.t, f(self.seq))

    def subst(self, f):
        return MapC(self.t, f(self.seq))


def is_set(t):
    return t.tn.endswith("set")


def kv(t):
    return (t.ta[0], None if is_set(t) else t.ta[1])


class MapV:
    def __init__(self, t, has, get, op=None):
        self.t, self._has, self._get, self.op = t, has, get, op

    def op_get_none(self):
        return is_set(self.t)

    @property
    def tag(self):
        return "key:" + self.t.ta[0].strip().s.replace("const ", "")

    def has(self, x):
        V.CUR.touch_raw(self.tag, x)
        return self._has(x)

    def get(self, x):
        V.CUR.touch_raw(self.tag, x)
        return self._get(x)

    def setk(self, x, v):
        o = self
        if o.op and o.op[0] in ("mset", "mins") and o.op[2].eq(x):
            o = o.op[1]         # overwritten at once
        return MapV(self.t, lambda y: b_or(keq(y, x), o.has(y)),
                    lambda y: merge(keq(y, x), v, o.get(y)), ("mset", o, x, v))

    def addk(self, x, v):
        """Insertion of a key that is possibly there already."""
        o = self
        return MapV(self.t, lambda y: b_or(keq(y, x), o.has(y)),
                    lambda y: merge(b_and(keq(y, x), b_not(o.has(y))), v, o.get(y)), ("mins", self, x, v))

    def addfam(self, cond):
        """(sets) Insertion of every key satisfying cond."""
        o = self
        return MapV(self.t, lambda y: b_or(cond(y), o.has(y)), o.get, ("mfam", self, cond, None))

    def delk(self, x):
        o = self
        return MapV(self.t, lambda y: b_and(b_not(keq(y, x)), o.has(y)), o.get, ("mdel", self, x, None))

    def proj_get(self, path, p):
        if p[0] == "mk":
            I = path.eng.interp
            kt, vt = kv(self.t)
            k = dec(I, p[1], kt)
            if vt is None:
                return k
            try:
                return pair(k, self.get(p[1]))
            except NotMergeable as ex_:        # a null pointer or another
                import os, traceback
                if os.environ.get("VCDBG2"): traceback.print_exc()
                return pair(k, Opaque("value of a map"))
        raise Unsupported("map projection " + p[0])

    def proj_set(self, path, p, x):
        if p[0] == "mk":
            return self.setk(p[1], x.f["second"])
        raise Unsupported("map projection " + p[0])

    def merge(self, c, o):
        o = o if isinstance(o, MapV) else to_func(V.CUR.eng.interp, o) if isinstance(o, MapC) else None
        if o is None:
            raise NotMergeable("map")
        a, b = self, o
        op = None
        if b.op and b.op[1] is a:
            op = ("mcond", a, z3.Not(zb(c)), b.op)
        elif a.op and a.op[1] is b:
            op = ("mcond", b, zb(c), a.op)
        elif a.op and b.op and a.op[1] is b.op[1] and a.op[0] == b.op[0] and a.op[0] in ("mset", "mdel"):
            try:
                op = (a.op[0], a.op[1], z3.If(zb(c), a.op[2], b.op[2]), None if a.op[3] is None else merge(c, a.op[3], b.op[3]))
            except (NotMergeable, Unsupported):
                op = None
        return MapV(self.t, lambda y: b_ite(c, a.has(y), b.has(y)), lambda y: merge(c, a.get(y), b.get(y)), op)

    def moved(self):
        return MapC(self.t, Seq(()))

    def havoc(self, I):
        return sym_map(I, self.t, "h.map", ())

    def subst(self, f):
        o = self
        return MapV(self.t, lambda y: f(zb(o.has(y))), lambda y: f(o.get(y)), None)

    def guess(self, I, init, news, outs, tag):
        return MapForm(I, init, tag)


def keq(x, y):
    if x.eq(y):
        return True
    s = z3.simplify(x == y)
    if z3.is_true(s):
        return True
    if z3.is_false(s):
        return False
    return x == y


class MapForm:
    """Loop summary: map updated by at most one insertion or removal family per
    iteration."""

    def __init__(self, I, init, tag):
        self.I, self.tag = I, tag
        self.init = init if isinstance(init, MapV) else to_func(I, init)
        # F(x): the first iteration that affects key x, all ones if none does
        self.F = I.P.fresh_fn("firstmap", [key_sort(I, init.t.ta[0])], B64)
        self.ev = None          # (kind, cond(j, x) -> key x affected in iteration j, val(j, x), key(j) or None)

    def finish(self, k, vals, conds):
        """vals: [(value after, value at start)] for the continuing outcomes."""
        from .loops import NoForm, subst_val
        evs = []
        for (v, st), c in zip(vals, conds):
            evs.append((chain(v, st), c))
        kinds = {e[0][0] for e, _ in evs for e in [e] if e}
        kinds = {x[0] for e, _ in evs for x in e}
        if len(kinds) > 1:
            raise NoForm("map both grows and shrinks in a loop")
        kind = kinds.pop() if kinds else "mset"
        self.kind = kind
        self.k = k
        self.evs = evs
        I = self.I
        from .loops import subst_val as sv

        def cond(j, x):
            c = False
            for es, pc in evs:
                for e in es:
                    c = b_or(c, b_and(pc, e[1](x)))
            return z3.substitute(zb(c), (k, j)) if not isinstance(c, bool) else c

        def val(j, x):
            r = None
            for es, pc in evs:
                for e in es:
                    v = e[2](x)
                    if v is None:
                        continue
                    r = v if r is None else merge(b_and(pc, e[1](x)), v, r)
            return None if r is None else sv(r, k, j)

        def keys(j):
            out = []
            for es, pc in evs:
                for e in es:
                    if e[3] is not None:
                        out.append(z3.simplify(z3.substitute(e[3], (k, j))))
            return out
        self.ev = (kind, cond, val, keys)

    def at(self, K):
        P = self.I.P
        init = self.init
        if self.ev is None:
            return sym_map(self.I, init.t, "loopmap", ())
        kind, cond, val, keys = self.ev
        ks = key_sort(self.I, init.t.ta[0])
        K = bv(K, 64)
        tag, ktag = self.tag, init.tag
        F = self.F
        mine = self.I.eng.writers
        NONE = z3.BitVecVal((1 << 64) - 1, 64)

        def member(w, x):
            w = z3.simplify(w)
            mine[w.get_id()] = w
            V.CUR.touch(tag, w)
            return cond(w, x)

        P.fact((ktag,), lambda x: b_or(F(x) == NONE, member(F(x), x)))

        def f2(j):
            if j.get_id() not in mine:      # otherwise iteration j affects a known key
                for y in keys(j):
                    V.CUR.touch_raw(ktag, y)
            return True
        P.fact((tag,), f2)
        P.fact((tag, ktag), lambda j, x: b_imp(cond(j, x), z3.ULE(F(x), j)))
        past = lambda x: z3.ULT(F(x), K)
        if kind == "mdel":
            return MapV(init.t, lambda x: b_and(b_not(past(x)), init.has(x)), init.get, ("mform", init, past, None))
        has = lambda x: b_or(past(x), init.has(x))
        if is_set(init.t):
            return MapV(init.t, has, init.get, ("mform", None))
        if kind == "mins":
            return MapV(init.t, has, lambda x: merge(b_and(past(x), b_not(init.has(x))), val(F(x), x), init.get(x)), ("mform", None))
        # W(x) - 1: the last iteration before K that affects x
        W = P.fresh_fn("lastmap", [ks], B64)
        P.fact((ktag,), lambda x: b_imp(past(x), b_and(W(x) != 0, ule(W(x), K), member(W(x) - 1, x))))
        P.fact((tag, ktag), lambda j, x: b_imp(b_and(ult(j, K), cond(j, x)), z3.UGE(W(x), j + 1)))
        return MapV(init.t, has, lambda x: merge(past(x), val(z3.simplify(W(x) - 1), x), init.get(x)), ("mform", None))


def chain(v, st):
    """Events that lead from map st to map v: [(kind, cond(x), val(x), key)]."""
    from .loops import NoForm
    out = []
    while v is not st:
        op = v.op if isinstance(v, MapV) else None
        if op is None:
            raise NoForm("map update is not a simple insertion or removal")
        if op[0] in ("mset", "mdel"):
            out.append((op[0], (lambda k: lambda x: keq(x, k))(op[2]), (lambda vv: lambda x: vv)(op[3]), op[2]))
        elif op[0] == "mins":
            out.append(("mins", (lambda k: lambda x: keq(x, k))(op[2]), (lambda vv: lambda x: vv)(op[3]), op[2]))
        elif op[0] == "mfam":
            out.append(("mset", op[2], lambda x: None, None))
        elif op[0] == "mcond" and op[3][0] in ("mset", "mdel"):
            g, o = op[2], op[3]
            out.append((o[0], (lambda k, g: lambda x: b_and(g, keq(x, k)))(o[2], g), (lambda vv: lambda x: vv)(o[3]), o[2]))
        elif op[0] == "mform" and op[1] is not None:
            out.append(("mdel", op[2], lambda x: None, None))
        else:
            raise NoForm("map update is not a simple insertion or removal")
        v = op[1]
    if len([e for e in out if e[0] in ("mset", "mins")]) > 1:
        raise NoForm("several insertions per iteration")
    return out


def to_func(I, m):
    if isinstance(m, MapV):
        return m
    kt, vt = kv(m.t)
    ents = [(enc(I, e if vt is None else e.f["first"], kt), None if vt is None else e.f["second"]) for e in m.seq.items]

    def has(x):
        return b_or(*[keq(x, k) for k, _ in ents])

    def get(x):
        if not ents:
            return I.zero(vt)
        r = ents[-1][1]
        for k, v in reversed(ents[:-1]):
            r = merge(keq(x, k), v, r)
        return r
    return MapV(m.t, has, get)


def empty(I, t):
    return MapC(t, Seq((), et=None, ver=newver()))


def sym_map(I, t, name, idx=()):
    kt, vt = kv(t)
    s = key_sort(I, kt)
    hf = I.P.fresh_fn(name + ".has", [s], z3.BoolSort())
    gf = I.symfn(vt, name + ".val", [s]) if vt is not None else (lambda *a: None)
    inv = None
    if kt.strip().k == "rec" and kt.strip().tn in I.inv:
        inv = lambda x: b_imp(hf(x), I.inv[kt.strip().tn](dec(I, x, kt)))
    elif kt.strip().tn == "std::pair":
        def inv(x):
            d = dec(I, x, kt)
            c = True
            for n, ft in (("first", kt.ta[0]), ("second", kt.ta[1])):
                if ft.strip().k == "rec" and ft.strip().tn in I.inv:
                    c = b_and(c, I.inv[ft.strip().tn](d.f[n]))
            return b_imp(hf(x), c)
    m = MapV(t, hf, gf)
    if inv is not None:
        I.P.fact((m.tag,), inv)
    return m


def whole_range(c, t, a, b):
    """Insertion of everything in another set."""
    m = c.P.load(a.lv)
    if m is not a.whole or not isinstance(b, MPtrIt) or b.end is not True or lv_same(a.lv, b.lv) is not True or not is_set(a.t) or a.t.ta[0].strip().s.replace("const ", "") != t.ta[0].strip().s.replace("const ", ""):
        raise Unsupported("a part of a set")
    c.P.write(c.obj, to_func(c.I, c.P.load(c.obj)).addfam(lambda x: to_func(c.I, m).has(x)))


class MPtrIt:
    """Iterator into a functional map: (at end?, encoded key)."""

    whole = None        # for begin(): the map it begins

    def __init__(self, lv, t, end, key, lt=None):
        self.lv, self.t, self.end, self.key, self.lt = lv, t, end, key, lt

    def equals(self, o):
        if not isinstance(o, MPtrIt):
            raise Unsupported("iterator comparison")
        if self.end is True:
            return o.end
        if o.end is True:
            return self.end
        return b_or(b_and(self.end, o.end), b_and(b_not(self.end), b_not(o.end), keq(self.key, o.key)))

    def merge(self, c, o):
        if lv_same(self.lv, o.lv) is not True:
            raise NotMergeable("map iterators")
        if self.key is None or o.key is None:
            k = self.key if o.key is None else o.key
        else:
            k = self.key if self.key.eq(o.key) else z3.If(zb(c), self.key, o.key)
        return MPtrIt(self.lv, self.t, b_ite(c, self.end, o.end), k, self.lt if self.lt is o.lt else None)

    def map(self, I):
        return to_func(I, I.P.load(self.lv))

    def deref(self, I):
        m = self.map(I)
        I.P.oblige(b_not(self.end), "iterator", I.where(), "map iterator is not the end iterator")
        if self.key is None:
            from .engine import PathEnd
            raise PathEnd()
        I.P.oblige(m.has(self.key), "iterator", I.where(), "map iterator refers to an existing entry")
        return self.lv.sub(("mk", self.key))

    def less(self, I):
        return self.lt or less2(I, self.t)

    def next(self, I):
        m = self.map(I)
        I.P.oblige(b_not(self.end), "iterator", I.where(), "increment of a map iterator before the end")
        lt = self.less(I)
        k = self.key
        return bound(I, self.lv, m, lambda x: lt(k, x), lt)

    def prev(self, I):
        P = I.P
        m = self.map(I)
        lt = self.less(I)
        if self.end is True:
            before = lambda x: True
        else:
            before = lambda x: b_or(self.end, lt(x, self.key))
        if not P.quiet:
            P.oblige(b_or(*[b_and(m.has(x), before(x)) for x in list(P.touched.get(m.tag, ()))]), "iterator", I.where(),
                     "decrement of a map iterator after the beginning")
        p = P.fresh("prevkey", key_sort(I, self.t.ta[0]))
        P.touch_raw(m.tag, p)
        P.assume(b_and(m.has(p), before(p)))
        P.fact((m.tag,), lambda x: b_imp(b_and(m.has(x), before(x)), b_not(lt(p, x))))
        return MPtrIt(self.lv, self.t, False, p, lt)

    def subst(self, f):
        return MPtrIt(f(self.lv), self.t, f(self.end), None if self.key is None else f(self.key), self.lt)

    def rename(self, f):
        return MPtrIt(f(self.lv), self.t, self.end, self.key, self.lt)

    def truth(self):
        raise Unsupported("truth of iterator")


SetIt = MPtrIt


def less2(I, t):
    """Order on encoded keys as a function of two terms."""
    from .lib import lessv
    kt = t.ta[0]
    if hashed(t):
        # some order, about which nothing is known
        s = key_sort(I, kt)
        rank = I.P.fresh_fn("rank", [s], z3.IntSort())
        return Order(rank)
    if len(t.ta) > 2 or (is_set(t) and len(t.ta) > 1):
        c = t.ta[1] if is_set(t) else t.ta[2]
        if hasattr(c, "tn") and c.tn not in (None, "std::less", "std::allocator"):
            raise Unsupported("map with its own order")
    s = key_sort(I, kt)
    if s.kind() == z3.Z3_INT_SORT:
        # the order of strings is not modelled: some order of the keys
        return Order(z3.Function("rank." + kt.s.replace("const ", ""), s, z3.IntSort()))
    return I.family2(lambda a, b: lessv(I, dec(I, a, kt), dec(I, b, kt), kt), s)


class Order:
    """The order in which a hash table happens to hold its keys."""

    def __init__(self, rank):
        self.rank = rank

    def __call__(self, a, b):
        return self.rank(a) < self.rank(b)


def hashed(t):
    return "unordered" in str(t.tn) or "hash" in str(t.tn)


def bound(I, lv, m, ok, lt):
    """Iterator to the least key x with ok(x), or end."""
    P = I.P
    r = P.fresh("boundkey", key_sort(I, m.t.ta[0]))
    e = P.fresh("boundend", z3.BoolSort())
    P.touch_raw(m.tag, r)
    P.assume(b_or(e, b_and(m.has(r), ok(r))))
    P.fact((m.tag,), lambda x: b_imp(b_and(m.has(x), ok(x)), b_and(b_not(e), b_not(lt(x, r)))))
    return MPtrIt(lv, m.t, e, r, lt)


def install(h, H, take, conv, build, make, eqv, lessv, range_of, tname):
    NAMES = ["std::map", "std::unordered_map", "std::set", "std::unordered_set", "absl::flat_hash_map", "absl::flat_hash_set",
             "absl::node_hash_map", "absl::container_internal::raw_hash_set", "absl::container_internal::raw_hash_map"]

    def m(*ns):
        def deco(f):
            for n in NAMES:
                for x in ns:
                    H[n + "::" + x] = f
            return f
        return deco

    def cur(c):
        v = c.self_val()
        return v

    def key_arg(c, i, t):
        return conv(c.I, c.arg(i), t.ta[0], c.fi.pt[i])

    def concrete_key(c, k, t):
        try:
            e = enc(c.I, k, t.ta[0])
        except Unsupported:
            return None
        e = z3.simplify(e)
        return e if (z3.is_bv_value(e) or z3.is_int_value(e)) else None

    def items_it(c, mv, i):
        return It(c.obj.sub(("items",)), i, mv.seq.ver)

    def find_idx(c, mv, k):
        """index of key k in the entries of a concrete map (n if absent)"""
        kt, vt = kv(mv.t)
        r = len(mv.seq.items)
        n = r
        for i in range(n - 1, -1, -1):
            e = mv.seq.items[i]
            cnd = eqv(c.I, k, e if vt is None else e.f["first"], kt)
            cnd = cnd if isinstance(cnd, bool) else z3.simplify(cnd)
            if cnd is True or (not isinstance(cnd, bool) and z3.is_true(cnd)):
                r = i
            elif cnd is False or z3.is_false(cnd):
                continue
            else:
                r = z3.If(cnd, z3.BitVecVal(i, 64), bv(r, 64))
        return r

    def mtype(c):
        return cur(c).t

    @m("map", "set", "unordered_map", "flat_hash_map", "flat_hash_set", "unordered_set", "raw_hash_set", "raw_hash_map")
    def _(c):
        t = c.ct
        if not c.args:
            return empty(c.I, t)
        v = take(c, 0)
        if isinstance(v, (MapC, MapV)):
            return v
        if isinstance(v, Seq) and v.items is not None:
            mv = empty(c.I, t)
            seen, out = set(), []
            for e in v.items:
                k = e if is_set(t) else e.f["first"]
                ck = concrete_key(c, k, t)
                if ck is None:
                    if not is_set(t):
                        raise Unsupported("map initialised with symbolic keys")
                    m = to_func(c.I, mv)
                    for e in v.items:
                        x = enc(c.I, e, t.ta[0])
                        c.P.touch_raw(m.tag, x)
                        m = m.setk(x, None)
                    return m
                if ck.get_id() in seen:
                    continue
                seen.add(ck.get_id())
                out.append((ck, e))
            return MapC(t, Seq(order(c, t, out), et=None, ver=newver()))
        raise Unsupported("map constructor")

    def order(c, t, out):
        if t.tn in ("std::map", "std::set"):
            import functools
            kt = t.ta[0]
            get = (lambda e: e) if is_set(t) else (lambda e: e.f["first"])
            out = sorted(out, key=functools.cmp_to_key(lambda a, b: -1 if _b(lessv(c.I, get(a[1]), get(b[1]), kt)) else
                                                       (1 if _b(lessv(c.I, get(b[1]), get(a[1]), kt)) else 0)))
        return [e for _, e in out]

    def _b(x):
        if isinstance(x, bool):
            return x
        s = z3.simplify(x)
        if z3.is_true(s):
            return True
        if z3.is_false(s):
            return False
        raise Unsupported("order of keys")

    @m("find")
    def _(c):
        mv = cur(c)
        k = key_arg(c, 0, mv.t)
        if isinstance(mv, MapC):
            return items_it(c, mv, find_idx(c, mv, k))
        x = enc(c.I, k, mv.t.ta[0])
        return MPtrIt(c.obj, mv.t, b_not(mv.has(x)), x)

    @m("count", "contains")
    def _(c):
        mv = cur(c)
        k = key_arg(c, 0, mv.t)
        if isinstance(mv, MapC):
            r = find_idx(c, mv, k)
            f = b_not(eq(r, len(mv.seq.items)))
        else:
            f = mv.has(enc(c.I, k, mv.t.ta[0]))
        if c.fi.n == "contains":
            return f
        return int(f) if isinstance(f, bool) else z3.If(f, z3.BitVecVal(1, 64), z3.BitVecVal(0, 64))

    @m("begin", "cbegin")
    def _(c):
        mv = cur(c)
        if isinstance(mv, MapC):
            return items_it(c, mv, 0)
        lt = less2(c.I, mv.t)
        if isinstance(lt, Order):
            c.P.fact((mv.tag, mv.tag), lambda x, y: b_or(keq(x, y), lt.rank(x) != lt.rank(y)))
        r = bound(c.I, c.obj, mv, lambda x: True, lt)
        r.whole = mv
        return r

    @m("end", "cend")
    def _(c):
        mv = cur(c)
        if isinstance(mv, MapC):
            return items_it(c, mv, len(mv.seq.items))
        return MPtrIt(c.obj, mv.t, True, None)

    @m("upper_bound", "lower_bound")
    def _(c):
        mv = to_func(c.I, cur(c))
        c.P.write(c.obj, mv)
        k = enc(c.I, key_arg(c, 0, mv.t), mv.t.ta[0])
        c.P.touch_raw(mv.tag, k)
        lt = less2(c.I, mv.t)
        if c.fi.n == "upper_bound":
            return bound(c.I, c.obj, mv, lambda x: lt(k, x), lt)
        return bound(c.I, c.obj, mv, lambda x: b_not(lt(x, k)), lt)

    def isempty(c, mv):
        E = c.P.fresh("mapempty", z3.BoolSort())
        w = c.P.fresh("mapwitness", key_sort(c.I, mv.t.ta[0]))
        c.P.assume(b_or(E, mv.has(w)))
        c.P.fact((mv.tag,), lambda x: b_imp(E, b_not(mv.has(x))))
        return E

    @m("empty")
    def _(c):
        mv = cur(c)
        if isinstance(mv, MapC):
            return len(mv.seq.items) == 0
        return isempty(c, mv)

    @m("size")
    def _(c):
        mv = cur(c)
        if isinstance(mv, MapC):
            return len(mv.seq.items)
        n = c.P.fresh("mapsize", B64)
        c.P.assume((n == 0) == zb(isempty(c, mv)))
        c.P.assume(z3.ULE(n, 1 << 40))
        return n

    @m("clear")
    def _(c):
        mv = cur(c)
        c.P.write(c.obj, empty(c.I, mv.t))

    @m("reserve")
    def _(c):
        return None

    def put(c, k, mkval, overwrite):
        """Inserts; returns (iterator, inserted?)."""
        I, P = c.I, c.P
        mv = cur(c)
        t = mv.t
        kt, vt = kv(t)
        if isinstance(mv, MapC):
            ck = concrete_key(c, k, t)
            if ck is not None:
                i = find_idx(c, mv, k)
                if isc(i):
                    items = list(mv.seq.items)
                    if i < len(items):
                        if overwrite:
                            items[i] = pair(items[i].f["first"], mkval())
                            P.write(c.obj, MapC(t, mv.seq._mk(items, inval=False)))
                        return items_it(c, cur(c), i), False
                    e = k if vt is None else pair(k, mkval())
                    items = order(c, t, [(None, x) for x in items + [e]])
                    P.write(c.obj, MapC(t, mv.seq._mk(items, inval=False)))
                    return items_it(c, cur(c), [j for j, x in enumerate(items) if x is e][0]), True
            mv = to_func(I, mv)
        x = enc(I, k, kt)
        had = mv.has(x)
        if overwrite or vt is None:
            P.write(c.obj, mv.setk(x, None if vt is None else mkval()))
        else:
            v = mkval()
            if had is False:
                P.write(c.obj, mv.setk(x, v))
            else:
                d = P.ask3(had) if not isinstance(had, bool) else had
                if d is True:
                    P.write(c.obj, mv)
                elif d is False:
                    P.write(c.obj, mv.setk(x, v))
                else:
                    try:
                        P.write(c.obj, mv.addk(x, v))
                    except NotMergeable:
                        if P.branch(had):
                            P.write(c.obj, mv)
                        else:
                            P.write(c.obj, mv.setk(x, v))
        return MPtrIt(c.obj, t, False, x), b_not(had)

    @m("insert", "emplace", "try_emplace", "insert_or_assign", "emplace_hint")
    def _(c):
        t = cur(c).t
        kt, vt = kv(t)
        n = c.fi.n
        if n == "emplace_hint":
            raise Unsupported("emplace_hint")
        if n == "insert" and len(c.args) == 2 and not isinstance(c.arg(0), (Rec,)):
            a, b = c.arg(0), c.arg(1)
            if isinstance(a, MPtrIt) and vt is None:
                whole_range(c, t, a, b)
                return None
            r = range_of(c, a, b)
            if r.items is None:
                raise Unsupported("range insert")
            for e in r.items:
                put(c, e if vt is None else e.f["first"], lambda: e.f["second"], False)
            return None
        if n == "insert" and c.fi.pt[0].strip().tn == "std::initializer_list":
            for e in c.arg(0).items:
                put(c, e if vt is None else e.f["first"], lambda: e.f["second"], False)
            return None
        if vt is None:
            k = make(c.I, kt, [take(c, i) for i in range(len(c.args))], c.fi.pt)
            it, ins = put(c, k, None, False)
        elif n in ("insert_or_assign", "try_emplace"):
            k = key_arg(c, 0, t)
            if n == "try_emplace":
                it, ins = put(c, k, lambda: build(c, vt, 1), False)
            else:
                it, ins = put(c, k, lambda: conv(c.I, take(c, 1), vt, c.fi.pt[1]), True)
        elif len(c.args) == 1:
            p = conv_pair(c, t)
            it, ins = put(c, p.f["first"], lambda: p.f["second"], False)
        else:
            k = key_arg(c, 0, t)
            it, ins = put(c, k, lambda: build(c, vt, 1), False)
        if c.rt is not None and c.rt.k == "rec" and c.rt.tn == "std::pair":
            return pair(it, ins)
        return it

    def conv_pair(c, t):
        v = take(c, 0)
        ft = c.fi.pt[0].strip()
        return pair(conv(c.I, v.f["first"], t.ta[0], ft.ta[0]), conv(c.I, v.f["second"], t.ta[1], ft.ta[1]))

    def slot(c):
        I, P = c.I, c.P
        mv = cur(c)
        t = mv.t
        k = key_arg(c, 0, t)
        it, ins = put(c, k, lambda: I.zero(t.ta[1]), False)
        mv = cur(c)
        if isinstance(it, It):
            return c.obj.sub(("items",), ("e", it.i), ("f", "second"))
        return c.obj.sub(("mk", it.key), ("f", "second"))

    @m("operator[]")
    def _(c):
        return slot(c)

    @m("at")
    def _(c):
        mv = cur(c)
        k = key_arg(c, 0, mv.t)
        if isinstance(mv, MapC):
            i = find_idx(c, mv, k)
            c.P.oblige(b_not(eq(i, len(mv.seq.items))), "bounds", c.I.where(), "map::at of an existing key (throws otherwise)")
            return c.obj.sub(("items",), ("e", i), ("f", "second"))
        x = enc(c.I, k, mv.t.ta[0])
        c.P.oblige(mv.has(x), "bounds", c.I.where(), "map::at of an existing key (throws otherwise)")
        return c.obj.sub(("mk", x), ("f", "second"))

    @m("erase")
    def _(c):
        I, P = c.I, c.P
        mv = cur(c)
        a = c.arg(0)
        if len(c.args) != 1:
            raise Unsupported("range erase")
        if isinstance(a, It):
            i = a.i
            if isinstance(mv, MapC) and isc(i):
                P.oblige(0 <= i < len(mv.seq.items), "iterator", I.where(), "erase of an existing entry")
                items = mv.seq.items
                P.write(c.obj, MapC(mv.t, mv.seq._mk(items[:i] + items[i + 1:], inval=i)))
                return items_it(c, cur(c), i)
            raise Unsupported("erase at a symbolic entry")
        if isinstance(a, MPtrIt):
            mf = to_func(I, mv)
            P.oblige(b_and(b_not(a.end), mf.has(a.key) if a.key is not None else False), "iterator", I.where(), "erase of an existing entry")
            P.write(c.obj, mf.delk(a.key))
            lt = less2(I, mv.t)
            k = a.key
            if c.e is not None and not c.e.get("used", True):
                return None
            return LazyNext(I, c.obj, mv.t, k)
        k = key_arg(c, 0, mv.t)
        if isinstance(mv, MapC):
            i = find_idx(c, mv, k)
            if isc(i):
                items = mv.seq.items
                if i < len(items):
                    P.write(c.obj, MapC(mv.t, mv.seq._mk(items[:i] + items[i + 1:], inval=i)))
                    return 1
                return 0
        mf = to_func(I, mv)
        x = enc(I, k, mv.t.ta[0])
        had = mf.has(x)
        P.write(c.obj, mf.delk(x))
        return int(had) if isinstance(had, bool) else z3.If(had, z3.BitVecVal(1, 64), z3.BitVecVal(0, 64))

    class LazyNext(MPtrIt):
        """Iterator following an erased entry, determined only when used."""

        def __init__(self, I, lv, t, k):
            self.I, self.lv, self.t, self.k0, self.it = I, lv, t, k, None

        def force(self):
            if self.it is None:
                lt = less2(self.I, self.t)
                k = self.k0
                self.it = bound(self.I, self.lv, to_func(self.I, self.I.P.load(self.lv)), lambda x: lt(k, x), lt)
            return self.it
        end = property(lambda s: s.force().end)
        key = property(lambda s: s.force().key)

    for n in ("std::_Rb_tree_iterator", "std::_Rb_tree_const_iterator", "absl::container_internal::raw_hash_set::iterator",
              "absl::container_internal::raw_hash_set::const_iterator"):
        def _ctor(c):
            return c.arg(0) if c.args else Opaque("singular iterator")
        H[n + "::" + n.split("::")[-1]] = _ctor

        def _d(c):
            from .lib import it_lv
            return it_lv(c.I, c.self_val())
        H[n + "::operator*"] = _d
        H[n + "::operator->"] = lambda c, d=_d: Ptr(d(c))

        def _inc(c):
            old = c.self_val()
            if isinstance(old, It):
                new = old.at(add64(old.i, 1))
                c.P.oblige(ule(new.i, c.P.load(old.lv).n), "iterator", c.I.where(), "increment of a map iterator before the end")
            else:
                new = old.next(c.I)
            c.P.write(c.obj, new)
            return old if c.args else c.obj

        def _dec(c):
            old = c.self_val()
            if isinstance(old, It):
                c.P.oblige(b_not(eq(old.i, 0)), "iterator", c.I.where(), "decrement of a map iterator after the beginning")
                new = old.at(sub64(old.i, 1))
            else:
                new = old.prev(c.I)
            c.P.write(c.obj, new)
            return old if c.args else c.obj
        H[n + "::operator++"], H[n + "::operator--"] = _inc, _dec
