"""Loops.  A loop whose trip count is concrete on the current path is simply
executed.  Any other loop is replaced by an inductive summary:

  * the state at the start of iteration k is given by closed forms (constant
    steps, appended elements, indexed stores, accumulated flags ...), guessed
    from one generic iteration;
  * the guess is proved inductive: from the closed form at k, one iteration
    leads to the closed form at k+1 on every continuing path;
  * for every earlier iteration j<k the condition under which iteration j
    continued is known to have held (the history of the loop);
  * the obligations inside the body are discharged for an arbitrary k.

If no inductive form is found the loop is unrolled, and when the unrolling does
not come to an end by itself the result is marked as bounded."""
import z3
from .values import *
from .engine import *
from . import hashmap

SYM_UNROLL = 6
B64 = z3.BitVecSort(64)


class NoForm(MemoError):
    pass


class LoopCtl:
    def __init__(self, I, s):
        self.I, self.s, self.k = I, s, s["k"]

    def setup(self):
        I, s = self.I, self.s
        if self.k == "for" and s.get("init"):
            I.exec(s["init"])
        if self.k == "rfor":
            if s.get("init0"):
                I.exec(s["init0"])
            I.exec(s["range"])
            I.exec(s["begin"])
            I.exec(s["end"])

    def cond(self):
        I, s = self.I, self.s
        if s.get("var"):
            I.exec(s["var"])
        if s.get("c") is None:
            return True
        c = I.truth(I.rv(s["c"]))
        if not isinstance(c, bool):
            c = z3.simplify(c)
            if z3.is_true(c):
                return True
            if z3.is_false(c):
                return False
        return c

    def body(self):
        """None to go on, else the control result (break/ret)."""
        I, s = self.I, self.s

        def go():
            if self.k == "rfor":
                I.exec(s["lv"])
            return I.exec(s["b"])
        r = I.scoped(go)
        if r is not None and r[0] == "continue":
            r = None
        if r is None and s.get("inc") is not None:
            I.discard(s["inc"])
        return r

    @property
    def name(self):
        f = self.I.fr.fn
        return "%s:%s" % (f.info.q if f else "?", self.s.get("ln"))


def run_loop(I, s):
    P = I.P
    L = LoopCtl(I, s)
    L.setup()
    n = 0
    forks = 0
    tried = 0
    key = L.name
    st = I.eng.stats
    inv = I.hoare(I, L) if I.hoare else None
    if inv is not None:
        return run_invariant(I, L, inv)
    first_do = L.k == "do"
    before = P.store
    while True:
        P.steps += 1
        if first_do:
            first_do = False
            c, sym, looks = True, False, False
        else:
            before = P.store
            P.store = dict(before)
            c = L.cond()
            sym = not isinstance(c, bool)
            looks = sym
            if sym:
                d = P.ask3(c)
                if d is not None:
                    c, sym = d, False
                    if not c:
                        # keep the knowledge
                        pass
            if (sym or (looks and c and n == 0) or (c is True and s.get("c") is None or (c is True and _lit_true(s.get("c"))))) and tried < 3 \
                    and I.loop_policy.get(key, I.loop_policy.get("*", "auto")) != "unroll":
                tried += 1
                # the summary starts before the condition (it may have effects)
                evaluated = P.store
                P.store = dict(before)
                try:
                    summ = P.memoize("summ", lambda: P.untouched(lambda: summarise(I, L)))
                except (NoForm, NotMergeable) as ex:
                    I.last_noform = "%s: %s" % (key, ex)
                    summ = None
                    if I.debug_loops:
                        print("no closed form", key, ex)
                if summ is not None:
                    if not P.quiet and not P.replaying:
                        st.loops[key] = "inductive summary"
                    return summ(I)
                P.store = evaluated
            if sym:
                forks += 1
                if forks > I.sym_unroll:
                    if not P.quiet:
                        if key not in st.bounded:
                            st.bounded.append(key)
                        st.loops[key] = "bounded at %d iterations" % n
                    raise PathEnd()
                c = P.branch(c)
        if not c:
            if not P.quiet and not P.replaying and L.k != "do":
                st.loops.setdefault(key, "executed to its end on every path")
            return None
        n += 1
        if n > 5000:
            raise Undecided("loop %s runs too long" % key)
        ndec = len(P.logs[-1].taken)
        r = L.body()
        if c is True and _lit_true(s.get("c")) and len(P.logs[-1].taken) != ndec:
            forks += 1
            if forks > I.sym_unroll * 2:
                if key not in st.bounded:
                    st.bounded.append(key)
                raise PathEnd()
        if r is not None:
            return None if r[0] == "break" else r


def run_invariant(I, L, inv):
    """A loop with a stated invariant.  inv.establish(): obligations on entry; inv.havoc(): an arbitrary state in which the
    invariant holds; inv.may(root, path): is this leaf among those havocked; inv.back(): obligations at the back edge."""
    P = I.P
    key = L.name
    inv.establish()
    inv.havoc()
    if not P.quiet and not P.replaying:
        I.eng.stats.loops[key] = "stated invariant"
    head = dict(P.store)
    if L.k != "do":
        if not P.branch(L.cond()):
            return None
    r = L.body()
    if r is not None:
        return None if r[0] == "break" else r
    if L.k == "do" and not P.branch(L.cond()):
        return None
    for root in head:
        if P.store.get(root) is not head[root]:
            ps = []
            diff(head[root], P.store[root], (), ps)
            for p in ps:
                if not inv.may(root, p):
                    raise Undecided("loop %s changes something its stated invariant does not mention: %s %s" % (key, root, p))
    inv.back()
    raise PathEnd()


def _lit_true(c):
    while c is not None and c["k"] in ("full", "cast"):
        c = c["e"]
    return c is None or (c["k"] == "bool" and c["v"]) or (c["k"] == "int" and c["v"] not in ("0",))


def _may_exit(b):
    return True


def _uncond(s):
    return _lit_true(s.get("c"))


# ---- leaves ------------------------------------------------------------------------
def leaf_type(I, root, path):
    t = I.P.ctype.get(root)
    for p in path:
        if t is None:
            return None
        t = t.strip()
        if p[0] == "f":
            if t.k != "rec":
                return None
            if t.tn == "std::pair":
                t = t.ta[0 if p[1] == "first" else 1]
                continue
            try:
                fs = dict(I.fields(t))
            except Unsupported:
                return None
            t = fs.get(p[1])
        else:
            return None
    return t.strip() if t is not None else None


def diff(a, b, path, out):
    if a is b:
        return
    if isinstance(a, Rec) and isinstance(b, Rec) and a.key == b.key:
        for n in a.f:
            diff(a.f[n], b.f[n], path + (("f", n),), out)
        return
    if (isc(a) or isinstance(a, z3.ExprRef)) and (isc(b) or isinstance(b, z3.ExprRef)):
        if same(a, b):
            return
        try:
            if same(z3.simplify(bv(a, b.size() if not isc(b) else a.size())) if not (isc(a) and isc(b)) and not z3.is_bool(a if not isc(a) else b) else a,
                    z3.simplify(bv(b, a.size() if not isc(a) else b.size())) if not (isc(a) and isc(b)) and not z3.is_bool(a if not isc(a) else b) else b):
                return
        except (Unsupported, AttributeError):
            pass
    if isinstance(a, It) and isinstance(b, It) and a.ver == b.ver and same(a.i, b.i) and lv_same(a.lv, b.lv) is True:
        return
    if isinstance(a, Ptr) and isinstance(b, Ptr) and lv_same(a.lv, b.lv) is True:
        return
    if isinstance(a, StrV) and isinstance(b, StrV) and str_eq(a, b) is True:
        return
    out.append(path)


def get_at(v, path):
    for p in path:
        v = v.get(p[1])
    return v


def set_at(v, path, x):
    if not path:
        return x
    return v.set(path[0][1], set_at(v.get(path[0][1]), path[1:], x))


# ---- closed forms --------------------------------------------------------------------
class Linear:
    """scalar: init + step*k"""

    def __init__(self, init, step, w, wrap=None):
        self.init, self.step, self.w = init, step, w

    def at(self, k):
        kk = bv(k, 64)
        kk = z3.Extract(self.w - 1, 0, kk) if self.w < 64 else kk
        return z3.simplify(bv(self.init, self.w) + bv(self.step, self.w) * kk)


class Masked:
    """low bits advance with wrap, high bits stay"""

    def __init__(self, init, step, w, mask):
        self.init, self.step, self.w, self.mask = init, step, w, mask

    def at(self, k):
        w = self.w
        kk = z3.Extract(w - 1, 0, bv(k, 64)) if w < 64 else bv(k, 64)
        i = bv(self.init, w)
        hi = ((1 << w) - 1) ^ self.mask
        return (i & hi) | ((i + bv(self.step, w) * kk) & self.mask)


class Settles:
    def __init__(self, init, v):
        self.init, self.v = init, v

    def at(self, k):
        return merge(eq(bv(k, 64), 0), self.init, self.v)


class ItLinear:
    def __init__(self, init, step):
        self.it, self.step = init, step
        self.init, self.w = init.i, 64

    def at(self, k):
        return self.it.at(z3.simplify(bv(self.it.i, 64) + self.step * bv(k, 64)))


def split(j, d):
    """(j / d, j % d), the second a number when j is written as a multiple of d and a number"""
    if d == 1:
        return j, 0
    if z3.is_bv_value(j):
        n = j.as_long()
        return z3.BitVecVal(n // d, 64), n % d
    c, rest = 0, j
    if z3.is_app_of(j, z3.Z3_OP_BADD) and j.num_args() == 2 and z3.is_bv_value(j.arg(0)):
        c, rest = norm(j.arg(0).as_long(), 64, True), j.arg(1)
    if z3.is_app_of(rest, z3.Z3_OP_BMUL) and rest.num_args() == 2 and z3.is_bv_value(rest.arg(0)) and rest.arg(0).as_long() == d and 0 <= c < d:
        q = rest.arg(1)
        if CURP().must(z3.ULE(q, 1 << 60)):
            return q, c
    return z3.UDiv(j, z3.BitVecVal(d, 64)), z3.URem(j, z3.BitVecVal(d, 64))


def CURP():
    from . import values
    return values.CUR


class Append:
    """sequence: init ++ [elem(j) | j < k]; with step d, d elements an iteration"""

    def __init__(self, I, init, tag, d=1):
        self.I, self.init, self.tag, self.d = I, init, tag, d
        self.elem = None
        self.phase = None

    def pushed(self, v, stv):
        """the elements an iteration appends"""
        out = []
        while v is not stv and isinstance(v, Seq) and v.op and v.op[0] == "push":
            out.insert(0, v.op[2])
            v = v.op[1]
        if v is not stv or len(out) != self.d:
            raise NoForm("another number of appends")
        return out

    def at(self, k):
        P = self.I.P
        init, me = self.init, self

        def fn(i):
            j = z3.simplify(bv(sub64(i, init.n), 64))
            P2 = me.I.P
            q, r = split(j, me.d)
            P2.touch(me.tag, q)
            if me.elem is None:
                raise NoForm("element of a sequence being built")

            def get():
                if isc(r):
                    return me.elem[r](q)
                x = me.elem[-1](q)
                for c in range(me.d - 2, -1, -1):
                    x = merge(r == c, me.elem[c](q), x)
                return x
            if isc(init.n) and init.n == 0:
                return get()
            return pick(ult(i, init.n), lambda: init.get(i), get)
        # the element version covers any number of appends: iterators into the
        # sequence taken before the loop are invalid unless k = 0
        ev = newver()
        return Seq(n=add64(init.n, bv(k, 64) * self.d if self.d > 1 else bv(k, 64)), fn=fn, et=init.et, ver=newver(), ev=init.ev + ((ev, None),), op=("form",))


class DropFront:
    """sequence that loses its first d elements in every iteration (d is the
    same in all of them).  pos(k) elements are gone after k iterations; pos is
    the ghost function with pos(0) = 0, pos(k+1) = pos(k) + d."""

    def __init__(self, I, init, d, tag):
        self.I, self.init, self.d, self.tag = I, init, bv(d, 64), tag
        P = I.P
        self.pos = P.fresh_fn("dropped", [B64], B64)
        self.ver = newver()
        self.fits = self.some = True     # shown for every iteration once it is summarised
        self.define(P)

    def define(self, P):
        pos, d = self.pos, self.d
        P.assume(pos(z3.BitVecVal(0, 64)) == 0)
        P.fact((self.tag,), lambda j: pos(z3.simplify(j + 1)) == pos(j) + d)

    def lemmas(self, P, K):
        """By induction on the number of iterations, from the inductive step."""
        pos, d, n = self.pos, self.d, bv(self.init.n, 64)
        if self.fits:
            P.fact((self.tag,), lambda j: z3.Implies(z3.ULE(j, K), z3.ULE(pos(j), n)))
            P.fact((self.tag, self.tag), lambda i, j: z3.Implies(z3.And(z3.ULT(i, j), z3.ULE(j, K)), z3.And(z3.ULE(pos(i), pos(j)), z3.ULE(d, pos(j) - pos(i)))))
            if self.some:
                P.fact((self.tag,), lambda j: z3.Implies(z3.ULE(j, K), z3.ULE(j, pos(j))))

    def at(self, k):
        k = bv(k, 64)
        init, pos, tag, I = self.init, self.pos, self.tag, self.I
        I.P.touch(tag, k)
        I.P.touch(tag, z3.simplify(k - 1))
        return Seq(n=bv(init.n, 64) - pos(k), fn=lambda i: init.get(z3.simplify(bv(i, 64) + pos(k))), et=init.et, ver=self.ver, ev=init.ev + ((self.ver, 0),), op=("form",))

    def cands(self):
        return [lambda k: z3.ULE(self.pos(k), bv(self.init.n, 64))]


def one(a, b):
    """a is b + 1"""
    d = z3.simplify(bv(a, 64) - bv(b, 64))
    return z3.is_bv_value(d) and d.as_long() == 1


class StrSuffix:
    """string view that loses one character in every iteration"""

    def __init__(self, init):
        self.init = init
        _, self.fn, self.off, self.n, self.ident = init.sub()

    def at(self, k):
        k = bv(k, 64)
        return StrV([("s", self.fn, z3.simplify(bv(self.off, 64) + k), z3.simplify(bv(self.n, 64) - k), self.ident)])

    def cands(self):
        return [lambda k: z3.ULE(k, bv(self.n, 64))]


class StrAppend:
    """string: init ++ [char(j) | j < k], one character an iteration"""

    def __init__(self, I, init, forms):
        self.I, self.init, self.forms, self.src = I, init, forms, None
        self.any = StrV([("s", I.P.fresh_fn("chars", [B64], z3.BitVecSort(8)), z3.BitVecVal(0, 64), z3.BitVecVal(0, 64), I.P.name("chars"))])

    def at(self, k):
        if self.src is None:
            _, fn, off, _, ident = self.any.sub()
        else:
            fn, off, ident = self.src
        if isc(k) and k == 0:
            return self.init
        return self.init + StrV([("s", fn, off, bv(k, 64), ident)])

    @staticmethod
    def pushed(v, h):
        """the character that v has more than h"""
        a, b = list(h.p), list(v.p)
        if len(b) == len(a) and a and isinstance(a[-1], tuple) and a[-1][0] == "s" and isinstance(b[-1], tuple) and b[-1][0] == "s" and b[-1][4] == a[-1][4] \
                and one(b[-1][3], a[-1][3]):
            return b[-1][1](z3.simplify(bv(a[-1][2], 64) + bv(a[-1][3], 64)))
        if len(b) == len(a) + 1 and isinstance(b[-1], tuple) and b[-1][0] == "c" and all(x is y or (isinstance(x, tuple) and isinstance(y, tuple) and piece_same(x, y)) or x == y for x, y in zip(a, b)):
            return b[-1][1]
        raise NoForm("string update")

    def finish(self, k, vals, couts):
        P = self.I.P
        chs = [self.pushed(v, stv) for v, stv in vals]
        # consecutive characters of a string that is being consumed?
        for f in self.forms.values():
            if isinstance(f, StrSuffix):
                c = bv(f.fn(z3.simplify(bv(f.off, 64) + k)), 8)
                if all(P.ask_under(o, bv(ch, 8) == c) for o, ch in zip(couts, chs)):
                    self.src = (f.fn, bv(f.off, 64), f.ident)
                    return
        if not all(same(c, chs[0]) for c in chs):
            raise NoForm("different characters appended")
        ch = chs[0]
        ident = self.any.sub()[4]
        if not isinstance(ch, z3.ExprRef):
            self.src = (lambda i: z3.BitVecVal(ch, 8), z3.BitVecVal(0, 64), ident)
        else:
            self.src = (lambda i: z3.substitute(ch, (k, bv(i, 64))), z3.BitVecVal(0, 64), ident)


class Stores:
    """sequence with a store at idx(j) of val(j) in every iteration j < k"""

    def __init__(self, I, init, tag):
        self.I, self.init, self.tag = I, init, tag
        self.idx = self.val = None
        self.base = None        # set when iteration j stores at base + j

    def at(self, k):
        P = self.I.P
        me = self
        if self.base is not None:
            # exactly [base, base + k) has been written
            if self.val is None:
                f = self.I.symfn(me.init.et, "stored", [z3.BitVecSort(64)])
                val = lambda j: f(z3.simplify(bv(j, 64) + me.base))
            else:
                val = me.val
            k = bv(k, 64)

            def fn(i):
                j = z3.simplify(bv(i, 64) - me.base)
                P2 = me.I.P
                P2.touch("idx", bv(i, 64))
                P2.touch(me.tag, j)
                c = z3.simplify(z3.ULT(j, k))
                if z3.is_false(c):
                    return me.init.get(i)
                return val(j) if z3.is_true(c) else merge(c, val(j), me.init.get(i))
            return Seq(n=me.init.n, fn=fn, et=me.init.et, ver=me.init.ver, ev=me.init.ev, op=("form",))
        if self.idx is None:
            # generic iteration: content unknown but well-formed
            if not isc(k) and me.init.et is not None:
                f = self.I.symfn(me.init.et, "stored", [z3.BitVecSort(64)])
                return Seq(n=bv(me.init.n, 64), fn=lambda i: f(bv(i, 64)), et=me.init.et, ver=me.init.ver, ev=me.init.ev)
            raise NoForm("stores")
        W = P.fresh_fn("lastwriter", [z3.BitVecSort(64)], z3.BitVecSort(64))
        k = bv(k, 64)
        P.fact(("idx",), lambda x: b_and(ule(W(x), k), b_imp(W(x) != 0, eq(bv(me.idx(W(x) - 1), 64), x))))
        P.fact((self.tag,), lambda j: b_imp(ult(j, k), z3.UGE(W(bv(me.idx(j), 64)), j + 1)))

        def fn(i):
            P2 = me.I.P
            i = bv(i, 64)
            P2.touch("idx", i)
            P2.touch(me.tag, z3.simplify(W(i) - 1))
            return merge(eq(W(i), 0), me.init.get(i), me.val(W(i) - 1))
        return Seq(n=me.init.n, fn=fn, et=me.init.et, ver=me.init.ver, ev=me.init.ev, op=("form",))


class Flag:
    """bool accumulated with && (or ||) of a per-iteration condition"""

    def __init__(self, I, init, conj, tag):
        self.I, self.init, self.conj, self.tag = I, init, conj, tag
        self.c = None

    def at(self, k):
        P = self.I.P
        if self.c is None:
            return P.fresh("flag", z3.BoolSort())
        k = bv(k, 64)
        A = P.fresh("all", z3.BoolSort())       # conj: all c(j); disj: some c(j)
        w = P.fresh("witness", z3.BitVecSort(64))
        P.touch(self.tag, w)
        me = self
        if self.conj:
            P.fact((self.tag,), lambda j: b_imp(b_and(A, ult(j, k)), me.c(j)))
            P.assume(b_or(A, b_and(ult(w, k), b_not(me.c(w)))))
            return b_and(self.init, A)
        P.fact((self.tag,), lambda j: b_imp(b_and(b_not(A), ult(j, k)), b_not(me.c(j))))
        P.assume(b_or(b_not(A), b_and(ult(w, k), me.c(w))))
        return b_or(self.init, A)


class Stated:
    """A leaf whose value at iteration k is given by a stated invariant."""

    def __init__(self, fn):
        self.at = fn


class MapInv:
    """Stated invariant of a loop over one map: membership in closed form, and
    facts about every key.  `look` touches what the proof about key x needs."""

    def __init__(self, init, has, fact, look):
        self.m0, self.has, self.fact, self.look = init, has, fact, look

    def covers(self, v):
        return isinstance(v, (hashmap.MapV, hashmap.MapC))

    def form(self, init):
        m0, has = self.m0, self.has
        return Stated(lambda k: hashmap.MapV(m0.t, lambda x: has(bv(k, 64), x), m0.get, ("stated", None)))

    def assume(self, I, k):
        P = I.P
        k = bv(k, 64)
        P.fact((self.m0.tag,), lambda x: self.fact(k, x))

    def key(self, I):
        P = I.P
        x = P.fresh("key", hashmap.key_sort(I, self.m0.t.ta[0]))
        P.touch_raw(self.m0.tag, x)
        self.look(x)
        return x

    def establish(self, I):
        x = self.key(I)
        z = z3.BitVecVal(0, 64)
        if not I.P.ask(zb(b_and(self.fact(z, x), eq(zb(self.has(z, x)), zb(self.m0.has(x)))))):
            raise NoForm("the stated invariant does not hold initially")

    def preserved(self, I, o, k1, v):
        P = I.P
        x = self.key(I)
        v = hashmap.to_func(I, v)
        vt = hashmap.kv(self.m0.t)[1]
        g = b_and(self.fact(k1, x), zb(self.has(k1, x)) == zb(v.has(x)))
        if vt is not None:
            g = b_and(g, b_imp(v.has(x), val_eq(v.get(x), self.m0.get(x))))
        return P.ask_under(o, zb(g))


def subst_val(v, frm, to):
    """Substitutes a term inside a value."""
    if isc(v) or v is None:
        return v
    if isinstance(v, z3.ExprRef):
        return z3.substitute(v, (frm, to))
    if isinstance(v, TIte):
        return TIte(z3.substitute(zb(v.c), (frm, to)), subst_val(v.a, frm, to), subst_val(v.b, frm, to))
    if isinstance(v, Rec):
        return Rec(v.key, {n: subst_val(x, frm, to) for n, x in v.f.items()}, v.tn)
    if isinstance(v, OptV):
        return OptV(subst_val(v.has, frm, to), subst_val(v.v, frm, to))
    if isinstance(v, VarV):
        return VarV(subst_val(v.idx, frm, to), tuple(subst_val(x, frm, to) for x in v.alts))
    if isinstance(v, StrV):
        out = []
        for x in v.p:
            if isinstance(x, bytes):
                out.append(x)
            elif x[0] == "o":
                out.append(("o", x[1], z3.substitute(x[2], (frm, to)), subst_val(x[3], frm, to)))
            elif x[0] == "s":
                out.append(("s", x[1], subst_val(x[2], frm, to), subst_val(x[3], frm, to), x[4]))
            elif x[0] == "j":
                out.append(("j", x[1], subst_val(x[2], frm, to)))
            else:
                out.append((x[0], subst_val(x[1], frm, to)) + tuple(x[2:]))
        return StrV(out)
    if isinstance(v, Seq):
        if v.items is not None:
            return Seq([subst_val(x, frm, to) for x in v.items], et=v.et)
        return Seq(n=subst_val(v.n, frm, to), fn=lambda i: subst_val(v.get(i), frm, to), et=v.et)
    if isinstance(v, It):
        return It(subst_val(v.lv, frm, to), subst_val(v.i, frm, to), v.ver, v.rev)
    if isinstance(v, LV):
        return LV(v.root, tuple(tuple(subst_val(x, frm, to) if not isinstance(x, (str, int)) else x for x in p) for p in v.path))
    if isinstance(v, Ptr):
        return Ptr(subst_val(v.lv, frm, to))
    if isinstance(v, (Null, FnV, Opaque, CStr)):
        return v
    if hasattr(v, "subst"):
        return v.subst(lambda x: subst_val(x, frm, to))
    raise NoForm("value of kind " + type(v).__name__)


def summarise(I, L):
    I.loop_depth += 1
    try:
        return summarise1(I, L)
    finally:
        I.loop_depth -= 1


def summarise1(I, L):
    """Returns a function that continues the path after the loop."""
    P = I.P
    store0 = P.store
    roots0 = set(store0)
    uid = "%s" % (P.name("loop"))
    tag = "it:" + uid

    cmark = [0]

    def iteration():
        c = L.cond()
        if not isinstance(c, bool) or not c:
            P.assume(c)
        cmark[0] = len(P.pc)
        r = L.body()
        return "cont" if r is None else "exit"

    # -- A: what does an iteration modify?
    mods = {}
    generic = {}
    for _ in range(12):
        st = dict(store0)
        for (root, path), h in generic.items():
            st[root] = set_at(st[root], path, h)
        P.store = st
        try:
            outs = P.explore(iteration, quiet=True)
        finally:
            P.store = store0
        outs = [o for o in outs if o.val == "cont"]
        if not outs:
            raise NoForm("no iteration continues")
        new = []
        for o in outs:
            for r in roots0:
                if o.store[r] is not st[r]:
                    ps = []
                    diff(st[r], o.store[r], (), ps)
                    for p in ps:
                        if (r, p) not in generic and (r, p) not in new:
                            new.append((r, p))
        if not new:
            break
        for r, p in new:
            # drop leaves below a leaf that is replaced as a whole
            for q in list(generic):
                if q[0] == r and q[1][:len(p)] == p:
                    del generic[q]
            generic[(r, p)] = havoc(I, r, p, get_at(store0[r], p))
    else:
        raise NoForm("modified set does not stabilise")

    # -- B: guess closed forms
    forms = {}
    inv = I.loop_inv(I, L, {lp: get_at(store0[lp[0]], lp[1]) for lp in generic}) if I.loop_inv else None
    if inv is not None:
        inv.establish(I)
    for (r, p), h in generic.items():
        init = get_at(store0[r], p)
        if inv is not None and inv.covers(init):
            forms[(r, p)] = inv.form(init)
            continue
        news = [get_at(o.store[r], p) for o in outs]
        if isinstance(init, StrV):
            forms[(r, p)] = guess_str(I, init, h, news, forms)
            continue
        forms[(r, p)] = guess(I, (r, p), init, h, news, outs, generic, tag)

    # -- C: prove them inductive at an arbitrary k
    k = P.fresh("k", z3.BitVecSort(64))
    ctx0 = P.ctx
    cands = nowrap_candidates(I, forms)

    def at(kk, base):
        st = dict(base)
        for (r, p), f in forms.items():
            st[r] = set_at(st[r], p, f.at(kk))
        return st

    def assume_cands(kk):
        P = I.P
        P.assume(z3.ULE(kk, 1 << 62))
        for c in cands:
            P.assume(c(kk))

    def generic_run(history):
        def run():
            P.store = at(k, store0)
            starts = {lp: get_at(P.store[lp[0]], lp[1]) for lp in forms}
            assume_cands(k)
            if inv is not None:
                inv.assume(I, k)
            npre = len(P.pc)
            if history:
                add_history(P, k, history, forms, tag)
                for x in bound_terms(history[1], k, forms):
                    P.touch(tag, x)
            npre = len(P.pc)
            nf = len(P.facts)
            r = iteration()
            return r, npre, nf, starts, cmark[0]
        P.ctx = ctx0 + (k,)
        try:
            base_pc = len(P.pc)
            base_f = len(P.facts)
            outs = P.explore(run, quiet=history is None)
            return outs, base_pc, base_f
        finally:
            P.ctx = ctx0

    # Houdini on the no-wrap candidates
    for _ in range(6):
        outs, bpc, bf = generic_run(None)
        couts = [o for o in outs if o.val[0] == "cont"]
        if not couts:
            raise NoForm("no iteration continues from the closed form")
        bad = set()
        for o in couts:
            for i, c in enumerate(cands):
                if i not in bad and not P.ask_under(o, c(z3.simplify(k + 1))):
                    bad.add(i)
        if not bad:
            break
        cands = [c for i, c in enumerate(cands) if i not in bad]
    # element functions etc.
    conds = []
    for o in couts:
        conds.append(b_and(*o.dpc[o.val[1] - bpc:]))
    for lp, f in forms.items():
        vals = [(get_at(o.store[lp[0]], lp[1]), o.val[3][lp]) for o in couts]
        if isinstance(f, Append):
            rows = [f.pushed(v, stv) for v, stv in vals]
            f.elem = []
            for es in zip(*rows):
                e = es[-1]
                for c, x in zip(reversed(conds[:-1]), reversed(es[:-1])):
                    e = merge(c, x, e)
                f.elem.append((lambda e: lambda j: subst_val(e, k, j))(e))
        elif isinstance(f, Stores):
            idxs, xs = [], []
            for v, stv in vals:
                if not (isinstance(v, Seq) and v.op and v.op[0] == "set" and v.op[1] is stv):
                    raise NoForm("not one store per iteration")
                idxs.append(v.op[2])
                xs.append(v.op[3])
            i, x = idxs[-1], xs[-1]
            for c, ii, xx in zip(reversed(conds[:-1]), reversed(idxs[:-1]), reversed(xs[:-1])):
                i, x = merge(c, bv(ii, 64), bv(i, 64)), merge(c, xx, x)
            f.idx = (lambda i: lambda j: subst_val(bv(i, 64), k, j))(i)
            f.val = (lambda x: lambda j: subst_val(x, k, j))(x)
        elif isinstance(f, StrAppend):
            f.finish(k, vals, couts)
        elif hasattr(f, "finish"):
            f.finish(k, vals, conds)
        elif isinstance(f, Stated):
            for o, (v, stv) in zip(couts, vals):
                if not inv.preserved(I, o, z3.simplify(k + 1), v):
                    raise NoForm("the stated invariant is not inductive")
        elif isinstance(f, DropFront):
            for o, (v, stv) in zip(couts, vals):
                if not (isinstance(v, Seq) and v.op and v.op[0] == "drop" and v.op[1] is stv and P.ask_under(o, bv(v.op[2], 64) == f.d)):
                    raise NoForm("not one drop per iteration")
                f.fits = f.fits and P.ask_under(o, z3.ULE(f.d, bv(f.init.n, 64) - f.pos(k)))
                f.some = f.some and P.ask_under(o, f.d != 0)
        elif isinstance(f, Flag):
            cs = []
            for v, stv in vals:
                v = zb(v)
                t = z3.simplify(z3.substitute(v, (stv, z3.BoolVal(True))))
                e = z3.simplify(z3.substitute(v, (stv, z3.BoolVal(False))))
                cs.append(t if f.conj else e)
            c0 = cs[-1]
            for c, x in zip(reversed(conds[:-1]), reversed(cs[:-1])):
                c0 = b_ite(c, x, c0)
            f.c = (lambda c0: lambda j: z3.substitute(zb(c0), (k, j)))(c0)
        else:
            want = f.at(z3.simplify(k + 1))
            for o, (v, stv) in zip(couts, vals):
                if isinstance(v, It) and isinstance(want, It):
                    if v.ver != want.ver or lv_same(v.lv, want.lv) is not True:
                        raise NoForm("iterator changes container")
                    g = eq(bv(v.i, 64), bv(want.i, 64))
                else:
                    g = val_eq(v, want)
                if not P.ask_under(o, g):
                    raise NoForm("closed form of %s is not inductive" % (lp,))
    # stores at successive positions: what is read ahead of them is unchanged
    inplace = [f for f in forms.values() if isinstance(f, Stores) and f.base is None and f.init.et is not None]
    for f in inplace:
        c = z3.simplify(bv(f.idx(k), 64) - k)
        f.base = c if not mentions(c, [k]) else None
    inplace = [f for f in inplace if f.base is not None]
    if inplace:
        for f in inplace:
            f.val = None
        outs, bpc, bf = generic_run(None)
        couts = [o for o in outs if o.val[0] == "cont"]
        if not couts:
            raise NoForm("no iteration continues from the closed form")
        conds = [b_and(*o.dpc[o.val[1] - bpc:]) for o in couts]
        for lp, f in forms.items():
            if f in inplace:
                xs = []
                for o in couts:
                    v, stv = get_at(o.store[lp[0]], lp[1]), o.val[3][lp]
                    if not (isinstance(v, Seq) and v.op and v.op[0] == "set" and v.op[1] is stv and P.ask_under(o, bv(v.op[2], 64) == k + f.base)):
                        raise NoForm("not one store per iteration")
                    xs.append(v.op[3])
                x = xs[-1]
                for c, xx in zip(reversed(conds[:-1]), reversed(xs[:-1])):
                    x = merge(c, xx, x)
                f.val = (lambda x: lambda j: subst_val(x, k, j))(x)
    # everything else must be unchanged
    for o in couts:
        for r in roots0:
            ps = []
            chk = at_shallow(store0[r], [(p, o.val[3][(rr, p)]) for rr, p in forms if rr == r])
            diff(chk, o.store[r], (), ps)
            for p in ps:
                if (r, p) not in forms:
                    raise NoForm("unexpected change")
    if any(isinstance(f, hashmap.MapForm) for f in forms.values()):
        # what an iteration learns, with the containers' contents known
        outs, bpc, bf = generic_run(None)
        couts = [o for o in outs if o.val[0] == "cont"]
        if not couts:
            raise NoForm("no iteration continues from the closed form")
        conds = [b_and(*o.dpc[o.val[1] - bpc:]) for o in couts]
        for lp, f in forms.items():
            if isinstance(f, hashmap.MapForm):
                f.finish(k, [(get_at(o.store[lp[0]], lp[1]), o.val[3][lp]) for o in couts], conds)
    contk = b_or(*conds)
    dfacts = []
    for o, c in zip(couts, conds):
        for fct in o.dfacts[o.val[2] - bf:]:
            dfacts.append((fct, c))
    if inv is not None:
        # the stated invariant stands for what earlier iterations did
        contk, dfacts = b_or(*[b_and(*o.dpc[o.val[1] - bpc:o.val[4] - bpc]) for o in couts]), []
    hist = (k, contk, dfacts)

    # -- obligations inside the body, for an arbitrary iteration
    if not P.quiet:
        generic_run(hist)

    def after(I):
        P = I.P
        K = P.fresh("iters", z3.BitVecSort(64))
        base = dict(P.store)
        P.store = at(K, base)
        for f in forms.values():
            if isinstance(f, DropFront):
                f.define(P)
                f.lemmas(P, K)
                P.prefixes.append(f)
        assume_cands(K)
        if inv is not None:
            inv.assume(I, K)
        add_history(P, K, hist, forms, tag)
        P.iters.append(K)
        P.touch(tag, z3.simplify(K - 1))
        P.touch(tag, z3.BitVecVal(0, 64))
        for t in bound_terms(hist[1], k, forms):
            P.touch(tag, t)
        if not P.quiet and not P.replaying:
            ok = P.check(z3.UGT(K, 1 << 41), ms=5000) == z3.unsat
            if not ok:
                I.eng.stats.loops[L.name + " termination"] = "not proved"
        P.quiet += 1
        try:
            c = L.cond()
            if not P.branch(c):
                return None
            r = L.body()
        finally:
            P.quiet -= 1
        if r is None:
            raise PathEnd()       # K is by definition the last iteration
        return None if r[0] == "break" else r
    return after


def at_shallow(v, reps):
    for p, x in reps:
        v = set_at(v, p, x)
    return v


def add_history(P, K, hist, forms, tag):
    k, contk, dfacts = hist

    def h(j):
        return b_imp(ult(j, K), z3.substitute(zb(contk), (k, j)))
    P.fact((tag,), h)
    for f in forms.values():
        if isinstance(f, (Linear, ItLinear)) and f.w == 64 and isc(f.step) and f.step in (1, -1):
            ini, stp = bv(f.init, 64), f.step
            P.fact(("idx",), (lambda ini, stp: lambda x: h(z3.simplify((x - ini) * stp)))(ini, stp))
    for fct, c in dfacts:
        def body(*xs, fct=fct, c=c):
            j, ys = xs[-1], xs[:-1]
            # the fact was stated for iteration k
            b = b_imp(fct.guard, fct.body(*ys))
            return b_imp(b_and(ult(j, K), z3.substitute(zb(c), (k, j))), z3.substitute(zb(b), (k, j)))
        P.fact(tuple(_retag(t, tag) for t in fct.tags) + (tag,), body)


def _retag(t, tag):
    return t


def bound_terms(contk, k, forms):
    """Iteration numbers at which a disequality in the continuation condition
    would fail."""
    out = []
    seen = set()
    st = [contk] if not isinstance(contk, bool) else []
    while st:
        t = st.pop()
        if t.get_id() in seen or len(out) > 8:
            continue
        seen.add(t.get_id())
        if z3.is_not(t) and z3.is_eq(t.arg(0)) and z3.is_bv(t.arg(0).arg(0)) and t.arg(0).arg(0).size() == 64:
            a, b = t.arg(0).arg(0), t.arg(0).arg(1)
            z = z3.BitVecVal(0, 64)
            a0, b0 = z3.substitute(a, (k, z)), z3.substitute(b, (k, z))
            out.append(z3.simplify(b0 - a0))
            out.append(z3.simplify(a0 - b0))
        elif z3.is_app(t) and t.sort() == z3.BoolSort():
            st.extend(t.children())
    return out


def nowrap_candidates(I, forms):
    """k stays small enough for linear variables not to wrap."""
    out = []
    for (r, p), f in forms.items():
        if isinstance(f, (DropFront, StrSuffix)):
            out += f.cands()
        if isinstance(f, Linear) and isc(f.step) and f.step != 0:
            t = leaf_type(I, r, p)
            if t is None:
                continue
            w, sg, stp = f.w, t.sg, f.step
            if w >= 64:
                if stp > 0 and not sg:
                    out.append((lambda ini: lambda k: z3.ULE(k, ~ini))(bv(f.init, 64)) if stp == 1 else (lambda k: True))
                continue
            ini = bv(f.init, w)
            ext = z3.SignExt(64 - w, ini) if sg else z3.ZeroExt(64 - w, ini)
            lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if sg else (0, (1 << w) - 1)
            st = norm(stp, w, True)

            def c(k, ext=ext, lo=lo, hi=hi, st=st):
                v = ext + z3.BitVecVal(st, 64) * k
                return z3.And(z3.ULE(k, (1 << 33)), v >= z3.BitVecVal(lo, 64), v <= z3.BitVecVal(hi, 64))
            out.append(c)
    return out


def havoc(I, r, p, init):
    P = I.P
    if isinstance(init, It):
        return init.at(P.fresh("h", z3.BitVecSort(64)))
    if isinstance(init, StrV):
        x = init.sub()
        if x is not None:
            return StrV([("s", x[1], P.fresh("h.off", B64), P.fresh("h.len", B64), x[4])])
        return StrV([("s", P.fresh_fn("h.chars", [B64], z3.BitVecSort(8)), z3.BitVecVal(0, 64), P.fresh("h.len", B64), P.name("h.chars"))])
    if isinstance(init, Seq):
        if init.et is None:
            t = leaf_type(I, r, p)
            et = t.ta[0] if t is not None and t.k == "rec" and t.ta else (t.el if t is not None and t.k == "arr" else None)
            if et is None:
                raise NoForm("sequence of unknown element type")
        else:
            et = init.et
        n = P.fresh("h.len", z3.BitVecSort(64))
        f = I.symfn(et, "h.el", [z3.BitVecSort(64)])
        return Seq(n=n, fn=lambda i: f(bv(i, 64)), et=et, ver=init.ver, ev=init.ev)
    if isc(init) or isinstance(init, (z3.ExprRef, TIte)):
        if isinstance(init, bool) or (isinstance(init, z3.ExprRef) and z3.is_bool(init)):
            return P.fresh("h", z3.BoolSort())
        if isinstance(init, z3.ExprRef):
            return P.fresh("h", init.sort())
        t = leaf_type(I, r, p)
        if t is None or t.k not in ("int", "enum"):
            raise NoForm("unknown width of a modified variable")
        return P.fresh("h", z3.BitVecSort(t.w))
    if hasattr(init, "havoc"):
        return init.havoc(I)
    if isinstance(init, Ptr) and init.lv.path and init.lv.path[-1][0] == "e":
        return Ptr(LV(init.lv.root, init.lv.path[:-1] + (("e", P.fresh("h", z3.BitVecSort(64))),)))
    raise NoForm("cannot generalise a %s" % type(init).__name__)


def mentions(t, syms):
    ids = {s.get_id() for s in syms}
    seen, st = set(), [t]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.get_id() in ids:
            return True
        st.extend(x.children())
    return False


def guess_str(I, init, h, news, forms):
    x = init.sub()
    if x is not None and all(v.sub() is not None and v.sub()[4] == x[4] and one(v.sub()[2], h.sub()[2])
                             and one(h.sub()[3], v.sub()[3]) for v in news):
        return StrSuffix(init)
    for v in news:
        StrAppend.pushed(v, h)
    return StrAppend(I, init, forms)


def guess(I, lp, init, h, news, outs, generic, tag):
    P = I.P
    if isinstance(h, It):
        ds = []
        for v in news:
            if not isinstance(v, It) or v.ver != h.ver:
                raise NoForm("iterator leaves its container")
            d = z3.simplify(bv(v.i, 64) - h.i)
            if not z3.is_bv_value(d):
                raise NoForm("iterator step")
            ds.append(norm(d.as_long(), 64, True))
        if len(set(ds)) != 1:
            raise NoForm("iterator step varies")
        return ItLinear(init, ds[0])
    if isinstance(h, Ptr):
        raise NoForm("pointer walk")
    if isinstance(h, Seq):
        kinds = set()
        for d in (2, 3, 4):
            try:
                for v in news:
                    Append(I, init, tag, d).pushed(v, h)
            except NoForm:
                continue
            return Append(I, init, tag, d)
        for v in news:
            if not isinstance(v, Seq) or not v.op or v.op[1] is not h:
                kinds.add(None)
            else:
                kinds.add(v.op[0])
        if kinds == {"drop"}:
            d = [z3.simplify(bv(v.op[2], 64)) for v in news]
            syms = [x for x in generic.values() if isinstance(x, z3.ExprRef)]
            if all(x.eq(d[0]) for x in d) and not mentions(d[0], syms):
                return DropFront(I, init, d[0], tag)
            raise NoForm("drops a varying number of elements")
        if kinds == {"push"}:
            return Append(I, init, tag)
        if kinds == {"set"}:
            return Stores(I, init, tag)
        raise NoForm("sequence update")
    if hasattr(h, "guess"):
        return h.guess(I, init, news, outs, tag)
    syms = [x for x in generic.values() if isinstance(x, z3.ExprRef)]
    if z3.is_bool(h):
        vs = [zb(v) for v in news]
        T = [z3.simplify(z3.substitute(v, (h, z3.BoolVal(True)))) for v in vs]
        F = [z3.simplify(z3.substitute(v, (h, z3.BoolVal(False)))) for v in vs]
        if all(z3.is_false(f) for f in F):
            return Flag(I, init, True, tag)
        if all(z3.is_true(t) for t in T):
            return Flag(I, init, False, tag)
        if all(t.eq(f) for t, f in zip(T, F)) and all(t.eq(T[0]) for t in T) and not mentions(T[0], syms):
            return Settles(init, T[0])
        raise NoForm("flag update")
    w = h.size()
    ds = [z3.simplify(bv(v, w) - h) for v in news]
    if all(d.eq(ds[0]) for d in ds) and not mentions(ds[0], syms):
        d = ds[0]
        return Linear(init, norm(d.as_long(), w, True) if z3.is_bv_value(d) else d, w)
    vals = [z3.simplify(bv(v, w)) for v in news]
    if all(v.eq(vals[0]) for v in vals) and not mentions(vals[0], syms):
        return Settles(init, vals[0])
    for mask in (0xffff, 0xff):
        if w <= 16 and mask == 0xffff:
            continue
        nb = mask.bit_length()
        # find the step from a model, then prove it
        o, v = outs[0], bv(news[0], w)
        low = z3.simplify(z3.Extract(nb - 1, 0, v) - z3.Extract(nb - 1, 0, h))
        step = None
        if z3.is_bv_value(low):
            step = low.as_long()
        else:
            s = z3.Solver()
            s.set("timeout", 3000)
            s.add(*[c for c in o.dpc])
            if s.check() == z3.sat:
                step = s.model().eval(low, model_completion=True).as_long()
        if step is None:
            continue
        ok = True
        for o, v in zip(outs, news):
            v = bv(v, w)
            g = z3.And(z3.Extract(nb - 1, 0, v) == z3.Extract(nb - 1, 0, h) + step,
                       z3.Extract(w - 1, nb, v) == z3.Extract(w - 1, nb, h))
            if w == 32 and P.must(z3.Extract(31, 24, bv(init, w)) == 0):
                # bits that start as zero and stay so (shown with the form itself)
                g = z3.Implies(z3.Extract(31, 24, h) == 0, g)
            if not P.ask_under(o, g, ms=3000):
                ok = False
                break
        if ok:
            return Masked(init, step, w, mask)
    raise NoForm("update of %s is not recognised" % (lp,))
