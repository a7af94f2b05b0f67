"""Contracts of the standard library, abseil and libc functions the repository
calls.  These are assumptions (trusted contracts); their preconditions (index
in range, iterator valid, optional engaged ...) are proof obligations of the
caller."""
import re
import z3
from .values import *
from .engine import *
from .hashmap import MapV, MPtrIt, SetIt

B64 = z3.BitVecSort(64)
H = {}


def h(*names):
    def deco(f):
        for n in names:
            H[n] = f
        return f
    return deco


def ident(c):
    return c.args[0]


# ---- helpers -----------------------------------------------------------------
def tname(t):
    return re.sub(r"\bconst ", "", t.strip().s).strip()


def take(c, i):
    """Value of argument i; an rvalue reference argument is moved from."""
    a = c.args[i]
    if isinstance(a, LV):
        pt = c.fi.pt[i] if i < len(c.fi.pt) else None
        if pt is not None and pt.k == "rref":
            return c.I.move_out(a)
        return c.P.load(a)
    return a


def is_str(t):
    return t is not None and t.k == "rec" and t.tn in ("std::basic_string", "std::basic_string_view")


def to_str(I, v):
    if isinstance(v, StrV):
        return v
    if isinstance(v, CStr):
        return cstr_value(I, v)
    if isinstance(v, Seq):
        return seq_cstr(v)
    if isinstance(v, Ptr) and v.lv.path and v.lv.path[-1][0] == "e":
        s = I.P.load(LV(v.lv.root, v.lv.path[:-1]))
        if isinstance(s, Seq) and v.lv.path[-1][1] == 0:
            return seq_cstr(s)
        if isinstance(s, StrV) and v.lv.path[-1][1] == 0:
            return s
    if isinstance(v, Null):
        I.P.oblige(False, "null-deref", I.where(), "string pointer is not null")
        raise PathEnd()
    raise Unsupported("string from %r" % (v,))


def seq_cstr(s):
    if s.items is None:
        raise Unsupported("string from a symbolic array")
    out = []
    for x in s.items:
        if isc(x):
            if x == 0:
                return StrV([("c", y) for y in out])
        out.append(x)
    raise Unsupported("unterminated array")


def cstr_value(I, v):
    l = v.s.lit()
    if l is not None and isc(v.off):
        b = l[v.off:]
        return StrV((b.split(b"\0")[0],))
    if isc(v.off) and v.off == 0:
        return v.s
    cs = v.s.chars()
    if cs is not None and isc(v.off):
        return StrV([("c", x) for x in cs[v.off:]])
    raise Unsupported("offset into opaque string")


def conv(I, v, t, ft=None):
    """Converts v to the type t as an initializer would."""
    if t is None:
        return v
    t = t.strip()
    if is_str(t):
        return to_str(I, v)
    if t.k in ("int", "enum", "bool") and ft is not None and ft.strip().k in ("int", "enum", "bool"):
        return I.convert(v, ft.strip(), t)
    if t.k == "rec" and t.tn == "std::pair" and isinstance(v, Rec) and ft is not None and ft.strip().tn == "std::pair":
        f = ft.strip()
        return pair(conv(I, v.f["first"], t.ta[0], f.ta[0]), conv(I, v.f["second"], t.ta[1], f.ta[1]))
    if t.k == "rec" and t.tn in ("std::optional",) and not isinstance(v, OptV):
        return OptV(True, conv(I, v, t.ta[0], ft))
    if t.k == "rec" and t.tn == "std::variant" and not isinstance(v, VarV):
        return make_variant(I, t, v, ft)
    if t.k == "rec" and isinstance(v, Rec) and v.key == t.key:
        return v
    if t.k == "rec" and ft is not None and ft.strip().k == "rec" and ft.strip().key == t.key:
        return v
    if t.k == "rec" and t.tn in ("std::unique_ptr", "std::shared_ptr"):
        return v
    if t.k == "rec" and t.key in I.prog.recs and t.tn not in I.lib.default:
        # converting constructor of a class of the repository
        c = [g for g in I.prog.finfo.values() if g.ctor and g.cls == t.key and len(g.pt) == 1 and ft is not None
             and tname(g.pt[0]) == tname(ft)]
        if len(c) >= 1:
            return I.construct(c[0], t, [I.P.alloc(v) if c[0].pt[0].isref else v])
    return v


def default(I, t):
    return I.zero(t)


def ov(I, q, t):
    """User-defined operator for a class."""
    key = ("op", q, t.key)
    if key not in I.size_cache:
        r = [g for g in I.prog.finfo.values() if g.n == q and g.cls == t.key and len(g.pt) == 1 and tname(g.pt[0]) == tname(t)]
        if not r:
            r = [g for g in I.prog.finfo.values() if g.n == q and g.cls is None and len(g.pt) == 2
                 and tname(g.pt[0]) == tname(t) and tname(g.pt[1]) == tname(t) and g.q.startswith("nsasm")]
        I.size_cache[key] = r[0] if r else None
    return I.size_cache[key]


def call_op(I, fi, a, b):
    P = I.P
    aa = lambda x, i, fi: P.alloc(x) if (fi.pt[i] if i < len(fi.pt) else None) is not None and fi.pt[i].isref else x
    if fi.cls is not None:
        return I.dispatch(fi, P.alloc(a), [aa(b, 0, fi)])
    return I.dispatch(fi, None, [aa(a, 0, fi), aa(b, 1, fi)])


def eqv(I, a, b, t):
    """a == b with the element type's own operator."""
    t = t.strip() if t is not None else None
    if t is None or t.k != "rec":
        return val_eq(a, b)
    if t.tn == "std::optional":
        if a.v is None or b.v is None:
            return b_and(b_not(a.has), b_not(b.has))
        both = b_and(a.has, b.has)
        if both is False:
            return b_not(b_or(a.has, b.has))
        r = I.P.pure(lambda: I.truth(eqv(I, a.v, b.v, t.ta[0])), both if both is not True else None)
        return b_and(eq(zb(a.has), zb(b.has)) if not (isc(a.has) and isc(b.has)) else a.has == b.has, b_or(b_not(a.has), r if r is not None else True))
    if t.tn == "std::variant":
        c = eq(a.idx, b.idx)
        if c is False:
            return False
        for i, tt in enumerate(t.ta):
            ai, bi = a.alts[i], b.alts[i]
            if ai is None or bi is None:
                continue
            g = b_and(c, eq(a.idx, i))
            if g is False:
                continue
            r = I.P.pure(lambda: I.truth(eqv(I, ai, bi, tt)), g if g is not True else None)
            c = b_and(c, b_imp(eq(a.idx, i), r if r is not None else True))
        return c
    if t.tn == "std::pair":
        return b_and(eqv(I, a.f["first"], b.f["first"], t.ta[0]), eqv(I, a.f["second"], b.f["second"], t.ta[1]))
    if t.tn in ("std::vector", "absl::InlinedVector"):
        return seq_equal(I, a, b, t.ta[0])
    f = ov(I, "operator==", t)
    if f is not None:
        return I.truth(call_op(I, f, a, b))
    return val_eq(a, b)


def seq_equal(I, a, b, et):
    """Equality of two sequences (as a condition)."""
    P = I.P
    if a.items is not None and b.items is not None:
        if len(a.items) != len(b.items):
            return False
        return b_and(*[eqv(I, x, y, et) for x, y in zip(a.items, b.items)])
    c = eq(bv(a.n, 64), bv(b.n, 64)) if not (isc(a.n) and isc(b.n)) else a.n == b.n
    if c is False:
        return False
    # a == b  iff  lengths agree and every element does; the witness stands
    # for the first difference
    A = P.fresh("seqeq", z3.BoolSort())
    w = P.fresh("seqdiff", B64)
    el = I.family(lambda i: zb(I.truth(eqv(I, a.get(i), b.get(i), et))))
    n = bv(a.n, 64)
    P.fact(("idx",), lambda i: b_imp(b_and(A, ult(i, n)), el(i)))
    P.touch("idx", w)
    P.assume(b_or(A, b_and(ult(w, n), b_not(el(w)))))
    return b_and(c, A)


def lessv(I, a, b, t):
    t = t.strip()
    if t.k in ("int", "enum", "bool"):
        return I.compare("<", a, b, t, t)
    if t.tn == "std::pair":
        f1 = lessv(I, a.f["first"], b.f["first"], t.ta[0])
        f2 = lessv(I, b.f["first"], a.f["first"], t.ta[0])
        s = lessv(I, a.f["second"], b.f["second"], t.ta[1])
        return b_or(f1, b_and(b_not(f2), s))
    if is_str(t):
        la, lb = a.lit(), b.lit()
        if la is not None and lb is not None:
            return la < lb
        raise Unsupported("order of symbolic strings")
    f = ov(I, "operator<", t)
    if f is not None:
        return I.truth(call_op(I, f, a, b))
    raise Unsupported("order of " + t.s)


def three(I, a, b, t):
    lt, gt = lessv(I, a, b, t), lessv(I, b, a, t)
    return merge(lt, -1, merge(gt, 1, 0))


# ---- moves ------------------------------------------------------------------------
H["std::move"] = H["std::forward"] = H["std::as_const"] = H["absl::move"] = H["std::addressof"] = ident
H["std::launder"] = ident


@h("std::move")
def _(c):
    if len(c.args) == 3:
        return _copy(c)
    return c.args[0]


@h("std::addressof", "std::__addressof")
def _(c):
    return Ptr(c.args[0])


@h("std::exchange")
def _(c):
    old = c.I.move_out(c.args[0])
    c.P.write(c.args[0], conv(c.I, c.arg(1), c.fi.pt[0], c.fi.pt[1]))
    return old


@h("std::swap", "std::iter_swap")
def _(c):
    a, b = c.args
    if not isinstance(a, LV):
        raise Unsupported("swap")
    x, y = c.P.load(a), c.P.load(b)
    c.P.write(a, y)
    c.P.write(b, x)


def _minmax(mx):
    def f(c):
        t = c.fi.pt[0].strip()
        if t.k == "rec" and t.tn == "std::initializer_list":
            s = c.arg(0)
            r = s.items[0]
            for x in s.items[1:]:
                lt = lessv(c.I, r, x, t.ta[0]) if mx else lessv(c.I, x, r, t.ta[0])
                r = merge(lt, x, r)
            return r
        if len(c.args) != 2:
            raise Unsupported("min/max with a comparator")
        a, b = c.arg(0), c.arg(1)
        lt = lessv(c.I, a, b, t) if mx else lessv(c.I, b, a, t)
        try:
            return c.I.fix(merge(lt, b, a), t)
        except NotMergeable:
            return b if c.P.branch(lt) else a
    return f


H["std::max"] = _minmax(True)
H["std::min"] = _minmax(False)


@h("std::clamp")
def _(c):
    t = c.fi.pt[0].strip()
    v, lo, hi = c.arg(0), c.arg(1), c.arg(2)
    r = merge(lessv(c.I, v, lo, t), lo, merge(lessv(c.I, hi, v, t), hi, v))
    return c.I.fix(r, t)


@h("std::abs", "abs", "labs", "std::labs")
def _(c):
    v, t = c.arg(0), c.fi.rt
    if isc(v):
        return abs(v)
    c.P.oblige(v != z3.BitVecVal(1 << (t.w - 1), t.w), "overflow", c.I.where(), "abs does not overflow")
    return z3.If(v < 0, -v, v)


# ---- sequences ---------------------------------------------------------------------
def et_of(t):
    t = t.strip()
    return t.ta[0] if t.ta else (t.el if t.k == "arr" else None)


def seq0(I, t):
    return Seq((), et=t.ta[0], ver=newver())


def n_of(s):
    return s.n


def it_check(I, it):
    """The iterator is still valid."""
    s = I.P.load(it.lv)
    if isinstance(s, Seq):
        for v, first in s.ev:
            if v > it.ver:
                if first is None:
                    I.P.oblige(False, "iterator", I.where(), "iterator not invalidated by an earlier modification")
                else:
                    I.P.oblige(ult(it.i, first), "iterator", I.where(), "iterator not invalidated by an earlier modification")
    return s


def it_lv(I, it):
    if isinstance(it, (MPtrIt, SetIt)):
        return it.deref(I)
    if isinstance(it, Ptr):
        return it.lv
    if isinstance(it, CStr):
        return I.deref(it)
    if not isinstance(it, It):
        raise Unsupported("dereference of %r" % (it,))
    s = it_check(I, it)
    i = sub64(it.i, 1) if it.rev else it.i
    if isinstance(s, Seq):
        I.P.oblige(ult(i, s.n) if not (isc(i) and i < 0) else False, "bounds", I.where(), "iterator points at an element")
    elif isinstance(s, StrV):
        cs = s.chars()
        if cs is None:
            raise Unsupported("character of an opaque string")
        I.P.oblige(ult(i, len(cs)) if not (isc(i) and i < 0) else False, "bounds", I.where(), "iterator points at a character")
    return it.lv.sub(("e", i))


def begin(c, rev=False):
    v = c.self_val()
    return It(c.obj, 0, _ver(v)) if not rev else It(c.obj, _len(c, v), _ver(v), True)


def _ver(v):
    return v.ver if isinstance(v, Seq) else 0


def _len(c, v):
    if isinstance(v, Seq):
        return v.n
    if isinstance(v, StrV):
        n = v.length()
        if n is None:
            raise Unsupported("length of a formatted string")
        return n
    raise Unsupported("length of %r" % (v,))


def end(c, rev=False):
    v = c.self_val()
    return It(c.obj, _len(c, v), _ver(v)) if not rev else It(c.obj, 0, _ver(v), True)


SEQS = ["std::vector", "std::array", "std::initializer_list", "std::deque", "std::__cxx11::basic_string", "std::basic_string", "std::basic_string_view"]
for n in SEQS:
    H[n + "::begin"] = H[n + "::cbegin"] = begin
    H[n + "::end"] = H[n + "::cend"] = end
    H[n + "::rbegin"] = H[n + "::crbegin"] = lambda c: begin(c, True)
    H[n + "::rend"] = H[n + "::crend"] = lambda c: end(c, True)
    H[n + "::size"] = H[n + "::length"] = lambda c: _len(c, c.self_val())


@h("std::begin", "std::cbegin", "std::ranges::begin")
def _(c):
    v = c.P.load(c.args[0])
    if c.fi.pt[0].strip().k == "arr":
        return Ptr(c.args[0].sub(("e", 0)))
    if isinstance(v, (Seq, StrV)):
        return It(c.args[0], 0, _ver(v))
    raise Unsupported("std::begin")


@h("std::end", "std::cend", "std::ranges::end")
def _(c):
    v = c.P.load(c.args[0])
    if c.fi.pt[0].strip().k == "arr":
        return Ptr(c.args[0].sub(("e", c.fi.pt[0].strip().n)))
    if isinstance(v, (Seq, StrV)):
        return It(c.args[0], _len(c, v), _ver(v))
    raise Unsupported("std::end")


@h("std::size", "std::ssize")
def _(c):
    v = c.P.load(c.args[0])
    if isinstance(v, SpanV):
        return v.n
    return _len(c, v)


@h("std::vector::empty", "std::initializer_list::empty", "std::deque::empty", "std::array::empty")
def _(c):
    return eq(c.self_val().n, 0)


@h("std::vector::operator[]", "std::deque::operator[]", "std::array::operator[]")
def _(c):
    i = c.arg(0)
    s = c.self_val()
    c.P.oblige(ult(i, s.n), "bounds", c.I.where(), "index within the vector")
    return c.obj.sub(("e", i))


@h("std::vector::at", "std::array::at", "std::deque::at")
def _(c):
    i = c.arg(0)
    s = c.self_val()
    c.P.oblige(ult(i, s.n), "bounds", c.I.where(), "index within the vector (at() throws otherwise)")
    return c.obj.sub(("e", i))


@h("std::vector::front", "std::deque::front", "std::array::front")
def _(c):
    c.P.oblige(b_not(eq(c.self_val().n, 0)), "bounds", c.I.where(), "front() of a non-empty vector")
    return c.obj.sub(("e", 0))


@h("std::vector::back", "std::deque::back", "std::array::back")
def _(c):
    n = c.self_val().n
    c.P.oblige(b_not(eq(n, 0)), "bounds", c.I.where(), "back() of a non-empty vector")
    return c.obj.sub(("e", sub64(n, 1)))


@h("std::vector::data", "std::array::data")
def _(c):
    return Ptr(c.obj.sub(("e", 0)))


@h("std::vector::capacity", "std::vector::max_size")
def _(c):
    r = c.P.fresh("capacity", B64)
    c.P.assume(z3.UGE(r, bv(c.self_val().n, 64)))
    return r


@h("std::vector::reserve", "std::vector::shrink_to_fit", "std::basic_string::reserve", "std::basic_string::shrink_to_fit")
def _(c):
    return None


@h("std::vector::clear")
def _(c):
    s = c.self_val()
    c.P.write(c.obj, s._mk(()))


def elem(c, i):
    return conv(c.I, take(c, i), c.ct.ta[0], c.fi.pt[i])


@h("std::vector::push_back", "std::deque::push_back")
def _(c):
    x = elem(c, 0)
    c.P.write(c.obj, with_et(c.self_val(), c.ct).push(x))


def with_et(s, t):
    if s.et is None:
        s = Seq(items=s.items, n=s.n, fn=s.fn, et=t.ta[0], ev=s.ev, ver=s.ver, op=s.op) if s.items is None else \
            Seq(items=s.items, et=t.ta[0], ev=s.ev, ver=s.ver, op=s.op)
    return s


def build(c, et, first=0):
    """Constructs an element from the call's arguments (emplace)."""
    vals = [take(c, i) for i in range(first, len(c.args))]
    ts = [c.fi.pt[i] for i in range(first, len(c.args))]
    return make(c.I, et, vals, ts, c.fi)


def make(I, et, vals, ts, fi=None):
    """Constructs an element: by the constructor that overload resolution chose inside the library function fi."""
    et = et.strip()
    if et.tn == "std::pair" and len(vals) == 2:
        return pair(conv(I, vals[0], et.ta[0], ts[0]), conv(I, vals[1], et.ta[1], ts[1]))
    if not vals:
        return I.zero(et)
    if len(vals) == 1 and (et.k != "rec" or tname(et) == tname(ts[0]) or et.tn in I.lib.default):
        return conv(I, vals[0], et, ts[0])
    m = {d["m"]: d for d in (fi.raw.get("makes") or []) if d["cls"] == et.key and d["n"] == len(vals)} if fi is not None else {}
    if len(m) == 1:
        d = list(m.values())[0]
        g = I.prog.finfo[d["m"]]
        args = [I.P.alloc(conv(I, v, p, q)) if p.isref else conv(I, v, p, q) for v, p, q in zip(vals, g.pt, ts)]
        return I.construct(g, et, args + I.in_tu(fi.tu, lambda: I.args(g, [None] * len(vals) + d["def"], len(vals))))
    c = [g for g in I.prog.finfo.values() if g.ctor and g.cls == et.key and len(g.pt) == len(vals)]
    if len(c) > 1:
        raise Unsupported("which constructor of %s" % et.s)
    c2 = [g for g in c if all(tname(p) == tname(q) for p, q in zip(g.pt, ts))]
    for g in (c2 or c)[:1]:
        args = [I.P.alloc(conv(I, v, p, q)) if p.isref else conv(I, v, p, q) for v, p, q in zip(vals, g.pt, ts)]
        return I.construct(g, et, args)
    if len(vals) == 1:
        return conv(I, vals[0], et, ts[0])
    raise Unsupported("construction of " + et.s)


@h("std::vector::emplace_back", "std::deque::emplace_back")
def _(c):
    x = build(c, c.ct.ta[0])
    s = with_et(c.self_val(), c.ct).push(x)
    c.P.write(c.obj, s)
    return c.obj.sub(("e", sub64(s.n, 1)))


@h("std::vector::pop_back", "std::deque::pop_back")
def _(c):
    s = c.self_val()
    c.P.oblige(b_not(eq(s.n, 0)), "bounds", c.I.where(), "pop_back() of a non-empty vector")
    c.P.write(c.obj, s.pop())


def pos_of(c, it, what="position"):
    if isinstance(it, Ptr):
        return it.lv.path[-1][1]
    if not isinstance(it, It):
        raise Unsupported("iterator %r" % (it,))
    return it.i


def range_of(c, a, b):
    """Sequence denoted by [a, b)."""
    I, P = c.I, c.P
    if isinstance(a, It):
        s = it_check(I, a)
        if not isinstance(b, It) or lv_same(a.lv, b.lv) is not True:
            if isinstance(b, It) and lv_same(a.lv, b.lv) is not False:
                P.oblige(lv_same(a.lv, b.lv), "iterator", I.where(), "iterators into one container")
            else:
                P.oblige(False, "iterator", I.where(), "iterators into one container")
                raise PathEnd()
        if a.rev:
            raise Unsupported("reverse range")
        if isinstance(s, StrV):
            s = Seq(s.chars())
        P.oblige(b_and(ule(a.i, b.i), ule(b.i, s.n)), "bounds", I.where(), "iterator range within the container")
        return s.slice(a.i, b.i)
    if isinstance(a, Ptr):
        lv = LV(a.lv.root, a.lv.path[:-1])
        s = P.load(lv)
        i, j = a.lv.path[-1][1], b.lv.path[-1][1]
        if isinstance(s, StrV):
            s = Seq(s.chars())
        P.oblige(b_and(ule(i, j), ule(j, s.n)), "bounds", I.where(), "pointer range within the array")
        return s.slice(i, j)
    if isinstance(a, CStr):
        cs = a.s.chars()
        return Seq(cs).slice(a.off, b.off)
    raise Unsupported("range of %r" % (a,))


@h("std::vector::insert")
def _(c):
    s = with_et(c.self_val(), c.ct)
    it = c.arg(0)
    if isinstance(it, It):
        it_check(c.I, it)
    p = pos_of(c, it)
    c.P.oblige(ule(p, s.n), "bounds", c.I.where(), "insertion point within the vector")
    if len(c.args) == 2 and c.fi.pt[1].strip().tn == "std::initializer_list":
        r = s.insert_seq(p, c.arg(1))
    elif len(c.args) == 2:
        x = elem(c, 1)
        if same(p, s.n):
            r = s.push(x)
        else:
            r = s.insert(p, (x,))
    elif len(c.args) == 3 and c.fi.pt[1].strip().k == "int":
        n = c.arg(1)
        x = elem(c, 2)
        r = s.insert_seq(p, Seq(n=n, fn=lambda i: x, et=s.et) if not isc(n) else Seq([x] * n))
    else:
        r = s.insert_seq(p, range_of(c, c.arg(1), c.arg(2)))
    c.P.write(c.obj, r)
    return It(c.obj, p, r.ver)


@h("std::vector::emplace")
def _(c):
    s = with_et(c.self_val(), c.ct)
    it = c.arg(0)
    it_check(c.I, it)
    c.P.oblige(ule(it.i, s.n), "bounds", c.I.where(), "insertion point within the vector")
    r = s.insert(it.i, (build(c, c.ct.ta[0], 1),))
    c.P.write(c.obj, r)
    return It(c.obj, it.i, r.ver)


@h("std::vector::erase")
def _(c):
    s = c.self_val()
    a = c.arg(0)
    it_check(c.I, a)
    if len(c.args) == 2:
        b = c.arg(1)
        it_check(c.I, b)
        c.P.oblige(b_and(ule(a.i, b.i), ule(b.i, s.n)), "bounds", c.I.where(), "erased range within the vector")
        r = s.erase(a.i, b.i)
    else:
        c.P.oblige(ult(a.i, s.n), "bounds", c.I.where(), "erased position within the vector")
        r = s.erase(a.i, add64(a.i, 1))
    c.P.write(c.obj, r)
    return It(c.obj, a.i, r.ver)


@h("std::vector::resize")
def _(c):
    s = with_et(c.self_val(), c.ct)
    n = c.arg(0)
    x = elem(c, 1) if len(c.args) > 1 else c.I.zero(c.ct.ta[0])
    if isc(n) and n > 4096 or not isc(n) or s.items is None:
        if isc(s.n) and s.n == 0:
            r = s._mk(n=n, fn=lambda i: x)
        else:
            r = s._mk(n=n, fn=lambda i: merge(ult(i, s.n), s.get(i), x) if s.items is None or s.items else x)
    else:
        r = s._mk(s.items[:n] + (x,) * (n - len(s.items)))
    c.P.write(c.obj, r)


@h("std::vector::assign")
def _(c):
    s = c.self_val()
    if len(c.args) == 1:
        x = c.arg(0)
    elif c.fi.pt[0].strip().k == "int":
        n, v = c.arg(0), elem(c, 1)
        x = Seq([v] * n) if isc(n) and n <= 4096 else Seq(n=n, fn=lambda i: v)
    else:
        x = range_of(c, c.arg(0), c.arg(1))
    c.P.write(c.obj, s._mk(x.items) if x.items is not None else s._mk(n=x.n, fn=x.fn))


@h("std::vector::swap")
def _(c):
    a, b = c.self_val(), c.arg(0)
    c.P.write(c.obj, b)
    c.P.write(c.args[0], a)


@h("std::vector::operator=", "std::basic_string::operator=")
def _(c):
    t = c.ct
    v = take(c, 0)
    if is_str(t):
        if c.fi.pt[0].strip().k == "int":
            v = StrV([("c", v)])
        v = to_str(c.I, v)
    elif isinstance(v, Seq):
        v = fresh_seq(v, t.ta[0])
    c.P.write(c.obj, v)
    return c.obj


def fresh_seq(v, et=None):
    """A copy of a sequence in a new container (no iterators into it yet)."""
    if v.items is not None:
        return Seq(v.items, et=v.et or et, ver=newver())
    return Seq(n=v.n, fn=v.fn, et=v.et or et, ver=newver())


@h("std::vector::vector", "std::deque::deque")
def _(c):
    I, P, et = c.I, c.P, c.ct.ta[0]
    a = [x for x, t in zip(c.args, c.fi.pt) if t.strip().tn != "std::allocator"]
    ts = [t for t in c.fi.pt if t.strip().tn != "std::allocator"]
    if not a:
        return Seq((), et=et, ver=newver())
    if len(a) == 1:
        t = ts[0].strip()
        v = take(c, 0)
        if t.k == "int":
            z = I.zero(et)
            if isc(v) and v <= 4096:
                return Seq([z] * v, et=et, ver=newver())
            return Seq(n=v, fn=lambda i: z, et=et, ver=newver())
        if isinstance(v, SpanV):
            v = span_seq(c, v)
        if isinstance(v, Seq):
            return fresh_seq(v, et)
        raise Unsupported("vector from %r" % (v,))
    if len(a) == 2 and ts[0].strip().k == "int":
        n = c.arg(0)
        x = elem(c, 1)
        if isc(n) and n <= 4096:
            return Seq([x] * n, et=et, ver=newver())
        return Seq(n=n, fn=lambda i: x, et=et, ver=newver())
    if len(a) == 2:
        r = range_of(c, c.arg(0), c.arg(1))
        ft = None
        if ts[0].strip().k == "ptr":
            ft = ts[0].strip().to
        if ft is not None and ft.k == "int" and et.k == "int" and ft.w != et.w:
            raise Unsupported("converting range copy")
        return fresh_seq(r, et)
    raise Unsupported("vector constructor")


@h("std::operator==", "std::operator!=", "std::operator<", "std::operator>", "std::operator<=", "std::operator>=", "std::operator<=>",
   "__gnu_cxx::operator==", "__gnu_cxx::operator!=", "__gnu_cxx::operator<", "__gnu_cxx::operator>", "__gnu_cxx::operator<=",
   "__gnu_cxx::operator>=", "__gnu_cxx::operator<=>", "absl::operator==", "absl::operator!=",
   "absl::container_internal::operator==", "absl::container_internal::operator!=")
def _cmp(c):
    I = c.I
    op = c.fi.n[8:]
    a, b = c.arg(0), c.arg(1)
    ta, tb = c.fi.pt[0].strip(), c.fi.pt[1].strip()
    if ta.k == "rec" and ta.tn in ("std::strong_ordering", "std::weak_ordering", "std::partial_ordering"):
        a = a.to(8) if isinstance(a, TIte) else a
        if isc(a):
            return {"==": a == 0, "!=": a != 0, "<": a < 0, ">": a > 0, "<=": a <= 0, ">=": a >= 0}[op]
        return {"==": a == 0, "!=": a != 0, "<": a < 0, ">": a > 0, "<=": a <= 0, ">=": a >= 0}[op]
    if isinstance(a, It) and isinstance(b, It):
        s = lv_same(a.lv, b.lv)
        if s is not True:
            c.P.oblige(s, "iterator", I.where(), "compared iterators point into one container")
        x, y = (a.i, b.i) if not a.rev else (b.i, a.i)
        if op == "<=>":
            return merge(ult(x, y), -1, merge(eq(x, y), 0, 1))
        return {"==": lambda: eq(x, y), "!=": lambda: b_not(eq(x, y)), "<": lambda: ult(x, y), ">": lambda: ult(y, x),
                "<=": lambda: ule(x, y), ">=": lambda: ule(y, x)}[op]()
    if isinstance(a, (MPtrIt, SetIt)):
        e = a.equals(b)
        return e if op == "==" else b_not(e)
    sa = isinstance(a, StrV) or ta.k == "rec" and is_str(ta)
    if sa or is_str(tb):
        a, b = to_str(I, a), to_str(I, b)
        if op == "==":
            return str_eq(a, b)
        if op == "!=":
            return b_not(str_eq(a, b))
        la, lb = a.lit(), b.lit()
        if la is None or lb is None:
            raise Unsupported("order of symbolic strings")
        return {"<": la < lb, ">": la > lb, "<=": la <= lb, ">=": la >= lb}[op]
    if isinstance(a, OptV) or isinstance(b, OptV):
        if tname(ta) == tname(tb):
            r = eqv(I, a, b, ta)
        elif isinstance(a, OptV) and not isinstance(b, OptV):
            if tb.tn == "std::nullopt_t":
                r = b_not(a.has)
            else:
                r = b_and(a.has, False if a.v is None else eqv(I, a.v, conv(I, b, ta.ta[0], tb), ta.ta[0]))
        elif isinstance(b, OptV) and not isinstance(a, OptV):
            if ta.tn == "std::nullopt_t":
                r = b_not(b.has)
            else:
                r = b_and(b.has, False if b.v is None else eqv(I, conv(I, a, tb.ta[0], ta), b.v, tb.ta[0]))
        else:
            raise Unsupported("optional comparison")
        if op not in ("==", "!="):
            raise Unsupported("optional order")
        return r if op == "==" else b_not(r)
    if isinstance(a, (UPtr, Null)) or isinstance(b, (UPtr, Null)):
        x = a.p if isinstance(a, UPtr) else a
        y = b.p if isinstance(b, UPtr) else b
        return I.ptr_compare(op, x, y)
    if isinstance(a, SpanV) or isinstance(b, SpanV):
        x = span_seq(c, a) if isinstance(a, SpanV) else a
        y = span_seq(c, b) if isinstance(b, SpanV) else b
        r = seq_equal(I, x, y, ta.ta[0])
        return r if op == "==" else b_not(r)
    if op in ("==", "!="):
        r = eqv(I, a, b, ta)
        return r if op == "==" else b_not(r)
    if ta.k == "rec" and ta.tn == "std::pair":
        if op == "<=>":
            return three(I, a, b, ta)
        return {"<": lambda: lessv(I, a, b, ta), ">": lambda: lessv(I, b, a, ta), "<=": lambda: b_not(lessv(I, b, a, ta)),
                ">=": lambda: b_not(lessv(I, a, b, ta))}[op]()
    raise Unsupported("comparison %s of %s" % (op, ta.s))


@h("std::__cmp_cat::__unspec::__unspec")
def _(c):
    return 0


# iterators
IT = "__gnu_cxx::__normal_iterator"


@h(IT + "::__normal_iterator", "std::reverse_iterator::reverse_iterator")
def _(c):
    if not c.args:
        return Opaque("singular iterator")
    v = c.arg(0)
    if c.fi.q.startswith("std::reverse") and isinstance(v, It) and c.fi.pt[0].strip().tn in (IT, "std::_Deque_iterator"):
        return It(v.lv, v.i, v.ver, True)
    return v


@h("std::make_reverse_iterator")
def _(c):
    v = c.arg(0)
    return It(v.lv, v.i, v.ver, True)


@h("std::reverse_iterator::base")
def _(c):
    v = c.self_val()
    return It(v.lv, v.i, v.ver, False)


@h(IT + "::base")
def _(c):
    return c.self_val()


DQ = "std::_Deque_iterator"
H[DQ + "::_Deque_iterator"] = H[IT + "::__normal_iterator"]
ITS = [IT, "std::reverse_iterator", DQ]


def it_step(it, d):
    if isinstance(it, It):
        if it.rev:
            return it.at(sub64(it.i, d))
        return it.at(add64(it.i, d))
    raise Unsupported("iterator arithmetic on %r" % (it,))


def _range_ok(c, it):
    """begin <= it <= end"""
    s = c.P.load(it.lv)
    if isinstance(s, Seq):
        c.P.oblige(ule(it.i, s.n) if not (isc(it.i) and it.i < 0) else False, "bounds", c.I.where(), "iterator stays within the container")


for n in ITS:
    H[n + "::operator*"] = lambda c: it_lv(c.I, c.self_val())
    H[n + "::operator->"] = lambda c: Ptr(it_lv(c.I, c.self_val()))

    def _inc(c, d=1):
        old = c.self_val()
        new = it_step(old, d)
        _range_ok(c, new)
        c.P.write(c.obj, new)
        return old if c.args else c.obj
    H[n + "::operator++"] = _inc
    H[n + "::operator--"] = lambda c, f=_inc: f(c, -1)

    def _pe(c, s=1):
        d = c.arg(0)
        new = it_step(c.self_val(), d if s == 1 else (-d if isc(d) else -d))
        _range_ok(c, new)
        c.P.write(c.obj, new)
        return c.obj
    H[n + "::operator+="] = _pe
    H[n + "::operator-="] = lambda c, f=_pe: f(c, -1)

    def _pl(c, s=1):
        d = c.arg(0)
        new = it_step(c.self_val(), d if s == 1 else (-d if isc(d) else -d))
        _range_ok(c, new)
        return new
    H[n + "::operator+"] = _pl
    H[n + "::operator-"] = lambda c, f=_pl: f(c, -1)
    H[n + "::operator[]"] = lambda c: it_lv(c.I, it_step(c.self_val(), c.arg(0)))


@h("__gnu_cxx::operator-", "std::operator-")
def _(c):
    a, b = c.arg(0), c.arg(1)
    if isinstance(a, It):
        return sub64(a.i, b.i) if not a.rev else sub64(b.i, a.i)
    raise Unsupported("operator-")


@h("__gnu_cxx::operator+")
def _(c):
    new = it_step(c.arg(1), c.arg(0))
    _range_ok(c, new)
    return new


@h("std::distance")
def _(c):
    a, b = c.arg(0), c.arg(1)
    if isinstance(a, It) and isinstance(b, It):
        return sub64(b.i, a.i) if not a.rev else sub64(a.i, b.i)
    if isinstance(a, Ptr):
        return c.I.ptr_diff(b, a)
    raise Unsupported("distance")


def adv(c, it, d):
    if isinstance(it, It):
        n = it_step(it, d)
        _range_ok(c, n)
        return n
    if isinstance(it, Ptr):
        return c.I.ptr_add(it, d)
    if isinstance(it, (MPtrIt, SetIt)):
        if not isc(d):
            raise Unsupported("map iterator advance")
        for _ in range(abs(d)):
            it = it.next(c.I) if d > 0 else it.prev(c.I)
        return it
    raise Unsupported("advance")


@h("std::next")
def _(c):
    return adv(c, c.arg(0), c.arg(1) if len(c.args) > 1 else 1)


@h("std::prev")
def _(c):
    d = c.arg(1) if len(c.args) > 1 else 1
    return adv(c, c.arg(0), -d)


@h("std::advance")
def _(c):
    c.P.write(c.args[0], adv(c, c.arg(0), c.I.convert(c.arg(1), c.fi.pt[1].strip(), I64)))


class _I64:
    k, w, sg, isref, s = "int", 64, True, False, "long"


I64 = _I64()


# ---- algorithms -----------------------------------------------------------------
def seq_range(c, a, b):
    """(lv of the container, begin index, end index, element getter lv)"""
    if isinstance(a, It):
        s = it_check(c.I, a)
        it_check(c.I, b)
        if lv_same(a.lv, b.lv) is not True or a.rev:
            raise Unsupported("algorithm range")
        if isinstance(s, StrV):
            cs = s.chars()
            if cs is None:
                raise Unsupported("characters of an opaque string")
            n = len(cs)
        else:
            n = s.n
        c.P.oblige(b_and(ule(a.i, b.i), ule(b.i, n)), "bounds", c.I.where(), "algorithm range within the container")
        return a.lv, a.i, b.i, (lambda i: a.at(i))
    if isinstance(a, Ptr) and isinstance(b, Ptr) and a.lv.path and a.lv.path[-1][0] == "e":
        lv = LV(a.lv.root, a.lv.path[:-1])
        s = c.P.load(lv)
        c.P.oblige(b_and(ule(a.lv.path[-1][1], b.lv.path[-1][1]), ule(b.lv.path[-1][1], s.n)), "bounds", c.I.where(), "algorithm range within the array")
        return lv, a.lv.path[-1][1], b.lv.path[-1][1], (lambda i: Ptr(lv.sub(("e", i))))
    raise Unsupported("algorithm over %r" % (a,))


def pred_family(c, lv, call, lo, hi):
    """i -> truth of call(element lvalue i); obligations are discharged for an
    arbitrary index in range."""
    return c.I.family(lambda i: zb(c.I.truth(call(lv.sub(("e", i))))), lambda i: b_and(ule(lo, i), ult(i, hi)))


def callx(c, f, *args):
    """Calls a callable with lvalue or plain arguments."""
    r = c.I.call_value(f, list(args))
    return c.P.load(r) if isinstance(r, LV) else r


def concrete(lo, hi):
    return isc(lo) and isc(hi) and hi - lo <= 64


def _bound(upper):
    def f(c):
        a, b = c.arg(0), c.arg(1)
        v = c.args[2] if isinstance(c.args[2], LV) else c.P.alloc(c.args[2])
        lv, lo, hi, mk = seq_range(c, a, b)
        P, I = c.P, c.I
        et = P.load(lv).et
        if len(c.args) > 3:
            cf = c.args[3] if isinstance(c.args[3], LV) else c.args[3]
            if upper:
                raw = lambda x: I.truth(callx(c, cf, v, x))            # comp(value, elem): stop here
            else:
                raw = lambda x: b_not(I.truth(callx(c, cf, x, v)))     # !comp(elem, value)
        else:
            vt = c.fi.pt[2].strip()
            if upper:
                raw = lambda x: lessv(I, P.load(v), P.load(x), vt)
            else:
                raw = lambda x: b_not(lessv(I, P.load(x), P.load(v), vt))
        if concrete(lo, hi):
            cs = [raw(lv.sub(("e", i))) for i in range(lo, hi)]
            for i in range(len(cs) - 1):
                P.oblige(b_imp(cs[i], cs[i + 1]), "sorted", I.where(), "the range searched is sorted")
            r = hi
            for i in range(len(cs) - 1, -1, -1):
                r = merge(cs[i], bv(lo + i, 64), r if not isc(r) else bv(r, 64))
            if not isc(r):
                r = z3.simplify(r)
            return mk(r)
        st = pred_family(c, lv, raw, lo, hi)
        i, j = P.fresh("srch", B64), P.fresh("srch", B64)
        lo_, hi_ = bv(lo, 64), bv(hi, 64)
        if not P.quiet:
            P.touch("idx", i)
            P.touch("idx", j)
            P.oblige(b_imp(b_and(ule(lo_, i), ult(i, j), ult(j, hi_), st(i)), st(j)), "sorted", I.where(), "the range searched is sorted")
        r = P.fresh("bound", B64)
        P.assume(b_and(ule(lo_, r), ule(r, hi_)))
        P.touch("idx", r)
        P.touch("idx", z3.simplify(r - 1))
        P.fact(("idx",), lambda x: b_and(b_imp(b_and(ule(lo_, x), ult(x, r)), b_not(st(x))),
                                         b_imp(b_and(ule(r, x), ult(x, hi_)), st(x))))
        return mk(r)
    return f


H["std::upper_bound"] = _bound(True)
H["std::lower_bound"] = _bound(False)


@h("std::partition_point")
def _(c):
    a, b = c.arg(0), c.arg(1)
    cf = c.args[2]
    lv, lo, hi, mk = seq_range(c, a, b)
    P, I = c.P, c.I
    st = pred_family(c, lv, lambda x: b_not(I.truth(callx(c, cf, x))), lo, hi)
    i, j = P.fresh("srch", B64), P.fresh("srch", B64)
    lo_, hi_ = bv(lo, 64), bv(hi, 64)
    if not P.quiet:
        P.touch("idx", i)
        P.touch("idx", j)
        P.oblige(b_imp(b_and(ule(lo_, i), ult(i, j), ult(j, hi_), st(i)), st(j)), "sorted", I.where(), "the range searched is partitioned")
    r = P.fresh("bound", B64)
    P.assume(b_and(ule(lo_, r), ule(r, hi_)))
    P.touch("idx", r)
    P.touch("idx", z3.simplify(r - 1))
    P.fact(("idx",), lambda x: b_and(b_imp(b_and(ule(lo_, x), ult(x, r)), b_not(st(x))), b_imp(b_and(ule(r, x), ult(x, hi_)), st(x))))
    return mk(r)


def first_where(c, lv, lo, hi, raw):
    """Index of the first element satisfying raw, or hi."""
    P, I = c.P, c.I
    if concrete(lo, hi):
        r = hi
        cs = [raw(lv.sub(("e", i))) for i in range(lo, hi)]
        for i in range(len(cs) - 1, -1, -1):
            r = merge(cs[i], bv(lo + i, 64), r if not isc(r) else bv(r, 64))
        return z3.simplify(r) if not isc(r) else r
    st = pred_family(c, lv, raw, lo, hi)
    lo_, hi_ = bv(lo, 64), bv(hi, 64)
    r = P.fresh("found", B64)
    P.assume(b_and(ule(lo_, r), ule(r, hi_)))
    P.touch("idx", r)
    P.assume(b_imp(ult(r, hi_), st(r)))
    P.fact(("idx",), lambda x: b_imp(b_and(ule(lo_, x), ult(x, r)), b_not(st(x))))
    return r


def _find(kind):
    def f(c):
        a, b = c.arg(0), c.arg(1)
        lv, lo, hi, mk = seq_range(c, a, b)
        I, P = c.I, c.P
        cf = c.args[2]
        if kind in ("find",):
            v = c.arg(2)
            et = c.fi.pt[2].strip()
            raw = lambda x: eqv(I, P.load(x), v, et)
        elif kind in ("find_if_not", "all_of"):
            raw = lambda x: b_not(I.truth(callx(c, cf, x)))
        else:
            raw = lambda x: I.truth(callx(c, cf, x))
        r = first_where(c, lv, lo, hi, raw)
        if kind.startswith("find"):
            return mk(r)
        some = b_not(eq(r, hi))
        return some if kind == "any_of" else b_not(some)
    return f


for k in ("find", "find_if", "find_if_not", "any_of", "all_of", "none_of"):
    H["std::" + k] = _find(k)
    H["absl::c_" + k] = None


def _cont(kind):
    def f(c):
        v = c.arg(0)
        if not isinstance(v, Seq):
            raise Unsupported("c_" + kind)
        lv = c.args[0] if isinstance(c.args[0], LV) else c.P.alloc(v)
        c2 = type(c)()
        c2.I, c2.P, c2.fi, c2.obj, c2.e, c2.rt, c2.frame = c.I, c.P, c.fi, c.obj, c.e, c.rt, c.frame
        c2.args = [It(lv, 0, _ver(v)), It(lv, v.n, _ver(v))] + list(c.args[1:])
        return H["std::" + kind](c2)
    return f


for k in ("find", "find_if", "any_of", "all_of", "none_of"):
    H["absl::c_" + k] = _cont(k)


@h("std::equal")
def _(c):
    a = range_of(c, c.arg(0), c.arg(1))
    b0 = c.arg(2)
    if len(c.args) == 3:
        if isinstance(b0, It):
            s = it_check(c.I, b0)
            c.P.oblige(ule(add64(b0.i, a.n), s.n), "bounds", c.I.where(), "second range of std::equal within its container")
            b = s.slice(b0.i, add64(b0.i, a.n))
        elif isinstance(b0, Ptr):
            s = c.P.load(LV(b0.lv.root, b0.lv.path[:-1]))
            o = b0.lv.path[-1][1]
            c.P.oblige(ule(add64(o, a.n), s.n), "bounds", c.I.where(), "second range of std::equal within its array")
            b = s.slice(o, add64(o, a.n))
        else:
            raise Unsupported("std::equal")
    elif len(c.args) == 4 and not isinstance(c.args[3], (FnV,)) and isinstance(c.arg(3), (It, Ptr)):
        b = range_of(c, b0, c.arg(3))
    else:
        raise Unsupported("std::equal with predicate")
    return seq_equal(c.I, a, b, a.et or b.et)


@h("std::copy", "std::copy_n", "std::move_backward")
def _copy(c):
    if c.fi.n == "move_backward":
        raise Unsupported(c.fi.q)
    if c.fi.n == "copy_n":
        a, n = c.arg(0), c.I.convert(c.arg(1), c.fi.pt[1].strip(), I64)
        src = range_of(c, a, adv(c, a, n))
    else:
        src = range_of(c, c.arg(0), c.arg(1))
    d = c.arg(2)
    if isinstance(d, BackIns):
        s = with_et(c.P.load(d.lv), c.P.eng_type(d.lv)) if False else c.P.load(d.lv)
        c.P.write(d.lv, s.insert_seq(s.n, src))
        return d
    lv, off = (d.lv, d.i) if isinstance(d, It) else (LV(d.lv.root, d.lv.path[:-1]), d.lv.path[-1][1])
    s = c.P.load(lv)
    c.P.oblige(ule(add64(off, src.n), s.n), "bounds", c.I.where(), "destination of the copy within its container")
    c.P.write(lv, overwrite(s, off, src))
    return adv(c, d, src.n)


def overwrite(s, off, src):
    if s.items is not None and src.items is not None and isc(off):
        return s._mk(s.items[:off] + src.items + s.items[off + len(src.items):], inval=False)
    old = s
    return s._mk(n=s.n, fn=lambda i: merge(b_and(ule(off, i), ult(i, add64(off, src.n))), _sg(src, sub64(i, off)), _sg(old, i)), inval=False)


def _sg(s, i):
    if s.items is not None and isc(i) and not 0 <= i < len(s.items):
        return 0
    if s.items is not None and not s.items:
        return 0
    return s.get(i)


class BackIns:
    def __init__(self, lv):
        self.lv = lv


@h("std::back_inserter")
def _(c):
    return BackIns(c.args[0])


@h("std::fill", "std::fill_n")
def _(c):
    a = c.arg(0)
    if c.fi.n == "fill_n":
        n = c.I.convert(c.arg(1), c.fi.pt[1].strip(), I64)
        b = adv(c, a, n)
    else:
        b = c.arg(1)
    v = c.arg(2)
    lv, lo, hi, mk = seq_range(c, a, b)
    s = c.P.load(lv)
    c.P.write(lv, overwrite(s, lo, Seq(n=sub64(hi, lo), fn=lambda i: v) if not concrete(lo, hi) else Seq([v] * (hi - lo))))
    return b


@h("std::reverse")
def _(c):
    lv, lo, hi, mk = seq_range(c, c.arg(0), c.arg(1))
    s = c.P.load(lv)
    if s.items is not None and isc(lo) and isc(hi):
        c.P.write(lv, s._mk(s.items[:lo] + tuple(reversed(s.items[lo:hi])) + s.items[hi:], inval=False))
    else:
        raise Unsupported("reverse of a symbolic range")


@h("std::memcpy", "memcpy", "memmove", "std::memmove")
def _(c):
    d, s, n = c.arg(0), c.arg(1), c.arg(2)
    if not (isinstance(d, Ptr) and isinstance(s, Ptr)):
        raise Unsupported("memcpy")
    src = range_of(c, s, c.I.ptr_add(s, n))
    lv, off = LV(d.lv.root, d.lv.path[:-1]), d.lv.path[-1][1]
    t = c.P.load(lv)
    c.P.oblige(ule(add64(off, n), t.n), "bounds", c.I.where(), "memcpy destination within its array")
    c.P.write(lv, overwrite(t, off, src))
    return d


@h("memcmp", "std::memcmp")
def _(c):
    a, b, n = c.arg(0), c.arg(1), c.arg(2)
    x, y = range_of(c, a, c.I.ptr_add(a, n)), range_of(c, b, c.I.ptr_add(b, n))
    e = seq_equal(c.I, x, y, x.et or y.et)
    r = c.P.fresh("memcmp", z3.BitVecSort(32))
    c.P.assume(eq(zb(e), r == 0))
    return r


# ---- span ---------------------------------------------------------------------------
def span_seq(c, s):
    v = c.P.load(s.lv)
    if isinstance(v, Seq):
        return v.slice(s.off, add64(s.off, s.n))
    raise Unsupported("span over %r" % (v,))


@h("absl::Span::Span", "std::span::span")
def _(c):
    if not c.args:
        return SpanV(c.P.alloc(Seq((), et=c.ct.ta[0])), 0, 0)
    a = c.args[0]
    v = c.arg(0)
    if isinstance(v, SpanV):
        return v
    if len(c.args) == 2 and isinstance(v, Ptr):
        lv = LV(v.lv.root, v.lv.path[:-1])
        n = c.arg(1)
        s = c.P.load(lv)
        c.P.oblige(ule(add64(v.lv.path[-1][1], n), s.n), "bounds", c.I.where(), "span within its array")
        return SpanV(lv, v.lv.path[-1][1], n)
    if isinstance(v, Seq):
        if not isinstance(a, LV):
            a = c.P.alloc(v)
        return SpanV(a, 0, v.n)
    raise Unsupported("span from %r" % (v,))


for n in ("absl::Span", "std::span"):
    H[n + "::size"] = H[n + "::length"] = lambda c: c.self_val().n
    H[n + "::empty"] = lambda c: eq(c.self_val().n, 0)

    def _sp(c):
        s = c.self_val()
        i = c.arg(0)
        c.P.oblige(ult(i, s.n), "bounds", c.I.where(), "index within the span")
        return s.lv.sub(("e", add64(s.off, i)))
    H[n + "::operator[]"] = H[n + "::at"] = _sp

    def _spb(c):
        s = c.self_val()
        return Ptr(s.lv.sub(("e", s.off)))

    def _spe(c):
        s = c.self_val()
        return Ptr(s.lv.sub(("e", add64(s.off, s.n))))
    H[n + "::begin"] = H[n + "::data"] = H[n + "::cbegin"] = _spb
    H[n + "::end"] = H[n + "::cend"] = _spe

    def _front(c):
        s = c.self_val()
        c.P.oblige(b_not(eq(s.n, 0)), "bounds", c.I.where(), "front() of a non-empty span")
        return s.lv.sub(("e", s.off))
    H[n + "::front"] = _front

    def _back(c):
        s = c.self_val()
        c.P.oblige(b_not(eq(s.n, 0)), "bounds", c.I.where(), "back() of a non-empty span")
        return s.lv.sub(("e", add64(s.off, sub64(s.n, 1))))
    H[n + "::back"] = _back

    def _sub(c):
        s = c.self_val()
        p = c.arg(0)
        k = c.arg(1) if len(c.args) > 1 else sub64(s.n, p)
        c.P.oblige(ule(p, s.n), "bounds", c.I.where(), "subspan within the span")
        k = c.I.fix(merge(ult(sub64(s.n, p), k), bv(sub64(s.n, p), 64), k), I64)
        return SpanV(s.lv, add64(s.off, p), k)
    H[n + "::subspan"] = _sub

    def _cut(c, front):
        s, k = c.self_val(), c.arg(0)
        c.P.oblige(ule(k, s.n), "bounds", c.I.where(), "no more is removed than there is")
        c.P.write(c.obj, SpanV(s.lv, add64(s.off, k) if front else s.off, sub64(s.n, k)))
    H[n + "::remove_prefix"] = lambda c: _cut(c, True)
    H[n + "::remove_suffix"] = lambda c: _cut(c, False)
    H[n + "::first"] = lambda c: SpanV(c.self_val().lv, c.self_val().off, c.arg(0))


@h("absl::MakeSpan", "absl::MakeConstSpan")
def _(c):
    v = c.arg(0)
    if isinstance(v, Seq):
        a = c.args[0] if isinstance(c.args[0], LV) else c.P.alloc(v)
        return SpanV(a, 0, v.n)
    if isinstance(v, SpanV):
        return v
    if isinstance(v, Ptr) and len(c.args) == 2:
        n = c.arg(1)
        if isinstance(n, Ptr):
            if (n.lv.root, n.lv.path[:-1]) != (v.lv.root, v.lv.path[:-1]):
                raise Unsupported("MakeSpan of two objects")
            c.P.oblige(ule(v.lv.path[-1][1], n.lv.path[-1][1]), "bounds", c.I.where(), "a span ends after it begins")
            n = sub64(n.lv.path[-1][1], v.lv.path[-1][1])
        return SpanV(LV(v.lv.root, v.lv.path[:-1]), v.lv.path[-1][1], n)
    raise Unsupported("MakeSpan")


# ---- optional --------------------------------------------------------------------------
@h("std::optional::optional")
def _(c):
    if not c.args:
        return OptV(False)
    t = c.fi.pt[0].strip()
    if t.tn == "std::nullopt_t":
        return OptV(False)
    if t.tn == "std::in_place_t":
        return OptV(True, build(c, c.ct.ta[0], 1))
    v = take(c, 0)
    if isinstance(v, OptV) and t.tn == "std::optional":
        if v.v is None or tname(t.ta[0]) == tname(c.ct.ta[0]):
            return v
        return OptV(v.has, conv(c.I, v.v, c.ct.ta[0], t.ta[0]))
    return OptV(True, conv(c.I, v, c.ct.ta[0], t))


@h("std::optional::operator=")
def _(c):
    t = c.fi.pt[0].strip()
    if t.tn == "std::nullopt_t":
        v = OptV(False)
    else:
        v = take(c, 0)
        if not (isinstance(v, OptV) and t.tn == "std::optional"):
            v = OptV(True, conv(c.I, v, c.ct.ta[0], t))
        elif v.v is not None and tname(t.ta[0]) != tname(c.ct.ta[0]):
            v = OptV(v.has, conv(c.I, v.v, c.ct.ta[0], t.ta[0]))
    c.P.write(c.obj, v)
    return c.obj


@h("std::make_optional")
def _(c):
    return OptV(True, conv(c.I, take(c, 0), c.rt.ta[0], c.fi.pt[0]))


H["std::optional::operator bool"] = H["std::optional::has_value"] = lambda c: c.self_val().has


def _optget(c):
    v = c.self_val()
    c.P.oblige(v.has, "optional", c.I.where(), "optional holds a value")
    return c.obj.sub(("o",))


H["std::optional::operator*"] = H["std::optional::value"] = _optget
H["std::optional::operator->"] = lambda c: Ptr(_optget(c))


@h("std::optional::value_or")
def _(c):
    v = c.self_val()
    d = conv(c.I, take(c, 0), c.ct.ta[0], c.fi.pt[0])
    if v.v is None:
        return d
    try:
        return c.I.fix(merge(v.has, v.v, d), c.ct.ta[0].strip())
    except NotMergeable:
        return v.v if c.P.branch(v.has) else d


@h("std::optional::reset")
def _(c):
    c.P.write(c.obj, OptV(False))


@h("std::optional::emplace")
def _(c):
    c.P.write(c.obj, OptV(True, build(c, c.ct.ta[0])))
    return c.obj.sub(("o",))


@h("std::nullopt_t::nullopt_t")
def _(c):
    return Rec("std::nullopt_t", {}, "std::nullopt_t")


# ---- variant -----------------------------------------------------------------------------
def alt_index(t, ft, I=None):
    names = [tname(x) for x in t.ta]
    n = tname(ft)
    if n in names:
        if names.count(n) > 1:
            raise Unsupported("ambiguous variant alternative")
        return names.index(n)
    f = ft.strip()
    c = [i for i, x in enumerate(t.ta) if (x.strip().k in ("int", "bool", "enum")) == (f.k in ("int", "bool", "enum")) and
         (f.k in ("int", "bool", "enum") or is_str(x.strip()) and f.k in ("ptr", "arr"))]
    if len(c) == 1:
        return c[0]
    # base/derived or convertible classes
    if I is not None and f.k == "rec":
        c = [i for i, x in enumerate(t.ta) if x.strip().k == "rec" and
             any(g.ctor and g.cls == x.strip().key and len(g.pt) == 1 and tname(g.pt[0]) == n for g in I.prog.finfo.values())]
        if len(c) == 1:
            return c[0]
    raise Unsupported("variant alternative for " + n)


def make_variant(I, t, v, ft):
    i = alt_index(t, ft, I)
    alts = [None] * len(t.ta)
    alts[i] = conv(I, v, t.ta[i], ft)
    return VarV(i, tuple(alts))


@h("std::variant::variant")
def _(c):
    t = c.ct
    if not c.args:
        return VarV(0, tuple([c.I.zero(t.ta[0])] + [None] * (len(t.ta) - 1)))
    if c.fi.pt[0].strip().tn in ("std::in_place_type_t", "std::in_place_index_t"):
        a = c.fi.pt[0].strip().ta[0]
        i = a if isinstance(a, int) else [tname(x) for x in t.ta].index(tname(a))
        alts = [None] * len(t.ta)
        alts[i] = build(c, t.ta[i], 1)
        return VarV(i, tuple(alts))
    v = take(c, 0)
    if isinstance(v, VarV) and c.fi.pt[0].strip().tn == "std::variant" and tname(c.fi.pt[0]) == tname(t):
        return v
    return make_variant(c.I, t, v, c.fi.pt[0])


@h("std::variant::operator=")
def _(c):
    v = take(c, 0)
    if not (isinstance(v, VarV) and c.fi.pt[0].strip().tn == "std::variant"):
        v = make_variant(c.I, c.ct, v, c.fi.pt[0])
    c.P.write(c.obj, v)
    return c.obj


@h("std::variant::emplace")
def _(c):
    t = c.ct
    a = c.fi.ta[0]
    i = a if isinstance(a, int) else [tname(x) for x in t.ta].index(tname(a))
    alts = [None] * len(t.ta)
    alts[i] = build(c, t.ta[i], 0)
    c.P.write(c.obj, VarV(i, tuple(alts)))
    return c.obj.sub(("a", i))


H["std::variant::index"] = lambda c: c.self_val().idx if isc(c.self_val().idx) else z3.ZeroExt(56, c.self_val().idx)
H["std::variant::valueless_by_exception"] = lambda c: False


def want_alt(c, t):
    for a in c.fi.ta:
        if isinstance(a, int):
            return a
        names = [tname(x) for x in t.ta]
        if tname(a) in names:
            return names.index(tname(a))
    raise Unsupported("std::get")


@h("std::get")
def _(c):
    t = c.fi.pt[0].strip()
    a = c.args[0] if isinstance(c.args[0], LV) else c.P.alloc(c.args[0])
    if t.tn == "std::pair":
        i = c.fi.ta[0]
        return a.f("first" if i == 0 else "second")
    if t.tn in ("std::array",):
        return a.sub(("e", c.fi.ta[0]))
    if t.tn == "std::tuple":
        return a.f("t%d" % c.fi.ta[0])
    i = want_alt(c, t)
    v = c.P.load(a)
    c.P.oblige(eq(v.idx, i), "variant", c.I.where(), "variant holds the alternative asked for (std::get throws otherwise)")
    if v.alts[i] is None:
        raise PathEnd()
    return a.sub(("a", i))


@h("std::get_if")
def _(c):
    p = c.arg(0)
    if isinstance(p, Null):
        return NULL
    t = c.fi.pt[0].strip().to.strip()
    i = want_alt(c, t)
    v = c.P.load(p.lv)
    if c.P.branch(eq(v.idx, i)):
        return Ptr(p.lv.sub(("a", i)))
    return NULL


@h("std::holds_alternative")
def _(c):
    return eq(c.arg(0).idx, want_alt(c, c.fi.pt[0].strip()))


@h("std::monostate::monostate")
def _(c):
    return Rec("std::monostate", {}, "std::monostate")


@h("std::visit", "absl::visit")
def _(c):
    if len(c.args) != 2:
        raise Unsupported("visit of several variants")
    v = c.arg(1)
    lv = c.args[1] if isinstance(c.args[1], LV) else c.P.alloc(v)
    live = [i for i in range(len(v.alts)) if v.alts[i] is not None]
    for i in live:
        if c.P.branch(eq(v.idx, i)):
            return c.I.call_value(c.args[0], [lv.sub(("a", i))])
    raise PathEnd()


# ---- pair, tuple --------------------------------------------------------------------------
@h("std::pair::pair")
def _(c):
    t = c.ct
    if not c.args:
        return pair(c.I.zero(t.ta[0]), c.I.zero(t.ta[1]))
    if len(c.args) == 1:
        return conv(c.I, take(c, 0), t, c.fi.pt[0])
    if c.fi.pt[0].strip().tn == "std::piecewise_construct_t":
        raise Unsupported("piecewise pair")
    return pair(conv(c.I, take(c, 0), t.ta[0], c.fi.pt[0]), conv(c.I, take(c, 1), t.ta[1], c.fi.pt[1]))


@h("std::make_pair")
def _(c):
    t = c.rt
    return pair(conv(c.I, take(c, 0), t.ta[0], c.fi.pt[0]), conv(c.I, take(c, 1), t.ta[1], c.fi.pt[1]))


@h("std::pair::operator=")
def _(c):
    c.P.write(c.obj, conv(c.I, take(c, 0), c.ct, c.fi.pt[0]))
    return c.obj


@h("std::tie")
def _(c):
    return Rec("std::tuple", {"t%d" % i: ("ref", a) for i, a in enumerate(c.args)}, "std::tuple")


@h("std::tuple::operator=")
def _(c):
    t = c.P.load(c.obj) if isinstance(c.obj, LV) else c.obj
    v = take(c, 0)
    if isinstance(v, Rec) and set(v.f) == {"first", "second"}:
        vals = [v.f["first"], v.f["second"]]
    elif isinstance(v, Rec) and v.tn == "std::tuple":
        vals = [c.P.load(x[1]) if isinstance(x, tuple) else x for x in v.f.values()]
    else:
        raise Unsupported("assignment to a tuple")
    if len(vals) != len(t.f) or not all(isinstance(x, tuple) and x[0] == "ref" for x in t.f.values()):
        raise Unsupported("assignment to a tuple of values")
    for (_, a), x in zip(t.f.values(), vals):
        c.P.write(a, x)
    return c.obj


# ---- unique_ptr --------------------------------------------------------------------------------
@h("std::unique_ptr::unique_ptr", "std::shared_ptr::shared_ptr")
def _(c):
    if not c.args or isinstance(c.args[0], Null):
        return UPtr(NULL, None)
    v = take(c, 0)
    if isinstance(v, UPtr):
        return v
    if isinstance(v, Null):
        return UPtr(NULL, c.arg(1) if len(c.args) > 1 else None)
    d = None
    if len(c.args) > 1:
        d = take(c, 1)
    elif len(c.ct.ta) > 1 and c.ct.ta[1].k == "rec" and not (c.ct.ta[1].tn or "").startswith("std::default_delete"):
        d = c.I.zero(c.ct.ta[1])
    return UPtr(v, d)


@h("std::make_unique", "std::make_shared", "absl::make_unique")
def _(c):
    t = c.rt.ta[0]
    return UPtr(Ptr(c.P.alloc(build(c, t), t)))


@h("absl::WrapUnique")
def _(c):
    return UPtr(c.arg(0))


def _up_nonnull(c):
    v = c.self_val()
    p = v.p
    if isinstance(p, Null):
        c.P.oblige(False, "null-deref", c.I.where(), "smart pointer is not null")
        raise PathEnd()
    return p


for n in ("std::unique_ptr", "std::shared_ptr"):
    H[n + "::operator->"] = _up_nonnull
    H[n + "::operator*"] = lambda c: c.I.deref(_up_nonnull(c))
    H[n + "::get"] = lambda c: c.self_val().p
    H[n + "::operator bool"] = lambda c: c.I.truth(c.self_val().p)

    def _rel(c):
        v = c.self_val()
        c.P.write(c.obj, UPtr(NULL, v.d))
        return v.p
    H[n + "::release"] = _rel

    def _reset(c):
        v = c.self_val()
        if v.d is not None and not isinstance(v.d, Null):
            if c.P.branch(c.I.truth(v.p)):
                c.I.call_value(v.d, [v.p])
        c.P.write(c.obj, UPtr(c.arg(0) if c.args else NULL, v.d))
    H[n + "::reset"] = _reset

    def _asg(c):
        v = take(c, 0)
        if isinstance(v, (Null,)):
            v = UPtr(NULL)
        c.P.write(c.obj, v)
        return c.obj
    H[n + "::operator="] = _asg


# ---- strings -----------------------------------------------------------------------------------
@h("std::basic_string::basic_string", "std::basic_string_view::basic_string_view")
def _(c):
    I = c.I
    a = [x for x, t in zip(c.args, c.fi.pt) if t.strip().tn != "std::allocator"]
    ts = [t.strip() for t in c.fi.pt if t.strip().tn != "std::allocator"]
    if not a:
        return StrV()
    if len(a) == 1:
        return to_str(I, take(c, 0))
    if len(a) == 2:
        v, n = c.arg(0), c.arg(1)
        if ts[0].k == "int":
            if isc(v):
                return StrV([("c", n)] * v)
            raise Unsupported("repeated character")
        if ts[1].k == "int" and not isinstance(n, (It, Ptr, CStr)):
            if isinstance(v, CStr) and isc(v.off) and isc(n):
                cs = v.s.chars()
                if cs is not None:
                    c.P.oblige(v.off + n <= len(cs) + 1, "bounds", I.where(), "string within its source")
                    return StrV([("c", x) for x in cs[v.off:v.off + n]])
            if isinstance(v, StrV) and ts[0].k == "rec":
                return substr(c, v, n, None)
        if isinstance(v, (It, Ptr, CStr)) and isinstance(n, (It, Ptr, CStr)):
            s = range_of(c, v, n)
            if s.items is not None:
                return StrV([("c", x) for x in s.items])
        raise Unsupported("string constructor")
    if len(a) == 3 and isinstance(c.arg(0), StrV):
        return substr(c, c.arg(0), c.arg(1), c.arg(2))
    raise Unsupported("string constructor")


def substr(c, s, p, n):
    if s.sub() is not None:
        _, fn, off, m, ident = s.sub()
        c.P.oblige(ule(p, m), "bounds", c.I.where(), "position within the string")
        rest = sub64(m, p)
        if n is None:
            k = rest
        elif isc(n) and n & ((1 << 64) - 1) == (1 << 64) - 1:
            k = rest
        else:
            k = merge(ult(n, rest), bv(n, 64), bv(rest, 64))
            if not isc(k):
                k = z3.simplify(k)
        return StrV([("s", fn, add64(off, p), k, ident)])
    cs = s.chars()
    if cs is None:
        if isc(p) and p == 0 and n is None:
            return s
        raise Unsupported("substring of an opaque string")
    p = c.P.concretize(p)
    c.P.oblige(p <= len(cs), "bounds", c.I.where(), "substr position within the string (throws otherwise)")
    if n is None:
        n = len(cs) - p
    else:
        n = c.P.concretize(n) if not isc(n) else n
        n = min(n & ((1 << 64) - 1), len(cs) - p)
    return StrV([("c", x) for x in cs[p:p + n]])


for n in ("std::basic_string", "std::basic_string_view"):
    H[n + "::empty"] = lambda c: c.self_val().empty()
    H[n + "::c_str"] = H[n + "::data"] = lambda c: CStr(c.self_val())
    H[n + "::substr"] = lambda c: substr(c, c.self_val(), c.arg(0) if c.args else 0, c.arg(1) if len(c.args) > 1 else None)

    def _sidx(c):
        s, i = c.self_val(), c.arg(0)
        if s.sub() is not None:
            if c.fi.cls and "basic_string_view" in (c.fi.q or ""):
                c.P.oblige(ult(i, s.length()), "bounds", c.I.where(), "index within the string view")
            return c.obj.sub(("e", i))
        cs = s.chars()
        if cs is None:
            raise Unsupported("character of an opaque string")
        c.P.oblige(ule(i, len(cs)), "bounds", c.I.where(), "index within the string")
        return c.obj.sub(("e", i))
    H[n + "::operator[]"] = H[n + "::at"] = _sidx

    def _sfind(c):
        s, x = c.self_val(), c.arg(0)
        if c.fi.pt[0].k == "ptr" or isinstance(x, (StrV, CStr)):
            raise Unsupported("search for a substring")
        at = c.arg(1) if len(c.args) > 1 else 0
        cs = s.chars()
        if cs is None or not isc(at):
            raise Unsupported("search in an opaque string")
        r = (1 << 64) - 1
        for j in reversed(range(at, len(cs))):
            r = merge(eq(bv(cs[j], 8), bv(x, 8)), j, r)
        return r
    H[n + "::find"] = _sfind

    def _sfront(c):
        c.P.oblige(b_not(c.self_val().empty()), "bounds", c.I.where(), "front() of a non-empty string")
        return c.obj.sub(("e", 0))
    H[n + "::front"] = _sfront

    def _sback(c):
        s = c.self_val()
        if s.sub() is not None:
            c.P.oblige(b_not(s.empty()), "bounds", c.I.where(), "back() of a non-empty string")
            return c.obj.sub(("e", sub64(s.length(), 1)))
        cs = s.chars()
        if cs is None:
            raise Unsupported("character of an opaque string")
        c.P.oblige(len(cs) > 0, "bounds", c.I.where(), "back() of a non-empty string")
        return c.obj.sub(("e", len(cs) - 1))
    H[n + "::back"] = _sback


@h("std::basic_string_view::remove_prefix")
def _(c):
    s = c.self_val()
    c.P.write(c.obj, substr(c, s, c.arg(0), None))


@h("std::basic_string_view::remove_suffix")
def _(c):
    s = c.self_val()
    if s.sub() is not None:
        _, fn, off, m, ident = s.sub()
        c.P.oblige(ule(c.arg(0), m), "bounds", c.I.where(), "suffix within the string")
        c.P.write(c.obj, StrV([("s", fn, off, sub64(m, c.arg(0)), ident)]))
        return
    cs = s.chars()
    if cs is None:
        raise Unsupported("opaque string")
    n = c.P.concretize(c.arg(0))
    c.P.oblige(n <= len(cs), "bounds", c.I.where(), "suffix within the string")
    c.P.write(c.obj, StrV([("c", x) for x in cs[:len(cs) - n]]))


def _strarg(c, i):
    v = c.arg(i)
    t = c.fi.pt[i].strip()
    if t.k == "int":
        return StrV([("c", v)])
    return to_str(c.I, v)


@h("std::basic_string::operator+=", "std::basic_string::append", "std::basic_string::push_back")
def _(c):
    s = c.self_val()
    if c.fi.n == "append" and len(c.args) == 2:
        a, b = c.arg(0), c.arg(1)
        if isinstance(a, (It, Ptr, CStr)) and isinstance(b, (It, Ptr, CStr)):
            r = range_of(c, a, b)
            x = StrV([("c", y) for y in r.items]) if r.items is not None else None
        elif isc(a) and c.fi.pt[0].strip().k == "int":
            x = StrV([("c", b)] * a)
        else:
            x = None
        if x is None:
            raise Unsupported("append")
    else:
        x = _strarg(c, 0)
    c.P.write(c.obj, s + x)
    return c.obj


@h("std::operator+")
def _(c):
    return _strarg(c, 0) + _strarg(c, 1)


@h("std::basic_string::clear")
def _(c):
    c.P.write(c.obj, StrV())


@h("std::basic_string::pop_back")
def _(c):
    cs = c.self_val().chars()
    if cs is None:
        raise Unsupported("opaque string")
    c.P.oblige(len(cs) > 0, "bounds", c.I.where(), "pop_back() of a non-empty string")
    c.P.write(c.obj, StrV([("c", x) for x in cs[:-1]]))


@h("std::basic_string::operator basic_string_view", "std::basic_string::operator std::basic_string_view<char>")
def _(c):
    return c.self_val()


@h("std::to_string")
def _(c):
    v = c.arg(0)
    t = c.fi.pt[0]
    return StrV([("d", v, t.sg)])


@h("std::basic_string::compare", "std::basic_string_view::compare")
def _(c):
    if len(c.args) != 1:
        raise Unsupported("compare of substrings")
    e = str_eq(c.self_val(), to_str(c.I, c.arg(0)))
    r = c.P.fresh("strcmp", z3.BitVecSort(32))
    c.P.assume(eq(zb(e), r == 0))
    return r


@h("strlen", "std::strlen", "__builtin_strlen")
def _(c):
    n = to_str(c.I, c.arg(0)).length()
    if n is None:
        raise Unsupported("strlen")
    return n


@h("strcmp", "std::strcmp", "__builtin_strcmp")
def _(c):
    e = str_eq(to_str(c.I, c.arg(0)), to_str(c.I, c.arg(1)))
    r = c.P.fresh("strcmp", z3.BitVecSort(32))
    c.P.assume(eq(zb(e), r == 0))
    return r


LOWER = z3.Function("str.lower", z3.IntSort(), z3.IntSort())
UPPER = z3.Function("str.upper", z3.IntSort(), z3.IntSort())


def cased(I, s, up):
    out = []
    lo, hi, d = (0x61, 0x7a, -32) if up else (0x41, 0x5a, 32)
    for x in s.p:
        if isinstance(x, bytes):
            out.append(x.upper() if up else x.lower())
        elif x[0] == "c":
            ch = x[1]
            if isc(ch):
                out.append(bytes([ch & 255]).upper() if up else bytes([ch & 255]).lower())
            else:
                out.append(("c", z3.If(z3.And(z3.UGE(ch, lo), z3.ULE(ch, hi)), ch + d, ch)))
        elif x[0] == "s":
            def cs(i, fn=x[1]):
                ch = bv(fn(i), 8)
                return z3.If(z3.And(z3.UGE(ch, lo), z3.ULE(ch, hi)), ch + d, ch)
            out.append(("s", cs, x[2], x[3], ("up:" if up else "low:") + x[4]))
        elif x[0] == "o":
            f = UPPER if up else LOWER
            out.append(("o", ("up:" if up else "low:") + str(x[1]), f(x[2]), x[3]))
        else:
            raise Unsupported("letter case of a formatted string")
    return StrV(out)


@h("absl::AsciiStrToLower", "absl::AsciiStrToUpper")
def _(c):
    up = c.fi.n.endswith("Upper")
    a = c.arg(0)
    if isinstance(a, Ptr) and c.fi.pt[0].k == "ptr":
        c.P.write(a.lv, cased(c.I, c.P.load(a.lv), up))
        return None
    return cased(c.I, to_str(c.I, a), up)


def _chr(c, f):
    ch = c.arg(0)
    if isc(ch):
        return f(ch & 255)
    return f(ch)


def _between(ch, a, b):
    if isc(ch):
        return a <= ch <= b
    return z3.And(z3.UGE(ch, a), z3.ULE(ch, b))


CLS = {
    "digit": lambda x: _between(x, 48, 57),
    "xdigit": lambda x: b_or(_between(x, 48, 57), _between(x, 65, 70), _between(x, 97, 102)),
    "alpha": lambda x: b_or(_between(x, 65, 90), _between(x, 97, 122)),
    "alnum": lambda x: b_or(_between(x, 48, 57), _between(x, 65, 90), _between(x, 97, 122)),
    "space": lambda x: b_or(_between(x, 9, 13), _between(x, 32, 32)),
    "upper": lambda x: _between(x, 65, 90),
    "lower": lambda x: _between(x, 97, 122),
}
for k, f in CLS.items():
    H["absl::ascii_is" + k] = lambda c, f=f: _chr(c, f)
    H["is" + k] = H["std::is" + k] = lambda c, f=f: c.I.convert(_chr(c, f), None, c.rt)


@h("absl::ascii_tolower", "absl::ascii_toupper", "tolower", "toupper", "std::tolower", "std::toupper")
def _(c):
    ch = c.arg(0)
    up = "upper" in c.fi.n
    lo, hi, d = (0x61, 0x7a, -32) if up else (0x41, 0x5a, 32)
    if isc(ch):
        return ch + d if lo <= ch <= hi else ch
    return z3.If(z3.And(z3.UGE(ch, lo), z3.ULE(ch, hi)), ch + d, ch)


# ---- formatting -------------------------------------------------------------------------------
@h("absl::str_format_internal::FormatSpecTemplate::FormatSpecTemplate")
def _(c):
    return Rec("fmt", {"s": to_str(c.I, c.arg(0))}, "fmt")


FMT = re.compile(rb"%(%|([-+ #0]*)(\d*|\*)(?:\.(\d+))?(hh|h|ll|l|z|j|t|q|L)?([a-zA-Z]))")


def fmt_arg(I, v, t, flags, width, conv_):
    t = t.strip()
    if conv_ == "s" or conv_ == "v" and (is_str(t) or t.k == "ptr"):
        if isinstance(v, (StrV, CStr, Seq)) or isinstance(v, Ptr):
            s = to_str(I, v)
            if width:
                raise Unsupported("padded string")
            return s
        raise Unsupported("%s of " + t.s)
    if conv_ == "c":
        return StrV([("c", v if isc(v) else z3.Extract(7, 0, v) if v.size() > 8 else v)])
    if conv_ in "diuxX" or conv_ == "v":
        if t.k == "bool":
            v = bv(v, 32) if not isc(v) else int(v)
            t = _mkint(32, False)
        if t.k == "enum":
            pass
        if conv_ in "xX":
            if isc(v):
                v &= (1 << t.w) - 1
            w = int(width or 0)
            if w and "0" not in flags:
                if isc(v):
                    return S((("%%%s%d%s") % (flags, w, conv_)) % v)
                raise Unsupported("space padded number")
            if flags.replace("0", ""):
                raise Unsupported("format flags")
            return StrV([("x", v, w, conv_ == "X")])
        if width or flags:
            raise Unsupported("padded decimal")
        sg = t.sg if conv_ in "div" else False
        if isc(v):
            return S(str(v if conv_ != "u" else v & ((1 << t.w) - 1)))
        if t.w < 32:
            v = z3.SignExt(32 - t.w, v) if t.sg else z3.ZeroExt(32 - t.w, v)
            sg = True
        return StrV([("d", v, bool(sg))])
    raise Unsupported("format conversion %" + conv_)


def _mkint(w, sg):
    x = _I64()
    x.w, x.sg = w, sg
    return x


def do_format(c, fmt, first):
    b = fmt.lit()
    if b is None:
        raise Unsupported("symbolic format string")
    out = StrV()
    pos, k = 0, first
    for m in FMT.finditer(b):
        out = out + StrV((b[pos:m.start()],))
        pos = m.end()
        if m.group(1) == b"%":
            out = out + S("%")
            continue
        if k >= len(c.args):
            raise Unsupported("format arguments")
        out = out + fmt_arg(c.I, c.arg(k), c.fi.pt[k], m.group(2).decode(), m.group(3).decode(), m.group(6).decode())
        k += 1
    return out + StrV((b[pos:],))


@h("absl::StrFormat")
def _(c):
    return do_format(c, c.arg(0).f["s"], 1)


@h("absl::PrintF")
def _(c):
    emit(c, do_format(c, c.arg(0).f["s"], 1))
    return 0


@h("printf", "std::printf")
def _(c):
    emit(c, do_format(c, to_str(c.I, c.arg(0)), 1))
    return 0


@h("puts", "std::puts")
def _(c):
    emit(c, to_str(c.I, c.arg(0)) + S("\n"))
    return 0


def emit(c, s):
    """Output to standard output: one more element of the ghost stream."""
    if c.I.stdout is None:
        return
    q = c.P.load(c.I.stdout)
    c.P.write(c.I.stdout, q.push(s))


@h("std::operator<<", "std::basic_ostream::operator<<")
def _(c):
    raise Unsupported("iostream output")


@h("absl::StrCat")
def _(c):
    out = StrV()
    for i in range(len(c.args)):
        out = out + alnum(c, c.arg(i), c.fi.pt[i])
    return out


@h("absl::StrAppend")
def _(c):
    p = c.arg(0)
    out = c.P.load(p.lv)
    for i in range(1, len(c.args)):
        out = out + alnum(c, c.arg(i), c.fi.pt[i])
    c.P.write(p.lv, out)


def alnum(c, v, t):
    if isinstance(v, StrV):
        return v
    return to_str(c.I, v)


@h("absl::AlphaNum::AlphaNum")
def _(c):
    v = c.arg(0)
    t = c.fi.pt[0].strip()
    if t.k == "int":
        if isc(v):
            return S(str(v))
        return StrV([("d", v if t.w >= 32 else (z3.SignExt if t.sg else z3.ZeroExt)(32 - t.w, v), bool(t.sg or t.w < 32))])
    return to_str(c.I, v)


@h("absl::StrJoin")
def _(c):
    if len(c.args) == 3:
        s = range_of(c, c.arg(0), c.arg(1))
        sep = to_str(c.I, c.arg(2))
    else:
        s = c.arg(0)
        sep = to_str(c.I, c.arg(1))
    if isinstance(s, SpanV):
        s = span_seq(c, s)
    if s.items is not None:
        out = StrV()
        for i, x in enumerate(s.items):
            if i:
                out = out + sep
            out = out + to_str(c.I, x)
        return out
    return StrV([("j", sep.lit(), s)])


@h("absl::StartsWith", "absl::EndsWith", "absl::StrContains", "absl::EqualsIgnoreCase")
def _(c):
    a, b = to_str(c.I, c.arg(0)), to_str(c.I, c.arg(1))
    x, y = a.chars(), b.chars()
    if c.fi.n == "EqualsIgnoreCase":
        return str_eq(cased(c.I, a, False), cased(c.I, b, False))
    if x is None or y is None:
        raise Unsupported(c.fi.n)
    if len(y) > len(x):
        return False
    if c.fi.n == "StartsWith":
        return str_eq(StrV([("c", z) for z in x[:len(y)]]), b)
    if c.fi.n == "EndsWith":
        return str_eq(StrV([("c", z) for z in x[len(x) - len(y):]]), b)
    return b_or(*[str_eq(StrV([("c", z) for z in x[i:i + len(y)]]), b) for i in range(len(x) - len(y) + 1)])


@h("absl::ConsumePrefix")
def _(c):
    p = c.arg(0)
    s = c.P.load(p.lv)
    b = to_str(c.I, c.arg(1))
    x, y = s.chars(), b.chars()
    if x is None or y is None:
        raise Unsupported("ConsumePrefix")
    if len(y) > len(x):
        return False
    if c.P.branch(str_eq(StrV([("c", z) for z in x[:len(y)]]), b)):
        c.P.write(p.lv, StrV([("c", z) for z in x[len(y):]]))
        return True
    return False


@h("sscanf", "std::sscanf")
def _(c):
    """%x/%d only: either nothing is converted (0 or EOF) or every result gets
    some value."""
    fmt = to_str(c.I, c.arg(1)).lit()
    src = to_str(c.I, c.arg(0))
    if fmt not in (b"%x", b"%d", b"%u", b"%i"):
        raise Unsupported("sscanf format")
    p = c.arg(2)
    k = c.P.choose(3)
    if k == 0:
        return 0
    if k == 1:
        return -1
    code = str_code(src)
    f = z3.Function("scan.%s" % fmt[1:].decode(), z3.IntSort(), z3.BitVecSort(32))
    c.P.write(p.lv, f(code))
    return 1


# ---- files ------------------------------------------------------------------------------------------
class FileSys:
    """Ghost state: one readable file image and the bytes written."""


def fs(c):
    g = c.I.fs
    if g is None:
        raise Unsupported("file access without a file-system contract")
    return g


for n in ("fopen", "fclose", "fread", "fwrite", "fseek", "ftell", "rewind", "fflush", "ferror", "feof"):
    H[n] = H["std::" + n] = (lambda n: lambda c: getattr(fs(c), n)(c))(n)


@h("std::allocator::allocator")
def _(c):
    return Opaque("allocator")


# ---- maps: see hashmap.py
from . import hashmap as _hm   # noqa
_hm.install(h, H, take, conv, build, make, eqv, lessv, range_of, tname)


class Lib:
    def __init__(self):
        self.sym, self.symfn, self.default, self.aggregate = {}, {}, {}, {}
        d = self.default
        d["std::vector"] = d["std::deque"] = d["absl::InlinedVector"] = seq0
        d["std::initializer_list"] = lambda I, t: Seq((), et=t.ta[0])
        d["std::array"] = lambda I, t: Seq([I.zero(t.ta[0])] * t.ta[1], et=t.ta[0], ver=newver())
        d["std::basic_string"] = d["std::basic_string_view"] = lambda I, t: StrV()
        d["std::optional"] = lambda I, t: OptV(False)
        d["std::variant"] = lambda I, t: VarV(0, tuple([I.zero(t.ta[0])] + [None] * (len(t.ta) - 1)))
        d["std::pair"] = lambda I, t: pair(I.zero(t.ta[0]), I.zero(t.ta[1]))
        d["std::unique_ptr"] = d["std::shared_ptr"] = lambda I, t: UPtr(NULL, self._deleter(I, t))
        d["absl::Span"] = lambda I, t: SpanV(I.P.alloc(Seq((), et=t.ta[0])), 0, 0)
        d["std::monostate"] = lambda I, t: Rec("std::monostate", {}, "std::monostate")
        d["std::nullopt_t"] = lambda I, t: Rec("std::nullopt_t", {}, "std::nullopt_t")
        d["std::allocator"] = lambda I, t: Opaque("allocator")
        d["std::function"] = lambda I, t: NULL
        d[DQ] = d["__gnu_cxx::__normal_iterator"] = lambda I, t: Opaque("singular iterator")
        for n in ("std::map", "std::set", "std::unordered_map", "std::unordered_set", "absl::flat_hash_map", "absl::flat_hash_set"):
            d[n] = lambda I, t: _hm.empty(I, t)
        s = self.sym
        s["std::vector"] = s["absl::InlinedVector"] = lambda I, t, name, idx: I.symseq_ctx(t.ta[0], name, idx)
        s["std::basic_string"] = s["std::basic_string_view"] = lambda I, t, name, idx: self.sym_str(I, name, idx)
        s["std::optional"] = lambda I, t, name, idx: OptV(I.P.fresh(name + ".has", z3.BoolSort(), idx), I.sym(t.ta[0], name + ".val", idx))
        s["std::pair"] = lambda I, t, name, idx: pair(I.sym(t.ta[0], name + ".first", idx), I.sym(t.ta[1], name + ".second", idx))
        s["std::variant"] = self.sym_variant
        s["std::array"] = lambda I, t, name, idx: Seq([I.sym(t.ta[0], "%s.%d" % (name, i), idx) for i in range(t.ta[1])], et=t.ta[0])
        f = self.symfn
        f["std::variant"] = self.symfn_variant
        f["std::basic_string"] = f["std::basic_string_view"] = self.symfn_str
        f["std::pair"] = self.symfn_pair
        f["std::optional"] = self.symfn_opt
        f["std::vector"] = f["absl::InlinedVector"] = self.symfn_vec
        for n in ("std::map", "std::set", "std::unordered_map", "absl::flat_hash_map"):
            s[n] = _hm.sym_map
        a = self.aggregate
        a["std::array"] = lambda I, t, vs: vs[0] if len(vs) == 1 and isinstance(vs[0], Seq) else Seq(list(vs) + [I.zero(t.ta[0])] * (t.ta[1] - len(vs)), et=t.ta[0], ver=newver())

    def _deleter(self, I, t):
        if len(t.ta) > 1 and t.ta[1].k == "rec" and not (t.ta[1].tn or "").startswith("std::default_delete"):
            return I.zero(t.ta[1])
        return None

    def get(self, fi):
        q = fi.q
        if q.startswith("absl::InlinedVector::"):
            q = "std::vector::" + (q[21:] if fi.n != "InlinedVector" else "vector")
        return H.get(q)

    def it_deref(self, I, it):
        return it_lv(I, it)

    def three_way(self, I, l, r, t):
        return three(I, l, r, t)

    def sym_str(self, I, name, idx=()):
        code = I.P.fresh(name + ".code", z3.IntSort(), idx)
        n = I.P.fresh(name + ".len", B64, idx)
        I.P.assume(z3.ULE(n, 1 << 40))
        I.P.assume((n == 0) == (code == str_code(StrV())))
        return StrV([("o", name, code, n)])

    def symfn_str(self, I, t, base, doms):
        f = I.P.fresh_fn(base + ".code", doms, z3.IntSort())
        g = I.P.fresh_fn(base + ".len", doms, B64)
        return lambda *a: StrV([("o", base, f(*a), g(*a))])

    def symfn_pair(self, I, t, base, doms):
        f, g = I.symfn(t.ta[0], base + ".first", doms), I.symfn(t.ta[1], base + ".second", doms)
        return lambda *a: pair(f(*a), g(*a))

    def symfn_opt(self, I, t, base, doms):
        f, g = I.P.fresh_fn(base + ".has", doms, z3.BoolSort()), I.symfn(t.ta[0], base + ".val", doms)
        return lambda *a: OptV(f(*a), g(*a))

    def symfn_vec(self, I, t, base, doms):
        n = I.P.fresh_fn(base + ".len", doms, B64)
        e = I.symfn(t.ta[0], base + ".el", list(doms) + [B64])
        return lambda *a: Seq(n=n(*a), fn=lambda i: e(*(a + (bv(i, 64),))), et=t.ta[0], ver=0)

    def symfn_variant(self, I, t, base, doms):
        k = I.P.fresh_fn(base + ".idx", doms, z3.BitVecSort(8))
        fs = [I.symfn(x, "%s.alt%d" % (base, i), doms) for i, x in enumerate(t.ta)]
        return lambda *a: VarV(k(*a), tuple(f(*a) for f in fs))

    def sym_variant(self, I, t, name, idx):
        k = I.P.fresh(name + ".idx", z3.BitVecSort(8), idx)
        I.P.assume(z3.ULT(k, len(t.ta)))
        return VarV(k, tuple(I.sym(x, "%s.alt%d" % (name, i), idx) for i, x in enumerate(t.ta)))
