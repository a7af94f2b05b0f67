"""Symbolic values.  Values are immutable; memory is a store of cells, and an
lvalue is a cell plus a path of projections into its value."""
import z3


class Unsupported(Exception):
    """The generator cannot translate this construct."""


class NotMergeable(Exception):
    pass


# ---- scalars -----------------------------------------------------------------
def norm(v, w, sg):
    v &= (1 << w) - 1
    if sg and v >> (w - 1):
        v -= 1 << w
    return v


def isc(v):
    return isinstance(v, (int, bool))


def bv(v, w):
    if isinstance(v, bool):
        return z3.BitVecVal(int(v), w)
    if isinstance(v, int):
        return z3.BitVecVal(v, w)
    if z3.is_bool(v):
        return z3.If(v, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
    if isinstance(v, TIte):
        return v.to(w)
    if v.size() != w:
        raise Unsupported("width mismatch %d/%d" % (v.size(), w))
    return v


def zb(v):
    """To a z3 Bool."""
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if isinstance(v, int):
        return z3.BoolVal(v != 0)
    if z3.is_bool(v):
        return v
    return v != 0


def b_and(*xs):
    out = []
    for x in xs:
        if isinstance(x, (list, tuple)):
            x = b_and(*x)
        if isinstance(x, bool):
            if not x:
                return False
            continue
        if z3.is_true(x):
            continue
        if z3.is_false(x):
            return False
        out.append(x)
    if not out:
        return True
    return out[0] if len(out) == 1 else z3.And(*out)


def b_or(*xs):
    out = []
    for x in xs:
        if isinstance(x, (list, tuple)):
            x = b_or(*x)
        if isinstance(x, bool):
            if x:
                return True
            continue
        if z3.is_false(x):
            continue
        if z3.is_true(x):
            return True
        out.append(x)
    if not out:
        return False
    return out[0] if len(out) == 1 else z3.Or(*out)


def b_not(x):
    if isinstance(x, bool):
        return not x
    if z3.is_true(x):
        return False
    if z3.is_false(x):
        return True
    return z3.Not(x)


def b_imp(a, b):
    return b_or(b_not(a), b)


def b_ite(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    if isinstance(a, bool) and isinstance(b, bool):
        if a == b:
            return a
        return c if a else b_not(c)
    return z3.If(c, zb(a), zb(b))


def same(a, b):
    """Syntactic identity."""
    if a is b:
        return True
    if isc(a) or isc(b):
        return isc(a) and isc(b) and a == b and isinstance(a, bool) == isinstance(b, bool)
    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
        return a.eq(b)
    return False


def ult(a, b):
    if isc(a) and isc(b):
        return a < b
    w = a.size() if not isc(a) else b.size()
    return z3.ULT(bv(a, w), bv(b, w))


def ule(a, b):
    if isc(a) and isc(b):
        return a <= b
    w = a.size() if not isc(a) else b.size()
    return z3.ULE(bv(a, w), bv(b, w))


def eq(a, b):
    """Equality of scalars."""
    if isinstance(a, TIte):
        a = a.to(b.size() if isinstance(b, z3.BitVecRef) else 64)
    if isinstance(b, TIte):
        b = b.to(a.size() if isinstance(a, z3.BitVecRef) else 64)
    if isc(a) and isc(b):
        return a == b
    if isinstance(a, bool) or isinstance(b, bool) or z3.is_bool(a) or z3.is_bool(b):
        a, b = zb(a), zb(b)
        return True if a.eq(b) else a == b
    if isc(a):
        a = bv(a, b.size())
    if isc(b):
        b = bv(b, a.size())
    if a.eq(b):
        return True
    return a == b


def add64(a, b):
    if isc(a) and isc(b):
        return a + b
    if isc(b) and b == 0:
        return a
    if isc(a) and a == 0:
        return b
    return z3.simplify(bv(a, 64) + bv(b, 64))


def sub64(a, b):
    if isc(a) and isc(b):
        return a - b
    if isc(b) and b == 0:
        return a
    return z3.simplify(bv(a, 64) - bv(b, 64))


# ---- lvalues, pointers ---------------------------------------------------------
class LV:
    __slots__ = ("root", "path")

    def __init__(self, root, path=()):
        self.root, self.path = root, path

    def sub(self, *p):
        return LV(self.root, self.path + p)

    def f(self, name):
        return LV(self.root, self.path + (("f", name),))

    def __repr__(self):
        return "LV(%s%s)" % (self.root, "".join("." + ":".join(str(y) for y in x) for x in self.path))


def lv_same(a, b):
    if a.root != b.root or len(a.path) != len(b.path):
        return False
    c = True
    for p, q in zip(a.path, b.path):
        if p[0] != q[0] or len(p) != len(q):
            return False
        for x, y in zip(p[1:], q[1:]):
            if isinstance(x, str) or isinstance(y, str):
                if x != y:
                    return False
            elif isinstance(x, (int, z3.ExprRef)):
                c = b_and(c, eq(x, y))
            elif x is not y:
                c = b_and(c, val_eq(x, y))
    return c


def lv_merge(c, a, b):
    """One place for two that differ in element numbers only."""
    if a.root != b.root or len(a.path) != len(b.path):
        return None
    out = []
    for p, q in zip(a.path, b.path):
        if p[0] == "e" and q[0] == "e":
            out.append(("e", merge(c, bv(p[1], 64), bv(q[1], 64))))
        elif p[0] == "f" and p == q:
            out.append(p)
        else:
            return None
    return LV(a.root, tuple(out))


class Null:
    def __repr__(self):
        return "NULL"


NULL = Null()


class Ptr:
    __slots__ = ("lv",)

    def __init__(self, lv):
        self.lv = lv

    def __repr__(self):
        return "Ptr(%r)" % self.lv


class CStr:
    """Pointer to a NUL-terminated constant string (offset into it)."""
    __slots__ = ("s", "off")

    def __init__(self, s, off=0):
        self.s, self.off = s, off


class Opaque:
    """A value of a type nothing is known about (identity only)."""
    __slots__ = ("tag", "data")

    def __init__(self, tag, data=None):
        self.tag, self.data = tag, data

    def __repr__(self):
        return "<%s>" % self.tag


# ---- records ---------------------------------------------------------------------
class Rec:
    __slots__ = ("key", "f", "tn")

    def __init__(self, key, f, tn=None):
        self.key, self.f, self.tn = key, f, tn

    def get(self, n):
        if n not in self.f:
            raise Unsupported("no field %s in %s" % (n, self.key))
        return self.f[n]

    def set(self, n, v):
        if self.tn == "union":
            return Rec(self.key, {k: v if k == n else None for k in self.f}, self.tn)
        g = dict(self.f)
        g[n] = v
        return Rec(self.key, g, self.tn)

    def __repr__(self):
        return "%s{%s}" % (self.tn or self.key, ", ".join("%s=%r" % x for x in self.f.items()))


def pair(a, b):
    return Rec("std::pair", {"first": a, "second": b}, "std::pair")


class OptV:
    __slots__ = ("has", "v")

    def __init__(self, has, v=None):
        self.has, self.v = has, v

    def __repr__(self):
        return "Opt(%r,%r)" % (self.has, self.v)


class VarV:
    """std::variant: index (int or BV8) and one payload slot per alternative."""
    __slots__ = ("idx", "alts")

    def __init__(self, idx, alts):
        self.idx, self.alts = idx, alts

    def __repr__(self):
        return "Var(%r,%r)" % (self.idx, self.alts)


class UPtr:
    """unique_ptr/shared_ptr: owned pointer plus optional deleter."""
    __slots__ = ("p", "d")

    def __init__(self, p, d=None):
        self.p, self.d = p, d

    def __repr__(self):
        return "UPtr(%r)" % (self.p,)


class FnV:
    """A function pointer or a function object reference."""
    __slots__ = ("key",)

    def __init__(self, key):
        self.key = key


class It:
    """Iterator into a sequence."""
    __slots__ = ("lv", "i", "ver", "rev")

    def __init__(self, lv, i, ver, rev=False):
        self.lv, self.i, self.ver, self.rev = lv, i, ver, rev

    def at(self, i):
        return It(self.lv, i, self.ver, self.rev)

    def __repr__(self):
        return "It(%r,%s)" % (self.lv, self.i)


class MIt:
    """Iterator into a map/set: key (None for end)."""
    __slots__ = ("lv", "key", "ver")

    def __init__(self, lv, key, ver=0):
        self.lv, self.key, self.ver = lv, key, ver


class SpanV:
    __slots__ = ("lv", "off", "n")

    def __init__(self, lv, off, n):
        self.lv, self.off, self.n = lv, off, n


# ---- sequences ---------------------------------------------------------------------
_ver = [0]


def newver():
    _ver[0] += 1
    return _ver[0]


CUR = None


def pick(c, fa, fb):
    """merge(c, fa(), fb()) that falls back to what the path says of c."""
    if c is True:
        return fa()
    if c is False:
        return fb()
    try:
        return merge(c, fa(), fb())
    except (NotMergeable, Unsupported):
        if CUR.must(c):
            return fa()
        if CUR.must(b_not(c)):
            return fb()
        if CUR.instantiating:
            raise
        a, b = fa(), fb()
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            return a if CUR.branch(c) else b
        raise


class Seq:
    """std::vector, arrays, initializer lists.  Either concrete items, or a
    length term and an element function."""
    __slots__ = ("items", "n", "fn", "ev", "ver", "op", "et")

    def __init__(self, items=None, n=None, fn=None, et=None, ev=(), ver=0, op=None):
        if items is not None:
            self.items, self.n, self.fn = tuple(items), len(items), None
        else:
            self.items, self.n, self.fn = None, n, fn
        # ev: invalidation events (version, first invalid index or None)
        self.et, self.ev, self.ver, self.op = et, ev, ver, op

    def _mk(self, items=None, n=None, fn=None, inval=None, op=None):
        v = newver()
        ev = self.ev if inval is False else self.ev + ((v, inval),)
        return Seq(items, n, fn, self.et, ev, v if inval is not False else self.ver, op)

    def get(self, i):
        if self.items is not None:
            if isc(i):
                if 0 <= i < len(self.items):
                    return self.items[i]
                raise Unsupported("concrete index out of range")
            if not self.items:
                raise Unsupported("index into empty sequence")
            n = len(self.items)
            if n <= 4 or not all(isc(x) or isinstance(x, z3.ExprRef) for x in self.items):
                r = self.items[-1]
                for j in range(n - 2, -1, -1):
                    r = merge(eq(i, j), self.items[j], r)
                return r
            # group equal items
            groups = {}
            for j, x in enumerate(self.items):
                groups.setdefault(("c", x) if isc(x) else ("t", x.get_id()), (x, []))[1].append(j)
            gs = sorted(groups.values(), key=lambda g: -len(g[1]))
            r = gs[0][0]
            for x, js in gs[1:]:
                r = merge(b_or([eq(i, j) for j in js]), x, r)
            return r
        return self.fn(i)

    def set(self, i, v):
        if self.items is not None and isc(i):
            return self._mk(self.items[:i] + (v,) + self.items[i + 1:], inval=False)
        old = self
        return self._mk(n=self.n, fn=lambda j: merge(eq(j, i), v, old.get(j)), inval=False,
                        op=("set", self, i, v)) if self.items is None else \
            self._mk(tuple(merge(eq(i, j), v, x) for j, x in enumerate(self.items)), inval=False)

    def push(self, v):
        if self.items is not None:
            return self._mk(self.items + (v,))
        old = self
        return self._mk(n=add64(self.n, 1), fn=lambda j: pick(eq(j, old.n), lambda: v, lambda: old.get(j)), op=("push", self, v))

    def pop(self):
        if self.items is not None:
            if not self.items:
                raise Unsupported("pop of empty")
            return self._mk(self.items[:-1], inval=len(self.items) - 1)
        return self._mk(n=sub64(self.n, 1), fn=self.fn, inval=sub64(self.n, 1))

    def insert(self, i, vals):
        vals = tuple(vals)
        m = len(vals)
        if self.items is not None and isc(i):
            return self._mk(self.items[:i] + vals + self.items[i:])
        old = self

        def fn(j):
            r = old.get(sub64(j, m))
            for t in range(m - 1, -1, -1):
                r = merge(eq(j, add64(i, t)), vals[t], r)
            return merge(ult(j, i), old.get(j), r)
        return self._mk(n=add64(self.n, m), fn=fn)

    def insert_seq(self, i, s):
        if s.items is not None:
            return self.insert(i, s.items)
        old = self

        def fn(j):
            return merge(ult(j, i), old.get(j), merge(ult(j, add64(i, s.n)), s.get(sub64(j, i)), old.get(sub64(j, s.n))))
        return self._mk(n=add64(self.n, s.n), fn=fn, op=("append", self, s) if same(i, self.n) else None)

    def erase(self, a, b):
        if self.items is not None and isc(a) and isc(b):
            return self._mk(self.items[:a] + self.items[b:], inval=a)
        old, d = self, sub64(b, a)
        if isc(a) and a == 0:
            return self._mk(n=sub64(self.n, d), fn=lambda j: old.get(add64(j, d)), inval=0, op=("drop", self, d))
        return self._mk(n=sub64(self.n, d), fn=lambda j: merge(ult(j, a), old.get(j), old.get(add64(j, d))), inval=a)

    def slice(self, a, b):
        if self.items is not None and isc(a) and isc(b):
            return Seq(self.items[a:b], et=self.et)
        old = self
        return Seq(n=sub64(b, a), fn=lambda j: old.get(add64(a, j)), et=self.et)

    def __repr__(self):
        return "Seq%r" % (list(self.items),) if self.items is not None else "Seq(n=%s)" % self.n


# ---- strings -----------------------------------------------------------------------
def join_chars(x, y):
    """One piece for two, when the second continues the character sequence of the first."""
    if x[0] == "s":
        _, fn, off, n, ident = x
        if y[0] == "c":
            return ("s", fn, off, add64(n, 1), ident) if same(fn(z3.simplify(bv(add64(off, n), 64))), y[1]) else None
        return ("s", fn, off, add64(n, y[3]), ident) if y[4] == ident and same(z3.simplify(bv(add64(off, n), 64)), z3.simplify(bv(y[2], 64))) else None
    if y[0] == "s":
        _, fn, off, n, ident = y
        return ("s", fn, z3.simplify(bv(off, 64) - 1), add64(n, 1), ident) if same(fn(z3.simplify(bv(off, 64) - 1)), x[1]) else None
    return None


class StrV:
    """Pieces: bytes | ('c', BV8) | ('d', bv, signed) | ('x', bv, width, upper) |
    ('o', name, code:Int, len:BV64) | ('j', sep bytes, Seq of StrV) |
    ('s', fn, off:BV64, len, ident): characters fn(off), fn(off+1), ..."""
    __slots__ = ("p",)

    def __init__(self, pieces=()):
        out = []
        for x in pieces:
            if isinstance(x, tuple) and x[0] == "c" and isc(x[1]):
                x = bytes([x[1] & 255])
            elif isinstance(x, tuple) and x[0] == "d" and isc(x[1]):
                x = str(x[1]).encode()
            elif isinstance(x, tuple) and x[0] == "x" and isc(x[1]):
                x = (("%0*X" if x[3] else "%0*x") % (x[2], x[1])).encode()
            if isinstance(x, bytes):
                if not x:
                    continue
                if out and isinstance(out[-1], bytes):
                    out[-1] += x
                    continue
            elif out and isinstance(out[-1], tuple) and x[0] in "cs" and out[-1][0] in "cs":
                y = join_chars(out[-1], x)
                if y is not None:
                    out[-1] = y
                    continue
            out.append(x)
        self.p = tuple(out)

    def lit(self):
        if not self.p:
            return b""
        if len(self.p) == 1 and isinstance(self.p[0], bytes):
            return self.p[0]
        return None

    def __add__(self, o):
        return StrV(self.p + o.p)

    def chars(self):
        """List of characters, if the length is concrete; else None."""
        out = []
        for x in self.p:
            if isinstance(x, bytes):
                out += list(x)
            elif x[0] == "c":
                out.append(x[1])
            else:
                return None
        return out

    def length(self):
        """int or BV64 or None"""
        n = 0
        for x in self.p:
            if isinstance(x, bytes):
                n = add64(n, len(x))
            elif x[0] == "c":
                n = add64(n, 1)
            elif x[0] in "os":
                n = add64(n, x[3])
            else:
                return None
        return n

    def sub(self):
        """The character sequence, when the string is one."""
        return self.p[0] if len(self.p) == 1 and isinstance(self.p[0], tuple) and self.p[0][0] == "s" else None

    def nonempty_piece(self):
        return any(isinstance(x, bytes) or x[0] in "cdx" for x in self.p)

    def empty(self):
        if not self.p:
            return True
        if self.nonempty_piece():
            return False
        return b_and(*[eq(x[3], 0) if x[0] in "os" else eq(x[2].n, 0) for x in self.p])

    def __repr__(self):
        return "Str(%s)" % " ".join(repr(x) if isinstance(x, bytes) else "<" + ",".join(str(y)[:60] for y in x) + ">" for x in self.p)


def S(x):
    return StrV((x.encode() if isinstance(x, str) else x,))


_codes = {}


def str_code_lit(b):
    if b not in _codes:
        _codes[b] = len(_codes) + 1
    return _codes[b]


def str_code(s):
    """An Int term; equal strings of the same shape have equal codes, and
    distinct literals have distinct codes."""
    l = s.lit()
    if l is not None:
        return z3.IntVal(str_code_lit(l))
    cs = []
    for x in s.p:
        if isinstance(x, bytes):
            cs.append(z3.IntVal(str_code_lit(x)))
        elif x[0] == "o":
            cs.append(x[2])
        elif x[0] == "s":
            cs.append(z3.Function("str.sub." + x[4], z3.BitVecSort(64), z3.BitVecSort(64), z3.IntSort())(bv(x[2], 64), bv(x[3], 64)))
        elif x[0] == "c":
            cs.append(z3.Function("str.chr", z3.BitVecSort(8), z3.IntSort())(bv(x[1], 8)))
        elif x[0] in "dx":
            w = x[1].size()
            nm = "str.%s%d%s" % (x[0], w, "" if x[0] == "d" else "_%d%s" % (x[2], x[3]))
            cs.append(z3.Function(nm, z3.BitVecSort(w), z3.IntSort())(x[1]))
        else:
            raise Unsupported("code of joined string")
    if len(cs) == 1:
        return cs[0]
    cat = z3.Function("str.cat", z3.IntSort(), z3.IntSort(), z3.IntSort())
    r = cs[-1]
    for c in reversed(cs[:-1]):
        r = cat(c, r)
    return r


def str_eq(a, b):
    la, lb = a.lit(), b.lit()
    if la is not None and lb is not None:
        return la == lb
    ca, cb = a.chars(), b.chars()
    if ca is not None and cb is not None:
        if len(ca) != len(cb):
            return False
        return b_and(*[eq(x if isc(x) else x, y) if not (isc(x) and isc(y)) else x == y for x, y in zip(ca, cb)])
    for x, y in ((a.sub(), cb), (b.sub(), ca)):
        if x is not None and y is not None:
            return b_and(eq(x[3], len(y)), *[eq(bv(x[1](add64(x[2], i)), 8), bv(c, 8)) for i, c in enumerate(y)])
    # strip equal leading / trailing literal text
    pa, pb = list(a.p), list(b.p)
    cond = True
    while pa and pb:
        x, y = pa[0], pb[0]
        if isinstance(x, bytes) and isinstance(y, bytes):
            n = min(len(x), len(y))
            if x[:n] != y[:n]:
                return False
            pa[0], pb[0] = x[n:], y[n:]
            if not pa[0]:
                pa.pop(0)
            if not pb[0]:
                pb.pop(0)
            continue
        if isinstance(x, tuple) and isinstance(y, tuple) and x[0] == y[0] and piece_same(x, y):
            pa.pop(0), pb.pop(0)
            continue
        break
    if not pa and not pb:
        return True
    if not pa:
        return StrV(pb).empty()
    if not pb:
        return StrV(pa).empty()
    if len(pa) == 1 and len(pb) == 1 and isinstance(pa[0], tuple) and isinstance(pb[0], tuple) and pa[0][0] == pb[0][0] \
            and pa[0][0] in "dx" and pa[0][1].size() == pb[0][1].size() and pa[0][2:] == pb[0][2:]:
        return pa[0][1] == pb[0][1]
    return b_and(cond, str_code(StrV(pa)) == str_code(StrV(pb)))


def piece_same(x, y):
    if x[0] != y[0]:
        return False
    if x[0] == "o":
        return x[2].eq(y[2])
    if x[0] == "c":
        return same(x[1], y[1])
    if x[0] == "s":
        return x[4] == y[4] and same(x[2], y[2]) and same(x[3], y[3])
    if x[0] in "dx":
        return same(x[1], y[1]) and x[2:] == y[2:]
    return x is y


# ---- merging -------------------------------------------------------------------------
def merge(c, a, b):
    """ite(c, a, b) on values."""
    if a is b:
        return a
    if isinstance(c, bool):
        return a if c else b
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if a is None or b is None:
        return _unset(c, a, b)
    if isc(a) and isc(b) and isinstance(a, bool) == isinstance(b, bool) and a == b:
        return a
    if isinstance(a, (bool,)) or isinstance(b, bool) or (isinstance(a, z3.ExprRef) and z3.is_bool(a)) or \
            (isinstance(b, z3.ExprRef) and z3.is_bool(b)):
        return b_ite(c, a, b)
    if isinstance(a, z3.ExprRef) or isinstance(b, z3.ExprRef):
        if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
            if a.eq(b):
                return a
            if a.sort() != b.sort():
                raise NotMergeable("sorts")
            return z3.If(c, a, b)
        if isc(a) or isc(b) or isinstance(a, TIte) or isinstance(b, TIte):
            w = (a if isinstance(a, z3.ExprRef) else b).size()
            return z3.If(c, bv(a, w), bv(b, w))
        raise NotMergeable("scalar/other")
    if isc(a) and isc(b):
        # width unknown: represent as a lazily typed conditional
        return TIte(c, a, b)
    if isinstance(a, TIte) or isinstance(b, TIte):
        return TIte(c, a, b)
    if type(a) is not type(b):
        if isinstance(a, (Ptr, Null)) and isinstance(b, (Ptr, Null)):
            raise NotMergeable("pointers")
        if type(a).__name__ in ("MapC", "MapV") and type(b).__name__ in ("MapC", "MapV"):
            return a.merge(c, b)
        raise NotMergeable("%s/%s" % (type(a).__name__, type(b).__name__))
    if isinstance(a, Rec):
        if a.key != b.key or (a.f.keys() != b.f.keys() and any(n[:1] != "$" for n in a.f.keys() ^ b.f.keys())):
            raise NotMergeable("records %s %s" % (a.key, b.key))
        return Rec(a.key, {n: merge(c, a.f[n], b.f[n]) for n in a.f if n in b.f}, a.tn)     # ghost fields of one side get lost
    if isinstance(a, OptV):
        va = a.v if a.v is not None else b.v
        vb = b.v if b.v is not None else a.v
        return OptV(b_ite(c, a.has, b.has), None if va is None else merge(c, va, vb))
    if isinstance(a, VarV):
        alts = []
        for x, y in zip(a.alts, b.alts):
            if x is None or y is None:
                alts.append(x if y is None else y)
            else:
                alts.append(merge(c, x, y))
        return VarV(merge(c, a.idx if not isc(a.idx) else bv(a.idx, 8), b.idx if not isc(b.idx) else bv(b.idx, 8)), tuple(alts))
    if isinstance(a, Seq):
        if a.items is not None and b.items is not None and len(a.items) == len(b.items):
            return Seq([merge(c, x, y) for x, y in zip(a.items, b.items)], et=a.et, ver=newver(), ev=a.ev + b.ev)
        return Seq(n=merge(c, bv(a.n, 64), bv(b.n, 64)), fn=lambda i: _sg(c, a, b, i), et=a.et, ver=newver(), ev=a.ev + b.ev)
    if isinstance(a, StrV):
        e = str_eq(a, b)
        if e is True:
            return a
        ca, cb = a.chars(), b.chars()
        sa, sb = a.sub(), b.sub()
        if sa and sb and sa[4] == sb[4]:
            return StrV([("s", sa[1], merge(c, bv(sa[2], 64), bv(sb[2], 64)), merge(c, bv(sa[3], 64), bv(sb[3], 64)), sa[4])])
        if ca is not None and cb is not None and len(ca) == len(cb):
            return StrV([("c", merge(c, bv(x, 8), bv(y, 8))) for x, y in zip(ca, cb)])
        try:
            la, lb = a.length(), b.length()
            if la is None or lb is None:
                raise NotMergeable("strings")
            return StrV([("o", "ite", z3.If(c, str_code(a), str_code(b)), merge(c, bv(la, 64), bv(lb, 64)))])
        except Unsupported:
            raise NotMergeable("strings")
    if isinstance(a, Ptr):
        if a.lv.root == b.lv.root and len(a.lv.path) == len(b.lv.path) and a.lv.path[:-1] == b.lv.path[:-1] and a.lv.path and a.lv.path[-1][0] == "e":
            return Ptr(LV(a.lv.root, a.lv.path[:-1] + (("e", merge(c, bv(a.lv.path[-1][1], 64), bv(b.lv.path[-1][1], 64))),)))
        if lv_same(a.lv, b.lv) is True:
            return a
        lv = lv_merge(c, a.lv, b.lv)
        if lv is not None:
            return Ptr(lv)
        raise NotMergeable("pointers")
    if isinstance(a, It):
        if lv_same(a.lv, b.lv) is True and a.ver == b.ver and a.rev == b.rev:
            return a.at(merge(c, bv(a.i, 64), bv(b.i, 64)))
        raise NotMergeable("iterators")
    if isinstance(a, UPtr):
        if isinstance(a.p, Ptr) and isinstance(b.p, Ptr) and lv_same(a.p.lv, b.p.lv) is True:
            return a
        raise NotMergeable("unique_ptr")
    if isinstance(a, SpanV):
        if lv_same(a.lv, b.lv) is True:
            return SpanV(a.lv, merge(c, bv(a.off, 64), bv(b.off, 64)), merge(c, bv(a.n, 64), bv(b.n, 64)))
    if isinstance(a, FnV) and a.key == b.key:
        return a
    if isinstance(a, Opaque) and a.tag == b.tag and a.data is None and b.data is None:
        return Opaque(a.tag)
    if hasattr(a, "merge"):
        return a.merge(c, b)
    raise NotMergeable(type(a).__name__)


def _unset(c, a, b):
    """One side holds no value (an inactive union member): anything."""
    x = b if a is None else a
    def any_(x):
        if isinstance(x, Rec):
            return Rec(x.key, {n: any_(y) for n, y in x.f.items()}, x.tn)
        if isinstance(x, z3.BitVecRef):
            return CUR.fresh("inactive", x.sort())
        raise NotMergeable("a value that was never set")
    y = any_(x)
    return merge(c, y, b) if a is None else merge(c, a, y)


def _sg(c, a, b, i):
    """Element i of the merged sequence; an empty side has none to contribute."""
    if a.items == ():
        return b.get(i)
    if b.items == ():
        return a.get(i)
    return merge(c, a.get(i), b.get(i))


class TIte:
    """Conditional between two machine constants whose width is not yet known."""
    __slots__ = ("c", "a", "b")

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def to(self, w):
        f = lambda x: x.to(w) if isinstance(x, TIte) else bv(x, w)
        return z3.If(self.c, f(self.a), f(self.b))


def val_eq(a, b):
    """Structural equality of values (as a condition)."""
    if isinstance(a, TIte):
        a = a.to(b.size() if isinstance(b, z3.ExprRef) else 32)
    if isinstance(b, TIte):
        b = b.to(a.size() if isinstance(a, z3.ExprRef) else 32)
    if isc(a) or isinstance(a, z3.ExprRef):
        return eq(a, b)
    if isinstance(a, Rec):
        return b_and(*[val_eq(a.f[n], b.f[n]) for n in a.f])
    if isinstance(a, StrV):
        return str_eq(a, b)
    if isinstance(a, OptV):
        if a.v is None or b.v is None:
            return b_and(b_not(a.has), b_not(b.has)) if a.v is None and b.v is None else b_and(eq(a.has, b.has), b_not(a.has))
        return b_and(eq(a.has, b.has), b_or(b_not(a.has), val_eq(a.v, b.v)))
    if isinstance(a, VarV):
        if isc(a.idx) and isc(b.idx):
            if a.idx != b.idx:
                return False
            return val_eq(a.alts[a.idx], b.alts[b.idx])
        c = eq(a.idx, b.idx)
        for i, (x, y) in enumerate(zip(a.alts, b.alts)):
            if x is not None and y is not None:
                c = b_and(c, b_imp(eq(a.idx, i), val_eq(x, y)))
        return c
    if isinstance(a, Seq) and a.items is not None and isinstance(b, Seq) and b.items is not None:
        if len(a.items) != len(b.items):
            return False
        return b_and(*[val_eq(x, y) for x, y in zip(a.items, b.items)])
    if isinstance(a, (Ptr, Null)) and isinstance(b, (Ptr, Null)):
        if isinstance(a, Null) or isinstance(b, Null):
            return isinstance(a, Null) and isinstance(b, Null)
        return lv_same(a.lv, b.lv)
    if isinstance(a, FnV):
        return a.key == b.key
    if hasattr(a, "equals"):
        return a.equals(b)
    raise Unsupported("equality of %s" % type(a).__name__)
