"""Interpreter of the extracted C++ over symbolic values."""
import z3
from .values import *
from .values import _sg
from .engine import *

MAX_UNROLL = 3000


class Ret(Exception):
    pass


class Frame:
    __slots__ = ("fn", "tu", "locals", "this", "closure", "rt", "scopes", "depth", "label")

    def __init__(self, fn, tu):
        self.fn, self.tu = fn, tu
        self.locals = {}
        self.this = None
        self.closure = None
        self.rt = None
        self.scopes = []
        self.label = ""


class Call:
    """What a library handler or contract sees of a call."""
    __slots__ = ("I", "P", "fi", "obj", "args", "e", "rt", "frame")

    def arg(self, i):
        """Value of argument i (loads references)."""
        a = self.args[i]
        return self.P.load(a) if isinstance(a, LV) else a

    @property
    def ct(self):
        return self.fi.ct

    def self_val(self):
        return self.P.load(self.obj)


CMP = {"==", "!=", "<", "<=", ">", ">="}


class Interp:
    def __init__(self, eng, lib):
        self.eng, self.prog, self.lib = eng, eng.prog, lib
        self.contracts = {}          # qualified name or key -> handler
        self.inv = {}                # class -> invariant(rec) assumed for symbolic values
        self.ptrbases = {}
        self.frames = []
        self.nomerge = set()
        self.mergefns = None
        self.loop_hook = None
        self.under_proof = None
        self.no_inline = set()
        self.stdout = None
        self.merge_limit = 60
        eng.where = self.where
        eng.interp = self
        self.fs = None
        self.ln = 0
        self.size_cache = {}
        self.loop_policy = {}
        self.loop_depth = 0
        self.hoare = None       # loops with stated invariants: f(I, loop) -> see loops.run_invariant
        self.loop_inv = None    # stated loop invariants: f(I, loop, leaves) -> invariant or None
        self.sym_unroll = 6
        self.debug_loops = False
        self.last_noform = None

    @property
    def P(self):
        return self.eng.cur

    def where(self):
        for f in reversed(self.frames):
            if f.fn is not None and f.fn.repo:
                return "%s:%s (%s)" % (f.fn.loc.rsplit(":", 1)[0].replace("/repo/", ""), self.ln, f.fn.info.q)
        return "spec"

    # ---- symbolic values of a type ---------------------------------------------
    def sym(self, t, name, idx=(), inv=True):
        P = self.P
        t = t.strip()
        if t.k in ("int", "enum"):
            return P.fresh(name, z3.BitVecSort(t.w), idx)
        if t.k == "bool":
            return P.fresh(name, z3.BoolSort(), idx)
        if t.k == "rec":
            h = self.lib.sym.get(t.tn)
            if h:
                return h(self, t, name, idx)
            fs = self.fields(t)
            u = self.prog.recs.get(t.key, {}).get("union")
            v = Rec(t.key, {n: self.narrow(t, n, self.sym(ft, name + "." + n, idx)) for n, ft in fs}, "union" if u else t.tn)
            if inv and t.tn in self.inv:
                P.assume(self.inv[t.tn](v))
            return v
        if t.k == "arr":
            return Seq([self.sym(t.el, "%s.%d" % (name, i), idx) for i in range(t.n)], et=t.el)
        if t.k in ("ptr", "nullptr", "fn", "memptr", "float", "other"):
            return Opaque("sym:" + name)
        raise Unsupported("symbolic value of " + t.s)

    def symfn(self, t, base, doms):
        """A function giving symbolic values of type t for index terms: the
        leaves are functions of (loop context, index)."""
        P = self.P
        t = t.strip()
        if t.k in ("int", "enum"):
            return P.fresh_fn(base, doms, z3.BitVecSort(t.w))
        if t.k == "bool":
            return P.fresh_fn(base, doms, z3.BoolSort())
        if t.k == "rec":
            h = self.lib.symfn.get(t.tn)
            if h:
                return h(self, t, base, doms)
            fs = [(n, self.symfn(ft, base + "." + n, doms)) for n, ft in self.fields(t)]
            u = self.prog.recs.get(t.key, {}).get("union")
            return lambda *a: Rec(t.key, {n: self.narrow(t, n, f(*a)) for n, f in fs}, "union" if u else t.tn)
        raise Unsupported("symbolic family of " + t.s)

    def symseq(self, et, name, n=None, maxlen=1 << 40):
        P = self.P
        if n is None:
            n = P.fresh(name + ".len", z3.BitVecSort(64))
            P.assume(z3.ULE(n, maxlen))
        f = self.symfn(et, name, [z3.BitVecSort(64)])
        inv = self.inv.get(et.tn) if et.k == "rec" else None

        def fn(i):
            v = f(bv(i, 64))
            return v
        if inv:
            P.fact(("idx",), lambda i: b_imp(ult(i, n), inv(f(i))))
        return Seq(n=n, fn=fn, et=et, ver=newver())

    def symseq_ctx(self, et, name, idx=()):
        P = self.P
        ctx = P.ctx
        P.ctx = tuple(ctx) + tuple(idx)
        try:
            return self.symseq(et, name)
        finally:
            P.ctx = ctx

    def family(self, fn, guard=None, sort=None):
        """fn evaluated once at a formal index; the result is instantiated by
        substitution.  Obligations met on the way are discharged for an
        arbitrary index satisfying guard."""
        P = self.P
        i0 = P.fresh("fam", sort or z3.BitVecSort(64))
        ctx = P.ctx
        P.ctx = tuple(ctx) + (i0,)
        touched = []
        rec = P.rectouch
        P.rectouch = touched
        try:
            if guard is not None:
                g = guard(i0)
                v = P.pure(lambda: fn(i0), g)
                if v is None:
                    v = z3.BoolVal(True)
            else:
                v = P.pure(lambda: fn(i0))
        finally:
            P.ctx = ctx
            P.rectouch = rec
        v = z3.simplify(v) if isinstance(v, z3.ExprRef) else zb(v)
        ts = [(tag, t) for tag, t in touched if not t.eq(i0)]

        def at(i):
            i = bv(i, i0.size()) if isc(i) else i
            P2 = self.P
            for tag, t in ts:
                P2.touch_raw(tag, z3.simplify(z3.substitute(t, (i0, i))))
            return z3.substitute(v, (i0, i))
        return at

    def family2(self, fn, sort):
        P = self.P
        a0, b0 = P.fresh("fam", sort), P.fresh("fam", sort)
        v = P.pure(lambda: zb(fn(a0, b0)))
        v = z3.simplify(zb(v))
        return lambda a, b: z3.simplify(z3.substitute(v, (a0, a), (b0, b)))

    def fields(self, t):
        r = self.prog.recs.get(t.key)
        if r is None or "fields" not in r:
            raise Unsupported("fields of " + t.s)
        out = []
        for bt in r.get("bases", []):
            out += self.fields(r["tu"].T(bt)) if self.prog.recs.get(r["tu"].T(bt).key, {}).get("fields") is not None else []
        return out + [(f["n"], r["tu"].T(f["t"])) for f in r["fields"]]

    def bits(self, t, n):
        """Width of the field when it is a bit-field."""
        r = self.prog.recs.get(t if isinstance(t, str) else t.strip().key) or {}
        for f in r.get("fields", ()):
            if f["n"] == n:
                return f.get("bw"), r["tu"].T(f["t"])
        for b in r.get("bases", ()):
            x = self.bits(r["tu"].T(b), n)
            if x[0]:
                return x
        return None, None

    def narrow(self, t, n, v):
        """The value a field holds after v was stored into it."""
        bw, ft = self.bits(t, n)
        if not bw or ft.k == "bool" or v is None:
            return v
        if isinstance(v, TIte):
            v = v.to(ft.w)
        if isc(v):
            return norm(v & ((1 << bw) - 1), bw, ft.sg) if ft.sg else v & ((1 << bw) - 1)
        x = z3.Extract(bw - 1, 0, v)
        return z3.simplify((z3.SignExt if ft.sg else z3.ZeroExt)(ft.w - bw, x))

    def store(self, e, lv, v):
        """Assigns v to the lvalue of expression e."""
        if e["k"] == "mem":
            v = self.narrow(self.T(e["e"]["t"]), e["n"], v)
        self.P.write(lv, v)

    def uninit(self, t, name="uninit"):
        t0 = t.strip()
        if t0.k in ("int", "enum", "bool"):
            return self.sym(t0, name)
        if t0.k == "rec":
            h = self.lib.default.get(t0.tn)
            if h:
                return h(self, t0)
            r = self.prog.recs.get(t0.key)
            if r is not None and r.get("union"):
                return Rec(t0.key, {n: None for n, _ in self.fields(t0)}, "union")
            return Rec(t0.key, {n: self.narrow(t0, n, self.uninit(ft, name + "." + n)) for n, ft in self.fields(t0)}, t0.tn)
        if t0.k == "arr":
            if t0.n > 4096:
                raise Unsupported("large array")
            return Seq([self.uninit(t0.el, name) for _ in range(t0.n)], et=t0.el)
        return Opaque("uninit")

    def zero(self, t):
        t = t.strip()
        if t.k in ("int", "enum"):
            return 0
        if t.k == "bool":
            return False
        if t.k == "float":
            return Opaque("float")
        if t.k in ("ptr", "nullptr", "fn", "memptr"):
            return NULL
        if t.k == "rec":
            h = self.lib.default.get(t.tn)
            if h:
                return h(self, t)
            if self.prog.recs.get(t.key, {}).get("union"):
                return Rec(t.key, {n: self.zero(ft) if i == 0 else None for i, (n, ft) in enumerate(self.fields(t))}, "union")
            return Rec(t.key, {n: self.zero(ft) for n, ft in self.fields(t)}, t.tn)
        if t.k == "arr":
            return Seq([self.zero(t.el)] * t.n, et=t.el)
        raise Unsupported("zero of " + t.s)

    # ---- conversions ------------------------------------------------------------
    def fix(self, v, t):
        """Give a loaded scalar its machine form."""
        if isinstance(v, TIte):
            if t.k == "bool":
                return v.to(8) != 0
            return v.to(t.w or 32)
        if isinstance(v, bool) and t.k in ("int", "enum"):
            return int(v)
        if v is None:
            raise Unsupported("read of a value that was never set")
        return v

    def convert(self, v, ft, tt):
        """Integral conversion."""
        if tt.k == "bool":
            return self.truth(v)
        if tt.k not in ("int", "enum"):
            return v
        w, sg = tt.w, tt.sg
        if isinstance(v, TIte):
            v = v.to(ft.w)
        if isc(v):
            return norm(int(v), w, sg)
        if z3.is_bool(v):
            return bv(v, w)
        if isinstance(v, z3.BitVecRef):
            s = v.size()
            if s == w:
                return v
            if s > w:
                return z3.simplify(z3.Extract(w - 1, 0, v))
            return z3.SignExt(w - s, v) if ft.sg else z3.ZeroExt(w - s, v)
        raise Unsupported("integral conversion of %s" % type(v).__name__)

    def truth(self, v):
        if isinstance(v, bool):
            return v
        if isinstance(v, int):
            return v != 0
        if isinstance(v, TIte):
            return v.to(32) != 0
        if isinstance(v, z3.BoolRef):
            return v
        if isinstance(v, z3.BitVecRef):
            return v != 0
        if isinstance(v, Null):
            return False
        if isinstance(v, (Ptr, CStr, FnV)):
            return True
        if isinstance(v, UPtr):
            return self.truth(v.p)
        if hasattr(v, "truth"):
            return v.truth()
        if isinstance(v, Opaque):
            raise Unsupported("truth of " + v.tag)
        raise Unsupported("truth of %s" % type(v).__name__)

    # ---- frames, calls -----------------------------------------------------------
    @property
    def fr(self):
        return self.frames[-1]

    def T(self, i):
        return self.fr.tu.T(i)

    def call_fn(self, fn, this, args, closure=None):
        """Executes the body of fn; args are values or LVs per parameter."""
        P = self.P
        if len(self.frames) > 80:
            raise Unsupported("recursion too deep in " + fn.info.q)
        st = self.eng.stats
        if fn.repo and not P.replaying and not P.quiet:
            st.functions[fn.info.q] = st.functions.get(fn.info.q, 0) + 1
        f = Frame(fn, fn.tu)
        f.this, f.closure = this, closure
        f.rt = fn.info.rt
        for (pid, pn, pt), a in zip(fn.ps, args):
            if pt.isref:
                if not isinstance(a, LV):
                    a = P.alloc(a)
                f.locals[pid] = a
            else:
                if isinstance(a, LV):
                    a = P.load(a)
                f.locals[pid] = P.alloc(a, pt)
        self.frames.append(f)
        ln = self.ln
        try:
            if fn.inits is not None:
                self.run_inits(fn, f)
            r = self.exec(fn.body) if fn.body else None
            if r is None:
                if fn.info.rt.k != "void" and not fn.info.ctor and fn.info.n[:1] != "~" and fn.info.q != "main":
                    if fn.info.rt.k == "other":
                        return None
                    P.oblige(False, "missing return", self.where(), "control reaches the end of " + fn.info.q)
                return 0 if fn.info.q == "main" else None
            if r[0] == "ret":
                return r[1]
            raise Unsupported("stray control flow")
        finally:
            self.frames.pop()
            self.ln = ln

    def run_inits(self, fn, f):
        P = self.P
        for i in fn.inits:
            if i.get("deleg"):
                P.write(f.this, self.rv(i["e"]))
                continue
            if "base" in i:
                bt = f.tu.T(i["base"])
                v = self.rv(i["e"])
                if isinstance(v, Rec):
                    cur = P.load(f.this)
                    for n in v.f:
                        cur = cur.set(n, v.f[n])
                    P.write(f.this, cur)
                continue
            lv = f.this
            for n in i.get("chain") or [i["field"]]:
                lv = lv.f(n)
            ft = self.field_type(fn, i)
            if i["e"] is None:
                continue
            if ft is not None and ft.isref:
                v = Ptr(self.lv(i["e"]))
            else:
                v = self.rv(i["e"])
            if ft is not None and not i.get("chain"):
                v = self.narrow(fn.info.cls, i["field"], v)
            P.write(lv, v)

    def field_type(self, fn, i):
        r = self.prog.recs.get(fn.info.cls)
        if not r or "fields" not in r:
            return None
        for x in r["fields"]:
            if x["n"] == i["field"]:
                return r["tu"].T(x["t"])
        return None

    def construct(self, fi, t, args, e=None):
        """Value of a constructor call."""
        P = self.P
        if fi.key in self.contracts or fi.q in self.contracts:
            return self.dispatch(fi, None, args, e)
        h = self.lib.get(fi)
        if h:
            return self.lib_call(h, fi, None, args, e)
        if fi.sp in ("copyctor", "movector") and (fi.defaulted or fi.implicit or fi.trivial):
            a = args[0]
            if not isinstance(a, LV):
                return a
            if fi.sp == "movector":
                return self.move_out(a)
            return P.load(a)
        fn = self.prog.funcs.get(fi.key)
        if fn is None:
            if fi.sp == "defctor":
                return self.uninit(t) if not self.lib.default.get(t.tn) else self.zero(t)
            raise Unsupported("constructor " + fi.q + " " + str([x.s for x in fi.pt]))
        lv = P.alloc(self.uninit_fields(t), t)
        self.call_fn(fn, lv, args)
        return P.load(lv)

    def uninit_fields(self, t):
        try:
            return self.uninit(t)
        except Unsupported:
            return Rec(t.key, {n: None for n, _ in self.fields(t)}, t.tn)

    def move_out(self, lv):
        """Value of *lv, leaving the object in its moved-from state."""
        P = self.P
        v = P.load(lv)
        m = self.moved(v)
        if m is not v:
            try:
                P.write(lv, m)
            except Unsupported:
                pass
        return v

    def moved(self, v):
        if isinstance(v, UPtr):
            return UPtr(NULL, v.d)
        if isinstance(v, Seq):
            return Seq((), et=v.et, ver=newver())
        if isinstance(v, StrV):
            return StrV()
        if isinstance(v, Rec):
            ch = False
            f = {}
            for n, x in v.f.items():
                y = self.moved(x)
                ch = ch or y is not x
                f[n] = y
            return Rec(v.key, f, v.tn) if ch else v
        if isinstance(v, OptV) and v.v is not None:
            y = self.moved(v.v)
            return v if y is v.v else OptV(v.has, y)
        if isinstance(v, VarV):
            ys = tuple(None if x is None else self.moved(x) for x in v.alts)
            return v if all(a is b for a, b in zip(ys, v.alts)) else VarV(v.idx, ys)
        if hasattr(v, "moved"):
            return v.moved()
        return v

    def lib_call(self, h, fi, obj, args, e):
        c = Call()
        c.I, c.P, c.fi, c.obj, c.args, c.e, c.rt = self, self.P, fi, obj, args, e, fi.rt
        c.frame = self.frames[-1] if self.frames else None
        st = self.eng.stats
        st.lib_used[fi.q] = st.lib_used.get(fi.q, 0) + 1
        return h(c)

    def dispatch(self, fi, obj, args, e=None):
        """Calls a function given evaluated arguments."""
        P = self.P
        h = self.contracts.get(fi.key) or self.contracts.get(fi.q)
        if h and self.under_proof not in (fi.key,) or (h and self.under_proof == fi.key and any(f.fn and f.fn.key == fi.key for f in self.frames)):
            c = Call()
            c.I, c.P, c.fi, c.obj, c.args, c.e, c.rt = self, P, fi, obj, args, e, fi.rt
            c.frame = self.frames[-1] if self.frames else None
            r = h(c)
            if r is not NotImplemented:
                self.eng.stats.contracts_used[fi.q] = self.eng.stats.contracts_used.get(fi.q, 0) + 1
                return r
        h = self.lib.get(fi)
        if h:
            return self.lib_call(h, fi, obj, args, e)
        if fi.sp in ("copyassign", "moveassign") and (fi.defaulted or fi.implicit or fi.trivial):
            a = args[0]
            v = self.move_out(a) if fi.sp == "moveassign" and isinstance(a, LV) else (P.load(a) if isinstance(a, LV) else a)
            P.write(obj, v)
            return obj
        fn = self.prog.funcs.get(fi.key)
        if fi.n == "__invoke" and not (fn and fn.body and fn.body.get("b")):
            # a captureless lambda as a function pointer
            ops = [g for g in self.prog.funcs.values() if g.info.cls == fi.cls and g.info.n == "operator()"]
            if len(ops) == 1:
                return self.call_fn(ops[0], None, args)
        if fn is None or fi.key in self.no_inline:
            raise Unsupported("no body or contract for %s (%s)" % (fi.q, ", ".join(x.s for x in fi.pt)))
        if fi.defaulted and fi.n in ("operator==", "operator!="):
            if obj is not None:
                r = val_eq(P.load(obj), P.load(args[0]) if isinstance(args[0], LV) else args[0])
                return r if fi.n == "operator==" else b_not(r)
        if self.mergeable(fn):
            try:
                return P.pure(lambda: self.call_fn(fn, obj, args))
            except NotMergeable as ex:
                self.nomerge.add(fn.key)
                raise Restart("%s: %s" % (fn.info.q, ex))
        return self.call_fn(fn, obj, args)

    def mergeable(self, fn):
        """Small scalar-valued functions with branches are merged into one term."""
        if fn.key in self.nomerge or not fn.body or fn.key == self.under_proof:
            return False
        rt = fn.info.rt
        if rt.k not in ("int", "enum", "bool", "rec"):
            return False
        m = self.size_cache.get(fn.key)
        if m is None:
            m = self.size_cache[fn.key] = _shape(fn.body)
        n, branches, loops = m
        return branches and not loops and n <= 400

    # ---- lvalues -----------------------------------------------------------------
    def lv(self, e):
        P = self.P
        k = e["k"]
        if "ln" in e:
            self.ln = e["ln"]
        if k == "var":
            return self.var_lv(e)
        if k == "gref":
            return self.global_lv(e["g"])
        if k == "mem":
            b = e["e"]
            if b.get("vc") or b["k"] in ("mat", "un"):
                base = self.lv(b)
            else:
                base = P.alloc(self.rv(b))
            v = base.f(e["n"])
            ft = self.mem_type(b, e)
            if ft is not None and ft.isref:
                x = P.load(v)
                return x.lv
            return v
        if k == "un":
            op = e["op"]
            if op == "deref":
                return self.deref(self.rv(e["e"]))
            if op in ("++", "--"):
                lv = self.lv(e["e"])
                if e["e"]["k"] == "mem" and self.bits(self.T(e["e"]["e"]["t"]), e["e"]["n"])[0]:
                    raise Unsupported("++ of a bit-field")
                self.incdec(lv, op, self.T(e["e"]["t"]))
                return lv
            if op in ("__extension__", "__real"):
                return self.lv(e["e"])
        if k == "bin":
            if e["op"] == "=":
                r = self.rv(e["r"])
                lv = self.lv(e["l"])
                self.store(e["l"], lv, r)
                return lv
            if e["op"] == ",":
                self.discard(e["l"])
                return self.lv(e["r"])
        if k == "cas":
            lv = self.lv(e["l"])
            r = self.rv(e["r"])
            lt, rt = self.T(e["l"]["t"]), self.T(e["r"]["t"])
            old = self.fix(P.load(lv), lt)
            if lt.k == "ptr":
                P.write(lv, self.arith(e["op"], old, r, lt, rt, lt))
                return lv
            clt = self.T(e["clt"])
            a = self.convert(old, lt, clt)
            crt = self.T(e["crt"])
            v = self.arith(e["op"], a, r, clt, rt, crt)
            self.store(e["l"], lv, self.convert(v, crt, lt))
            return lv
        if k == "idx":
            i = self.rv(e["i"])
            it = self.T(e["i"]["t"])
            b = e["b"]
            if b["k"] == "cast" and b["ck"] == "ArrayToPointerDecay":
                lv = self.lv(b["e"])
                return lv.sub(("e", self.idx64(i, it)))
            p = self.rv(b)
            return self.deref(self.ptr_add(p, self.idx64(i, it)))
        if k == "call":
            r = self.call(e)
            if isinstance(r, LV):
                return r
            return P.alloc(r)
        if k in ("callp",):
            r = self.callp(e)
            return r if isinstance(r, LV) else P.alloc(r)
        if k == "cond":
            c = self.truth(self.rv(e["c"]))
            return self.lv(e["a"]) if P.branch(c) else self.lv(e["b"])
        if k == "mat":
            if e["e"].get("vc"):
                return self.lv(e["e"])
            return P.alloc(self.rv(e["e"]))
        if k == "full":
            return self.lv(e["e"])
        if k == "str":
            return P.alloc(Seq([norm(b, 8, True) for b in e["b"]] + [0], ver=newver()))
        if k == "cast":
            ck = e["ck"]
            if ck in ("DerivedToBase", "UncheckedDerivedToBase", "BaseToDerived", "LValueBitCast", "NoOp"):
                return self.lv(e["e"])
            return P.alloc(self.rv(e))
        if k == "dyncast":
            raise Unsupported("dynamic_cast to reference")
        return P.alloc(self.rv(e))

    def mem_type(self, b, e):
        t = self.T(b["t"]).strip()
        r = self.prog.recs.get(t.key) if t.k == "rec" else None
        if not r or "fields" not in r:
            return None
        for x in r["fields"]:
            if x["n"] == e["n"]:
                return r["tu"].T(x["t"])
        return None

    def idx64(self, i, t):
        if isc(i):
            return int(i)
        return self.convert(i, t, _T64)

    def var_lv(self, e):
        f = self.fr
        i = e["id"]
        if i in f.locals:
            return f.locals[i]
        if f.closure is not None:
            c = self.P.load(f.closure)
            n = "c%d" % i
            if n in c.f:
                v = c.f[n]
                if isinstance(v, tuple) and v[0] == "ref":
                    return v[1]
                return f.closure.f(n)
        raise Unsupported("variable " + e["n"])

    def global_lv(self, key):
        eng, P = self.eng, self.P
        if key in eng.gcells:
            return LV(eng.gcells[key])
        g = self.prog.globals.get(key)
        if g is None:
            raise Unsupported("global " + key)
        root = ("g", key)
        t = g["tu"].T(g["t"])
        if "cv" in g:
            v = int(g["cv"])
            if t.k == "bool":
                v = bool(v)
            eng.gstore[root] = v
            eng.gcells[key] = root
            return LV(root)
        if "init" not in g:
            eng.gstore[root] = self.zero(t)
            eng.gcells[key] = root
            return LV(root)
        # evaluate the initializer in an empty context; everything it
        # allocates becomes a global cell
        saved = P.store, P.ncell, self.frames
        base = P.ncell
        nn0, nf0 = P.nnest, dict(P.nfresh)
        f = Frame(None, g["tu"])
        self.frames = [f]
        P.store = dict(P.store)
        try:
            v = self.rv(g["init"]) if g["init"] is not None else self.zero(t)
            if g["init"] is not None and t.isref:
                v = self.lv(g["init"])
            n = P.ncell
            ren = {r: ("g", key, r - base) for r in P.store if isinstance(r, int) and r > base}
            for r, nr in ren.items():
                eng.gstore[nr] = _rename(P.store[r], ren)
            v = _rename(v, ren)
        finally:
            P.store, P.ncell, self.frames = saved
        eng.gstore[root] = v
        eng.gcells[key] = root
        if P.nnest != nn0 or P.nfresh != nf0:
            raise Restart("global " + key)
        return LV(root)

    def deref(self, p):
        P = self.P
        if isinstance(p, Ptr):
            return p.lv
        if isinstance(p, Null):
            P.oblige(False, "null-deref", self.where(), "pointer is not null")
            raise PathEnd()
        if isinstance(p, It):
            return self.lib.it_deref(self, p)
        if isinstance(p, CStr):
            return P.alloc(self.cstr_at(p, 0))
        if isinstance(p, UPtr):
            return self.deref(p.p)
        if isinstance(p, FnV):
            return P.alloc(p)
        if hasattr(p, "deref"):
            return p.deref(self)
        raise Unsupported("dereference of %r" % (p,))

    def cstr_at(self, p, i):
        cs = p.s.chars()
        if cs is None:
            raise Unsupported("character of opaque string")
        j = add64(p.off, i)
        if not isc(j):
            j = self.P.concretize(j)
        self.P.oblige(0 <= j <= len(cs), "bounds", self.where(), "within the string")
        return 0 if j == len(cs) else (norm(cs[j], 8, True) if isc(cs[j]) else cs[j])

    def incdec(self, lv, op, t):
        P = self.P
        old = self.fix(P.load(lv), t)
        if t.k == "ptr":
            new = self.ptr_add(old, 1 if op == "++" else -1)
        else:
            new = self.arith("+" if op == "++" else "-", old, 1, t, t, t, promoted=False)
        P.write(lv, new)
        return old

    def ptr_add(self, p, d):
        if isc(d) and d == 0:
            return p
        if isinstance(p, Ptr):
            if p.lv.path and p.lv.path[-1][0] == "e":
                i = p.lv.path[-1][1]
                return Ptr(LV(p.lv.root, p.lv.path[:-1] + (("e", add64(i, d)),)))
            raise Unsupported("pointer arithmetic on a single object")
        if isinstance(p, CStr):
            return CStr(p.s, add64(p.off, d))
        if isinstance(p, It):
            return p.at(add64(p.i, d))
        raise Unsupported("pointer arithmetic on %r" % (p,))

    # ---- rvalues -------------------------------------------------------------------
    def discard(self, e):
        k = e["k"]
        if k == "full":
            return self.discard(e["e"])
        if k == "cast" and e["ck"] == "ToVoid":
            return self.discard(e["e"])
        if e.get("vc"):
            self.lv(e)
        else:
            self.rv(e)

    def rv(self, e):
        if e is None:
            return None
        if "ln" in e:
            self.ln = e["ln"]
        m = getattr(self, "x_" + e["k"], None)
        if m is None:
            raise Unsupported("%s at line %s" % (e.get("what", e["k"]), e.get("ln")))
        return m(e)

    def x_unsupported(self, e):
        raise Unsupported("%s at line %s" % (e.get("what"), e.get("ln")))

    def x_int(self, e):
        return int(e["v"])

    def x_bool(self, e):
        return e["v"]

    def x_null(self, e):
        return NULL

    def x_float(self, e):
        return Opaque("float")

    def x_str(self, e):
        return self.P.load(self.lv(e))

    def x_this(self, e):
        f = self.fr
        if e.get("cap") and f.closure is not None:
            c = self.P.load(f.closure)
            v = c.f["this"]
            return v if isinstance(v, Ptr) else Ptr(f.closure.f("this"))
        return Ptr(f.this)

    def x_full(self, e):
        return self.rv(e["e"])

    def x_mat(self, e):
        return self.rv(e["e"]) if not e["e"].get("vc") else self.load_lv(self.lv(e["e"]), self.T(e["t"]))

    def load_lv(self, lv, t):
        return self.fix(self.P.load(lv), t)

    def x_var(self, e):
        return self.load_lv(self.lv(e), self.T(e["t"]))

    x_gref = x_mem = x_idx = x_var

    def x_fnref(self, e):
        return FnV(e["f"]["m"])

    def x_un(self, e):
        op = e["op"]
        P = self.P
        t = self.T(e["t"])
        if op == "deref":
            return self.load_lv(self.lv(e), t)
        if op == "addr":
            return Ptr(self.lv(e["e"]))
        if op in ("++post", "--post"):
            lv = self.lv(e["e"])
            if e["e"]["k"] == "mem" and self.bits(self.T(e["e"]["e"]["t"]), e["e"]["n"])[0]:
                raise Unsupported("++ of a bit-field")
            return self.incdec(lv, op[:2], self.T(e["e"]["t"]))
        if op in ("++", "--"):
            lv = self.lv(e["e"])
            self.incdec(lv, op, self.T(e["e"]["t"]))
            return self.load_lv(lv, t)
        v = self.rv(e["e"])
        if op == "!":
            return b_not(self.truth(v))
        if op == "+":
            return v
        if op == "__extension__":
            return v
        if op == "-":
            if isc(v):
                r = -v
                if t.sg and r != norm(r, t.w, True):
                    P.oblige(False, "overflow", self.where(), "negation does not overflow")
                return norm(r, t.w, t.sg)
            if t.sg:
                P.oblige(v != z3.BitVecVal(1 << (t.w - 1), t.w), "overflow", self.where(), "negation does not overflow")
            return -bv(v, t.w)
        if op == "~":
            return norm(~v, t.w, t.sg) if isc(v) else ~bv(v, t.w)
        raise Unsupported("unary " + op)

    def x_cas(self, e):
        return self.load_lv(self.lv(e), self.T(e["t"]))

    def x_bin(self, e):
        op = e["op"]
        P = self.P
        if op == "=":
            return self.load_lv(self.lv(e), self.T(e["t"]))
        if op == ",":
            self.discard(e["l"])
            return self.rv(e["r"])
        if op in ("&&", "||"):
            l = self.truth(self.rv(e["l"]))
            if not isinstance(l, bool):
                s = z3.simplify(l)
                if z3.is_true(s):
                    l = True
                elif z3.is_false(s):
                    l = False
            if isinstance(l, bool):
                if op == "&&":
                    return self.truth(self.rv(e["r"])) if l else False
                return True if l else self.truth(self.rv(e["r"]))
            g = l if op == "&&" else z3.Not(l)
            try:
                r = P.pure(lambda: self.truth(self.rv(e["r"])), g)
                if r is None:       # right side unreachable
                    return op == "||" or False
                return b_and(l, r) if op == "&&" else b_or(l, r)
            except NotMergeable:
                pass
            if P.branch(l):
                return self.truth(self.rv(e["r"])) if op == "&&" else True
            return False if op == "&&" else self.truth(self.rv(e["r"]))
        lt, rt, t = self.T(e["l"]["t"]), self.T(e["r"]["t"]), self.T(e["t"])
        if op == ".*" or op == "->*":
            raise Unsupported("member pointer")
        l = self.rv(e["l"])
        r = self.rv(e["r"])
        if op == "<=>":
            return self.lib.three_way(self, l, r, lt)
        if op in CMP:
            return self.compare(op, l, r, lt, rt)
        return self.arith(op, l, r, lt, rt, t)

    def compare(self, op, l, r, lt, rt):
        if isinstance(l, TIte):
            l = l.to(lt.w or 32)
        if isinstance(r, TIte):
            r = r.to(rt.w or 32)
        if lt.k in ("int", "enum", "bool") and rt.k in ("int", "enum", "bool"):
            if isc(l) and isc(r):
                return {"==": l == r, "!=": l != r, "<": l < r, "<=": l <= r, ">": l > r, ">=": l >= r}[op]
            if lt.k == "bool":
                if op == "==":
                    return eq(zb(l), zb(r))
                if op == "!=":
                    return b_not(eq(zb(l), zb(r)))
                l, r, lt = bv(l, 8), bv(r, 8), _TU8
            w, sg = lt.w, lt.sg
            a, b = bv(l, w), bv(r, w)
            if op == "==":
                return True if a.eq(b) else a == b
            if op == "!=":
                return False if a.eq(b) else a != b
            if sg:
                return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[op]
            return {"<": z3.ULT(a, b), "<=": z3.ULE(a, b), ">": z3.UGT(a, b), ">=": z3.UGE(a, b)}[op]
        return self.ptr_compare(op, l, r)

    def ptr_compare(self, op, l, r):
        if isinstance(l, FnV) and isinstance(r, FnV):
            e = l.key == r.key
        elif isinstance(l, (Null,)) or isinstance(r, (Null,)):
            o = r if isinstance(l, Null) else l
            e = b_not(self.truth(o))
        elif isinstance(l, Ptr) and isinstance(r, Ptr):
            if op not in ("==", "!="):
                if l.lv.root == r.lv.root and l.lv.path[-1][0] == "e" and r.lv.path[-1][0] == "e":
                    return self.compare(op, l.lv.path[-1][1], r.lv.path[-1][1], _TU64, _TU64)
                raise Unsupported("pointer order")
            e = lv_same(l.lv, r.lv)
        elif isinstance(l, CStr) and isinstance(r, CStr) and (l.s is r.s or l.s.p == r.s.p):
            return self.compare(op, l.off, r.off, _TU64, _TU64)
        elif hasattr(l, "equals"):
            e = l.equals(r)
        else:
            raise Unsupported("pointer comparison %r %r" % (l, r))
        return e if op == "==" else b_not(e) if op == "!=" else (_ for _ in ()).throw(Unsupported("pointer order"))

    def arith(self, op, l, r, lt, rt, t, promoted=True):
        P = self.P
        if lt.k in ("ptr", "arr") or rt.k in ("ptr", "arr"):
            if op == "-" and lt.k == "ptr" and rt.k == "ptr":
                return self.ptr_diff(l, r)
            if lt.k == "ptr":
                d = self.idx64(r, rt)
                return self.ptr_add(l, d if op == "+" else (-d if isc(d) else -d))
            return self.ptr_add(r, self.idx64(l, lt))
        if t.k == "float" or lt.k == "float" or rt.k == "float":
            raise Unsupported("floating point")
        w, sg = t.w, t.sg
        if t.k == "bool":
            w, sg = 8, False
        if isinstance(l, TIte):
            l = l.to(w)
        if isinstance(r, TIte):
            r = r.to(rt.w)
        if op in ("<<", ">>"):
            return self.shift(op, l, r, rt, w, sg)
        if isc(l) and isc(r):
            l, r = int(l), int(r)
            if op in ("/", "%"):
                P.oblige(r != 0, "div-zero", self.where(), "divisor is not zero")
                q = abs(l) // abs(r)
                if (l < 0) != (r < 0):
                    q = -q
                v = q if op == "/" else l - q * r
                if sg:
                    P.oblige(q == norm(q, w, True), "overflow", self.where(), "division does not overflow")
            else:
                v = {"+": lambda: l + r, "-": lambda: l - r, "*": lambda: l * r, "&": lambda: l & r, "|": lambda: l | r,
                     "^": lambda: l ^ r}[op]()
            n = norm(v, w, sg)
            if sg and op in "+-*" and n != v and w >= 32:
                P.oblige(False, "overflow", self.where(), "signed arithmetic does not overflow")
            return n
        if op == "+" and isc(r) and r == 0 or op in ("|", "^", "-") and isc(r) and r == 0:
            return l
        if op in ("+", "|", "^") and isc(l) and l == 0:
            return r
        a, b = bv(l, w), bv(r, w)
        if op == "+":
            if sg and w >= 32:
                P.oblige(z3.And(z3.BVAddNoOverflow(a, b, True), z3.BVAddNoUnderflow(a, b)), "overflow", self.where(), "signed addition does not overflow")
            return a + b
        if op == "-":
            if sg and w >= 32:
                P.oblige(z3.And(z3.BVSubNoOverflow(a, b), z3.BVSubNoUnderflow(a, b, True)), "overflow", self.where(), "signed subtraction does not overflow")
            return a - b
        if op == "*":
            if sg and w >= 32:
                P.oblige(z3.And(z3.BVMulNoOverflow(a, b, True), z3.BVMulNoUnderflow(a, b)), "overflow", self.where(), "signed multiplication does not overflow")
            return a * b
        if op == "&":
            return a & b
        if op == "|":
            return a | b
        if op == "^":
            return a ^ b
        if op in ("/", "%"):
            P.oblige(b != 0, "div-zero", self.where(), "divisor is not zero")
            if sg:
                P.oblige(z3.Not(z3.And(a == z3.BitVecVal(1 << (w - 1), w), b == -1)), "overflow", self.where(), "division does not overflow")
                return a / b if op == "/" else z3.SRem(a, b)
            return z3.UDiv(a, b) if op == "/" else z3.URem(a, b)
        raise Unsupported("operator " + op)

    def shift(self, op, l, r, rt, w, sg):
        P = self.P
        if isc(r):
            P.oblige(0 <= r < w, "shift", self.where(), "shift count within the width")
            if not 0 <= r < w:
                raise PathEnd()
            if isc(l):
                return norm(l << r, w, sg) if op == "<<" else norm(l >> r, w, sg)
            a = bv(l, w)
            return a << r if op == "<<" else (a >> r if sg else z3.LShR(a, r))
        P.oblige(z3.ULT(r, w), "shift", self.where(), "shift count within the width")
        a = bv(l, w)
        n = self.convert(r, rt, _tw(w))
        n = bv(n, w)
        return a << n if op == "<<" else (a >> n if sg else z3.LShR(a, n))

    def ptr_diff(self, l, r):
        if isinstance(l, Ptr) and isinstance(r, Ptr) and l.lv.root == r.lv.root and l.lv.path and l.lv.path[-1][0] == "e":
            return sub64(l.lv.path[-1][1], r.lv.path[-1][1])
        if isinstance(l, CStr) and isinstance(r, CStr):
            return sub64(l.off, r.off)
        if isinstance(l, Ptr) and isinstance(r, Ptr) and lv_same(l.lv, r.lv) is True:
            return 0
        raise Unsupported("pointer difference")

    def x_cond(self, e):
        P = self.P
        bfail = _is_assert_fail(e["b"])
        c = self.truth(self.rv(e["c"]))
        if bfail:
            P.oblige(c, "assert", self.where(), "assertion holds")
            return None
        if isinstance(c, bool):
            return self.rv(e["a"] if c else e["b"])
        t = self.T(e["t"])
        if t.k in ("int", "bool", "enum", "rec") and not e.get("vc"):
            try:
                a = P.pure(lambda: self.rv(e["a"]), c)
                b = P.pure(lambda: self.rv(e["b"]), z3.Not(c))
                if a is None:
                    return b
                if b is None:
                    return a
                return self.fix(merge(c, a, b), t) if t.k != "rec" else merge(c, a, b)
            except NotMergeable:
                pass
        if P.branch(c):
            return self.rv(e["a"])
        return self.rv(e["b"])

    def x_cast(self, e):
        ck = e["ck"]
        s = e["e"]
        P = self.P
        if ck == "LValueToRValue":
            return self.load_lv(self.lv(s), self.T(e["t"]))
        if ck == "ArrayToPointerDecay":
            if s["k"] == "str":
                return CStr(StrV((bytes(s["b"]),)))
            return Ptr(self.lv(s).sub(("e", 0)))
        st, t = self.T(s["t"]), self.T(e["t"])
        if ck in ("IntegralCast", "IntegralToBoolean", "BooleanToSignedIntegral"):
            return self.convert(self.rv(s), st, t)
        if ck in ("PointerToBoolean", "MemberPointerToBoolean"):
            return self.truth(self.rv(s))
        if ck in ("DerivedToBase", "UncheckedDerivedToBase", "BaseToDerived", "BitCast", "NoOp", "ConstructorConversion",
                  "UserDefinedConversion", "FunctionToPointerDecay", "LValueBitCast"):
            return self.rv(s)
        if ck == "NullToPointer":
            return NULL
        if ck == "ToVoid":
            self.discard(s)
            return None
        if ck in ("IntegralToFloating", "FloatingToIntegral", "FloatingCast"):
            raise Unsupported("floating point")
        raise Unsupported("cast " + ck)

    def x_ctor(self, e):
        fi = self.prog.finfo[e["f"]["m"]]
        t = self.T(e["t"])
        if t.k == "arr":
            return Seq([self.construct(fi, t.el, [], e) for _ in range(t.n)], et=t.el)
        args = self.args(fi, e["a"])
        if fi.sp == "defctor" and e.get("zero") and not self.lib.default.get(t.tn) and self.prog.funcs.get(fi.key) is None:
            return self.zero(t)
        return self.construct(fi, t, args, e)

    def in_tu(self, tu, f):
        """Evaluates expressions of a translation unit outside any function (default arguments)."""
        self.frames.append(Frame(None, tu))
        try:
            return f()
        finally:
            self.frames.pop()

    def args(self, fi, exprs, first=0):
        out = []
        for i, a in enumerate(exprs[first:], first):
            pt = fi.pt[i] if i < len(fi.pt) else None
            if pt is not None and pt.isref:
                out.append(self.lv(a))
            else:
                out.append(self.rv(a))
        return out

    def x_init(self, e):
        t = self.T(e["t"])
        a = e["a"]
        if t.k == "rec":
            h = self.lib.aggregate.get(t.tn)
            if h:
                return h(self, t, [self.rv(x) for x in a])
            r = self.prog.recs.get(t.key)
            if r.get("union"):
                return Rec(t.key, {n: self.rv(a[0]) if n == e["uf"] else None for n, _ in self.fields(t)}, "union")
            fs = self.fields(t)
            vals = {}
            nb = len(r.get("bases", []))
            rest = a
            for b in a[:nb]:
                v = self.rv(b)
                if isinstance(v, Rec):
                    vals.update(v.f)
            own = [(f["n"], r["tu"].T(f["t"])) for f in r["fields"]]
            for (n, ft), x in zip(own, rest[nb:]):
                vals[n] = Ptr(self.lv(x)) if ft.isref else self.narrow(t, n, self.rv(x))
            for n, ft in fs:
                if n not in vals:
                    vals[n] = self.zero(ft)
            return Rec(t.key, vals, t.tn)
        if t.k == "arr":
            items = [self.rv(x) for x in a]
            while len(items) < t.n:
                items.append(self.rv(e["fill"]) if e.get("fill") else self.zero(t.el))
            return Seq(items, et=t.el, ver=newver())
        if not a:
            return self.zero(t)
        return self.rv(a[0])

    def x_zero(self, e):
        return self.zero(self.T(e["t"]))

    def x_stdinit(self, e):
        return self.P.load(self.lv(e["e"]))

    def x_arrcopy(self, e):
        return self.P.load(self.lv(e["e"]))

    def x_new(self, e):
        t = self.T(e["at"])
        if e.get("n") is not None:
            raise Unsupported("new[]")
        v = self.rv(e["init"]) if e.get("init") else self.uninit(t)
        return Ptr(self.P.alloc(v))

    def x_delete(self, e):
        self.rv(e["e"])

    def x_lambda(self, e):
        t = self.T(e["t"])
        f = {}
        for c in e["caps"]:
            if c.get("this"):
                f["this"] = self.rv(c["init"])
            elif "var" in c:
                if c["byref"]:
                    f["c%d" % c["var"]] = ("ref", self.lv(c["init"]))
                else:
                    f["c%d" % c["var"]] = self.rv(c["init"])
        return Rec(t.key, f, "lambda:" + e["f"]["m"])

    def x_stmtexpr(self, e):
        raise Unsupported("statement expression")

    def x_throw(self, e):
        self.P.oblige(False, "throw", self.where(), "no exception is thrown")
        raise PathEnd()

    def x_dyncast(self, e):
        p = self.rv(e["e"])
        t = self.T(e["t"])
        if isinstance(p, Null):
            return NULL
        v = self.P.load(p.lv)
        if isinstance(v, Rec):
            want = t.to.key
            if v.key == want or any(b.key == want for b in self.prog.bases(v.key)):
                return p
            return NULL
        if hasattr(v, "dyncast"):
            return v.dyncast(self, p, t.to)
        raise Unsupported("dynamic_cast")

    def x_call(self, e):
        r = self.call(e)
        if isinstance(r, LV) and not (e.get("vc") is None and self.T(e["t"]).k == "ptr" and False):
            return self.load_lv(r, self.T(e["t"]))
        return r

    def call(self, e):
        fi = self.prog.finfo[e["f"]["m"]]
        P = self.P
        ln = e.get("ln", self.ln)
        if fi.q in ("__assert_fail", "abort", "std::abort", "std::terminate", "exit"):
            if fi.q == "exit":
                raise Unsupported("exit")
            P.oblige(False, "assert", self.where(), "not reached: " + fi.q)
            raise PathEnd()
        obj = None
        if "obj" in e:
            o = e["obj"]
            obj = self.lv(o) if (o.get("vc") or o["k"] in ("mat", "un", "call", "ctor", "full")) else P.alloc(self.rv(o))
        args = self.args(fi, e["a"])
        self.ln = ln
        if obj is not None and e.get("virt"):
            fi = self.resolve_virtual(fi, obj)
        r = self.dispatch_any(fi, obj, args, e)
        return r

    def resolve_virtual(self, fi, obj):
        v = self.P.load(obj)
        if isinstance(v, Rec) and v.key != fi.cls:
            key = v.key
            seen = [key] + [b.key for b in self.prog.bases(key)]
            for k in seen:
                r = self.prog.recs.get(k)
                if r and fi.key in r.get("vt", {}):
                    nk = r["vt"][fi.key]
                    return self.prog.finfo[nk]
        return fi

    def dispatch_any(self, fi, obj, args, e):
        # lambdas and function objects
        if fi.n == "operator()" and obj is not None:
            v = self.P.load(obj)
            if isinstance(v, Rec) and v.tn and v.tn.startswith("lambda:"):
                fn = self.prog.funcs[v.tn[7:]] if fi.key not in self.prog.funcs else self.prog.funcs[fi.key]
                return self.call_fn(fn, None, args, closure=obj)
            if isinstance(v, FnV):
                return self.dispatch(self.prog.finfo[v.key], None, args, e)
        if obj is not None:
            try:
                v = self.P.load(obj)
            except Unsupported:
                v = None
            if v is not None and hasattr(v, "method"):
                r = v.method(self, fi, obj, args)
                if r is not NotImplemented:
                    return r
        return self.dispatch(fi, obj, args, e)

    def call_value(self, f, args):
        """Calls a callable value (function pointer, lambda, functor)."""
        P = self.P
        if isinstance(f, LV):
            lv, f = f, P.load(f)
        else:
            lv = None
        if isinstance(f, FnV):
            return self.dispatch(self.prog.finfo[f.key], None, args)
        if isinstance(f, Rec) and f.tn and f.tn.startswith("lambda:"):
            fn = self.prog.funcs.get(f.tn[7:])
            if fn is None:
                raise Unsupported("generic lambda")
            return self.call_fn(fn, None, args, closure=lv or P.alloc(f))
        if isinstance(f, Rec):
            c = [g for g in self.prog.funcs.values() if g.info.cls == f.key and g.info.n == "operator()"]
            if len(c) == 1:
                return self.call_fn(c[0], lv or P.alloc(f), args)
        if hasattr(f, "call"):
            return f.call(self, args)
        raise Unsupported("call of %r" % (f,))

    def x_callp(self, e):
        r = self.callp(e)
        return self.load_lv(r, self.T(e["t"])) if isinstance(r, LV) else r

    def callp(self, e):
        f = self.rv(e["fn"]) if not e["fn"].get("vc") else self.P.load(self.lv(e["fn"]))
        if isinstance(f, Ptr):
            f = self.P.load(f.lv)
        if isinstance(f, FnV):
            fi = self.prog.finfo[f.key]
            return self.dispatch(fi, None, self.args(fi, e["a"]), e)
        return self.call_value(f, [self.lv(a) if a.get("vc") else self.rv(a) for a in e["a"]])

    # ---- statements ------------------------------------------------------------------
    def exec(self, s):
        if s is None:
            return None
        P = self.P
        P.steps += 1
        if P.steps > 2000000:
            raise Undecided("too many steps")
        if "ln" in s:
            self.ln = s["ln"]
        k = s["k"]
        if k == "blk":
            return self.block(s["b"])
        if k == "expr":
            self.discard(s["e"])
            return None
        if k == "decl":
            for v in s["v"]:
                self.declare(v)
            return None
        if k == "ret":
            if s["e"] is None:
                return ("ret", None)
            rt = self.fr.rt
            if rt.isref:
                return ("ret", self.lv(s["e"]))
            if rt.k == "void":
                self.discard(s["e"])
                return ("ret", None)
            v = self.rv(s["e"])
            return ("ret", v)
        if k == "if":
            return self.scoped(lambda: self.do_if(s))
        if k in ("while", "for", "do", "rfor"):
            return self.scoped(lambda: self.loop(s))
        if k == "break":
            return ("break",)
        if k == "continue":
            return ("continue",)
        if k == "null":
            return None
        if k == "switch":
            return self.scoped(lambda: self.switch(s))
        if k in ("case", "default"):
            return self.exec(s["s"])
        if k == "try":
            return self.exec(s["b"])
        raise Unsupported("statement %s at line %s" % (s.get("what", k), s.get("ln")))

    def scoped(self, fn):
        f = self.fr
        f.scopes.append([])
        try:
            r = fn()
            self.leave_scope(f.scopes[-1])
            return r
        finally:
            f.scopes.pop()

    def block(self, stmts):
        def go():
            for x in stmts:
                r = self.exec(x)
                if r is not None:
                    return r
            return None
        return self.scoped(go)

    def leave_scope(self, objs):
        for lv, t in reversed(objs):
            self.destroy(lv, t)

    def destroy(self, lv, t):
        P = self.P
        v = P.load(lv)
        if isinstance(v, UPtr):
            if v.d is not None and not isinstance(v.d, Null):
                if P.branch(self.truth(v.p)):
                    self.call_value(v.d, [v.p])
            return
        if isinstance(v, Rec):
            r = [g for g in self.prog.funcs.values() if g.info.cls == v.key and g.info.sp == "dtor" and not g.info.defaulted and not g.info.implicit and g.repo]
            if r:
                self.call_fn(r[0], lv, [])

    def needs_dtor(self, t):
        if t.k != "rec":
            return False
        if t.tn == "std::unique_ptr":
            return len(t.ta) > 1 and not (getattr(t.ta[1], "tn", "") or "").startswith("std::default_delete")
        r = self.prog.recs.get(t.key)
        if r is None:
            return False
        k = "dtor:" + t.key
        if k not in self.size_cache:
            self.size_cache[k] = any(g.info.cls == t.key and g.info.sp == "dtor" and not g.info.defaulted and not g.info.implicit and g.repo
                                     for g in self.prog.funcs.values())
        return self.size_cache[k]

    def declare(self, v):
        P = self.P
        f = self.fr
        t = self.T(v["t"])
        if "static" in v:
            f.locals[v["id"]] = self.global_lv(v["static"])
            return
        if t.isref:
            f.locals[v["id"]] = self.lv(v["init"])
            return
        if v.get("init") is None:
            x = self.uninit(t, v["n"] or "tmp")
        else:
            x = self.rv(v["init"])
        lv = P.alloc(x, t)
        f.locals[v["id"]] = lv
        if f.scopes and self.needs_dtor(t):
            f.scopes[-1].append((lv, t))

    def do_if(self, s):
        P = self.P
        if s.get("init"):
            self.exec(s["init"])
        if s.get("var"):
            self.exec(s["var"])
        c = self.truth(self.rv(s["c"]))
        if not isinstance(c, bool):
            sc = z3.simplify(c)
            if z3.is_true(sc):
                c = True
            elif z3.is_false(sc):
                c = False
        if isinstance(c, bool):
            return self.exec(s["th"]) if c else self.exec(s["el"])
        if self.merge_ifs and _straight(s["th"]) and _straight(s["el"]):
            r = self.try_merge_if(c, s)
            if r:
                return None
        return self.exec(s["th"]) if P.branch(c) else self.exec(s["el"])

    merge_ifs = True

    def try_merge_if(self, c, s):
        """if-statements whose branches only update memory are joined."""
        P = self.P
        base = P.store

        def side(cond, st):
            def run():
                P.assume(cond)
                r = self.exec(st)
                if r is not None:
                    raise NotMergeable("control flow")
            return run
        try:
            a = P.explore(side(c, s["th"]))
            b = P.explore(side(z3.Not(c), s["el"]))
        except NotMergeable:
            return False
        if not a and not b:
            raise PathEnd()
        if len(a) > 1 or len(b) > 1:
            return False
        if not a or not b:
            P.commit((a or b)[0])
            return True
        a, b = a[0], b[0]
        new = dict(base)
        try:
            for r in set(a.store) | set(b.store):
                if r in base or r in self.eng.gstore:
                    d = base[r] if r in base else self.eng.gstore[r]
                    va, vb = a.store.get(r, d), b.store.get(r, d)
                    if va is vb:
                        new[r] = va
                    else:
                        new[r] = merge(c, va, vb)
                else:
                    new[r] = a.store.get(r, b.store.get(r))
        except (NotMergeable, Unsupported):
            return False
        ca, cb = b_and(*a.dpc), b_and(*b.dpc)
        for f in a.dfacts:
            P.facts.append(Fact(f.tags, f.body, b_and(f.guard, c)))
        for f in b.dfacts:
            P.facts.append(Fact(f.tags, f.body, b_and(f.guard, z3.Not(c))))
        P.store = new
        P.retouch(a)
        P.retouch(b)
        P.assume(b_or(ca, cb))
        return True

    def switch(self, s):
        P = self.P
        if s.get("init"):
            self.exec(s["init"])
        if s.get("var"):
            self.exec(s["var"])
        v = self.rv(s["c"])
        t = self.T(s["c"]["t"])
        body = s["b"]["b"] if s["b"]["k"] == "blk" else [s["b"]]
        groups, default = [], None
        for i, x in enumerate(body):
            labels = []
            while x is not None and x["k"] in ("case", "default"):
                if x["k"] == "default":
                    default = i
                else:
                    if "cv2" in x:
                        labels.append((int(x["cv"]), int(x["cv2"])))
                    else:
                        labels.append((int(x["cv"]), int(x["cv"])))
                x = x["s"]
            if labels:
                groups.append((i, labels))
            if x is not None and x["k"] not in ("case", "default") and _has_case(x):
                raise Unsupported("case label inside a nested statement")
        start = None
        dflt_in = None
        for i, labels in groups:
            if i == default:
                dflt_in = (i, labels)
                continue
            c = b_or(*[self._inrange(v, a, b, t) for a, b in labels])
            if P.branch(c):
                start = i
                break
        if start is None:
            start = default
            if start is None:
                return None

        def go():
            for x in body[start:]:
                while x is not None and x["k"] in ("case", "default"):
                    x = x["s"]
                r = self.exec(x)
                if r is not None:
                    return None if r[0] == "break" else r
            return None
        return go()

    def _inrange(self, v, a, b, t):
        if isc(v):
            return a <= v <= b
        if a == b:
            return eq(v, norm(a, t.w, False))
        return b_and(self.compare(">=", v, a, t, t), self.compare("<=", v, b, t, t))

    # ---- loops -----------------------------------------------------------------------
    def loop(self, s):
        from . import loops
        return loops.run_loop(self, s)


def _is_assert_fail(e):
    while e is not None and e["k"] in ("full", "cast", "mat"):
        e = e["e"]
    return e is not None and e["k"] == "call" and e["f"]["m"].startswith("__assert_fail")


def _has_case(s):
    if isinstance(s, dict):
        if s.get("k") in ("case", "default"):
            return True
        if s.get("k") == "switch":
            return False
        return any(_has_case(x) for x in s.values() if isinstance(x, (dict, list)))
    if isinstance(s, list):
        return any(_has_case(x) for x in s)
    return False


_straight_cache = {}


def _straight(s):
    """No control transfer and no loop inside the statement."""
    if s is None:
        return True
    k = id(s)
    r = _straight_cache.get(k)
    if r is None or r[0] is not s:
        r = (s, not _has(s, ("ret", "break", "continue", "while", "for", "do", "rfor", "throw", "decl")))
        _straight_cache[k] = r
    return r[1]


def _has(s, kinds):
    if isinstance(s, dict):
        if s.get("k") in kinds:
            return True
        return any(_has(x, kinds) for x in s.values() if isinstance(x, (dict, list)))
    if isinstance(s, list):
        return any(_has(x, kinds) for x in s)
    return False


def _shape(s):
    """(number of nodes, has branches, has loops)"""
    n, br, lo = 0, False, False
    st = [s]
    while st:
        x = st.pop()
        if isinstance(x, dict):
            if "k" in x:
                n += 1
                if x["k"] in ("if", "cond", "switch"):
                    br = True
                if x["k"] == "bin" and x["op"] in ("&&", "||"):
                    br = True
                if x["k"] in ("while", "for", "do", "rfor"):
                    lo = True
            st.extend(v for v in x.values() if isinstance(v, (dict, list)))
        else:
            st.extend(v for v in x if isinstance(v, (dict, list)))
    return n, br, lo


def _rename(v, ren):
    """Renames cell roots inside a value."""
    if isinstance(v, Ptr):
        return Ptr(_rename(v.lv, ren))
    if isinstance(v, LV):
        return LV(ren.get(v.root, v.root), tuple(tuple(_rename(x, ren) if not isinstance(x, (str, int)) else x for x in p) for p in v.path))
    if isinstance(v, Rec):
        return Rec(v.key, {n: _rename(x, ren) for n, x in v.f.items()}, v.tn)
    if isinstance(v, Seq) and v.items is not None:
        return Seq([_rename(x, ren) for x in v.items], et=v.et, ev=v.ev, ver=v.ver)
    if isinstance(v, OptV):
        return OptV(v.has, _rename(v.v, ren))
    if isinstance(v, VarV):
        return VarV(v.idx, tuple(_rename(x, ren) for x in v.alts))
    if isinstance(v, UPtr):
        return UPtr(_rename(v.p, ren), v.d)
    if isinstance(v, It):
        return It(_rename(v.lv, ren), v.i, v.ver, v.rev)
    if isinstance(v, SpanV):
        return SpanV(_rename(v.lv, ren), v.off, v.n)
    if hasattr(v, "rename"):
        return v.rename(lambda x: _rename(x, ren))
    return v


class _Ty:
    def __init__(self, k, w, sg):
        self.k, self.w, self.sg = k, w, sg
        self.s = "%s%d" % ("i" if sg else "u", w)

    isref = False

    def strip(self):
        return self


_T64 = _Ty("int", 64, True)
_TU64 = _Ty("int", 64, False)
_TU8 = _Ty("int", 8, False)


def _tw(w):
    return _Ty("int", w, False)
