"""Symbolic execution of the extracted functions: generates the proof
obligations of a function against its contract.

Paths are explored by re-execution under a log of branch decisions; nothing is
bounded here: loops that cannot be unrolled concretely are replaced by an
inductive summary (see loops.py) whose own proof obligations are discharged, or
else the path set is marked as bounded."""
import time, z3
from .values import *


class PathEnd(Exception):
    """This path is infeasible or ended abnormally (already reported)."""


class Undecided(Exception):
    """The generator gave up (limits)."""


class MemoError(Exception):
    """An exception that memoize() may remember."""


class Restart(Exception):
    """What was learnt changes how paths are numbered: start again."""


class Failure:
    def __init__(self, kind, where, what, model, path, unknown=False):
        self.kind, self.where, self.what, self.model, self.path, self.unknown = kind, where, what, model, path, unknown
        self.inputs = None

    def __repr__(self):
        return "%s at %s: %s%s" % (self.kind, self.where, self.what, " (solver gave no answer)" if self.unknown else "")


class Fact:
    """A universally quantified assumption, instantiated at touched terms.
    tags: one domain tag per variable; body(*terms) -> Bool."""
    __slots__ = ("tags", "body", "guard", "id")
    _n = 0

    def __init__(self, tags, body, guard=True):
        Fact._n += 1
        self.tags, self.body, self.guard, self.id = tags, body, guard, Fact._n


class Stats:
    def __init__(self):
        self.obl = 0
        self.dis = 0
        self.triv = 0
        self.queries = 0
        self.solver_s = 0.0
        self.paths = 0
        self.cover = 0
        self.by_kind = {}
        self.functions = {}
        self.contracts_used = {}
        self.lib_used = {}
        self.loops = {}
        self.bounded = []
        self.backends = {}

    def merge(self, o):
        self.obl += o.obl
        self.dis += o.dis
        self.triv += o.triv
        self.queries += o.queries
        self.solver_s += o.solver_s
        self.paths += o.paths
        self.cover += o.cover
        for a, b in ((self.by_kind, o.by_kind), (self.functions, o.functions), (self.contracts_used, o.contracts_used),
                     (self.lib_used, o.lib_used), (self.backends, o.backends)):
            for k, v in b.items():
                a[k] = a.get(k, 0) + v
        self.loops.update(o.loops)
        self.bounded += o.bounded


class Log:
    __slots__ = ("prefix", "pos", "taken", "pending")

    def __init__(self, prefix):
        self.prefix, self.pos, self.taken, self.pending = prefix, 0, [], []

    @property
    def replaying(self):
        return self.pos < len(self.prefix)


class Outcome:
    __slots__ = ("kind", "val", "dpc", "dfacts", "store", "base", "touch")


class Path:
    """State of one path: path condition, store, facts."""

    def __init__(self, eng, log):
        self.eng = eng
        self.logs = [log]
        self.pc = []
        self.store = {}
        self.ncell = 0
        self.nfresh = {}
        self.facts = []
        self.touched = {}       # tag -> list of terms
        self.tseen = set()
        self.done = set()
        self.donelog = []
        self.solver = z3.Solver()
        self.solver.set("timeout", eng.feas_ms)
        self.quiet = 0
        self.steps = 0
        self.ghost = {}
        self.ctx = ()           # index terms of enclosing generic loop iterations
        self.nnest = 0
        self.inputs = {}
        self.notes = []
        self.ctype = {}
        self.prefixes = []      # ghost prefix functions of summarised loops
        self.iters = []         # trip counts of summarised loops
        self.instantiating = False
        self.rectouch = None    # records terms touched while a family is built

    # ---- terms --------------------------------------------------------------
    def name(self, base):
        n = self.nfresh.get(base, 0)
        self.nfresh[base] = n + 1
        return base if n == 0 else "%s!%d" % (base, n)

    def fresh(self, base, sort, idx=()):
        idx = tuple(self.ctx) + tuple(idx)
        n = self.name(base)
        if not idx:
            return z3.Const(n, sort)
        return z3.Function(n, *[x.sort() for x in idx], sort)(*idx)

    def fresh_fn(self, base, doms, sort):
        """A fresh function of the current loop context and the given domains."""
        ctx = tuple(self.ctx)
        n = self.name(base)
        f = z3.Function(n, *[x.sort() for x in ctx], *doms, sort)
        return lambda *a: f(*ctx, *a)

    def alloc(self, v, t=None):
        self.ncell += 1
        self.store[self.ncell] = v
        if t is not None:
            self.ctype[self.ncell] = t
        return LV(self.ncell)

    # ---- assumptions ----------------------------------------------------------
    def assume(self, c):
        if isinstance(c, bool):
            if not c:
                raise PathEnd()
            return
        if z3.is_true(c):
            return
        self.pc.append(c)
        self.solver.add(c)

    def _memo(self, kind, fn):
        """Solver answers are remembered so that replayed paths get the same."""
        self.nnest += 1
        key = (kind, self.nnest, tuple(tuple(l.taken) for l in self.logs), self.quiet > 0)
        r = self.eng.memo.get(key)
        if r is None:
            r = (fn(),)
            self.eng.memo[key] = r
        return r[0]

    def memoize(self, kind, fn):
        """fn() is run once per place; replayed paths get the same result and
        the same numbering.  Exceptions are remembered too."""
        self.nnest += 1
        key = (kind, self.nnest, tuple(tuple(l.taken) for l in self.logs), self.quiet > 0)
        memo = self.eng.memo.get(key)
        if memo is None:
            tlen = {t: len(l) for t, l in self.touched.items()}
            ex = r = None
            try:
                r = fn()
            except (NotMergeable, MemoError) as e:
                ex = e
            touch = [(t, x) for t, l in self.touched.items() for x in l[tlen.get(t, 0):]]
            memo = self.eng.memo[key] = (r, ex, self.ncell, dict(self.nfresh), self.nnest, touch)
        else:
            self.ncell, self.nfresh, self.nnest = memo[2], dict(memo[3]), memo[4]
            for tag, t in memo[5]:
                self.touch_raw(tag, t)
        if memo[1] is not None:
            raise memo[1]
        return memo[0]

    def ask3(self, c):
        """True/False if c is decided on this path, else None."""
        def q():
            if not self.feasible(c):
                return False
            if not self.feasible(z3.Not(c)):
                return True
            return None
        return self._memo("ask3", q)

    def ask(self, c):
        return self._memo("ask", lambda: self.must(c))

    def ask_under(self, o, c, ms=None):
        """Is c certain on outcome o of explore()?"""
        if isinstance(c, bool):
            return c

        def q():
            s = z3.simplify(zb(c))
            if z3.is_true(s):
                return True
            self.solver.push()
            n, nf, nd = len(self.pc), len(self.facts), len(self.donelog)
            mk = self.marks()
            try:
                self.retouch(o)
                for x in o.dpc:
                    self.solver.add(zb(x))
                self.facts.extend(o.dfacts)
                return self.check(z3.Not(s), ms=ms or self.eng.prove_ms) == z3.unsat
            finally:
                self._cut(mk)
                self.solver.pop()
                del self.facts[nf:]
                for k, _ in self.donelog[nd:]:
                    self.done.discard(k)
                del self.donelog[nd:]
        return self._memo("under", q)

    def fact(self, tags, body, guard=True):
        self.facts.append(Fact(tags, body, guard))

    def touch(self, tag, t):
        if isc(t):
            t = z3.BitVecVal(t, 64)
        self.touch_raw(tag, z3.simplify(t))

    def touch_raw(self, tag, t):
        if self.rectouch is not None:
            self.rectouch.append((tag, t))
        k = (tag, t.get_id())
        if k in self.tseen:
            return
        self.tseen.add(k)
        self.touched.setdefault(tag, []).append(t)
        if tag[:3] == "it:" and tag != "it:*":
            self.touch_raw("it:*", t)

    def marks(self):
        return {t: len(l) for t, l in self.touched.items()}

    def _cut(self, marks):
        """Takes back the terms touched since the marks; returns them."""
        out = []
        for t, l in self.touched.items():
            n = marks.get(t, 0)
            for x in l[n:]:
                self.tseen.discard((t, x.get_id()))
                out.append((t, x))
            del l[n:]
        return out

    def retouch(self, o):
        for t, x in o.touch:
            self.touch_raw(t, x)

    def untouched(self, fn):
        """fn() with the touched terms restored afterwards."""
        m = self.marks()
        try:
            return fn()
        finally:
            self._cut(m)

    def scoped(self, fn):
        """fn(), a proof that decides nothing; what it assumed and touched is forgotten."""
        n, nf, nd, mk, taken = len(self.pc), len(self.facts), len(self.donelog), self.marks(), len(self.logs[-1].taken)
        self.solver.push()
        try:
            fn()
        finally:
            self._cut(mk)
            self.solver.pop()
            del self.pc[n:]
            del self.facts[nf:]
            for k, _ in self.donelog[nd:]:
                self.done.discard(k)
            del self.donelog[nd:]
        if len(self.logs[-1].taken) != taken:
            raise Undecided("a stated law decides the path")

    def instantiate(self, rounds=5):
        """Adds the instances of all facts at all touched terms to the solver."""
        if not self.facts:
            return
        was, self.instantiating = self.instantiating, True
        try:
            self._instantiate(rounds)
        finally:
            self.instantiating = was

    def _instantiate(self, rounds):
        for _ in range(rounds):
            new = False
            for f in list(self.facts):
                doms = [list(self.touched.get(t, ())) for t in f.tags]
                for combo in _product(doms):
                    k = (f.id,) + tuple(x.get_id() for x in combo)
                    if k in self.done:
                        continue
                    self.done.add(k)
                    self.donelog.append((k, combo))
                    b = f.body(*combo)
                    if b is True or b is None:
                        continue
                    b = b_imp(f.guard, b)
                    if b is True:
                        continue
                    self.solver.add(zb(b))
                    new = True
            if not new:
                return

    # ---- queries -----------------------------------------------------------------
    def check(self, *assumps, ms=None):
        self.instantiate()
        t = time.time()
        if ms:
            self.solver.set("timeout", ms)
        r = self.solver.check(*[zb(a) for a in assumps])
        if ms:
            self.solver.set("timeout", self.eng.feas_ms)
        self.eng.stats.queries += 1
        self.eng.stats.solver_s += time.time() - t
        return r

    def feasible(self, c):
        if isinstance(c, bool):
            return c
        return self.check(c) != z3.unsat

    def must(self, c):
        """c holds on this path for certain."""
        if isinstance(c, bool):
            return c
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        return self.check(z3.Not(c)) == z3.unsat

    @property
    def replaying(self):
        return any(l.replaying for l in self.logs)

    def branch(self, c):
        """Decides c on this path (forking)."""
        if isinstance(c, TIte):
            c = c.to(32) != 0
        if isinstance(c, (bool, int)):
            return bool(c)
        c = z3.simplify(zb(c))
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        log = self.logs[-1]
        i = log.pos
        if i < len(log.prefix):
            v, forced = log.prefix[i]
        else:
            self.eng.tick()
            t = self.feasible(c)
            f = self.feasible(z3.Not(c)) if t else True
            if t and f:
                v, forced = True, False
                log.pending.append(log.taken + [(False, False)])
            else:
                if not t and not self.feasible(z3.Not(c)):
                    raise PathEnd()
                v, forced = t, True
        log.pos += 1
        log.taken = log.taken + [(v, forced)]
        self.assume(c if v else z3.Not(c))
        return v

    def choose(self, n):
        """Nondeterministic choice 0..n-1 (demonic)."""
        if n == 1:
            return 0
        x = self.fresh("choice", z3.BitVecSort(8))
        self.assume(z3.ULT(x, n))
        for i in range(n - 1):
            if self.branch(x == i):
                return i
        return n - 1

    def split(self, v, vals):
        """Case split of a scalar on given candidate values; returns the value or v."""
        if isc(v):
            return v
        for x in vals:
            if self.branch(eq(v, x)):
                return x
        return v

    def concretize(self, v, limit=300):
        """Case split over every feasible value of a scalar."""
        if isc(v):
            return v
        s = z3.simplify(v)
        if z3.is_bv_value(s):
            return s.as_long()
        for _ in range(limit):
            if self.replaying:
                # values are recovered from the log by asking in the same order
                pass
            key = ("conc", tuple(tuple(l.taken) for l in self.logs), s.get_id())
            cand = self.eng.memo.get(key)
            if cand is None:
                self.instantiate()
                if self.solver.check() == z3.unsat:
                    raise PathEnd()
                cand = self.solver.model().eval(s, model_completion=True).as_long()
                self.eng.memo[key] = cand
            if self.branch(s == cand):
                return cand
        raise Undecided("too many values")

    # ---- obligations ---------------------------------------------------------------
    def oblige(self, c, kind, where, what=""):
        if isinstance(c, TIte):
            c = c.to(32) != 0
        if isinstance(c, (bool, int)):
            c = bool(c)
        else:
            c = z3.simplify(zb(c))
            if z3.is_true(c):
                c = True
            elif z3.is_false(c):
                c = False
        st = self.eng.stats
        if self.quiet or self.replaying:
            self.assume(c)
            return
        if c is True:
            st.triv += 1
            st.obl += 1
            st.dis += 1
            st.by_kind[kind] = st.by_kind.get(kind, 0) + 1
            return
        self.eng.tick()
        st.obl += 1
        st.by_kind[kind] = st.by_kind.get(kind, 0) + 1
        neg = z3.BoolVal(True) if c is False else z3.Not(c)
        r = self.check(neg, ms=self.eng.prove_ms)
        if r == z3.unsat:
            st.dis += 1
            st.backends["z3"] = st.backends.get("z3", 0) + 1
        else:
            if r == z3.unknown:
                r, m = self.eng.portfolio(self, neg)
                if r == z3.unsat:
                    st.dis += 1
            else:
                m = self.solver.model()
            if r != z3.unsat:
                f = Failure(kind, where, what, m if r == z3.sat else None, None, r == z3.unknown)
                f.notes = list(self.notes)
                if m is not None and r == z3.sat:
                    f.inputs = self.eng.extract_inputs(self, m)
                self.eng.failures.append(f)
                if len(self.eng.failures) >= self.eng.max_failures:
                    raise StopExploration()
                # continue under the assumption
        if c is False:
            raise PathEnd()
        if r == z3.unsat:
            # proved: adding it helps later queries
            self.assume(c)
        else:
            if not self.feasible(c):
                raise PathEnd()
            self.assume(c)

    # ---- memory -----------------------------------------------------------------------
    def load(self, lv):
        if lv.root not in self.store:
            g = self.eng.gstore.get(lv.root)
            if g is None and lv.root not in self.eng.gstore:
                raise Unsupported("dangling cell %r" % (lv.root,))
            v = g
        else:
            v = self.store[lv.root]
        for p in lv.path:
            v = self.eng.proj_get(self, v, p)
        return v

    def write(self, lv, x):
        if not lv.path:
            self.store[lv.root] = x
            return
        base = self.store[lv.root] if lv.root in self.store else self.eng.gstore[lv.root]
        self.store[lv.root] = self._set(base, lv.path, 0, x)

    def _set(self, v, path, i, x):
        if i == len(path):
            return x
        p = path[i]
        sub = self.eng.proj_get(self, v, p) if i + 1 < len(path) else None
        return self.eng.proj_set(self, v, p, self._set(sub, path, i + 1, x))

    # ---- nested exploration ----------------------------------------------------------
    def explore(self, fn, quiet=False):
        """Runs fn() to completion on every path from the current state.
        Returns the outcomes; the state is left as it was."""
        self.nnest += 1
        key = ("nest", self.nnest, tuple(tuple(l.taken) for l in self.logs), bool(quiet), self.quiet > 0)
        memo = self.eng.memo.get(key)
        if memo is not None:
            outs, self.ncell, self.nfresh, self.nnest = memo[0], memo[1], dict(memo[2]), memo[3]
            return outs
        live, snap_store, snap_pc, snap_facts = self.store, dict(self.store), len(self.pc), len(self.facts)
        snap_done = len(self.donelog)
        outs, work = [], [[]]
        tlen = {t: len(l) for t, l in self.touched.items()}
        ghost0 = self.ghost
        if quiet:
            self.quiet += 1
        try:
            while work:
                pre = work.pop()
                log = Log(pre)
                self.logs.append(log)
                self.store = dict(snap_store)
                self.ghost = dict(ghost0)
                # cell and fresh names are the same function of the path
                self.solver.push()
                o = Outcome()
                try:
                    try:
                        o.val = fn()
                        o.kind = "ok"
                    except PathEnd:
                        o.kind = "end"
                    o.dpc = self.pc[snap_pc:]
                    o.dfacts = self.facts[snap_facts:]
                    o.store = self.store
                    o.base = snap_store
                    if o.kind == "ok":
                        outs.append(o)
                finally:
                    o.touch = self._cut(tlen)
                    self.solver.pop()
                    self.logs.pop()
                    del self.pc[snap_pc:]
                    del self.facts[snap_facts:]
                    for k, _ in self.donelog[snap_done:]:
                        self.done.discard(k)
                    del self.donelog[snap_done:]
                    self.store = live
                    self.ghost = ghost0
                work.extend(log.pending)
                if len(outs) + len(work) > self.eng.max_nested:
                    raise Undecided("too many nested paths")
        finally:
            if quiet:
                self.quiet -= 1
        self.eng.memo[key] = (outs, self.ncell, dict(self.nfresh), self.nnest)
        return outs

    def commit(self, o):
        """Continue on the given outcome of explore()."""
        for c in o.dpc:
            self.assume(c)
        self.facts.extend(o.dfacts)
        self.retouch(o)
        self.store = dict(o.store)
        return o.val

    def store_diff(self, base, new):
        """Roots existing in base whose value changed."""
        return [r for r, v in base.items() if r in new and new[r] is not v] + \
               [r for r in new if r not in base and r in self.eng.gstore and new[r] is not self.eng.gstore[r]]

    def pure(self, fn, assumption=None):
        """Evaluates fn() without forking the current path, by merging all its
        outcomes into one value; raises NotMergeable if that is impossible."""
        def run():
            if assumption is not None:
                self.assume(assumption)
            return fn()
        outs = self.explore(run)
        if not outs:
            if assumption is None:
                raise PathEnd()
            return None
        for o in outs:
            if self.store_diff(o.base, o.store):
                raise NotMergeable("side effects")
        val = outs[-1].val
        conds = [b_and(*o.dpc) for o in outs]
        for o, c in zip(reversed(outs[:-1]), reversed(conds[:-1])):
            val = merge(c, o.val, val)
        # keep what was learnt, and new cells
        keep = b_or(*conds)
        if assumption is not None:
            keep = b_imp(assumption, keep)
        for o, c in zip(outs, conds):
            self.retouch(o)
            for r, v in o.store.items():
                if r not in self.store:
                    self.store[r] = v
            for f in o.dfacts:
                self.facts.append(Fact(f.tags, f.body, b_and(f.guard, c)))
        if keep is not True:
            self.assume(keep)
        return val


class StopExploration(Exception):
    pass


def _product(doms):
    if not doms:
        yield ()
        return
    if len(doms) == 1:
        for x in doms[0]:
            yield (x,)
        return
    for x in doms[0]:
        for r in _product(doms[1:]):
            yield (x,) + r


class Engine:
    def __init__(self, prog, feas_ms=4000, prove_ms=20000, max_failures=3, deadline=None, max_nested=400):
        self.prog = prog
        self.feas_ms, self.prove_ms = feas_ms, prove_ms
        self.stats = Stats()
        self.failures = []
        self.memo = {}
        self.gstore = {}
        self.gcells = {}
        self.writers = {}
        self.max_failures = max_failures
        self.deadline = deadline
        self.max_nested = max_nested
        self.max_paths = 20000
        self.cur = None

    def tick(self):
        if self.deadline and time.time() > self.deadline:
            raise Undecided("time limit")

    def extract_inputs(self, path, model):
        out = {}
        for k, f in path.inputs.items():
            try:
                out[k] = f(model)
            except Exception as e:  # noqa
                out[k] = "? %s" % e
        return out

    def portfolio(self, path, neg):
        """Second opinions on a query the first solver did not answer."""
        goals = list(path.solver.assertions()) + [neg]
        t0 = time.time()
        try:
            for mk, name in ((lambda: z3.Then("simplify", "solve-eqs", "ackermannize_bv", "bit-blast", "sat").solver(), "z3:bitblast"),
                             (lambda: z3.SolverFor("QF_AUFBV"), "z3:qfaufbv"),
                             (lambda: z3.Tactic("smt").solver(), "z3:smt")):
                try:
                    s = mk()
                    s.set("timeout", self.prove_ms)
                    s.add(*goals)
                    r = s.check()
                    self.stats.queries += 1
                except z3.Z3Exception:
                    continue
                if r == z3.unsat:
                    self.stats.backends[name] = self.stats.backends.get(name, 0) + 1
                    return r, None
                if r == z3.sat:
                    return r, s.model()
            from . import cvc
            r = cvc.check(goals, self.prove_ms)
            if r == "unsat":
                self.stats.backends["cvc5"] = self.stats.backends.get("cvc5", 0) + 1
                return z3.unsat, None
        finally:
            self.stats.solver_s += time.time() - t0
        return z3.unknown, None

    def run(self, fn):
        """Explores every path of fn(path)."""
        for _ in range(200):
            try:
                return self.run1(fn)
            except Restart:
                self.memo.clear()
                self.failures.clear()
                t, q = self.stats.solver_s, self.stats.queries
                self.stats.__init__()
                self.stats.solver_s, self.stats.queries = t, q
        raise Undecided("too many restarts")

    def run1(self, fn):
        work = [[]]
        n = 0
        while work:
            pre = work.pop()
            log = Log(pre)
            p = Path(self, log)
            self.cur = p
            from . import values
            values.CUR = p
            try:
                fn(p)
                self.stats.paths += 1
            except PathEnd:
                pass
            except StopExploration:
                return
            work.extend(log.pending)
            n += 1
            if n > self.max_paths:
                raise Undecided("too many paths")

    # ---- projections ------------------------------------------------------------
    def proj_get(self, path, v, p):
        k = p[0]
        if k == "f":
            if isinstance(v, Rec):
                return v.get(p[1])
            if isinstance(v, SeqLike) and hasattr(v, "field"):
                return v.field(p[1])
            raise Unsupported("field %s of %s" % (p[1], type(v).__name__))
        if k == "e":
            return seq_read(path, v, p[1])
        if k == "o":
            return v.v
        if k == "a":
            return v.alts[p[1]]
        return v.proj_get(path, p)

    def proj_set(self, path, v, p, x):
        k = p[0]
        if k == "f":
            return v.set(p[1], x)
        if k == "e":
            return seq_write(path, v, p[1], x)
        if k == "o":
            return OptV(v.has, x)
        if k == "a":
            a = list(v.alts)
            a[p[1]] = x
            return VarV(v.idx, tuple(a))
        return v.proj_set(path, p, x)


class SeqLike:
    pass


def seq_read(path, v, i):
    if isinstance(v, StrV) and v.sub():
        _, fn, off, n, _ = v.sub()
        if not isc(i):
            i = z3.simplify(i)
            i = i.as_long() if z3.is_bv_value(i) else i
        path.oblige(ule(i, n), "bounds", path.eng.where(), "string index in range")
        c = b_not(eq(i, n))
        if not isc(c) and path.ask(c):
            return bv(fn(bv(add64(off, i), 64)), 8)
        return merge(eq(i, n), z3.BitVecVal(0, 8), bv(fn(bv(add64(off, i), 64)), 8))
    if isinstance(v, StrV):
        cs = v.chars()
        if cs is None:
            raise Unsupported("character of an opaque string")
        if isc(i):
            if i == len(cs):
                return 0
            path.oblige(0 <= i < len(cs), "bounds", path.eng.where(), "string index in range")
            return _ch(cs[i])
        path.oblige(ule(i, len(cs)), "bounds", path.eng.where(), "string index in range")
        r = z3.BitVecVal(0, 8)
        for j, c in enumerate(cs):
            r = z3.If(i == j, bv(c, 8), r)
        return r
    if isinstance(v, Seq):
        c = ult(i, v.n) if not (isc(i) and i < 0) else False
        path.oblige(c, "bounds", path.eng.where(), "index within the sequence")
        if not isc(i):
            s = z3.simplify(i)
            if z3.is_bv_value(s):
                i = s.as_long()
            else:
                path.touch("idx", s)
        elif v.items is None:
            path.touch("idx", i)
        return v.get(i)
    raise Unsupported("element of %s" % type(v).__name__)


def _ch(c):
    return norm(c, 8, True) if isc(c) else c


def seq_write(path, v, i, x):
    if isinstance(v, StrV):
        cs = v.chars()
        if cs is None:
            raise Unsupported("character store into an opaque string")
        i = path.concretize(i)
        path.oblige(0 <= i < len(cs), "bounds", path.eng.where(), "string index in range")
        cs = list(cs)
        cs[i] = x
        return StrV([("c", c) for c in cs])
    if isinstance(v, Seq):
        c = ult(i, v.n) if not (isc(i) and i < 0) else False
        path.oblige(c, "bounds", path.eng.where(), "index within the sequence")
        if not isc(i):
            path.touch("idx", i)
        return v.set(i, x)
    raise Unsupported("element of %s" % type(v).__name__)
