from .util import *
from .mod import *
from . import mod, c29, c31
from .ins import context

ID = "C30"
SRC = mod.SRC
DRIVER = "asm"
INT = z3.IntSort()


def modules(g, n, name="module"):
    """n modules nothing is known about but their number."""
    I, P = g.I, g.P
    mt = g.type("nsasm::Module")
    return Seq(n=n, fn=lambda i: Rec(mt.key, dict({f: Opaque(f) for f, _ in I.fields(mt)}, **{"$module": bv(i, 64)}), mt.tn), et=mt, ver=newver())


def which(c):
    v = c.P.load(c.obj)
    if not isinstance(v, Rec) or "$module" not in v.f:
        raise Unsupported("an unknown module")
    return v.f["$module"]


def order(g):
    """Assembler::FindAssemblyOrder"""
    I, P = g.I, g.P
    n = g.fresh("modules", 64)
    P.assume(z3.ULE(n, 1 << 31))
    at = g.type("nsasm::Assembler")
    ft = dict(I.fields(at))
    dep = P.fresh_fn("depends", [B64, INT], z3.BoolSort())
    exp = P.fresh_fn("exports", [B64, INT], z3.BoolSort())
    nt = ft["name_to_module_map_"]
    f = {k: Opaque(k) for k in ft}
    f.update({"modules_": modules(g, n), "name_to_module_map_": I.zero(nt)})
    this = P.alloc(Rec(at.key, f, at.tn))
    names = this.sub(("f", "name_to_module_map_"))
    mods = this.sub(("f", "modules_"))
    ptr = lambda i: Ptr(mods.sub(("e", bv(i, 64))))
    hashmap.key_sort(I, nt.ta[0])
    KEY = "key:" + nt.ta[0].strip().s.replace("const ", "")
    I.ptrbases[nt.ta[1].strip().s.replace("const ", "")] = (mods.root, mods.path)
    PTR = "key:" + nt.ta[1].strip().s.replace("const ", "")

    def depends(c):
        j = which(c)
        P.write(CUR, Opaque("module", j))
        return hashmap.MapV(c.rt.strip(), lambda x: dep(j, x), lambda x: None)
    I.contracts["nsasm::Module::Dependencies"] = depends

    def exported(c):
        j = which(c)
        P.write(CUR, Opaque("module", j))
        loc = I.symfn(c.rt.strip().ta[1], "defined at", [B64, INT])
        return hashmap.MapV(c.rt.strip(), lambda x: exp(j, x), lambda x: loc(j, x))
    I.contracts["nsasm::Module::ExportedNames"] = exported
    I.contracts["nsasm::Module::Name"] = lambda c: I.sym(c.rt, "name")
    for k in ("nsasm::FullIdentifier::ToString", "nsasm::Location::ToString"):
        I.contracts[k] = lambda c: I.sym(c.rt, "text")
    # ghosts: where each module stands in the order (and how long the order was then), the current module, unmet
    # dependencies of modules, and the length of the order when the round began
    G = P.alloc(Opaque("pos", (lambda j: z3.BitVecVal(0, 64), 0)))
    CUR = P.alloc(Opaque("module", z3.BitVecVal(0, 64)))
    W = P.alloc(Opaque("unmet", lambda j: z3.IntVal(0)))
    W2 = P.alloc(Opaque("unmet", z3.IntVal(0)))
    M0 = P.alloc(z3.BitVecVal(0, 64))
    want = {"order": None, "in": None, "exp": None}

    def find():
        """The local variables by what they hold."""
        for r, v in sorted(P.store.items(), key=str):
            if isinstance(v, Seq) and P.ctype.get(r) is not None and P.ctype[r].strip().tn == "std::vector" and P.ctype[r].strip().ta[0].strip().k == "ptr":
                k = "order"
            elif isinstance(v, (hashmap.MapC, hashmap.MapV)) and v.t.ta[0].strip().k == "ptr" and hashmap.is_set(v.t):
                k = "in"
            elif isinstance(v, (hashmap.MapC, hashmap.MapV)) and not hashmap.is_set(v.t) and v.t.ta[1].strip().tn == "nsasm::Location":
                k = "exp"
            else:
                continue
            want[k] = LV(r)
        if None in want.values():
            raise Undecided("the variables of the search: %s" % {k: v is not None for k, v in want.items()})

    class State:
        """What the variables hold now."""

        def __init__(s):
            o, G_ = P.load(want["order"]), P.load(G)
            s.m = bv(o.n, 64)
            s.mi, s.me, s.mn = (hashmap.to_func(I, P.load(x)) for x in (want["in"], want["exp"], names))
            s.o = o
            s.ins, s.ehas, s.nhas = s.mi._has, s.me._has, s.mn._has
            fn, m0 = G_.data
            last = s.perm(z3.simplify(s.m - 1))
            s.pos = lambda j: z3.If(z3.And(z3.UGT(s.m, m0), j == last), s.m - 1, fn(j))
            s.start = P.load(M0)

        def perm(s, i):
            if s.o.items is not None and not len(s.o.items):
                return z3.BitVecVal(0, 64)
            x = s.o.get(i)
            if not isinstance(x, Ptr) or (x.lv.root, x.lv.path[:-1]) != (mods.root, mods.path):
                raise Unsupported("order")
            return bv(x.lv.path[-1][1], 64)

        def by(s, k):
            x = s.mn._get(k)
            return bv(x.lv.path[-1][1], 64) if isinstance(x, Ptr) else z3.BitVecVal(0, 64)

        def at(s, k):
            x = s.by(k)
            if mode["prove"]:
                P.touch("idx", z3.simplify(x))
            return x

    def common(s, skip=lambda j, k: False):
        """skip: not yet entered"""
        return [
            (("idx",), lambda i: b_imp(ult(i, s.m), b_and(ult(s.perm(i), n), s.ins(s.perm(i)), s.pos(s.perm(i)) == i)), "the order holds modules, each once"),
            (("idx",), lambda j: b_imp(s.ins(j), b_and(ult(j, n), ult(s.pos(j), s.m), s.perm(s.pos(j)) == j)), "a module that counts as inserted is in the order"),
            (("idx", KEY), lambda j, k: b_imp(b_and(s.ins(j), exp(j, k), b_not(skip(j, k))), b_and(s.ehas(k), s.at(k) == j)), "exports of the modules in the order are known, each by one module"),
            ((KEY,), lambda k: b_imp(s.ehas(k), b_and(s.ins(s.at(k)), exp(s.at(k), k), b_not(skip(s.at(k), k)))), "what is known is exported by a module in the order"),
            ((KEY,), lambda k: eq(s.ehas(k), s.nhas(k)), "known exports have a module"),
            (("idx", KEY), lambda j, k: b_imp(b_and(s.ins(j), dep(j, k)), b_and(s.ehas(k), ult(s.pos(s.at(k)), s.pos(j)))), "dependencies come from modules before"),
        ]

    sym = {"order": lambda: sym_order(), "in": lambda: hashmap.sym_map(I, P.load(want["in"]).t, "in"), "exp": lambda: hashmap.sym_map(I, P.load(want["exp"]).t, "known")}

    def sym_order():
        f = P.fresh_fn("order", [B64], B64)
        return Seq(n=P.fresh("ordered", B64), fn=lambda i: ptr(f(bv(i, 64))), et=P.load(want["order"]).et, ver=newver())
    cells = lambda *ks: [(want[k], sym[k]) for k in ks]

    def sym_names():
        h, f = P.fresh_fn("named", [INT], z3.BoolSort()), P.fresh_fn("names", [INT], B64)
        return hashmap.MapV(nt, h, lambda k: ptr(f(k)))
    NAMES = (names, sym_names)
    ghost = [(G, lambda: Opaque("pos", (P.fresh_fn("pos", [B64], B64), P.load(want["order"]).n)))]
    CURC = (CUR, lambda: Opaque("module", P.fresh("current", B64)))
    WC = (W, lambda: Opaque("unmet", P.fresh_fn("unmet", [B64], INT)))

    WC2 = (W2, lambda: Opaque("unmet", P.fresh("unmet", INT)))

    def newest():
        """The iterators declared last, those at the beginning only."""
        last = None
        for r in sorted((r for r in P.store if isinstance(r, int)), reverse=True):
            v = P.store[r]
            if isinstance(v, hashmap.MPtrIt) and v.end is not True and (last is None or last == "map"):
                return [(LV(r), v)]
            if isinstance(v, It) and v.lv.root == mods.root:
                last = "seq"
                if str(v.i) == "0":
                    return [(LV(r), v)]
        return []

    def flags():
        fs = [(r, v) for r, v in P.store.items() if isinstance(r, int) and (isinstance(v, bool) or isinstance(v, z3.BoolRef))]
        return [(LV(r), v) for r, v in [max(fs, key=lambda x: x[0])]] if fs else []

    def search(I, L):
        if once_only(L):
            return None
        if want["order"] is None:
            find()
        its = newest()
        ms = [v for _, v in its if isinstance(v, hashmap.MPtrIt)]
        if ms:
            c = P.load(CUR).data
            if hashmap.is_set(ms[0].t):
                def laws(q):
                    s = State()
                    it = P.load(q.maps[0])
                    lt = it.less(I)
                    w = P.load(W2).data
                    P.touch_raw(KEY, w)
                    f = P.load(q.flags[0]) if len(q.flags) == 1 else True
                    return [((KEY,), lambda k: b_imp(b_and(f, dep(c, k), b_or(it.end, lt(k, it.key))), s.ehas(k)), "the dependencies looked at are met"),
                            ((), lambda: b_or(f, some_key(lambda k: b_and(dep(c, k), b_not(s.ehas(k))), w)), "one of the dependencies is not met")]
                # a flag that holds so far, if the loop keeps one (it may return instead)
                return QInv(g, I, L, [WC2], laws, own=its + [x for x in flags() if x[1] is True or (not isinstance(x[1], bool) and z3.is_true(z3.simplify(x[1])))])

            def laws(q):
                s = State()
                it = P.load(q.maps[0])
                lt = it.less(I)
                return common(s, lambda j, k: b_and(j == c, b_not(b_or(it.end, lt(k, it.key)))))
            return QInv(g, I, L, cells("exp") + [NAMES], laws, own=its)
        if its:
            def laws(q):
                s = State()
                f = P.load(q.flags[0]) if len(q.flags) == 1 else False
                at = q.pos()
                w = P.load(W).data
                return common(s) + [
                    ((), lambda: b_and(z3.UGE(s.m, s.start), eq(f, z3.UGT(s.m, s.start))), "found when the order grows"),
                    (("idx",), lambda j: b_or(f, b_imp(ult(j, at), b_or(s.ins(j), some_key(lambda k: b_and(dep(j, k), b_not(s.ehas(k))), w(j))))), "what was passed over is blocked")]

            def start():
                s = State()
                P.assume(z3.ULE(s.m, n))        # counting
                # counting: unless all modules are in the order there is one outside, and a least one
                j0 = P.fresh("least", B64)
                P.touch("idx", j0)
                P.touch_raw(KEY, P.load(W).data(j0))
                P.assume(b_or(s.m == n, b_and(ult(j0, n), b_not(s.ins(j0)))))
                P.fact(("idx",), lambda j: b_or(s.m == n, b_not(b_and(ult(j, n), b_not(s.ins(j)))), rank(j0) <= rank(j)))
            return QInv(g, I, L, cells("order", "in", "exp") + [NAMES, CURC, WC, WC2] + ghost, laws, start, own=its + flags())

        def laws(q):
            s = State()
            return common(s)

        def start():
            s = State()
            P.assume(z3.ULE(s.m, n))            # counting
            P.fact(("idx",), lambda j: b_imp(b_and(ult(j, n), b_not(s.ins(j))), ult(s.m, n)))   # counting
            P.write(M0, s.m)
        q = QInv(g, I, L, cells("order", "in", "exp") + [NAMES, CURC, WC, WC2, (M0, lambda: P.fresh("start", B64))] + ghost, laws, start, own=[])
        q.atback = lambda: g.ensure(z3.UGT(State().m, P.load(M0)), "each round adds a module", "invariant")
        return q

    def some_key(p, k):
        """p of some key: of the given one, or of one in sight"""
        if mode["prove"]:
            return b_or(p(k), *[p(x) for x in list(P.touched.get(KEY, ()))])
        return p(k)
    I.hoare = search
    # an order that satisfies the dependencies, if there is one, and the module that exports a name, if it is the only one
    good = g.fresh("there is an order", None)
    rank = P.fresh_fn("rank", [B64], INT)
    who = P.fresh_fn("exporter", [INT], B64)

    def src(k):
        x = who(k)
        P.touch("idx", x)
        return x
    r = g.call("nsasm::Assembler::FindAssemblyOrder", this)
    ok, _ = errorval(r)
    g.cover("succeeds", ok)
    g.cover("fails", b_not(ok))
    if not P.branch(ok):
        P.fact(("idx", KEY), lambda j, k: b_imp(b_and(ult(j, n), dep(j, k)), b_and(ult(src(k), n), exp(src(k), k), rank(src(k)) < rank(j))))
        P.fact(("idx", KEY), lambda j, k: b_imp(b_and(ult(j, n), exp(j, k)), j == src(k)))
        s = State()
        for k in list(P.touched.get(KEY, ())):
            P.touch("idx", z3.simplify(s.by(k)))
        g.reach()
        g.ensure(False, "fails only when a name is exported twice or no order satisfies the dependencies")
        return
    s = State()
    v = r.f["value"].alts[1]
    i, i2, j = g.fresh("i", 64), g.fresh("i2", 64), g.fresh("j", 64)
    k = g.fresh("k", None) if False else P.fresh("k", INT)
    for x in (i, i2, j):
        P.touch("idx", x)
    P.touch_raw(KEY, k)
    P.assume(b_and(ult(i, v.n), ult(i2, v.n), ult(j, n)))
    el = lambda i: bv(v.get(i).lv.path[-1][1], 64)
    g.ensure(bv(v.n, 64) == n, "as many modules as there are")
    g.ensure(ult(el(i), n), "the order holds modules")
    g.ensure(b_imp(el(i) == el(i2), i == i2), "each module once")
    P.touch("idx", el(i))
    P.touch("idx", z3.simplify(s.by(k)))
    if P.branch(b_and(dep(el(i), k))):
        e = s.at(k)
        p = s.pos(e)
        P.touch("idx", p)
        g.ensure(b_and(ult(p, i), el(p) == e, exp(e, k)), "the module a dependency comes from is earlier")
    g.ensure(b_imp(exp(j, k), b_and(s.nhas(k), s.by(k) == j)), "an exported name is found in the module that exports it, and no other exports it")
    g.ensure(b_imp(s.nhas(k), b_and(ult(s.by(k), n), exp(s.by(k), k))), "names are exported by their modules")


def counting(g):
    """What the search assumes of numbers of modules (marked "counting"): by induction on n, no function takes the numbers
    up to n, n included, to different numbers below n (H).  Case n = 0: f(0) < 0 is absurd."""
    P = g.P
    n, i, j, m, k = (P.fresh(x, INT) for x in "nijmk")
    f, pos = P.fresh_fn("f", [INT], INT), P.fresh_fn("pos", [INT], INT)
    P.assume(z3.And(n >= 0, m >= 0))
    within = lambda x, m: z3.And(x >= 0, x < m)

    def injective(f, m, n, *at):
        """f takes the numbers below m to different ones below n: its instances at the terms."""
        return b_and(*[b_imp(within(x, m), within(f(x), n)) for x in at] + [b_imp(b_and(within(x, m), within(y, m), x != y), f(x) != f(y)) for x in at for y in at if x is not y])
    # step: f from n + 2 numbers to those below n + 1; h does the same a step lower
    last = n + 1
    h = lambda x: z3.If(f(x) == n, f(last), f(x))
    g.ensure(b_imp(injective(f, n + 2, n + 1, i, j, last), injective(h, n + 1, n, i, j)), "pigeonhole, induction step")
    g.ensure(b_not(injective(f, z3.IntVal(1), z3.IntVal(0), z3.IntVal(0))), "pigeonhole, n = 0")
    # the uses: m modules in the order, each once
    g.ensure(b_imp(b_and(m > n, injective(f, m, n, i, j)), injective(f, n + 1, n, i, j)), "more than n of them would contradict it")
    e = lambda x: z3.If(x == n, k, f(x))
    out = b_and(within(k, n), *[b_imp(within(x, n), f(x) != k) for x in (i, j)])
    g.ensure(b_imp(b_and(m == n, injective(f, m, n, i, j), out), injective(e, n + 1, n, i, j)), "so would n of them and one outside")
    inverse = b_and(*[b_imp(within(x, n), b_and(within(pos(x), m), f(pos(x)) == x)) for x in (i, j)])
    g.ensure(b_imp(b_and(m < n, inverse), injective(pos, m + 1, m, i, j)), "so would fewer than n of them with none outside")
    g.cover("m below n", m < n)


def assemble(g):
    """Assembler::Assemble: each pass over all modules in the order found, one pass after the other."""
    I, P = g.I, g.P
    n = g.fresh("modules", 64)
    P.assume(z3.ULE(n, 1 << 31))
    at = g.type("nsasm::Assembler")
    ft = dict(I.fields(at))
    rm = ft["memory_module_map_"]
    f = {k: Opaque(k) for k in ft}
    f.update({"modules_": modules(g, n), "memory_module_map_": Rec(rm.key, {"$map": Opaque("map")}, rm.tn)})
    this = P.alloc(Rec(at.key, f, at.tn))
    sink = P.alloc(Rec("sink", {}, "sink"))
    err = some(g, "error")
    perm = P.fresh_fn("order", [B64], B64)
    P.fact(("idx",), lambda i: b_imp(ult(i, n), ult(perm(i), n)))
    bad = g.fresh("fails at some point", None)
    DONE = P.alloc(Rec("ghost", {k: z3.BitVecVal(0, 64) for k in ("first", "second", "last", "kept")}, "ghost"))
    ORD = P.alloc(Opaque("ordered", z3.BoolVal(False)))
    FAIL = P.alloc(Opaque("failed", z3.BoolVal(False)))
    done = lambda: P.load(DONE).f
    failed = lambda: P.load(FAIL).data

    def outcome(what):
        ok = P.fresh(what, z3.BoolSort())
        P.write(FAIL, Opaque("failed", b_or(failed(), b_not(ok))))
        return ok

    def found(c):
        g.ensure(b_not(P.load(ORD).data), "the order is found once")
        P.write(ORD, Opaque("ordered", z3.BoolVal(True)))
        v = c.rt.ta[0].strip()
        return result(c, outcome("ordered"), err, Seq(n=n, fn=lambda i: Ptr(this.sub(("f", "modules_"), ("e", perm(bv(i, 64))))), et=v.ta[0], ver=newver()))
    I.contracts["nsasm::Assembler::FindAssemblyOrder"] = found

    def step(k, before, extra=lambda c: None):
        def h(c):
            d = done()
            P.touch("idx", d[k])
            g.ensure(b_not(failed()), "nothing is done after a failure")
            for b in before:
                g.ensure(d[b] == n, "the pass before is over")
            g.ensure(b_and(ult(d[k], n), which(c) == perm(d[k])), "the next module in the order has its turn")
            extra(c)
            P.write(DONE, Rec("ghost", dict(d, **{k: z3.simplify(d[k] + 1)}), "ghost"))
            return result(c, outcome(k), err, void=True)
        return h

    def ctx(c, i):
        x = c.args[i]
        x = c.P.load(x) if isinstance(x, LV) else x
        g.ensure(isinstance(x, Rec) and x.tn == "nsasm::AssemblerLookupContext" and b_or(*[lv_same(p.lv, this) for p in x.f.values() if isinstance(p, Ptr)]), "names are looked up in this assembler")

    def out(c):
        p = c.args[0]
        p = c.P.load(p) if isinstance(p, LV) and not isinstance(p, Ptr) else p
        g.ensure(isinstance(p, Ptr) and p.lv.root == sink.root, "bytes go to the sink given")
        ctx(c, 1)
    I.contracts["nsasm::Module::RunFirstPass"] = step("first", [])
    I.contracts["nsasm::Module::RunSecondPass"] = step("second", ["first"], lambda c: ctx(c, 0))
    I.contracts["nsasm::Module::Assemble"] = step("last", ["first", "second"], out)
    I.contracts["nsasm::Module::Name"] = lambda c: I.sym(c.rt, "name")
    I.contracts["nsasm::Module::OwnedBytes"] = lambda c: P.alloc(Rec("range", {"$of": which(c)}, "range"))

    def insert(c):
        d = done()
        g.ensure(b_and(c.arg(0).f["$of"] == perm(d["kept"]), d["kept"] + 1 == d["last"]), "the bytes of the module assembled are entered")
        P.write(DONE, Rec("ghost", dict(d, kept=z3.simplify(d["kept"] + 1)), "ghost"))
        return outcome("inserted")
    I.contracts["nsasm::RangeMap::Insert"] = insert

    def loop(I, Lp):
        if once_only(Lp):
            return None
        d0 = dict(done())
        cells = [(DONE, lambda: Rec("ghost", {k: P.fresh(k, B64) for k in d0}, "ghost")), (FAIL, lambda: Opaque("failed", P.fresh("failed", z3.BoolSort())))]
        moves = sorted({p[0][1] for r, p in changed(I, Lp) if r == DONE.root and p})     # the pass the loop makes
        if not moves:
            raise Undecided("a loop that is no pass")

        def holds(at):
            d = done()
            return [(b_and(*[d[x] == (at if x in moves else d0[x]) for x in d0]), "the modules up to here had their turn, in this pass only"),
                    (b_not(failed()), "nothing has failed")]
        return Inv(g, I, Lp, cells, holds)
    I.hoare = loop
    r = g.call("nsasm::Assembler::Assemble", this, Ptr(sink))
    ok, _ = errorval(r)
    g.cover("succeeds", ok)
    g.cover("fails", b_not(ok))
    d = done()
    g.ensure(eq(zb(ok), b_not(failed())), "fails exactly when a part of it does")
    if P.branch(ok):
        g.ensure(b_and(*[d[k] == n for k in d]), "every module has had every pass")


def goals():
    pol = {"merge_ifs": False}
    return [Goal("Assembler::FindAssemblyOrder", order, policy=dict(pol, feas_ms=300)), Goal("counting modules", counting, policy=pol),
            Goal("Assembler::Assemble: the passes", assemble, policy=pol)] + \
        [x for x in c31.reuse(c29) if "LoadAsmFile" not in x.name]


ASSUMPTIONS = ["pigeonhole principle on the number of modules, used in the search for the order: its induction step is discharged (goal \"counting modules\"), the induction itself is outside the solver",
               "among the modules outside the order one has least rank (well-ordering of a finite set)",
               "a module's own passes read nothing but the module, what the context answers and the sink (C29, C31)",
               "the step from \"the passes run over an order that respects the dependencies, and each value read is the defining module's\" to \"the bytes are the same for every order\" is by induction along that order, made in DESIGN.md, not by the solver"]

NCASES = 3000


def webs(rnd, n):
    """Modules whose .equ lines need each other's names: chains, forks, now and then a cycle or a name nobody gives."""
    for _ in range(n):
        k = rnd.choice([3, 4, 4, 4, 5])
        rank = rnd.sample(range(k), k)
        out = []
        for i in range(k):
            items = [([], ("module", "m%d" % (i + 1))), ([], ("org", (None, None, 0x8000 + 8 * i)))]
            below = [j for j in range(k) if rank[j] < rank[i]]
            for x in REG[:rnd.choice([1, 1, 2])]:
                r = rnd.random()
                if below and r < .75:
                    e = ("m%d" % (rnd.choice(below) + 1), "foo", rnd.choice([0, 1]))
                elif r < .96:
                    e = (None, None, rnd.randrange(256))
                else:
                    e = ("m%d" % (rnd.randrange(k) + 1), rnd.choice(REG[:2]), 0)
                items.append(([(x, True)], ("equ", e)))
                items.append(([], ("db", [(None, x, 0)])))
            out.append(items)
        rnd.shuffle(out)
        yield out, p_program(out)


def cases(rnd, n):
    for p, w in webs(rnd, n // 20):
        yield c_orders(p, w)
    for p, w in programs(rnd, n):
        yield c_orders(p, w)
