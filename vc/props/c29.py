import copy
from .util import *
from .mod import *
from . import mod

ID = "C29"
SRC = mod.SRC
DRIVER = "asm"
INT = z3.IntSort()


class Names:
    """An arbitrary module: n lines; what names the scopes opened at its lines and the global scope define, and where."""

    def __init__(s, g, **known):
        I, P = g.I, g.P
        s.g = g
        s.mt = g.type("nsasm::Module")
        s.ft = dict(I.fields(s.mt))
        s.smap = s.ft["global_to_line_"].strip()
        s.key = "key:" + s.smap.ta[0].strip().s.replace("const ", "")
        s.lhas, s.lget = P.fresh_fn("local", [B64, INT], z3.BoolSort()), P.fresh_fn("local at", [B64, INT], B32)
        s.ghas, s.gget = P.fresh_fn("global", [INT], z3.BoolSort()), P.fresh_fn("global at", [INT], B32)
        s.depth, s.scope = P.fresh_fn("scopes", [B64], B64), P.fresh_fn("scope", [B64, B64], B32)
        lt = dict(I.fields(g.type("nsasm::Module::Line")))
        sm = lt["scoped_locals"].strip()
        s.et = lt["active_scopes"].strip().ta[0].strip()
        over = {"scoped_locals": lambda i: hashmap.MapV(sm, lambda x: s.lhas(i, x), lambda x: s.lget(i, x)),
                "active_scopes": lambda i: Seq(n=s.depth(i), fn=lambda k: s.scope(i, bv(k, 64)), et=s.et, ver=newver())}
        s.L = Lines(g, **over)
        n = s.L.n
        P.fact(("idx",), lambda i: z3.ULE(s.depth(i), n))
        P.fact(("idx", s.key), lambda i, x: b_imp(s.lhas(i, x), ult(z3.SignExt(32, s.lget(i, x)), n)))
        P.fact((s.key,), lambda x: b_imp(s.ghas(x), ult(z3.SignExt(32, s.gget(x)), n)))
        s.name = StrV([("o", "module", P.fresh("module name", INT), P.fresh("length", B64))])
        f = {}
        for k in s.ft:
            f[k] = known.get(k, s.L.seq if k == "lines_" else hashmap.MapV(s.smap, s.ghas, s.gget) if k == "global_to_line_" else
                             s.name if k == "module_name_" else
                             StrV([("o", "path", P.fresh("path", INT), P.fresh("length", B64))]) if k == "path_" else Opaque(k))
        s.this = P.alloc(Rec(s.mt.key, f, s.mt.tn))

    def text(s, name):
        """Some string, and its code."""
        P = s.g.P
        c = P.fresh(name, INT)
        P.touch_raw(s.key, c)
        n = P.fresh("length", B64)
        P.assume(z3.ULE(n, 1 << 31))
        return StrV([("o", name, c, n)]), c


def local_index(g):
    """Module::LocalIndex: the innermost scope that defines the name, else the global one."""
    I, P = g.I, g.P
    N = Names(g)
    d = g.fresh("depth", 64)
    P.assume(z3.ULE(d, N.L.n))
    sc = P.fresh_fn("open", [B64], B32)
    P.fact(("idx",), lambda k: b_imp(ult(k, d), ult(z3.SignExt(32, sc(k)), N.L.n)))
    act = P.alloc(Seq(n=d, fn=lambda k: sc(bv(k, 64)), et=N.et, ver=newver()))
    sv, x = N.text("name")
    lines = N.this.sub(("f", "lines_"))
    loc = lambda k: lines.sub(("e", z3.SignExt(32, sc(z3.simplify(d - 1 - k)))), ("f", "scoped_locals"))
    # scope number k, from the inside
    has = lambda k: b_ite(k == d, N.ghas(x), N.lhas(z3.SignExt(32, sc(d - 1 - k)), x))
    at = lambda k: z3.If(k == d, N.gget(x), N.lget(z3.SignExt(32, sc(d - 1 - k)), x))
    first = g.fresh("first", 64)        # the first scope that defines it, or d + 1
    P.assume(z3.ULE(first, d + 1))
    P.fact(("idx",), lambda k: b_imp(ult(k, first), b_not(has(k))))
    P.touch("idx", first)
    P.touch("idx", z3.simplify(d - 1 - first))
    P.assume(b_imp(z3.ULE(first, d), has(first)))

    def same(p, k):
        if not isinstance(p, Ptr):
            return False
        return lv_same(p.lv, loc(k))

    def loop(I, L):
        if once_only(L):
            return None
        vecs = vectors(P)
        if not vecs:
            raise Undecided("the list of scopes")
        v = vecs[-1]
        grows = any(r == v.root for r, p in changed(I, L))

        def family():
            return Seq(n=P.fresh("listed", B64), fn=lambda k: Ptr(loc(bv(k, 64))), et=P.load(v).et, ver=newver())
        if grows:
            def laws(q):
                s = P.load(v)
                n = bv(s.n, 64)
                p = q.pos()
                rev = q.rev()
                return [((), lambda: eq(n, z3.simplify(d - p) if rev else p), "as many scopes as looked at"),
                        (("idx",), lambda k: b_imp(ult(k, n), same(s.get(k), k)) if mode["prove"] and s.items != () else True, "scopes from the inside")]
            return QInv(g, I, L, [(v, family)], laws)

        def laws(q):
            p = q.pos()
            P.touch("idx", z3.simplify(d - 1 - p))
            return [(("idx",), lambda k: b_imp(ult(k, p), b_not(has(k))), "none of the scopes passed defines it")]
        return QInv(g, I, L, [], laws)

    I.hoare = loop
    r = g.call("nsasm::Module::LocalIndex", N.this, sv, act)
    ok, val = errorval(r)
    g.cover("found", ok)
    g.cover("not found", b_not(ok))
    g.ensure(eq(ok, z3.ULE(first, d)), "found exactly when an open scope or the global one defines it")
    if P.branch(ok):
        g.ensure(bv(val, 32) == at(first), "where the innermost of them says")


def vectors(P):
    return [LV(r) for r in sorted(r for r, v in P.store.items() if isinstance(r, int) and isinstance(v, Seq) and P.ctype.get(r) is not None and
                                  P.ctype[r].strip().tn == "std::vector" and P.ctype[r].strip().ta[0].strip().k == "ptr")]


class Lookups(Names):
    """A module with an expression at some place in it: what its names stand for."""

    def __init__(s, g):
        Names.__init__(s, g)
        I, P = g.I, g.P
        s.open, s.openat = P.fresh_fn("in scope", [INT], z3.BoolSort()), P.fresh_fn("in scope at", [INT], B32)
        P.fact((s.key,), lambda x: b_imp(s.open(x), ult(z3.SignExt(32, s.openat(x)), s.L.n)))
        P.fact((s.key,), lambda x: b_imp(s.ghas(x), s.open(x)))
        s.act = P.alloc(Seq(n=P.fresh("open scopes", B64), fn=lambda k: P.fresh("scope", B32), et=s.et, ver=newver()))
        s.err = some(g, "error")
        t = g.type("nsasm::LookupContext")
        s.ext = P.alloc(Rec(t.key, {}, t.tn))
        s.log = P.alloc(Rec("ghost", {"n": 0, "id": None}, "ghost"))
        s.eok, s.eval = g.fresh("external defined", None), g.fresh("external value", 32)

        def index(c):
            a = c.args[0]
            x = str_code(c.arg(0))
            P = c.P
            P.touch_raw(s.key, x)
            v = c.args[1]
            q = c.P.load(v)
            if isinstance(q, Seq) and q.items == ():
                return result(c, s.ghas(x), s.err, s.gget(x))
            if lv_same(v, s.act) is not True:
                raise Unsupported("other scopes")
            return result(c, s.open(x), s.err, s.openat(x))
        I.contracts["nsasm::Module::LocalIndex"] = index

        def external(c):
            a = c.args[0]
            v = c.P.load(a) if isinstance(a, LV) else a
            o = c.P.load(s.log).f["n"]
            c.P.write(s.log, Rec("ghost", {"n": o + 1, "id": v}, "ghost"))
            return result(c, s.eok, s.err, s.eval)
        I.contracts["nsasm::LookupContext::Lookup"] = external
        # the name asked for
        s.q = g.fresh("qualified", None)
        s.m, s.mc = s.text("module")
        s.i, s.ic = s.text("identifier")
        t = g.type("nsasm::FullIdentifier")
        s.id = P.alloc(Rec(t.key, {"mod_name_": OptV(s.q, s.m), "id_name_": s.i}, t.tn))
        own = val_eq(s.m, s.name)
        s.local = z3.simplify(z3.If(zb(s.q), zb(b_and(own, s.ghas(s.ic))), zb(s.open(s.ic))))
        s.at = z3.SignExt(32, z3.If(zb(s.q), s.gget(s.ic), s.openat(s.ic)))
        P.touch("idx", s.at)

    def context(s, name):
        I, P = s.g.I, s.g.P
        t = s.g.type(name)
        f = {}
        for n, ft in I.fields(t):
            k = ft
            while k.k in ("ptr", "lref", "rref"):
                k = k.to
            at = {"nsasm::Module": s.this, "std::vector": s.act, "nsasm::LookupContext": s.ext}.get(str(k.tn))
            if at is None:
                raise Unsupported("a context with " + k.s)
            f[n] = Ptr(at)
        return P.alloc(Rec(t.key, f, t.tn))


def lookup(g):
    """ModuleLookupContext::Lookup and ModuleIsLocalContext::IsLocal"""
    I, P = g.I, g.P
    N = Lookups(g)
    l = g.call("nsasm::ModuleIsLocalContext::IsLocal", N.context("nsasm::ModuleIsLocalContext"), N.id)
    g.ensure(eq(zb(l), N.local), "local exactly when the module defines it: a qualified name in its global scope, another in a scope around")
    r = g.call("nsasm::ModuleLookupContext::Lookup", N.context("nsasm::ModuleLookupContext"), N.id)
    ok, v = errorval(r)
    o = P.load(N.log).f
    g.cover("local", N.local)
    g.cover("external", b_not(N.local))
    if P.branch(N.local):
        g.ensure(eq(o["n"], 0), "a local name is not looked for elsewhere")
        g.ensure(eq(zb(ok), zb(N.L.has(N.at))), "it has a value when its line has one")
        if P.branch(ok):
            g.ensure(bv(v, 32) == N.L.val(N.at), "the value of the line it names")
    else:
        g.ensure(eq(o["n"], 1), "another name is looked up outside")
        if o["id"] is not None:
            m = o["id"].f["mod_name_"]
            g.ensure(b_and(m.has, val_eq(o["id"].f["id_name_"], N.i)), "qualified, with its identifier")
            if m.v is not None:
                g.ensure(b_ite(N.q, val_eq(m.v, N.m), val_eq(m.v, StrV())), "in the module given, or the one without a name")
        g.ensure(eq(zb(ok), zb(N.eok)), "with the answer from there")
        if P.branch(ok):
            g.ensure(bv(v, 32) == N.eval, "and its value")


def names_used(g):
    """IdentifierExpression::ExternalNamesReferenced: exactly the name its evaluation looks for outside."""
    I, P = g.I, g.P
    N = Lookups(g)
    t = g.type("nsasm::IdentifierExpression")
    ex = P.alloc(Rec(t.key, {n: P.load(N.id) if n == "identifier_" else I.sym(ft, n) for n, ft in I.fields(t)}, t.tn))
    s = g.call("nsasm::IdentifierExpression::ExternalNamesReferenced", ex, N.context("nsasm::ModuleIsLocalContext"))
    s = P.load(s) if isinstance(s, LV) else s
    g.call("nsasm::IdentifierExpression::Evaluate", ex, N.context("nsasm::ModuleLookupContext"))
    o = P.load(N.log).f
    k = P.fresh("any", INT)
    ft = s.t.ta[0]
    hashmap.key_sort(I, ft)
    P.touch_raw("key:" + ft.strip().s.replace("const ", ""), k)
    m = hashmap.to_func(I, s)
    if o["id"] is None:
        g.ensure(b_not(m.has(k)), "no name when none is looked for outside")
    else:
        g.ensure(eq(zb(m.has(k)), zb(hashmap.enc(I, o["id"], ft) == k)), "the name looked for outside")


def combined(kind):
    def f(g):
        """The names of an expression are those of its parts."""
        I, P = g.I, g.P
        t = g.type("nsasm::" + kind)
        st = g.type("nsasm::IsLocalContext")
        et = g.type("nsasm::ExpressionOrNull")
        xt = g.type("nsasm::Expression")
        uses = P.fresh_fn("uses", [B64, INT], z3.BoolSort())
        j = 0
        fs = {}
        for n, ft in I.fields(t):
            if str(ft.strip().tn) == "nsasm::ExpressionOrNull":
                fs[n] = Rec(et.key, {"expr_": UPtr(Ptr(P.alloc(Rec(xt.key, {"$part": z3.BitVecVal(j, 64)}, xt.tn))))}, et.tn)
                j += 1
            else:
                fs[n] = Opaque(n)

        def part(c):
            p = c.P.load(c.obj).f["$part"]
            return hashmap.MapV(c.rt.strip(), lambda x: uses(p, x), lambda x: None)
        I.contracts["nsasm::Expression::ExternalNamesReferenced"] = part
        s = g.call("nsasm::%s::ExternalNamesReferenced" % kind, P.alloc(Rec(t.key, fs, t.tn)), P.alloc(Rec(st.key, {}, st.tn)))
        s = P.load(s) if isinstance(s, LV) else s
        k = P.fresh("any", INT)
        ft = s.t.ta[0]
        hashmap.key_sort(I, ft)
        P.touch_raw("key:" + ft.strip().s.replace("const ", ""), k)
        g.ensure(eq(zb(hashmap.to_func(I, s).has(k)), zb(b_or(*[uses(z3.BitVecVal(i, 64), k) for i in range(j)]))), "the names of its operands")
    return f


def exported(g):
    """Module::ValueForName and AssemblerLookupContext::Lookup: the value of the exporting module's line."""
    I, P = g.I, g.P
    N = Lookups(g)
    I.contracts["nsasm::FullIdentifier::ToString"] = lambda c: I.sym(c.rt, "text")
    r = g.call("nsasm::Module::ValueForName", N.this, N.id)
    ok, v = errorval(r)
    i = z3.SignExt(32, N.gget(N.ic))
    P.touch("idx", i)
    g.ensure(eq(zb(ok), zb(b_and(N.q, val_eq(N.m, N.name), N.ghas(N.ic), N.L.has(i)))), "a value for the module's own names that have one")
    if P.branch(ok):
        v = P.load(v) if isinstance(v, LV) else v
        g.ensure(bv(v.f["value_"], 32) == N.L.val(i), "the value of the line it names")


def assembler(g):
    I, P = g.I, g.P
    at = g.type("nsasm::Assembler")
    ft = dict(I.fields(at))
    mt = g.type("nsasm::Module")
    n = g.fresh("modules", 64)
    mods = Seq(n=n, fn=lambda i: Rec(mt.key, dict({f: Opaque(f) for f, _ in I.fields(mt)}, **{"$module": bv(i, 64)}), mt.tn), et=mt, ver=newver())
    f = {k: Opaque(k) for k in ft}
    has, by = P.fresh_fn("exported", [INT], z3.BoolSort()), P.fresh_fn("by", [INT], B64)
    nt = ft["name_to_module_map_"]
    this = P.alloc(None)
    ptr = lambda i: Ptr(this.sub(("f", "modules_"), ("e", i)))
    hashmap.key_sort(I, nt.ta[0])
    names = hashmap.MapV(nt, has, lambda x: ptr(by(x)))
    P.fact((names.tag,), lambda x: b_imp(has(x), ult(by(x), n)))
    f.update({"modules_": mods, "name_to_module_map_": names})
    P.write(this, Rec(at.key, f, at.tn))
    t = g.type("nsasm::FullIdentifier")
    N = Names.text
    q = g.fresh("qualified", None)

    class T:
        pass
    T.g, T.key = g, "key:std::basic_string<char>"
    m, i = N(T, "module")[0], N(T, "identifier")[0]
    idv = Rec(t.key, {"mod_name_": OptV(q, m), "id_name_": i}, t.tn)
    x = hashmap.enc(I, idv, nt.ta[0])
    P.touch_raw(names.tag, x)
    vok, val = g.fresh("has value", None), g.fresh("value", 32)
    err = some(g, "error")
    lt = g.type("nsasm::LabelValue")

    def value(c):
        w = c.P.load(c.obj).f["$module"]
        a = c.args[0]
        a = c.P.load(a) if isinstance(a, LV) else a
        g.ensure(b_and(has(x), w == by(x)), "the module that exports the name is asked")
        g.ensure(val_eq(a, idv), "for that name")
        return result(c, vok, err, Rec(lt.key, {"value_": val}, lt.tn))
    I.contracts["nsasm::Module::ValueForName"] = value
    I.contracts["nsasm::FullIdentifier::ToString"] = lambda c: I.sym(c.rt, "text")
    ct = g.type("nsasm::AssemblerLookupContext")
    ctx = P.alloc(Rec(ct.key, {k: Ptr(this) for k, _ in I.fields(ct)}, ct.tn))
    r = g.call("nsasm::AssemblerLookupContext::Lookup", ctx, P.alloc(idv))
    ok, v = errorval(r)
    g.cover("found", ok)
    g.ensure(eq(zb(ok), zb(b_and(q, has(x), vok))), "found when a module exports it and gives it a value")
    if P.branch(ok):
        g.ensure(bv(v, 32) == val, "its value there")


def inside(I, P, n):
    """The local map from lines to states: its cell, and that its keys are at most n."""
    for r, v in sorted(((r, v) for r, v in P.store.items() if isinstance(r, int)), reverse=True):
        if isinstance(v, (hashmap.MapC, hashmap.MapV)) and not hashmap.is_set(v.t) and v.t.ta[1].strip().tn == "nsasm::ExecutionState":
            break
    else:
        raise Undecided("the list of lines to visit")
    lv, t = LV(r), v.t
    mod.KEYSORT[hashmap.to_func(I, v).tag] = hashmap.key_sort(I, t.ta[0])
    law = ((hashmap.to_func(I, v).tag,), lambda x: b_imp(hashmap.to_func(I, P.load(lv)).has(x), z3.ULE(x, n)), "lines to visit are lines of the module, or its end")
    return (lv, lambda: hashmap.sym_map(I, t, "visit")), law


def first_pass(g):
    """Module::RunFirstPass: every line but an .equ gets the address of its statement, when there is one."""
    I, P = g.I, g.P
    L = Lines(g)
    n = L.n
    t = g.type("nsasm::Module")
    this = P.alloc(Rec(t.key, {k: L.seq if k == "lines_" else Opaque(k) for k, _ in I.fields(t)}, t.tn))
    lines = this.sub(("f", "lines_"))
    err = some(g, "error")
    has0, val0 = L.has, L.val
    isorg, isequ = (lambda i: L.isdir(i, "org")), (lambda i: L.isdir(i, "equ"))
    eok, ev = P.fresh_fn("evaluates", [B64], z3.BoolSort()), P.fresh_fn("origin", [B64], B32)
    # the location counter before each line, by recursion over the lines
    ph, pc = P.fresh_fn("has address", [B64], z3.BoolSort()), P.fresh_fn("address", [B64], B32)
    at_h = lambda i: b_or(ph(i), isorg(i))
    at = lambda i: z3.If(zb(isorg(i)), ev(i), pc(i))
    nxt = lambda i: (at(i) & 0xff0000) | ((at(i) + L.size(i)) & 0xffff)
    P.assume(b_not(ph(bv(0, 64))))
    P.fact(("idx",), lambda i: b_imp(ult(i, n), b_and(eq(ph(i + 1), zb(at_h(i))), b_imp(at_h(i), pc(i + 1) == nxt(i)))))
    P.fact(("idx",), lambda i: b_imp(ult(i, n), z3.And(L.size(i) >= 0, L.size(i) <= 65536)))
    q = g.fresh("line", 64)
    P.touch("idx", q)
    idx = lambda c: touched(P, L.of(c))
    fresh_ok = lambda what: (lambda c: result(c, P.fresh(what, z3.BoolSort()), err, void=True))
    some_of = lambda what: (lambda c: I.sym(c.rt, what))
    isbra = P.fresh_fn("local branch", [B64], z3.BoolSort())
    t64 = g.type("nsasm::ExecutionState")

    def state_out(what):
        def f(c):
            c.P.write(c.arg(0).lv, I.sym(t64, what))
            return result(c, P.fresh(what + " ok", z3.BoolSort()), err, void=True)
        return f

    def target(c):
        v = P.fresh("target", B32)
        ok = P.fresh("found", z3.BoolSort())
        P.assume(b_imp(ok, ult(z3.SignExt(32, v), n)))      # LocalIndex and the laws of the names (assumed)
        return result(c, ok, err, v)

    def evaluate(c):
        i = touched(P, c.P.load(c.obj).f["$line"])
        return result(c, eok(i), err, ev(i))
    I.contracts.update({
        "nsasm::Statement::Execute": state_out("execute"), "nsasm::Instruction::ExecuteBranch": state_out("branch"),
        "nsasm::Statement::IsExitInstruction": some_of("exit"), "nsasm::Instruction::IsLocalBranch": lambda c: isbra(idx(c)),
        "nsasm::Statement::Location": some_of("location"), "nsasm::Module::LocalIndex": target,
        "nsasm::ExecutionState::operator==": some_of("same state"), "nsasm::ExecutionState::Flags": lambda c: P.alloc(I.sym(g.type("nsasm::StatusFlags"), "flags")),
        "nsasm::Instruction::FixAddressingMode": fresh_ok("mode"), "nsasm::Statement::SerializedSize": lambda c: L.size(idx(c)),
        "nsasm::ExpressionOrNull::SimpleIdentifier": some_of("identifier"), "nsasm::ToString": some_of("text"), "nsasm::ExpressionOrNull::Evaluate": evaluate,
    })

    def join(c):
        c.P.write(c.obj, I.sym(t64, "joined"))
        return c.obj
    I.contracts["nsasm::ExecutionState::operator|="] = join

    def family(k):
        """The lines with other visits and values."""
        M = copy.copy(L)
        M.rest = dict(L.rest)
        M.rest[L.t.tn, "incoming_state"] = I.symfn(t64, "incoming", [B64])
        M.reached = P.fresh_fn("reached", [B64], z3.BoolSort())
        if k:
            M.has, M.val = P.fresh_fn("has value", [B64], z3.BoolSort()), P.fresh_fn("value", [B64], B32)
        return Seq(n=n, fn=M.line, et=L.t, ver=newver())

    def now(i):
        r = P.load(lines).get(i)
        v = r.f["value"]
        return r, v.has, (bv(v.v.f["value_"], 32) if v.v is not None else bv(0, 32))

    def same(i):
        r, h, v = now(i)
        st = r.f["statement"]
        d = st.f["data_"]
        al = d.alts
        return b_and(eq(bv(P.load(lines).n, 64), n), b_imp(ult(i, n), b_and(r.f["$line"] == i, st.f["$line"] == i,
                     eq(bv(d.idx, 64), z3.If(zb(L.kind(i)), z3.BitVecVal(L.alt[1], 64), z3.BitVecVal(L.alt[0], 64))),
                     b_imp(L.kind(i), b_and(al[L.alt[1]].f["name"] == L.dn(i), al[L.alt[1]].f["argument"].f["$line"] == i)))))

    def plain(i):
        _, h, v = now(i)
        return b_imp(ult(i, n), b_and(eq(zb(h), zb(has0(i))), v == val0(i)))

    def loop(I, Lp):
        if once_only(Lp):
            return None
        ch = changed(I, Lp)
        keep = (("idx",), same, "the statements stay")
        stay = (("idx",), plain, "the values stay")
        if any(is_counter(P, r) for r, _ in ch):
            def laws(i):
                p = i.pos()
                return [keep,
                        (("idx",), lambda k: b_imp(b_and(ult(k, p), b_not(isequ(k)), at_h(k)), b_and(now(k)[1], now(k)[2] == at(k), z3.ULT(at(k), 1 << 24))), "the lines passed have their addresses"),
                        (("idx",), lambda k: b_imp(b_or(z3.UGE(k, p), isequ(k), b_not(at_h(k))), plain(k)), "the others their values"),
                        (("idx",), lambda k: b_imp(b_and(ult(k, p), L.size(k) > 0), at_h(k)), "what takes bytes has an address"),
                        ((), lambda: b_imp(ph(p), z3.ULT(pc(p), 1 << 24)), "addresses have 24 bits"),
                        ((), lambda: counter(p), "the location counter")]
            at_ = g.type("nsasm::Address")
            pcs = pcell(P)

            def counter(p):
                o = P.load(pcs)
                return b_and(eq(zb(o.has), ph(p)), b_imp(o.has, (bv(o.v.f["value_"], 32) if o.v is not None else bv(0, 32)) == pc(p)))
            cells = [(lines, lambda: family(True)), (pcs, lambda: OptV(P.fresh("known", z3.BoolSort()), Rec(at_.key, {"value_": P.fresh("counter", B32)}, at_.tn)))]
            return QInv(g, I, Lp, cells, laws)
        cell, law = inside(I, P, n)
        return QInv(g, I, Lp, [(lines, lambda: family(False)), cell], lambda i: [keep, stay, law])
    I.hoare = loop
    r = g.call("nsasm::Module::RunFirstPass", this)
    ok, _ = errorval(r)
    g.cover("succeeds", ok)
    g.cover("fails", b_not(ok))
    if not P.branch(ok):
        return
    P.assume(ult(q, n))
    _, h, v = now(q)
    g.cover("an address", at_h(q))
    if P.branch(isequ(q)):
        g.ensure(plain(q), ".equ lines get no address")
    elif P.branch(at_h(q)):
        g.ensure(b_and(h, v == at(q)), "a line's value is the address of its statement")
        g.ensure(z3.ULT(v, 1 << 24), "which has 24 bits")
    else:
        g.ensure(plain(q), "no address before an .org")
        g.ensure(L.size(q) == 0, "nothing is assembled there")


def touched(P, i):
    P.touch("idx", i)
    return i


def is_counter(P, r):
    t = P.ctype.get(r)
    return isinstance(P.store.get(r), OptV) and t is not None and bool(t.strip().ta) and str(t.strip().ta[0].strip().tn) == "nsasm::Address"


def pcell(P):
    """The location counter: the newest optional address among the locals."""
    for r, v in sorted(((r, v) for r, v in P.store.items() if isinstance(r, int)), reverse=True):
        if is_counter(P, r):
            return LV(r)
    raise Undecided("the location counter")


def second_pass(g):
    """Module::RunSecondPass: each .equ line without a value gets that of its expression, the lines in order."""
    I, P = g.I, g.P
    L = Lines(g)
    n = L.n
    t = g.type("nsasm::Module")
    this = P.alloc(Rec(t.key, {k: L.seq if k == "lines_" else Opaque(k) for k, _ in I.fields(t)}, t.tn))
    lines = this.sub(("f", "lines_"))
    err = some(g, "error")
    eok, ev = P.fresh_fn("evaluates", [B64], z3.BoolSort()), P.fresh_fn("expression", [B64], B32)
    DONE = P.alloc(Opaque("evaluated", z3.BitVecVal(0, 64)))     # lines before this one have been evaluated
    ct = g.type("nsasm::LookupContext")
    ext = P.alloc(Rec(ct.key, {}, ct.tn))
    todo = lambda i: b_and(L.isdir(i, "equ"), b_not(L.has(i)))

    def evaluate(c):
        a = c.P.load(c.obj).f
        i = touched(P, a["$line"])
        d = c.P.load(DONE).data
        g.ensure(a["$arg"] == 0, "the expression of the .equ is evaluated")
        g.ensure(b_and(todo(i), z3.UGE(i, d)), "each .equ is evaluated once, in order")
        c.P.write(DONE, Opaque("evaluated", z3.simplify(i + 1)))
        x = c.args[0]
        x = c.P.load(x) if isinstance(x, LV) else x
        ps = list(x.f.values())
        own = lines.sub(("e", i), ("f", "active_scopes"))
        g.ensure(b_or(*[lv_same(p.lv, this) for p in ps if isinstance(p, Ptr)]), "names are looked up in this module")
        g.ensure(b_or(*[lv_same(p.lv, own) for p in ps if isinstance(p, Ptr)]), "in the scopes of the line")
        g.ensure(b_or(*[lv_same(p.lv, ext) for p in ps if isinstance(p, Ptr)]), "and outside by the context given")
        return result(c, eok(i), err, ev(i))
    I.contracts["nsasm::ExpressionOrNull::Evaluate"] = evaluate
    I.contracts["nsasm::Statement::Location"] = lambda c: I.sym(c.rt, "location")

    def family():
        M = copy.copy(L)
        M.has, M.val = P.fresh_fn("has value", [B64], z3.BoolSort()), P.fresh_fn("value", [B64], B32)
        return Seq(n=n, fn=M.line, et=L.t, ver=newver())

    def now(i):
        v = P.load(lines).get(i).f["value"]
        return v.has, (bv(v.v.f["value_"], 32) if v.v is not None else bv(0, 32))

    def want(i, p):
        h, v = now(i)
        d = b_and(todo(i), ult(i, p))
        return b_imp(ult(i, n), b_and(eq(zb(h), zb(b_or(L.has(i), d))), b_imp(d, v == ev(i)), b_imp(L.has(i), v == L.val(i))))

    def loop(I, Lp):
        if once_only(Lp):
            return None

        def laws(i):
            p = i.pos()
            return [(("idx",), lambda k: want(k, p), "the .equ lines passed have their values, the others what they had"),
                    ((), lambda: z3.ULE(P.load(DONE).data, p), "evaluated in order")]
        return QInv(g, I, Lp, [(lines, family), (DONE, lambda: Opaque("evaluated", P.fresh("evaluated", B64)))], laws)
    I.hoare = loop
    q = g.fresh("line", 64)
    P.touch("idx", q)
    r = g.call("nsasm::Module::RunSecondPass", this, ext)
    ok, _ = errorval(r)
    g.cover("succeeds", ok)
    g.cover("fails", b_not(ok))
    if P.branch(ok):
        P.assume(ult(q, n))
        g.ensure(want(q, n), "every .equ line has the value of its expression, no other line has changed")


def newest_it(P):
    """The iterator a loop begins with: the last one at the beginning."""
    for r in sorted((r for r in P.store if isinstance(r, int)), reverse=True):
        v = P.store[r]
        if isinstance(v, It) and str(v.i) == "0":
            return [(LV(r), v)]
    return []


def numbers(P):
    """Local counters."""
    return [(LV(r), bv(v, 32)) for r, v in P.store.items() if isinstance(r, int) and P.ctype.get(r) is not None and P.ctype[r].strip().k == "int" and P.ctype[r].strip().w == 32 and isinstance(v, int) and not isinstance(v, bool)]


class Program:
    """What a file holds: statement number l is a directive or an instruction; before it stand nlab(l) labels.  Statements
    and labels are numbered as they come (every number once), so that the parser's output may be anything."""

    def __init__(s, g):
        I, P = g.I, g.P
        s.g, s.L = g, Lines(g)
        L = s.L
        fn = lambda n, d, r: P.fresh_fn(n, d, r)
        s.nlab, s.depth, s.stk = fn("labels", [B64], B64), fn("depth", [B64], B64), fn("scope", [B64, B64], B64)
        lt = g.type("nsasm::ParsedLabel")
        s.lt, s.lft = lt, dict(I.fields(lt))
        s.plus = fn("plus", [B64, B64], z3.BitVecSort(s.lft["plus_or_minus_"].strip().w))
        s.name, s.exp = fn("name", [B64, B64], INT), fn("exported", [B64, B64], z3.BoolSort())
        s.len = fn("length", [B64, B64], B64)
        s.slot = {b: fn("slot", [B64, INT], B64) for b in (True, False)}
        s.begin, s.end = (lambda l: L.isdir(l, "begin")), (lambda l: L.isdir(l, "end"))
        puncts = g.prog.enums["nsasm::Punctuation"]
        s.none = int(puncts["P_none"])
        # the open brackets before each statement, by recursion
        P.assume(s.depth(bv(0, 64)) == 0)
        P.fact(("idx",), lambda l: b_imp(ult(l, L.n), s.depth(l + 1) == z3.If(zb(s.begin(l)), s.depth(l) + 1, z3.If(zb(s.end(l)), s.depth(l) - 1, s.depth(l)))))
        mod.KEYSORT["entity"] = mod.KEYSORT["slot"] = mod.KEYSORT["level"] = B64
        P.fact(("idx", "level"), lambda l, k: b_imp(ult(l, L.n), s.stk(l + 1, k) == z3.If(zb(b_and(s.begin(l), k == s.depth(l))), l, s.stk(l, k))))

        # the first label of a statement that has the name, among those that are (not) global
        def choice(l, t):
            c = []
            for b in (True, False):
                f = s.slot[b](l, s.name(l, t))
                c.append(b_imp(b_and(ult(t, s.nlab(l)), s.ident(l, t), eq(zb(s.glob(l, t)), b)), b_and(z3.ULE(f, t), s.declares(l, s.name(l, t), b))))
            return b_and(*c)
        P.fact(("idx", "slot"), choice)

    def ident(s, l, t):
        return s.plus(l, t) == s.none

    def glob(s, l, t):
        return b_or(s.exp(l, t), s.depth(l) == 0)

    def declares(s, l, x, b):
        f = s.slot[b](l, x)
        return b_and(ult(f, s.nlab(l)), s.ident(l, f), s.name(l, f) == x, eq(zb(s.glob(l, f)), b))

    def label(s, l, t):
        f = {"plus_or_minus_": s.plus(l, t), "name_": StrV([("o", "label", s.name(l, t), s.len(l, t))]), "exported_": s.exp(l, t)}
        return Rec(s.lt.key, {n: f[n] for n in s.lft}, s.lt.tn)


class Laws(QInv):
    """Laws proved each apart; a goal proves its share of them, assuming all (the goals together prove all)."""
    scoped = True
    share = None

    def prove(s, when):
        laws = s.laws
        s.laws = lambda q: [l for l in laws(q) if s.share(l[2])]
        try:
            QInv.prove(s, when)
        finally:
            s.laws = laws


INSCOPE = "what a scope defines is a label written directly in it"
GLOBALS = "what is defined globally is a label written outside or exported"
NAMES = "labels outside or exported are global names"
OTHERS = "the others are in their scopes"
ONCE = "each name once"
SHARES = {"labels in scopes": INSCOPE, "global labels": GLOBALS, "exports are global": NAMES, "labels enter their scope": OTHERS, "no duplicates": ONCE}


def loading(part):
    def go(g):
        load(g, part)
    go.__doc__ = load.__doc__
    return go


def load(g, part):
    """Module::LoadAsmFile: each label names its statement in the scope it is written in; brackets match."""
    share = (lambda text: text == SHARES[part]) if part in SHARES else (lambda text: text not in SHARES.values())
    I, P = g.I, g.P
    Q = Program(g)
    L = Q.L
    top = L.n           # statements in the file; more than any loaded
    mt = g.type("nsasm::Module")
    ft = dict(I.fields(mt))
    smap = ft["global_to_line_"].strip()
    lft = L.ft
    et = lft["active_scopes"].strip().ta[0].strip()
    KEY = "key:" + smap.ta[0].strip().s.replace("const ", "")
    DEP = "key:" + ft["dependencies_"].strip().ta[0].strip().s.replace("const ", "")
    hashmap.key_sort(I, ft["dependencies_"].strip().ta[0])
    uses = P.fresh_fn("uses", [B64, INT], z3.BoolSort())
    err = some(g, "error")
    seen = {}
    ents = lambda k: seen["all"](k)

    def parse(c):
        v = c.rt.ta[0].strip()
        vt = v.ta[0].strip()
        a = {str(x.strip().tn): j for j, x in enumerate(vt.ta)}
        si, li = a["nsasm::Statement"], a["nsasm::ParsedLabel"]
        isst = P.fresh_fn("is a statement", [B64], z3.BoolSort())
        num, at = P.fresh_fn("number", [B64], B64), P.fresh_fn("place", [B64], B64)

        def ent(isst, num, at):
            def f(p):
                p = bv(p, 64)
                alts = [None, None]
                alts[si], alts[li] = L.line(num(p)).f["statement"], Q.label(num(p), at(p))
                return VarV(merge(isst(p), z3.BitVecVal(si, 64), z3.BitVecVal(li, 64)), tuple(alts))
            return f
        n = P.fresh("entities", B64)
        P.assume(z3.ULE(n, 1 << 31))
        seen.update({"isst": isst, "num": num, "at": at, "n": n, "ent": ent, "all": ent(isst, num, at), "alts": (si, li)})
        return result(c, P.fresh("parsed", z3.BoolSort()), err, Seq(n=n, fn=ents, et=vt, ver=newver()))

    def names(c):
        i = touched(P, c.P.load(c.obj).f["$line"])
        return hashmap.MapV(c.rt.strip(), lambda x: uses(i, x), lambda x: None)
    I.contracts.update({
        "nsasm::Tokenize": lambda c: result(c, P.fresh("tokens", z3.BoolSort()), err, Seq(n=P.fresh("tokens", B64), fn=lambda i: Opaque("token"), et=c.rt.ta[0].strip().ta[0], ver=newver())),
        "nsasm::Parse": parse,
        "nsasm::ExpressionOrNull::SimpleIdentifier": lambda c: I.sym(c.rt, "identifier"),
        "nsasm::ExpressionOrNull::ExternalNamesReferenced": names,
        "nsasm::ToString": lambda c: I.sym(c.rt, "text"),
        "nsasm::Statement::Location": lambda c: I.sym(c.rt, "location"),
        "nsasm::Location::Update": lambda c: None,
    })
    want = {}

    def find():
        for r, v in sorted(((r, v) for r, v in P.store.items() if isinstance(r, int)), reverse=True):
            t = P.ctype.get(r)
            t = t.strip() if t is not None else None
            if isinstance(v, Rec) and v.tn == "nsasm::Module" and "m" not in want:
                want["m"] = LV(r)
            elif isinstance(v, Seq) and t is not None and t.tn == "std::vector":
                k = {"nsasm::ParsedLabel": "pending", "int": "active"}.get(t.ta[0].strip().tn or t.ta[0].strip().s)
                if k and k not in want:
                    want[k] = LV(r)
        if len(want) != 3:
            raise Undecided("the variables of the loader")

    class State:
        def __init__(s):
            m = P.load(want["m"]).f
            s.lines, s.g = m["lines_"], hashmap.to_func(I, m["global_to_line_"])
            s.dep = hashmap.to_func(I, m["dependencies_"])
            s.pend, s.act = P.load(want["pending"]), P.load(want["active"])
            s.n, s.np, s.na = bv(s.lines.n, 64), bv(s.pend.n, 64), bv(s.act.n, 64)
            s.made = {}

        def once(s, what, l, fn):
            """fn(), made once for each l."""
            k = (what, l if isinstance(l, int) else l.get_id())
            if k not in s.made:
                rec, P.rectouch = P.rectouch, []
                try:
                    r = fn()
                finally:
                    tt, P.rectouch = P.rectouch, rec
                if rec is not None:
                    rec.extend(tt)
                s.made[k] = (l, r, tt)
            else:
                for t, x in s.made[k][2]:
                    P.touch_raw(t, x)
            return s.made[k][1]

        def line(s, l):
            if s.lines.items is not None and not s.lines.items:
                return None
            return s.once("line", l, lambda: s.lines.get(l).f)

        def local(s, l):
            x = s.line(l)
            return None if x is None else s.once("local", l, lambda: hashmap.to_func(I, x["scoped_locals"]))

    w64 = lambda x: z3.SignExt(32, bv(x, 32))

    def same(s, l):
        x = s.line(l)
        if x is None:
            return True
        st = x["statement"]
        d = st.f["data_"]
        o = d.alts[L.alt[1]]
        return b_and(st.f["$line"] == l, eq(bv(d.idx, 64), z3.If(zb(L.kind(l)), z3.BitVecVal(L.alt[1], 64), z3.BitVecVal(L.alt[0], 64))),
                     b_imp(L.kind(l), b_and(o.f["name"] == L.dn(l), o.f["argument"].f["$line"] == l)))

    def scopes(s, l, k):
        x = s.line(l)
        if x is None:
            return True
        a = x["active_scopes"]
        e = True if a.items is not None and not a.items else b_imp(ult(k, Q.depth(l)), w64(a.get(k)) == Q.stk(l, k))
        return b_and(bv(a.n, 64) == Q.depth(l), e, b_imp(ult(k, Q.depth(l)), ult(Q.stk(l, k), l)))

    def innermost(l):
        x = z3.simplify(Q.stk(l, z3.simplify(Q.depth(l) - 1)))
        return x

    def entered(s, l, t, part):
        """Label t of statement l is in its scope."""
        x = Q.name(l, t)
        if mode["prove"]:
            P.touch_raw(KEY, x)
        top_ = innermost(l)
        if mode["prove"]:
            P.touch("idx", top_)
            P.touch_raw("level", z3.simplify(Q.depth(l) - 1))
            for b in (True, False):
                P.touch_raw("slot", Q.slot[b](l, x))
        m = s.local(top_)
        loc = b_and(m._has(x), w64(m._get(x)) == l) if m is not None else False
        glo = b_and(s.g._has(x), w64(s.g._get(x) if s.g._get(x) is not None else 0) == l)
        return {"global": lambda: b_imp(Q.glob(l, t), glo), "local": lambda: b_or(Q.glob(l, t), loc),
                "unique": lambda: b_and(*[b_imp(eq(zb(Q.glob(l, t)), b), Q.slot[b](l, x) == t) for b in (True, False)])}[part]()

    def common(s, upto, own=None):
        """upto: the statements whose labels are in; own: how many labels of the next one are"""
        def localsok(l, x):
            m = s.local(l)
            if m is None:
                return True
            v = w64(m._get(x)) if m._get(x) is not None else bv(0, 64)
            if mode["prove"]:
                P.touch("idx", z3.simplify(v))
            return b_imp(b_and(ult(l, s.n), m._has(x)), b_and(ult(v, s.n), Q.declares(v, x, False), Q.depth(v) != 0, innermost(v) == l))

        def globalok(x):
            v = s.g._get(x)
            v = w64(v) if v is not None else bv(0, 64)
            if mode["prove"]:
                P.touch("idx", z3.simplify(v))
            return b_imp(s.g._has(x), b_and(ult(v, s.n), Q.declares(v, x, True)))

        def inside_(l, t, part):
            c = ult(l, upto)
            if own is not None:
                c = b_or(c, b_and(l == upto, ult(t, own)))
            return b_imp(b_and(c, ult(t, Q.nlab(l)), Q.ident(l, t)), entered(s, l, t, part))
        return [(("idx",), lambda l: b_imp(ult(l, s.n), same(s, l)), "the lines are the statements in order"),
                (("idx", "level"), lambda l, k: b_imp(ult(l, upto), scopes(s, l, k)), "with the scopes they are in"),
                (("level",), lambda k: b_imp(ult(k, Q.depth(upto)), ult(Q.stk(upto, k), upto)), "scopes are opened before"),
                (("idx",), lambda l: b_imp(b_and(ult(l, upto), Q.end(l)), Q.depth(l) != 0), "no scope is closed that is not open"),
                (("idx", KEY), localsok, INSCOPE),
                ((KEY,), globalok, GLOBALS),
                (("idx", "slot"), lambda l, t: inside_(l, t, "global"), NAMES),
                (("idx", "slot"), lambda l, t: inside_(l, t, "local"), OTHERS),
                (("idx", "slot"), lambda l, t: inside_(l, t, "unique"), ONCE),
                ((), lambda: z3.ULE(s.n, top), "no more lines than statements")]

    def stack(s, upto):
        return [((), lambda: s.na == Q.depth(upto), "the open scopes, how many"),
                (("level",), lambda k: True if s.act.items is not None and not s.act.items else b_imp(ult(k, s.na), w64(s.act.get(k)) == Q.stk(upto, k)), "the open scopes")]

    def waiting(s, l):
        def f(t):
            if s.pend.items is not None and not s.pend.items:
                return True
            x = s.once("pending", t, lambda: s.pend.get(t).f)
            return b_imp(ult(t, s.np), b_and(x["plus_or_minus_"] == Q.plus(l, t), str_code(x["name_"]) == Q.name(l, t), eq(zb(x["exported_"]), Q.exp(l, t))))
        return [(("slot",), f, "the labels waiting for their statement")]

    def lines_():
        M = copy.copy(L)
        M.rest = dict(L.rest)
        h, v = P.fresh_fn("local", [B64, INT], z3.BoolSort()), P.fresh_fn("local at", [B64, INT], B32)
        d, e = P.fresh_fn("scopes", [B64], B64), P.fresh_fn("scope of line", [B64, B64], B32)
        il, pl = lft["identifier_labels"].strip(), lft["plus_minus_labels"].strip()
        nl, sl, cl = P.fresh_fn("own labels", [B64], B64), P.fresh_fn("own label", [B64, B64], INT), P.fresh_fn("length", [B64, B64], B64)
        ps = hashmap.key_sort(I, pl.ta[0])
        pm = P.fresh_fn("plus labels", [B64, ps], z3.BoolSort())
        M.over = {"scoped_locals": lambda i: hashmap.MapV(smap, lambda x: h(i, x), lambda x: v(i, x)),
                  "active_scopes": lambda i: Seq(n=d(i), fn=lambda k: e(i, bv(k, 64)), et=et, ver=newver()),
                  "identifier_labels": lambda i: Seq(n=nl(i), fn=lambda k: StrV([("o", "own", sl(i, bv(k, 64)), cl(i, bv(k, 64)))]), et=il.ta[0], ver=newver()),
                  "plus_minus_labels": lambda i: hashmap.MapV(pl, lambda x: pm(i, x), lambda x: None)}
        P.fact(("idx",), lambda i: z3.ULE(nl(i), 1 << 40))
        n = P.fresh("lines so far", B64)
        P.assume(z3.ULE(n, 1 << 31))
        return Seq(n=n, fn=M.line, et=L.t, ver=newver())

    def pend_():
        u, v = P.fresh("waiting for", B64), P.fresh("waiting", B64)
        a, b, c, d = (P.fresh_fn(x, [B64], r) for x, r in (("plus", z3.BitVecSort(Q.lft["plus_or_minus_"].strip().w)), ("name", INT), ("length", B64), ("exported", z3.BoolSort())))
        f = lambda k: {"plus_or_minus_": a(k), "name_": StrV([("o", "label", b(k), c(k))]), "exported_": d(k)}
        return Seq(n=v, fn=lambda k: Rec(Q.lt.key, {n: f(bv(k, 64))[n] for n in Q.lft}, Q.lt.tn), et=Q.lt, ver=newver())

    def act_():
        f = P.fresh_fn("open", [B64], B32)
        return Seq(n=P.fresh("open scopes", B64), fn=lambda k: f(bv(k, 64)), et=et, ver=newver())

    fld = lambda n: want["m"].sub(("f", n))
    glob_ = lambda: hashmap.MapV(smap, *(lambda h, v: (lambda x: h(x), lambda x: v(x)))(P.fresh_fn("global", [INT], z3.BoolSort()), P.fresh_fn("global at", [INT], B32)))
    name_ = lambda: StrV([("o", "module", P.fresh("module name", INT), P.fresh("length", B64))])

    def cells(*ks):
        c = {"lines": (fld("lines_"), lines_), "global": (fld("global_to_line_"), glob_), "name": (fld("module_name_"), name_),
             "pending": (want["pending"], pend_), "active": (want["active"], act_),
             "dep": (fld("dependencies_"), lambda: hashmap.sym_map(I, ft["dependencies_"], "dependencies"))}
        return [c[k] for k in ks]

    def inv(q):
        q.share = share
        return q

    def loop(I, Lp):
        if once_only(Lp):
            return None
        if not want:
            find()
        its = newest_it(P)
        if not its:
            raise Undecided("a loop without iterator")
        over = its[0][1].lv
        kind = {"std::basic_string": "file", "std::variant": "entities", "absl::variant": "entities", "nsasm::ParsedLabel": "pending", "nsasm::Module::Line": "lines"}.get(str(P.load(over).et.strip().tn))
        ALL = ("lines", "global", "name", "pending", "active")
        if kind == "file":
            ns = numbers(P)

            def laws(q):
                s = State()
                return common(s, s.n) + stack(s, s.n) + waiting(s, s.n) + [((), lambda: b_and(*[wide(P.load(lv)) == q.pos() for lv, _ in ns]), "lines are counted")]
            q = inv(Laws(g, I, Lp, cells(*ALL), laws, own=its + ns))
            q.start = lambda: P.touch_raw("level", z3.simplify(State().na - 1))
            return q
        if kind == "entities":
            def laws(q):
                s = State()
                p = q.pos()
                es = P.load(over)

                def left(k, part):
                    e, o = es.get(k), ents(k)
                    si, li = seen["alts"]
                    a, b = e.alts[li].f, o.alts[li].f
                    st = e.alts[si].f
                    d = st["data_"]
                    i = o.alts[si].f["$line"]
                    dr = d.alts[L.alt[1]]
                    c = b_and(z3.UGE(k, p), ult(k, seen["n"]))
                    parts = {"kind": lambda: eq(bv(e.idx, 64), bv(o.idx, 64)), "sign": lambda: a["plus_or_minus_"] == b["plus_or_minus_"], "name": lambda: str_code(a["name_"]) == str_code(b["name_"]),
                             "exported": lambda: eq(zb(a["exported_"]), zb(b["exported_"])), "statement": lambda: st["$line"] == i,
                             "instruction or directive": lambda: eq(bv(d.idx, 64), z3.If(zb(L.kind(i)), z3.BitVecVal(L.alt[1], 64), z3.BitVecVal(L.alt[0], 64))),
                             "directive": lambda: b_imp(L.kind(i), b_and(dr.f["name"] == L.dn(i), dr.f["argument"].f["$line"] == i))}
                    return b_imp(c, parts[part]())
                return common(s, s.n) + stack(s, s.n) + waiting(s, s.n) + [(("entity",), lambda k, x=x: left(k, x), "the entities still to come: " + x) for x in ("kind", "sign", "name", "exported", "statement", "instruction or directive", "directive")] + [((), lambda: bv(es.n, 64) == seen["n"], "as many as parsed")]

            def some_entities():
                num, at, isst = P.fresh_fn("number", [B64], B64), P.fresh_fn("place", [B64], B64), P.fresh_fn("is a statement", [B64], z3.BoolSort())
                cut = P.fresh("cut", B64)
                seen["cut"] = cut
                old = seen["ent"](isst, num, at)
                P.write(over, Seq(n=seen["n"], fn=lambda k: merge(z3.UGE(bv(k, 64), cut), ents(k), old(k)), et=P.load(over).et, ver=newver()))
                return P.load(whole)
            whole = LV(over.root, over.path[:1])
            q = inv(Laws(g, I, Lp, cells(*ALL) + [(whole, some_entities)], laws, own=its))

            def start():
                s = State()
                p = q.pos()
                P.assume(seen["cut"] == p)
                P.touch_raw("entity", z3.simplify(p))
                st = seen["isst"](p)
                # statements and labels are numbered as they come
                P.assume(b_and(seen["num"](p) == s.n, b_imp(b_not(st), seen["at"](p) == s.np), b_imp(st, Q.nlab(s.n) == s.np), ult(s.n, top)))
                for x in (s.n, innermost(s.n)):
                    P.touch("idx", x)
                P.touch_raw("slot", s.np)
                P.touch_raw("level", z3.simplify(Q.depth(s.n) - 1))
                P.touch_raw("level", Q.depth(s.n))
            q.start = start
            return q
        if kind == "pending":
            first = State()
            before = first.line(z3.simplify(first.n - 1))

            def kept(s, c, k):
                a, b = s.line(c)["active_scopes"], before["active_scopes"]
                n = eq(bv(a.n, 64), bv(b.n, 64))
                return n if any(x.items is not None and not x.items for x in (a, b)) else b_and(n, b_imp(ult(k, bv(b.n, 64)), bv(a.get(k), 32) == bv(b.get(k), 32)))

            def laws(q):
                s = State()
                c = z3.simplify(s.n - 1)
                return common(s, c, q.pos()) + stack(s, c) + waiting(s, c) + [((), lambda: b_and(s.n == first.n, s.n != 0, Q.nlab(c) == s.np), "the statement of the labels is there")] + [(("level",), lambda k: kept(s, c, k), "the scopes of the statement are left alone")]
            q = inv(Laws(g, I, Lp, cells("lines", "global"), laws, own=its))

            def at_label():
                P.touch_raw("slot", q.pos())
            q.start = at_label
            return q

        def laws(q):
            s = State()
            p = q.pos()
            return [(("idx", DEP), lambda l, x: b_imp(b_and(ult(l, p), L.isdir(l, "equ"), uses(l, x)), s.dep.has(x)), "what the .equ lines passed need is listed")]
        return inv(Laws(g, I, Lp, cells("dep"), laws))
    I.hoare = loop
    t = g.type("nsasm::File")
    file = P.alloc(Rec(t.key, {n: StrV([("o", "path", P.fresh("path", INT), P.fresh("length", B64))]) if n == "path_" else I.symseq(fx.strip().ta[0], n, maxlen=(1 << 31) - 2) for n, fx in I.fields(t)}, t.tn))
    r = g.call("nsasm::Module::LoadAsmFile", None, file)
    ok, m = errorval(r)
    g.cover("succeeds", ok)
    g.cover("fails", b_not(ok))
    if not P.branch(ok):
        return
    m = P.load(m) if isinstance(m, LV) else m
    want["m"] = P.alloc(m)
    s = State()
    l, t, k = g.fresh("line", 64), g.fresh("label", 64), g.fresh("k", 64)
    x, y = P.fresh("name", INT), P.fresh("needed", INT)
    def law(tags, body, text):
        a = {(): (), ("idx",): (l,), ("idx", "slot"): (l, t), ("level",): (k,), ("idx", "level"): (l, k), ("idx", KEY): (l, x), (KEY,): (x,), ("idx", DEP): (l, y)}[tags]
        for tag, b in zip(tags, a):
            P.touch_raw(tag, b)
        mode["prove"] = True
        try:
            c = body(*a)
        finally:
            mode["prove"] = False
        g.ensure(c, text)
    for x_ in common(s, s.n):
        if share(x_[2]):
            P.scoped(lambda: law(*x_))
    if part in SHARES:
        return
    P.scoped(lambda: law((), lambda: Q.depth(s.n) == 0, "all scopes are closed"))
    P.scoped(lambda: law(("idx", DEP), lambda l, y: b_imp(b_and(ult(l, s.n), L.isdir(l, "equ"), uses(l, y)), s.dep.has(y)), "the module depends on what its .equ lines need"))


def goals():
    pol = {"merge_ifs": False}
    return [Goal("Module::LocalIndex", local_index, policy=pol),
            Goal("names in an expression: local or looked up outside", lookup, policy=pol),
            Goal("names in an expression: the names it uses from outside", names_used, policy=pol),
            Goal("names in a binary expression", combined("BinaryExpression"), policy=pol),
            Goal("names in a unary expression", combined("UnaryExpression"), policy=pol),
            Goal("Module::ValueForName", exported, policy=pol),
            Goal("AssemblerLookupContext::Lookup", assembler, policy=pol),
            *[Goal("Module::LoadAsmFile: " + x, loading(x), policy=dict(pol, feas_ms=300)) for x in [*SHARES, "lines and scopes"]],
            Goal("Module::RunSecondPass", second_pass, policy=pol),
            Goal("Module::RunFirstPass: addresses", first_pass, policy=pol)]


ASSUMPTIONS = ["what Tokenize and Parse give for a line of the file is arbitrary (their contracts; C25, C26)",
               "an expression's value comes from its operands and the context it is given (C25)",
               "a statement takes at most 65536 bytes",
               "strings are compared by value; their contents are arbitrary"]

NCASES = 3000


def cases(rnd, n):
    for p, w in programs(rnd, n):
        yield c_asm(p, w)
