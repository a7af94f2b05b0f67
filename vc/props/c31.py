from .util import *
from .mod import *
from . import mod, c08, c09
from .ins import context

ID = "C31"
SRC = mod.SRC
DRIVER = "asm"


def cov(a, n, x):
    """x is one of the n bytes from a on, wrapping inside the bank"""
    return z3.And(z3.LShR(x, 16) == z3.LShR(a, 16), ((x - a) & 0xffff) < n, n > 0)


def module(g):
    """Module::Assemble: the bytes claimed are those written, none of them twice."""
    I, P = g.I, g.P
    L = Lines(g)
    x = g.fresh("x", 32)
    P.assume(z3.ULT(x, 1 << 24))
    W = P.alloc(Rec("ghost", {"n": z3.BitVecVal(0, 8)}, "ghost"))     # how often x was written (2: more than once)
    t = g.type("nsasm::Module")
    rt = g.type("nsasm::DataRange")
    m = {}
    for n, ft in I.fields(t):
        if n == "lines_":
            m[n] = L.seq
        elif n == "owned_bytes_":
            m[n] = Rec(rt.key, {"$own": z3.BoolVal(False)}, rt.tn)
        elif n in ("unnamed_targets_", "return_conventions_", "global_to_line_", "address_to_global_"):
            m[n] = hashmap.sym_map(I, ft, n) if n == "global_to_line_" else I.zero(ft)
        else:
            m[n] = Opaque(n)
    this = P.alloc(Rec(t.key, m, t.tn))
    own = lambda: P.load(this.sub(("f", "owned_bytes_"))).f["$own"]
    w = lambda: P.load(W).f["n"]
    # what goes before: the lines' sizes and addresses (C29)
    P.fact(("idx",), lambda i: b_imp(b_and(ult(i, L.n), L.size(i) != 0), z3.And(L.size(i) > 0, L.size(i) <= 65536)))
    P.fact(("idx",), lambda i: b_imp(b_and(ult(i, L.n), L.has(i), b_or(L.size(i) != 0, b_not(L.kind(i)), L.isdir(i, "entry"))), z3.ULT(L.val(i), 1 << 24)))
    P.fact(("idx",), lambda i: b_imp(b_and(ult(i, L.n), b_not(L.kind(i))), L.size(i) > 0))
    gl = m["global_to_line_"]
    P.fact((gl.tag,), lambda k: b_imp(gl.has(k), ult(z3.SignExt(32, bv(gl.get(k), 32)), L.n)))
    err = some(g, "error")

    def size(c):
        i = L.of(c)
        P.touch("idx", i)
        return L.size(i)
    I.contracts["nsasm::Statement::SerializedSize"] = size

    def assemble(c):
        i = L.of(c)
        a = bv(c.arg(0).f["value_"], 32)
        ok = c.P.fresh("assembled", z3.BoolSort())
        hit = cov(a, L.size(i), x)
        n = c.P.load(W).f["n"]
        c.P.write(W, Rec("ghost", {"n": z3.If(hit, z3.If(n == 0, z3.BitVecVal(1, 8), z3.BitVecVal(2, 8)), n)}, "ghost"))
        return result(c, ok, err, void=True)
    I.contracts["nsasm::Statement::Assemble"] = assemble

    def claim(c):
        a, n = bv(c.arg(0).f["value_"], 32), bv(c.arg(1), 32)
        c.P.oblige(z3.And(z3.ULT(a, 1 << 24), n <= 65536), "precondition", I.where(), "a claim in the address space")
        r = c.P.fresh("unclaimed", z3.BoolSort())
        o = c.P.load(c.obj).f["$own"]
        hit = cov(a, n, x)
        c.P.assume(b_imp(b_and(r, hit), b_not(o)))
        c.P.write(c.obj.sub(("f", "$own")), b_or(o, hit))
        return r
    I.contracts["nsasm::DataRange::ClaimBytes"] = claim
    I.contracts["nsasm::ExpressionOrNull::Evaluate"] = lambda c: result(c, P.fresh("evaluates", z3.BoolSort()), err, P.fresh("value", B32))
    I.contracts["nsasm::Instruction::FarBranchTarget"] = lambda c: I.sym(c.rt, "target")
    I.contracts["nsasm::Statement::Location"] = lambda c: I.sym(c.rt, "location")
    I.contracts["nsasm::ExecutionState::Flags"] = lambda c: P.alloc(I.sym(g.type("nsasm::StatusFlags"), "flags"))

    def loop(I, Lp):
        if once_only(Lp):
            return None
        fld = lambda n: (this.sub(("f", n)), lambda: I.sym(dict(I.fields(t))[n], n))
        cells = [(W, lambda: Rec("ghost", {"n": P.fresh("written", z3.BitVecSort(8))}, "ghost")),
                 (this.sub(("f", "owned_bytes_")), lambda: Rec(rt.key, {"$own": P.fresh("owned", z3.BoolSort())}, rt.tn)),
                 fld("unnamed_targets_"), fld("return_conventions_"), fld("address_to_global_")]
        return Inv(g, I, Lp, cells, lambda at: [(z3.ULE(w(), 1), "no address is written twice"), (eq(own(), w() == 1), "claimed exactly when written")])
    I.hoare = loop
    r = g.call("nsasm::Module::Assemble", this, NULL, context(g))
    ok, _ = errorval(r)
    g.cover("succeeds", ok)
    g.cover("fails", b_not(ok))
    P.assume(ok)
    g.ensure(z3.ULE(w(), 1), "no address is written twice")
    g.ensure(eq(own(), w() == 1), "the module owns exactly what it has written")


def program(g):
    """Assembler::Assemble: over all modules."""
    I, P = g.I, g.P
    n = g.fresh("modules", 64)
    P.assume(z3.ULE(n, 1 << 31))
    x = g.fresh("x", 32)
    P.assume(z3.ULT(x, 1 << 24))
    mt, at = g.type("nsasm::Module"), g.type("nsasm::Assembler")
    ft = dict(I.fields(at))
    owns = P.fresh_fn("module owns x", [B64], z3.BoolSort())
    done = P.fresh_fn("module", [B64], B64)
    W = P.alloc(Rec("ghost", {"n": z3.BitVecVal(0, 8), "last": z3.BitVecVal(0, 64)}, "ghost"))
    mods = Seq(n=n, fn=lambda i: Rec(mt.key, dict({f: Opaque(f) for f, _ in I.fields(mt)}, **{"$module": bv(i, 64)}), mt.tn), et=mt, ver=newver())
    rm = ft["memory_module_map_"]
    f = {k: Opaque(k) for k in ft}
    f.update({"modules_": mods, "memory_module_map_": Rec(rm.key, {"$used": z3.BoolVal(False)}, rm.tn)})
    this = P.alloc(Rec(at.key, f, at.tn))
    used = lambda: P.load(this.sub(("f", "memory_module_map_"))).f["$used"]
    w = lambda: P.load(W).f["n"]
    err = some(g, "error")

    def order(c):
        # contract (C30): every module once
        ok = c.P.fresh("ordered", z3.BoolSort())
        perm = c.P.fresh_fn("order", [B64], B64)
        c.P.fact(("idx",), lambda i: b_imp(ult(i, n), ult(perm(i), n)))
        c.P.fact(("idx", "idx"), lambda i, j: b_or(i == j, b_not(b_and(ult(i, n), ult(j, n))), perm(i) != perm(j)))
        v = c.rt.ta[0].strip()
        s = Seq(n=n, fn=lambda i: Ptr(this.sub(("f", "modules_"), ("e", perm(bv(i, 64))))), et=v.ta[0], ver=newver())
        return result(c, ok, err, s)
    I.contracts["nsasm::Assembler::FindAssemblyOrder"] = order

    def which(c):
        v = c.P.load(c.obj)
        if "$module" not in v.f:
            raise Unsupported("an unknown module")
        return v.f["$module"]
    for k in ("RunFirstPass", "RunSecondPass"):
        I.contracts["nsasm::Module::" + k] = lambda c: result(c, c.P.fresh("pass", z3.BoolSort()), err, void=True)

    def assemble(c):
        j = which(c)
        o = c.P.load(W).f
        c.P.write(W, Rec("ghost", {"n": z3.If(owns(j), z3.If(o["n"] == 0, z3.BitVecVal(1, 8), z3.BitVecVal(2, 8)), o["n"]), "last": j}, "ghost"))
        return result(c, c.P.fresh("assembled", z3.BoolSort()), err, void=True)
    I.contracts["nsasm::Module::Assemble"] = assemble
    rt = g.type("nsasm::DataRange")
    I.contracts["nsasm::Module::OwnedBytes"] = lambda c: c.P.alloc(Rec(rt.key, {"$own": b_and(owns(which(c)), c.P.load(W).f["last"] == which(c))}, rt.tn))
    I.contracts["nsasm::Module::Name"] = lambda c: I.sym(c.rt, "name")

    def insert(c):
        r = c.P.fresh("inserted", z3.BoolSort())
        own = c.arg(0).f["$own"]
        u = c.P.load(c.obj).f["$used"]
        c.P.assume(b_imp(r, b_not(b_and(u, own))))
        c.P.write(c.obj.sub(("f", "$used")), b_or(u, b_and(r, own)))
        return r
    I.contracts["nsasm::RangeMap::Insert"] = insert
    I.contracts["nsasm::RangeMap::Contains"] = lambda c: c.P.load(c.obj).f["$used"]

    def loop(I, Lp):
        if once_only(Lp):
            return None
        cells = [(W, lambda: Rec("ghost", {"n": P.fresh("written", z3.BitVecSort(8)), "last": P.fresh("last", B64)}, "ghost")),
                 (this.sub(("f", "memory_module_map_")), lambda: Rec(rm.key, {"$used": P.fresh("used", z3.BoolSort())}, rm.tn))]
        return Inv(g, I, Lp, cells, lambda at: [(z3.ULE(w(), 1), "no address is written twice"), (eq(used(), w() == 1), "owned exactly when written")])
    I.hoare = loop
    r = g.call("nsasm::Assembler::Assemble", this, NULL)
    ok, _ = errorval(r)
    g.cover("succeeds", ok)
    g.cover("fails", b_not(ok))
    P.assume(ok)
    g.ensure(z3.ULE(w(), 1), "no address is written twice")
    c = g.call("nsasm::Assembler::Contains", this, address(g, x))
    g.ensure(eq(c, w() == 1), "an address is contained exactly when it was written")


def statement(g):
    """A statement's size and bytes are those of its instruction or directive."""
    I, P = g.I, g.P
    L = Lines(g)
    i = g.fresh("i", 64)
    P.assume(ult(i, L.n))
    P.touch("idx", i)
    st = P.alloc(L.line(i).f["statement"])
    log = P.alloc(Rec("ghost", {"n": 0, "kind": z3.BoolVal(False)}, "ghost"))
    ok = g.fresh("ok", None)
    err = some(g, "error")
    a, sink, ctx = address(g, g.fresh("address", 32)), P.alloc(Rec("sink", {}, "sink")), context(g)
    sizes = {}
    for k in ("Instruction", "Directive"):
        sizes[k] = g.fresh("size of " + k, 32)
        I.contracts["nsasm::%s::SerializedSize" % k] = lambda c, k=k: sizes[k]

        def assemble(c, k=k):
            o = c.P.load(log).f["n"]
            p = c.args[2] if not isinstance(c.args[2], LV) or isinstance(c.args[2], Ptr) else c.P.load(c.args[2])
            g.ensure(val_eq(c.arg(0), a), "the address is handed on")
            g.ensure(c.args[1] is ctx or (isinstance(c.args[1], LV) and c.args[1].root == ctx.root), "the context is handed on")
            g.ensure(isinstance(p, Ptr) and p.lv.root == sink.root, "the sink is handed on")
            c.P.write(log, Rec("ghost", {"n": o + 1, "kind": z3.BoolVal(k == "Directive")}, "ghost"))
            return result(c, ok, err, void=True)
        I.contracts["nsasm::%s::Assemble" % k] = assemble
    n = g.call("nsasm::Statement::SerializedSize", st)
    g.ensure(bv(n, 32) == z3.If(L.kind(i), sizes["Directive"], sizes["Instruction"]), "the size of what the statement holds")
    r = g.call("nsasm::Statement::Assemble", st, a, ctx, Ptr(sink))
    o = P.load(log).f
    g.ensure(eq(o["n"], 1), "it is assembled once")
    g.ensure(eq(o["kind"], L.kind(i)), "what the statement holds is assembled")
    g.ensure(eq(errorval(r)[0], ok), "its result is handed on")


def address(g, v):
    t = g.type("nsasm::Address")
    return Rec(t.key, {"value_": v}, t.tn)


def goals():
    pol = {"merge_ifs": False}
    return [Goal("Module::Assemble: each byte once", module, policy=pol), Goal("Assembler::Assemble: each byte once", program, policy=pol),
            Goal("Statement: hands on to its instruction or directive", statement, policy=pol, src=["nsasm/statement.cc", "/verif/replay/inst_asm.cc"])] + \
        reuse(c08) + reuse(c09)


def reuse(m):
    """The goals that prove the contracts used here."""
    return [Goal("%s: %s" % (m.ID, x.name), x.fn, src=m.SRC, policy=x.policy) for x in m.goals()]


ASSUMPTIONS = ["an instruction or data directive writes exactly SerializedSize() bytes from its address on, wrapping inside the bank (proved in C17 and C27)",
               "a statement takes at most 65536 bytes; an instruction takes at least one once its mode is fixed (C17)",
               "labels of a module refer to its lines, and addresses of lines are 24-bit (C29)",
               "the assembler's modules are ordered each once (C30)",
               "Assemble() runs once on fresh modules, as the interface says"]

NCASES = 3000


def cases(rnd, n):
    for p, w in programs(rnd, n):
        yield c_asm(p, w)
