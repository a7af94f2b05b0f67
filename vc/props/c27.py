from .util import *
from .ins import context, Sink

ID = "C27"
SRC = ["nsasm/directive.cc", "/verif/replay/inst_directive.cc"]
DRIVER = "directive"
DN = "begin db dl dw end entry equ halt mode module org remote".split()
WIDTH = {"db": 1, "dw": 2, "dl": 3}
Q = "nsasm::Directive::"


def directive(g, name, n):
    """A directive with n listed expressions, the i-th of which evaluates to val(i) when ok(i)."""
    I, P = g.I, g.P
    t = g.type("nsasm::Directive")
    ft = dict(I.fields(t))
    fv = z3.Function("value", z3.BitVecSort(64), z3.BitVecSort(32))
    fo = z3.Function("evaluates", z3.BitVecSort(64), z3.BoolSort())
    ee = z3.Function("error", z3.BitVecSort(64), z3.BitVecSort(64))
    e = g.type("nsasm::ExpressionOrNull")
    ex = lambda n: Rec(e.key, {f: Opaque("expression " + n) for f, _ in I.fields(e)}, e.tn)
    err = g.I.sym(g.type("nsasm::Error"), "error")

    def ev(c):
        p = c.obj.path
        if len(p) >= 2 and p[-2] == ("f", "list_argument") and p[-1][0] == "e":
            i = bv(p[-1][1], 64)
            P_ = c.P
            P_.touch("idx", i)
            return Rec(c.rt.key, {"value": VarV(merge(fo(i), 1, 0), (err, fv(i)))}, c.rt.tn)
        raise Unsupported("evaluation of another expression")
    I.contracts["nsasm::ExpressionOrNull::Evaluate"] = ev
    f = {}
    for k, ty in ft.items():
        if k == "name":
            f[k] = g.prog.enums["nsasm::DirectiveName"]["D_" + name] if isinstance(name, str) else name
        elif k == "argument":
            f[k] = ex("argument")
        elif k == "list_argument":
            f[k] = Seq(n=n, fn=lambda i: ex("listed"), et=e, ver=newver())
        elif k in ("flag_state_argument", "return_convention_argument", "location"):
            f[k] = I.sym(ty, k)
        else:
            raise Unsupported("the fields of Directive")
    return P.alloc(Rec(t.key, f, t.tn)), fv, fo, err


def data(name):
    def f(g):
        I, P = g.I, g.P
        n = g.fresh("n", 64)
        P.assume(z3.ULE(n, 1 << 24))
        g.input("n", n)
        d, val, okf, err = directive(g, name, n)
        g.input("values", lambda m: [m.eval(val(z3.BitVecVal(i, 64)), model_completion=True).as_signed_long() if z3.is_true(m.eval(okf(z3.BitVecVal(i, 64)), model_completion=True)) else None
                                     for i in range(min(m.eval(n, model_completion=True).as_long(), 64))])
        a, av = addr(g, "at")
        k = Sink(g, keep=None)
        size = bv(g.call(Q + "SerializedSize", d), 32)
        r = g.call(Q + "Assemble", d, a, context(g), k.ptr)
        ok, _ = errorval(r)
        m, wa, wl, byte = k.log()
        w = WIDTH[name]
        i = g.fresh("i", 64)
        P.touch("idx", i)
        inr = z3.ULT(i, n)
        one = eq(m, 1)
        g.cover("writes", one)
        g.cover("an operand has no value", eq(m, 0))
        g.ensure(b_or(one, eq(m, 0)), "at most one write")
        g.ensure(b_imp(one, b_imp(inr, okf(i))), "nothing is written when a value cannot be evaluated")
        g.ensure(b_imp(eq(m, 0), b_not(ok)), "and an error is returned")
        g.ensure(b_imp(one, eq(ok, k.ok)), "the sink's result is handed on")
        g.ensure(b_imp(one, wa == av), "at the directive's address")
        g.ensure(z3.ZeroExt(32, size) == n * w, "the size reported is that of the list")
        g.ensure(b_imp(one, wl == z3.ZeroExt(32, size)), "as many bytes as reported")
        if P.feasible(b_and(one, inr)):
            P.assume(b_and(one, inr))
            for j in range(w):
                at = z3.simplify(i * w + j)
                P.touch("idx", at)
                g.ensure(byte(at) == z3.Extract(8 * j + 7, 8 * j, val(i)), "byte %d of each value in its place" % j)
    return f


def assembled(name):
    """All values known: the write happens."""
    def f(g):
        n = g.fresh("n", 64)
        g.P.assume(z3.ULE(n, 1 << 24))
        d, val, okf, err = directive(g, name, n)
        q = z3.BitVec("q", 64)
        g.P.assume(z3.ForAll([q], okf(q)))
        a, av = addr(g, "at")
        k = Sink(g, keep=None)
        r = g.call(Q + "Assemble", d, a, context(g), k.ptr)
        m, *_ = k.log()
        g.ensure(eq(m, 1), "values that can be evaluated are written")
    return f


def others(g):
    n = g.fresh("n", 64)
    g.P.assume(z3.ULE(n, 1 << 24))
    e = g.prog.enums["nsasm::DirectiveName"]
    name = g.fresh("name", dict(g.I.fields(g.type("nsasm::Directive")))["name"].strip().w)
    g.input("name", name)
    g.P.assume(b_or(*[name == e["D_" + x] for x in DN if x not in WIDTH]))
    d, *_ = directive(g, name, n)
    a, av = addr(g, "at")
    k = Sink(g, keep=None)
    g.ensure(eq(bv(g.call(Q + "SerializedSize", d), 32), 0), "size zero")
    r = g.call(Q + "Assemble", d, a, context(g), k.ptr)
    ok, _ = errorval(r)
    m, *_ = k.log()
    g.ensure(b_and(ok, eq(m, 0)), "nothing is written, without an error")


def goals():
    G = [Goal("." + x, data(x), rep(x)) for x in WIDTH]
    G += [Goal("." + x + " with known values", assembled(x), lambda i: [c_dir(x, 0x8000, False, [1, 2, 3]) for x in WIDTH]) for x in WIDTH]
    return G + [Goal("other directives", others, lambda i: [c_dir(x, 0x8000, False, [1, 2, 3]) for x in DN if x not in WIDTH])]


# ---- real code -------------------------------------------------------------------------
def c_dir(name, at, fail, vals):
    w = WIDTH.get(name)
    line = "dir %s %x %d ? %d %s" % (name, at, int(fail), len(vals), " ".join("?" if v is None else "v %d" % v for v in vals))
    size = len(vals) * (w or 0)
    if w is None:
        want = "0 ok"
    elif None in vals:
        want = "%d err" % size
    else:
        want = "%d %s %06x=%s" % (size, "sink" if fail else "ok", at, b"".join((v & (1 << 8 * w) - 1).to_bytes(w, "little") for v in vals).hex() or "-")
    return Case(line, want=want, nontrivial=w is not None)


def rep(name):
    return lambda i: [c_dir(name, i["at"], not i["sink.ok"], i["values"])] if i["n"] == len(i["values"]) else []


NCASES = 3000


def cases(rnd, n):
    num = lambda: rnd.choice((0, 1, 0x7f, 0x80, 0xff, 0x100, 0x1234, 0xffff, 0x10000, 0x123456, 0xffffff, 0x1000000, -1, -128, -2**31, 2**31 - 1, rnd.randrange(-2**31, 2**31)))
    for x in DN:
        for k in (0, 1, 2, 3, 17):
            yield c_dir(x, 0x8000, False, [num() for _ in range(k)])
    for _ in range(n):
        v = [num() for _ in range(rnd.choice((1, 2, 3, 5, 8, 40)))]
        if rnd.random() < .2:
            v[rnd.randrange(len(v))] = None
        yield c_dir(rnd.choice(DN[1:4] * 4 + DN), rand_addr(rnd), rnd.random() < .2, v)


ASSUMPTIONS = ["Expression::Evaluate gives a number or an error, the same one every time (C25)", "an output sink answers with success or an error and keeps no hold on the bytes",
               "at most 2^24 listed values (more do not fit the address space)"]
