from .util import *
from .. import hashmap, loops, values as V

ID = "C13"
SRC = ["test/test_sink.cc"]
DRIVER = "core"


def sink(g):
    I, P = g.I, g.P
    t = g.type("nsasm::TestSink")
    ft = dict(I.fields(t))
    m = hashmap.sym_map(I, ft["received_"], "received")
    et = ft["expected_"].ta[0]
    ex = I.symseq(et, "expected")
    r = Rec(t.key, {"expected_": ex, "received_": m}, t.tn)
    return r, m, ex


def write(g):
    I, P = g.I, g.P
    r, m, ex = sink(g)
    a, av = addr(g, "a")
    u8 = g.type("unsigned char")
    data = I.symseq(u8, "data")
    n = g.input("n", data.n)
    P.assume(z3.ULE(n, (1 << 31) - 1))
    sp = SpanV(P.alloc(data), 0, n)
    this = P.alloc(r)
    res = g.call("nsasm::TestSink::Write", this, a, sp)
    ok, _ = errorval(res)
    g.cover("success", ok)
    g.cover("failure", b_not(ok))
    m1 = hashmap.to_func(I, P.load(this).f["received_"])
    tgt = lambda i: z_addw(av, z3.Extract(31, 0, i))
    g.ensure(P.load(this).f["expected_"] is ex, "the expectation is unchanged")
    its = [k for k in P.touched if k.startswith("it:")]
    i, j = g.fresh("i", 64), g.fresh("j", 64)
    for x in (i, j):
        P.touch_raw(m.tag, z3.simplify(tgt(x)))
        for t in its:
            P.touch(t, x)
    x = g.fresh("x", 32)
    P.touch_raw(m.tag, x)
    dup = lambda i: m.has(tgt(i))
    same2 = lambda i, j: b_and(ult(i, n), ult(j, i), tgt(i) == tgt(j))
    if P.branch(ok):
        g.reach()
        g.ensure(b_imp(ult(i, n), b_not(dup(i))), "succeeds only when no address was written before")
        g.ensure(b_not(same2(i, j)), "succeeds only when no address is written twice")
        g.ensure(b_imp(ult(i, n), b_and(m1.has(tgt(i)), eq(bv(m1.get(tgt(i)), 8), sget(data, i)))), "byte i is received at the address advanced by i")
        w = [z3.simplify(y) for t in its for y in P.touched[t]]
        hit = b_or(*[b_and(ult(y, n), tgt(y) == x) for y in w])
        g.ensure(b_or(hit, b_and(eq(m1.has(x), m.has(x)), b_imp(m.has(x), eq(bv(m1.get(x), 8), bv(m.get(x), 8))))), "nothing else is received")
    else:
        g.reach()
        its2 = tuple(its)
        for t in its:
            P.fact((t,), lambda j: b_imp(ult(j, n), b_not(m._has(z3.simplify(tgt(j))))))
            P.fact((t, t), lambda i, j: b_not(same2(i, j)))
        for t in its:
            for y in P.iters:
                P.touch(t, y)
        g.ensure(False, "fails only when an address was written already")


def check(g):
    """The final check, for any number of expected blocks of any size.  owner(x)
    = (E, Ix) names the block and index that expects address x; that it is a
    function says that the expected addresses are distinct."""
    I, P = g.I, g.P
    r, m, ex = sink(g)
    N = ex.n
    loc = lambda e: bv(ex.get(e).f["location"], 32)
    blk = lambda e: ex.get(e).f["bytes"]
    tgt = lambda e, i: z3.simplify(z_addw(loc(e), z3.Extract(31, 0, i)))
    P.assume(z3.ULE(bv(N, 64), (1 << 31) - 1))
    kt = [z3.BitVecSort(32)]
    own = P.fresh_fn("owned", kt, z3.BoolSort())
    E = P.fresh_fn("block", kt, z3.BitVecSort(64))
    X = P.fresh_fn("index", kt, z3.BitVecSort(64))
    P.fact(("idx",), lambda e: b_imp(ult(e, N), b_and(z3.ULE(loc(e), 0xffffff), z3.ULE(bv(blk(e).n, 64), (1 << 31) - 1))))
    P.fact((m.tag,), lambda x: b_imp(own(x), b_and(ult(E(x), N), ult(X(x), blk(E(x)).n), tgt(E(x), X(x)) == x)))

    def distinct(e, i):
        t = tgt(e, i)
        return b_imp(b_and(ult(e, N), ult(i, blk(e).n)), b_and(own(t), E(t) == e, X(t) == i))
    P.fact(("idx", "it:*"), distinct)

    def look(x):
        P = V.CUR
        P.touch("idx", E(x))
        for t in [t for t in P.touched if t.startswith("it:")]:
            P.touch(t, X(x))
    good = lambda x: b_and(m._has(x), eq(bv(m._get(x), 8), bv(sget(blk(E(x)), X(x)), 8)))
    past = lambda k, x: b_and(own(x), ult(E(x), k))

    def stated(I, L, leaves):
        ms = [v for v in leaves.values() if isinstance(v, (hashmap.MapV, hashmap.MapC))]
        if I.loop_depth != 1 or len(ms) != 1 or ms[0] is not m:
            return None
        return loops.MapInv(m, lambda k, x: b_and(m.has(x), b_not(past(k, x))), lambda k, x: b_imp(past(k, x), good(x)), look)
    I.loop_inv = stated
    x = g.fresh("x", 32)
    P.touch_raw(m.tag, x)
    look(x)
    this = P.alloc(r)
    res = g.call("nsasm::TestSink::Check", this)
    ok, _ = errorval(res)
    g.cover("success", ok)
    g.cover("failure", b_not(ok))
    g.ensure(P.load(this) is r, "the sink is unchanged")
    look(x)
    if P.branch(ok):
        g.reach()
        g.ensure(eq(zb(m.has(x)), zb(own(x))), "succeeds only when exactly the expected addresses were written")
        g.ensure(b_imp(own(x), good(x)), "succeeds only when every address has the expected byte")
    else:
        g.reach()
        for y in P.iters:
            P.touch("idx", y)
            P.touch("it:*", y)
        P.fact((m.tag,), lambda x: b_and(zb(m._has(x)) == own(x), b_imp(own(x), good(x))))
        g.ensure(False, "fails only when the written bytes differ from the expected ones")


def fresh(g):
    """A new sink expects what it was given and has received nothing."""
    I, P = g.I, g.P
    t = g.type("nsasm::TestSink")
    et = dict(I.fields(t))["expected_"].ta[0]
    ex = I.symseq(et, "expected")
    f = g.find("nsasm::TestSink::TestSink", pred=lambda f: len(f.ps) == 1 and f.ps[0][2].strip().tn == "std::vector")
    g.under(f)
    r = I.construct(f.info, t, [P.alloc(ex)])
    m = r.f["received_"]
    g.ensure(hashmap.to_func(I, m).has(g.fresh("x", 32)) is False or b_not(hashmap.to_func(I, m).has(g.fresh("x", 32))), "nothing is received yet")
    got = r.f["expected_"]
    i, j = g.fresh("i", 64), g.fresh("j", 64)
    P.touch("idx", i)
    P.touch("idx", j)
    g.ensure(eq(bv(got.n, 64), bv(ex.n, 64)), "expects every block given")
    g.ensure(b_imp(ult(i, ex.n), val_eq(got.get(i).f["location"], ex.get(i).f["location"])), "expects the locations given")
    g.ensure(b_imp(ult(i, ex.n), eq(bv(got.get(i).f["bytes"].n, 64), bv(ex.get(i).f["bytes"].n, 64))), "expects the lengths given")
    g.ensure(b_imp(b_and(ult(i, ex.n), ult(j, ex.get(i).f["bytes"].n)), eq(sget(got.get(i).f["bytes"], j), sget(ex.get(i).f["bytes"], j))), "expects the bytes given")
    g.reach()


def goals():
    return [Goal("TestSink", fresh), Goal("TestSink::Write", write), Goal("TestSink::Check", check)]


# ---- the real code ----------------------------------------------------------------------
def cases(rnd, n):
    for _ in range(n):
        base = rnd.choice([0, 0x8000, 0x12fff8, 0xfffff4, 0x7efff0])
        span = rnd.choice([6, 12, 24, 40])
        free = [p_addw(base, i) for i in range(span)]
        exp, pairs = [], {}
        big = rnd.random() < .02
        for i in range(rnd.choice([0, 1, 1, 2, 3, 4])):
            at = rnd.choice(free)
            size = rnd.choice([0, 1, 2, 3, 5, 9]) if not big else 65536
            bs = []
            for j in range(size):
                t = p_addw(at, j)
                if t in pairs:
                    break
                b = rnd.choice([0, 1, 0x80, 0xff, rnd.randrange(256)])
                bs.append(b)
                pairs[t] = b
            exp.append((at, bytes(bs)))
        # the writes: the expected bytes cut into pieces, in any order, now and then altered
        ws = []
        for at, bs in exp:
            o = 0
            while o < len(bs):
                l = rnd.choice([1, 2, 3, len(bs)])
                ws.append((p_addw(at, o), bs[o:o + l]))
                o += l
        rnd.shuffle(ws)
        for _ in range(rnd.choice([0, 0, 0, 1, 2])):
            what = rnd.randrange(4)
            if what == 0 and ws:
                ws.pop(rnd.randrange(len(ws)))
            elif what == 1:
                ws.insert(rnd.randrange(len(ws) + 1), (rnd.choice(free), bytes(rnd.randrange(256) for _ in range(rnd.choice([0, 1, 2])))))
            elif what == 2 and ws:
                i = rnd.randrange(len(ws))
                b = bytearray(ws[i][1])
                if b:
                    b[rnd.randrange(len(b))] ^= rnd.choice([1, 0x80, 0xff])
                ws[i] = (ws[i][0], bytes(b))
            elif ws:
                i = rnd.randrange(len(ws))
                ws[i] = (p_addw(ws[i][0], rnd.choice([1, -1, 0x100])), ws[i][1])
        got, res = {}, ""
        line = []
        for at, bs in ws:
            line.append("%x %s" % (at, hx(bs.decode("latin1"))))
            ts = [p_addw(at, j) for j in range(len(bs))]
            if len(set(ts)) != len(ts) or any(t in got for t in ts):
                res += "0"
                break       # what a failed write leaves behind is not specified
            res += "1"
            got.update(zip(ts, bs))
        cmd = "sink %d %s %d %s" % (len(exp), " ".join("%x %s" % (a, hx(b.decode("latin1"))) for a, b in exp), len(line), " ".join(line))
        cmd = " ".join(cmd.split())
        if res.endswith("0"):
            yield Case(cmd, check=lambda out, r=res: out.split(" ")[0] == r)
        else:
            yield Case(cmd, want=res + " " + ("ok" if got == pairs else "err"), nontrivial=bool(exp))


ASSUMPTIONS = ["the expected blocks start at 24-bit addresses and hold fewer than 2^31 bytes; their addresses are distinct (as the property says)",
               "one write holds fewer than 2^31 bytes"]
