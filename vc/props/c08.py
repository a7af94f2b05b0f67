from .util import *
from .. import hashmap

ID = "C08"
SRC = ["nsasm/ranges.cc", "/verif/replay/inst_ranges.cc"]
DRIVER = "core"
TOP = 0x1000000


def u24(g, name, maxv=TOP):
    v = g.fresh(name, 32)
    g.P.assume(z3.ULE(v, maxv))
    return g.input(name, v)


def lo(s, i):
    return _el(s, i, "first")


def hi(s, i):
    return _el(s, i, "second")


def _el(s, i, f):
    if s.items is not None and not s.items:
        return z3.BitVecVal(0, 32)
    return bv(s.get(i).f[f].f["value_"], 32)


def n64(s):
    return bv(s.n, 64)


def inv_at(s, i):
    """Chunk i of a reported list: non-empty, inside the address space."""
    return b_imp(ult(i, n64(s)), z3.And(z3.ULT(lo(s, i), hi(s, i)), z3.ULE(hi(s, i), TOP)))


def inv_rank(s, i):
    """Chunk i starts at i or later (follows from the order; see 'order lemma')."""
    return b_imp(ult(i, n64(s)), z3.And(z3.ULE(i, TOP), z3.ULE(z3.Extract(31, 0, i), lo(s, i))))


def inv_next(s, i):
    """... and separated from the next one by an unclaimed byte."""
    return b_imp(b_and(ult(i, n64(s)), ult(i + 1, n64(s)), z3.ULT(i, 1 << 60)), z3.ULT(hi(s, i), lo(s, i + 1)))


def inv_pair(s, i, j):
    """The same for any two chunks (follows by induction; see 'order lemma')."""
    return b_imp(b_and(ult(i, j), ult(j, n64(s))), z3.ULT(hi(s, i), lo(s, j)))


def inside(s, i, a):
    return b_and(ult(i, n64(s)), z3.ULE(lo(s, i), a), z3.ULT(a, hi(s, i)))


def ranges(g, name="r"):
    """A DataRange in any state satisfying its invariant."""
    I, P = g.I, g.P
    t = g.type("nsasm::DataRange")
    r = I.sym(t, name)
    s = r.f["ranges_"]
    P.fact(("idx",), lambda i: b_and(inv_at(s, i), inv_rank(s, i)))
    P.assume(z3.ULE(n64(s), TOP))
    P.fact(("idx", "idx"), lambda i, j: inv_pair(s, i, j))
    g.input("chunks", lambda m: show(m, s))
    return r, s


def show(m, s):
    n = m.eval(n64(s), model_completion=True).as_long()
    if n > 40:
        return {"n": n}
    return [[m.eval(f(s, z3.BitVecVal(i, 64)), model_completion=True).as_long() for f in (lo, hi)] for i in range(n)]


def ghost_set(I, name):
    """Ghost: a set of addresses."""
    return hashmap.sym_map(I, I.prog.type("std::set<unsigned int>"), name)


def address(g, v):
    at = g.type("nsasm::Address")
    return Rec(at.key, {"value_": v}, at.tn)


def claim_chunk(g, part):
    I, P = g.I, g.P
    r, s = ranges(g)
    cf, cs = u24(g, "cf"), u24(g, "cs")
    a = g.input("a", g.fresh("a", 32))          # any address
    w = g.fresh("w", 64)
    P.touch("idx", w)
    mem = g.fresh("mem", None)                  # was a claimed before?
    P.assume(b_imp(mem, inside(s, w, a)))
    P.fact(("idx",), lambda i: b_imp(inside(s, i, a), mem))
    this = P.alloc(r)
    f = g.find("nsasm::DataRange::ClaimBytes", pred=lambda f: len(f.ps) == 1)
    res = g.call(f, this, pair(address(g, cf), address(g, cs)))
    s1 = P.load(this).f["ranges_"]
    inc = z3.And(z3.ULE(cf, a), z3.ULT(a, cs))
    g.cover("free", res)
    g.cover("conflict", b_not(res))
    if part in ("order", "sound"):
        i = g.fresh("i", 64)
        d = n64(s) - n64(s1)
        for t in [i, i + d] + ([i + 1, i + 1 + d] if part == "order" else []):
            P.touch("idx", z3.simplify(t))
    if part == "order":
        g.ensure(inv_at(s1, i), "every reported chunk is non-empty and inside the address space")
        g.ensure(inv_next(s1, i), "chunks are in order and separated by an unclaimed byte")
    if part == "sound":
        g.ensure(b_imp(inside(s1, i, a), b_or(mem, inc)), "a reported byte was claimed before or is claimed now")
    if part == "complete":
        P.assume(b_or(mem, inc))
        g.reach()
        P.fact(("idx",), lambda j: b_not(inside(s1, j, a)))
        d = n64(s) - n64(s1)
        for t in [w, w - d, z3.BitVecVal(0, 64)]:
            P.touch("idx", z3.simplify(t))
        g.ensure(False, "every byte claimed before or now is reported")
    if part == "result":
        g.ensure(b_imp(b_and(res, inc), b_not(mem)), "true only when no byte of the chunk was claimed before")
        if P.feasible(b_not(res)):
            P.assume(b_not(res))
            P.assume(z3.ULT(cf, cs))
            # no byte of the chunk is claimed: every old chunk is disjoint from it
            P.fact(("idx",), lambda j: b_imp(ult(j, n64(s)), z3.Or(z3.ULE(hi(s, j), cf), z3.ULE(cs, lo(s, j)))))
            g.ensure(False, "false only when some byte of the chunk was claimed before")


def lemma(g):
    """The facts assumed about every pair of chunks follow by induction from
    those proved about neighbours."""
    t = g.type("nsasm::DataRange")
    s = g.I.sym(t, "r").f["ranges_"]
    i, j = g.fresh("i", 64), g.fresh("j", 64)
    rank = lambda i: b_imp(ult(i, n64(s)), z3.ULE(i, z3.ZeroExt(32, lo(s, i))))
    for k in (i, j):
        g.P.assume(inv_at(s, k))
        g.P.assume(inv_next(s, k))
    g.ensure(rank(z3.BitVecVal(0, 64)), "chunk 0 starts at 0 or later")
    g.ensure(b_imp(b_and(z3.ULT(i, 1 << 60), rank(i)), rank(i + 1)), "chunk i + 1 starts after chunk i")
    g.ensure(b_imp(b_and(rank(i), ult(i, n64(s))), z3.ULT(i, TOP)), "there are at most 2^24 chunks")
    g.P.assume(z3.ULE(n64(s), TOP))
    g.ensure(b_imp(rank(i), inv_rank(s, i)), "chunk i starts at i or later")
    g.ensure(inv_pair(s, i, i + 1), "neighbours are separated")
    g.ensure(b_imp(b_and(ult(i, j), ult(j + 1, n64(s)), ult(j, n64(s)), inv_pair(s, i, j)), inv_pair(s, i, j + 1)),
             "chunk i is separated from chunk j + 1 if it is from chunk j")


def contains(g):
    I, P = g.I, g.P
    r, s = ranges(g)
    a = u24(g, "a")
    w = g.fresh("w", 64)
    mem = g.fresh("mem", None)
    P.touch("idx", w)
    P.touch("idx", z3.BitVecVal(0, 64))
    P.assume(b_imp(mem, inside(s, w, a)))
    P.fact(("idx",), lambda i: b_imp(inside(s, i, a), mem))
    f = g.find("nsasm::DataRange::Contains")
    this = P.alloc(r)
    res = g.call(f, this, address(g, a))
    g.cover("contained", res)
    g.cover("not contained", b_not(res))
    g.ensure(eq(res, mem), "contains exactly the claimed bytes")
    g.ensure(P.load(this) is r, "the range is unchanged")


def chunks(g):
    I, P = g.I, g.P
    r, s = ranges(g)
    this = P.alloc(r)
    v = g.call("nsasm::DataRange::Chunks", this)
    v = P.load(v) if isinstance(v, LV) else v
    g.ensure(v is s, "Chunks() reports the chunks")
    e = I.zero(g.type("nsasm::DataRange"))
    n = e.f["ranges_"].n
    g.ensure(eq(bv(n, 64), bv(0, 64)), "a new range is empty")


# ---- the contract of ClaimBytes(Chunk) and Contains at calls ----------------------------
def claim_contract(c):
    if len(c.args) != 1:
        return NotImplemented
    I, P = c.I, c.P
    ch = P.load(c.args[0]) if isinstance(c.args[0], LV) else c.args[0]
    cf, cs = [bv(ch.f[k].f["value_"], 32) for k in ("first", "second")]
    P.oblige(z3.And(z3.ULE(cf, TOP), z3.ULE(cs, TOP)), "precondition", I.where(), "the chunk lies in the address space")
    rec = P.load(c.obj)
    m = hashmap.to_func(I, rec.f["$in"])
    res = P.fresh("unclaimed", z3.BoolSort())
    inc = lambda x: z3.And(z3.ULE(cf, x), z3.ULT(x, cs))
    P.fact((m.tag,), lambda x: z3.Implies(z3.And(res, inc(x)), b_not(m.has(x))))
    hit = P.fresh("hit", z3.BitVecSort(32))
    P.touch_raw(m.tag, hit)
    P.assume(b_or(res, b_and(inc(hit), m.has(hit))))
    P.write(c.obj.sub(("f", "$in")), m.addfam(inc))
    return res


def contains_contract(c):
    I, P = c.I, c.P
    a = P.load(c.args[0]) if isinstance(c.args[0], LV) else c.args[0]
    return hashmap.to_func(I, P.load(c.obj).f["$in"]).has(bv(a.f["value_"], 32))


def abstract(g, m, **kw):
    """A DataRange known only through its set of addresses."""
    t = g.type("nsasm::DataRange")
    return Rec(t.key, dict({"$in": m}, **kw), t.tn)


def claim_bytes(g):
    I, P = g.I, g.P
    m = ghost_set(I, "before")
    a = u24(g, "a", TOP - 1)
    n = g.input("n", g.fresh("n", 32))
    P.assume(n <= 65536)
    this = P.alloc(abstract(g, m))
    I.contracts["nsasm::DataRange::ClaimBytes"] = claim_contract
    f = g.find("nsasm::DataRange::ClaimBytes", pred=lambda f: len(f.ps) == 2)
    res = g.call(f, this, address(g, a), n)
    m1 = P.load(this).f["$in"]
    claimed = lambda x: z3.And(z3.LShR(x, 16) == z3.LShR(a, 16), ((x - a) & 0xffff) < n)
    x = g.fresh("x", 32)
    P.touch_raw(m.tag, x)
    g.cover("free", res)
    g.cover("conflict", b_not(res))
    g.cover("wraps", b_and(res, z3.UGT((a & 0xffff) + n, 0x10000), n > 0))
    g.ensure(eq(m1.has(x), b_or(m.has(x), claimed(x))), "contains exactly what was claimed before or is claimed now")
    g.ensure(b_imp(b_and(res, claimed(x)), b_not(m.has(x))), "true only when none of the bytes was claimed before")
    if P.feasible(b_not(res)):
        P.assume(b_not(res))
        P.fact((m.tag,), lambda x: b_imp(claimed(x), b_not(m.has(x))))
        g.ensure(False, "false only when some byte was claimed before")


# ---- the real code -----------------------------------------------------------------------
class Ivs:
    """A set of addresses, as sorted disjoint intervals."""

    def __init__(self):
        self.l = []

    def claim(self, lo, hi):
        if lo >= hi:
            return True
        free = all(h <= lo or hi <= l for l, h in self.l)
        out = []
        for l, h in sorted(self.l + [(lo, hi)]):
            if out and l <= out[-1][1]:
                out[-1] = (out[-1][0], max(out[-1][1], h))
            else:
                out.append((l, h))
        self.l = out
        return free

    def claimn(self, a, n):
        b = a & 0xff0000
        o = a & 0xffff
        if n <= 0:
            return True
        p = [(a, min(a + n, b + 0x10000))]
        if o + n > 0x10000:
            p.append((b, b + o + n - 0x10000))
        free = [self.claim(*x) for x in p]
        return all(free)

    def __contains__(self, x):
        return any(l <= x < h for l, h in self.l)

    def text(self):
        return "".join("$%06x-$%06x," % c for c in self.l) or "-"


def case(ops, qs, chunked):
    v = Ivs()
    res = "".join("01"[v.claim(*o) if chunked else v.claimn(*o)] for o in ops)
    line = "%s %d %s %d %s" % ("claimc" if chunked else "claim", len(ops), " ".join(("%x %x" if chunked else "%x %d") % o for o in ops),
                               len(qs), " ".join("%x" % q for q in qs))
    return Case(line, want="%s %s %s" % (res, v.text(), "".join("01"[q in v] for q in qs)), nontrivial=len(v.l) > 1)


def around(ops, chunked):
    out = set()
    for o in ops:
        for p in ((o[0], o[1]) if chunked else (o[0], p_addw(o[0], o[1]), (o[0] & 0xff0000), (o[0] | 0xffff))):
            out |= {x for x in (p - 1, p, p + 1) if 0 <= x < TOP}
    return sorted(out)[:60]


def cases(rnd, n):
    for k in range(n):
        chunked = rnd.random() < .7
        base = rnd.choice([0, 0x7ff0, 0x10000 - 12, 0xfffff0 - 20, 0x123450])
        span = rnd.choice([8, 16, 30, 60])
        ops = []
        for _ in range(rnd.choice([1, 2, 3, 5, 8, 14])):
            l = min(base + rnd.randrange(span), TOP - 1)
            if chunked:
                h = min(l + rnd.choice([0, 1, 1, 2, 3, 4, rnd.randrange(span)]), TOP)
                ops.append((l, h))
            else:
                ops.append((l, rnd.choice([0, 1, 1, 2, 3, 4, rnd.randrange(span), rnd.choice([-1, 65535, 65536, 0xfff0, 256])])))
        yield case(ops, around(ops, chunked), chunked)


def replay_chunk(inputs):
    cs = inputs.get("chunks")
    if not isinstance(cs, list):
        return []
    ops = [tuple(c) for c in cs]
    if any(a >= b for a, b in ops):
        return []
    ops.append((inputs.get("cf", 0), inputs.get("cs", 0)))
    q = around(ops, True)
    if "a" in inputs and inputs["a"] < TOP:
        q.append(inputs["a"])
    return [case(ops, q, True)]


def replay_contains(inputs):
    cs = inputs.get("chunks")
    if not isinstance(cs, list) or any(a >= b for a, b in cs):
        return []
    ops = [tuple(c) for c in cs]
    return [case(ops, [inputs["a"]] + around(ops, True), True)]


def replay_bytes(inputs):
    a, n = inputs["a"], s32(inputs["n"])
    out = [case([(a, n)], around([(a, n)], False), False)]
    for x in around([(a, n)], False):
        out.append(case([(x, 1), (a, n)], around([(a, n)], False), False))
    return out


def goals():
    out = [Goal("DataRange::ClaimBytes(Chunk): " + what, lambda g, p=p: claim_chunk(g, p), policy={"merge_ifs": False}, replay=replay_chunk)
           for p, what in (("order", "chunk order"), ("sound", "nothing but the claims"), ("complete", "every claim"), ("result", "result"))]
    out += [Goal("order lemma", lemma), Goal("DataRange::Contains", contains, replay=replay_contains), Goal("DataRange::Chunks", chunks),
            Goal("DataRange::ClaimBytes(Address, int)", claim_bytes, replay=replay_bytes,
                 policy={"loop_policy": {"*": "unroll"}})]
    return out


ASSUMPTIONS = ["a claim at an address covers at most 65536 bytes (longer claims overlap themselves); addresses passed in are at most $1000000",
               "induction over the sequence of claims: an empty range satisfies the invariant (proved), each claim preserves it (proved)"]
