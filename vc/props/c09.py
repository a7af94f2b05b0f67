from .util import *
from .. import hashmap, values as V
from . import c08
from .c08 import u24, address, lo, hi, n64, inside, TOP, ghost_set, abstract

ID = "C09"
SRC = ["nsasm/ranges.cc", "/verif/replay/inst_ranges.cc"]
DRIVER = "core"


def kf(k):
    return z3.Extract(63, 32, k)


def ks(k):
    return z3.Extract(31, 0, k)


def has_addr(k, x):
    """Address x lies in the chunk encoded as key k."""
    return z3.And(z3.ULE(kf(k), x), z3.ULT(x, ks(k)))


def disjoint(k, l):
    return z3.Or(z3.ULE(ks(k), kf(l)), z3.ULE(ks(l), kf(k)))


def range_map(g):
    """A RangeMap in any state satisfying its invariant: the keys are disjoint
    non-empty chunks that cover exactly the used addresses."""
    I, P = g.I, g.P
    t = g.type("nsasm::RangeMap<int>")
    ft = dict(I.fields(t))
    m = hashmap.sym_map(I, ft["mapping_"], "map")
    u = ghost_set(I, "used")
    P.fact((m.tag,), lambda k: b_imp(m.has(k), z3.And(z3.ULT(kf(k), ks(k)), z3.ULE(ks(k), TOP))))
    P.fact((m.tag, m.tag), lambda k, l: b_or(keq(k, l), b_imp(b_and(m.has(k), m.has(l)), disjoint(k, l))))
    owner = P.fresh_fn("owner", [z3.BitVecSort(32)], z3.BitVecSort(64))

    P.fact((u.tag,), lambda x: b_imp(u.has(x), b_and(m.has(owner(x)), has_addr(owner(x), x))))
    P.fact((u.tag, m.tag), lambda x, k: b_imp(b_and(m.has(k), has_addr(k, x)), u.has(x)))
    r = Rec(t.key, {"used_": abstract(g, u), "mapping_": m}, t.tn)
    return r, m, u, owner


def keq(a, b):
    return True if a.eq(b) else a == b


def lookup(g):
    I, P = g.I, g.P
    r, m, u, owner = range_map(g)
    a = u24(g, "a", TOP - 1)
    P.touch_raw(u.tag, a)
    P.touch_raw(m.tag, owner(a))
    g.input("used", lambda mo: bool(mo.eval(zb(u.has(a)), model_completion=True)))
    this = P.alloc(r)
    res = g.call("nsasm::RangeMap::Lookup", this, address(g, a))
    g.cover("found", res.has)
    g.cover("not found", b_not(res.has))
    g.ensure(eq(res.has, u.has(a)), "a value is found exactly for the used addresses")
    k = g.fresh("k", 64)
    P.touch_raw(m.tag, k)
    g.ensure(b_imp(b_and(m.has(k), has_addr(k, a)), b_and(res.has, eq(bv(res.v, 32), bv(m.get(k), 32)) if res.v is not None else False)),
             "the value of the chunk containing the address is found")
    r1 = P.load(this)
    g.ensure(r1.f["used_"] is r.f["used_"] and r1.f["mapping_"] is m, "the map is unchanged")


def contains(g):
    I, P = g.I, g.P
    r, m, u, owner = range_map(g)
    a = u24(g, "a", TOP - 1)
    I.contracts["nsasm::DataRange::Contains"] = c08.contains_contract
    this = P.alloc(r)
    res = g.call(g.find("nsasm::RangeMap::Contains"), this, address(g, a))
    g.ensure(eq(res, u.has(a)), "contains exactly the used addresses")


def insert(g, part):
    I, P = g.I, g.P
    r, m, u, owner = range_map(g)
    # the range to insert
    dr, s = c08.ranges(g)
    d = ghost_set(I, "range")
    dw = P.fresh_fn("chunkof", [z3.BitVecSort(32)], z3.BitVecSort(64))

    def f1(x):
        V.CUR.touch("idx", dw(x))
        return b_imp(d.has(x), inside(s, dw(x), x))
    P.fact((d.tag,), f1)
    P.fact(("idx", d.tag), lambda i, x: b_imp(inside(s, i, x), d.has(x)))
    I.contracts["nsasm::DataRange::ClaimBytes"] = c08.claim_contract
    I.contracts["nsasm::DataRange::Chunks"] = lambda c: c.obj.sub(("f", "$chunks")) if "$chunks" in c.P.load(c.obj).f else NotImplemented
    val = g.input("value", g.fresh("value", 32))
    this = P.alloc(r)
    res = g.call(g.find("nsasm::RangeMap::Insert"), this, abstract(g, d, **{"$chunks": s}), P.alloc(val))
    r1 = P.load(this)
    m1, u1 = hashmap.to_func(I, r1.f["mapping_"]), hashmap.to_func(I, r1.f["used_"].f["$in"])
    g.cover("inserted", res)
    g.cover("refused", b_not(res))
    a = u24(g, "a", TOP - 1)
    P.touch_raw(u.tag, a)
    its = [k for k in P.touched if k.startswith("it:")]
    for x in list(P.iters):
        P.touch("idx", x)
    def same_index(j):          # iteration j of either loop looks at chunk j
        for t in ["idx"] + its:
            V.CUR.touch(t, j)
        return True
    for t in its:
        P.fact((t,), same_index)
    if part == "refused":
        P.assume(b_not(res))
        g.ensure(r1.f["mapping_"] is m, "a failed insertion changes no lookup")
        g.ensure(eq(u1.has(a), u.has(a)), "a failed insertion changes no membership")
        g.reach()
        P.fact((u.tag,), lambda x: b_not(b_and(u.has(x), d.has(x))))
        g.ensure(False, "fails only when an address of the range is used already")
        return
    P.assume(res)
    P.touch_raw("idx", dw(a))
    for t in its:
        P.touch(t, dw(a))
    k = g.fresh("k", 64)
    P.touch_raw(m.tag, k)
    if part == "inserted":
        g.ensure(b_not(b_and(u.has(a), d.has(a))), "succeeds only when no address of the range is used already")
        g.ensure(eq(u1.has(a), b_or(u.has(a), d.has(a))), "the used addresses grow by those of the range")
        hit = b_and(m1.has(k), has_addr(k, a))
        g.ensure(b_imp(b_and(hit, d.has(a)), eq(bv(m1.get(k), 32), val)), "the addresses of the range have the inserted value")
        g.ensure(b_imp(b_and(hit, b_not(d.has(a))), b_and(m.has(k), eq(bv(m1.get(k), 32), bv(m.get(k), 32)))), "other addresses keep their value")
        g.ensure(b_imp(b_and(m.has(k), has_addr(k, a)), b_and(m1.has(k), eq(bv(m1.get(k), 32), bv(m.get(k), 32)))), "no address loses its value")
    else:
        l = g.fresh("l", 64)
        P.touch_raw(m.tag, l)
        for x in (kf(k), kf(l)):        # an address both would contain
            P.touch_raw(u.tag, z3.simplify(x))
        g.ensure(b_imp(m1.has(k), z3.And(z3.ULT(kf(k), ks(k)), z3.ULE(ks(k), TOP))), "invariant: chunks are non-empty")
        g.ensure(b_imp(b_and(m1.has(k), m1.has(l), k != l), disjoint(k, l)), "invariant: chunks are disjoint")
        g.ensure(b_imp(b_and(m1.has(k), has_addr(k, a)), u1.has(a)), "invariant: chunks lie in the used addresses")
        # the chunk of a used address
        ch = z3.Concat(lo(s, dw(a)), hi(s, dw(a)))
        P.touch_raw(m.tag, z3.simplify(ch))
        o = owner(a)
        P.touch_raw(m.tag, o)
        P.assume(u1.has(a))
        g.reach()
        g.ensure(b_or(b_and(m1.has(o), has_addr(o, a)), b_and(m1.has(z3.simplify(ch)), has_addr(ch, a))), "invariant: used addresses lie in a chunk")


def goals():
    return [Goal("RangeMap::Lookup", lookup), Goal("RangeMap::Contains", contains)] + \
        [Goal("RangeMap::Insert: " + p, lambda g, p=p: insert(g, p)) for p in ("refused", "inserted", "invariant")]


# ---- the real code ----------------------------------------------------------------------
def cases(rnd, n):
    for _ in range(n):
        base = rnd.choice([0, 0x7ff0, 0x10000 - 12, 0xfffff0 - 20, 0x123450])
        span = rnd.choice([8, 16, 30, 60])
        used = c08.Ivs()
        vals = []
        line, res, pts = [], "", set()
        k = rnd.choice([1, 2, 3, 5, 8])
        for i in range(k):
            iv = c08.Ivs()
            ops = []
            for _ in range(rnd.choice([0, 1, 1, 2, 3, 4])):
                l = min(base + rnd.randrange(span), TOP - 1)
                c = rnd.choice([0, 1, 1, 2, 3, 4, rnd.choice([65535, 0xfff0, 5, 7])])
                ops.append((l, c))
                iv.claimn(l, c)
                pts |= {l - 1, l, l + 1, p_addw(l, c), p_addw(l, c) - 1}
            v = rnd.choice([i, -1, 7])
            line.append("%d %s %d" % (len(ops), " ".join("%x %d" % o for o in ops), v))
            if all(not (l < h2 and l2 < h) for l, h in iv.l for l2, h2 in used.l):
                res += "1"
                for c in iv.l:
                    used.claim(*c)
                    vals.append((c, v))
            else:
                res += "0"
        q = sorted(x for x in pts if 0 <= x < TOP)[:60]
        want = ""
        for x in q:
            hit = [v for (l, h), v in vals if l <= x < h]
            want += ("%d+" % hit[0]) if hit else "-."
        yield Case("rmap %d %s %d %s" % (k, " ".join(line), len(q), " ".join("%x" % x for x in q)), want=res + " " + want, nontrivial=len(vals) > 1)


ASSUMPTIONS = ["RangeMap is verified for T = int; the class uses T only by copying values",
               "the range given to Insert satisfies the invariant proved in C08 for every DataRange"]
