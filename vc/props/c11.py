from .util import *

ID = "C11"
SRC = ["nsasm/error.cc", "/verif/replay/inst_error.cc"]
DRIVER = "core"
T = ("int", "string")


def fn(g, name, t=None):
    if t is None:
        return g.find("vinst::" + name)

    def pred(f):
        k = f.info.ta[0].strip()
        return (k.k == "int") == (t == "int")
    return g.find("vinst::" + name, pred=pred)


def eo_type(g, t):
    if t == "void":
        return fn(g, "v_copy").ps[0][2].strip()
    return fn(g, "copy", t).ps[0][2].strip()


def val_type(g, t):
    return fn(g, "from_const", t).ps[0][2].strip()


def err_type(g):
    kinds(g)
    return g.type("nsasm::Error")


def sym(g, t, name):
    v = g.I.sym(t, name)
    return v


def same_err(a, b):
    """the same message and the same location"""
    return val_eq(a, b)


def is_ok(x):
    v = x.f["value"]
    return b_not(v.has) if isinstance(v, OptV) else eq(v.idx, 1)


def err_of(x):
    v = x.f["value"]
    return v.v if isinstance(v, OptV) else v.alts[0]


def val_of(x):
    return x.f["value"].alts[1]


def ld(g, r):
    return g.P.load(r) if isinstance(r, LV) else g.P.load(r.lv) if isinstance(r, Ptr) else r


def same_eo(a, b):
    """both hold the same value, or both the same error"""
    ok = b_and(eq(is_ok(a), is_ok(b)), b_or(is_ok(a), same_err(err_of(a), err_of(b)) if err_of(a) is not None and err_of(b) is not None else False))
    if isinstance(a.f["value"], VarV):
        va, vb = val_of(a), val_of(b)
        ok = b_and(ok, b_or(b_not(is_ok(a)), val_eq(va, vb) if va is not None and vb is not None else False))
    return ok


def build(t):
    def goal(g):
        P = g.P
        e = sym(g, err_type(g), "e")
        if t == "void":
            r = g.call(fn(g, "v_ok"), None)
            g.ensure(is_ok(r), "the value result reports success")
            mk = [("v_const", P.alloc(e)), ("v_move", e)]
        else:
            v = sym(g, val_type(g, t), "v")
            if t == "int":
                g.input("v", v)
            for n, a in (("from_const", P.alloc(v)), ("from_move", v)):
                r = g.call(fn(g, n, t), None, a)
                g.ensure(is_ok(r), "%s: built from a value: reports success" % n)
                g.ensure(val_eq(val_of(r), v), "%s: holds that value" % n)
                g.ensure(g.call(fn(g, "ok", t), None, P.alloc(r)), "%s: ok()" % n)
                for acc in ("star_const", "star_ref", "star_move", "arrow_const", "arrow_ref"):
                    g.ensure(val_eq(ld(g, g.call(fn(g, acc, t), None, P.alloc(r))), v), "%s hands back the value" % acc)
            w = sym(g, val_type(g, t), "w")
            x = P.alloc(g.call(fn(g, "from_const", t), None, P.alloc(v)))
            g.call(fn(g, "put", t), None, x, P.alloc(w))
            g.ensure(b_and(is_ok(P.load(x)), val_eq(val_of(P.load(x)), w)), "assigning through * replaces the value")
            mk = [("error_const", P.alloc(e)), ("error_move", e)]
        for n, a in mk:
            r = g.call(fn(g, n, None if t == "void" else t), None, a)
            g.ensure(b_not(is_ok(r)), "%s: built from an error: reports failure" % n)
            g.ensure(b_not(g.call(fn(g, "v_isok") if t == "void" else fn(g, "ok", t), None, P.alloc(r))), "%s: not ok()" % n)
            got = g.call(fn(g, "v_error") if t == "void" else fn(g, "error", t), None, P.alloc(r))
            g.ensure(same_err(ld(g, got), e), "%s: hands back that error, message and location" % n)
    return goal


def transfer(t):
    def goal(g):
        P = g.P
        et = eo_type(g, t)
        x = sym(g, et, "x")
        pre = "v_" if t == "void" else ""
        tt = None if t == "void" else t
        g.input("x_ok", is_ok(x))
        g.cover("a value", is_ok(x))
        g.cover("an error", b_not(is_ok(x)))
        ops = [("copy", "v_copy"), ("move", "v_moved")]
        for n, vn in ops:
            lv = P.alloc(x)
            r = g.call(fn(g, vn if t == "void" else n, tt), None, lv)
            g.ensure(same_eo(ld(g, r), x), "%s gives the same result" % n)
            if n == "copy":
                g.ensure(same_eo(P.load(lv), x), "a copy leaves the original alone")
        for n in ("assign", "move_assign"):
            if t == "void" and n == "move_assign":
                continue
            y = P.alloc(sym(g, et, "y"))
            lv = P.alloc(x)
            r = g.call(fn(g, pre + n, tt), None, lv, y)
            g.ensure(same_eo(ld(g, r), x), "%s gives the same result" % n)
            if n == "assign":
                g.ensure(same_eo(P.load(lv), x), "assignment leaves the original alone")
        r = ld(g, g.call(fn(g, pre + "hand_on", tt), None, P.alloc(x)))
        g.ensure(eq(is_ok(r), is_ok(x)), "RETURN_IF_ERROR returns exactly on an error")
        if err_of(r) is not None:
            g.ensure(b_or(is_ok(x), same_err(err_of(r), err_of(x))), "and hands on that error")
    return goal


def located(g):
    kinds(g)
    P = g.P
    x = sym(g, eo_type(g, "int"), "x")
    l = sym(g, g.type("nsasm::Location"), "l")
    P.assume(wf(l))
    P.assume(wf(err_of(x).f["location_"]))
    r = ld(g, g.call(fn(g, "hand_on_at", "int"), None, P.alloc(x), P.alloc(l)))
    g.ensure(eq(is_ok(r), is_ok(x)), "returns exactly on an error")
    if err_of(r) is not None:
        e, o = err_of(r), err_of(x)
        g.ensure(b_or(is_ok(x), b_and(val_eq(e.f["message_"], o.f["message_"]), updated(e.f["location_"], o.f["location_"], l))),
                 "hands on that error with its location updated")


def equality(t):
    def goal(g):
        P = g.P
        et = eo_type(g, t)
        x, y = sym(g, et, "x"), sym(g, et, "y")
        pre, tt = ("v_", None) if t == "void" else ("", t)
        g.input("x_ok", is_ok(x))
        g.input("y_ok", is_ok(y))
        if t == "int":
            g.input("xv", val_of(x))
            g.input("yv", val_of(y))
        same_msg = val_eq(err_of(x).f["message_"], err_of(y).f["message_"])
        g.input("same_message", zb(same_msg))
        want = b_or(b_and(is_ok(x), is_ok(y), True if t == "void" else val_eq(val_of(x), val_of(y))),
                    b_and(b_not(is_ok(x)), b_not(is_ok(y)), same_msg))
        a = g.call(fn(g, pre + "equal", tt), None, P.alloc(x), P.alloc(y))
        b = g.call(fn(g, pre + "unequal", tt), None, P.alloc(x), P.alloc(y))
        g.ensure(eq(zb(a), zb(want)), "equal exactly when both hold equal values or both errors with the same message")
        g.ensure(eq(zb(b), zb(b_not(want))), "!= is the negation")
    return goal


def errors(g):
    P = g.P
    st = fn(g, "e_make").ps[0][2].strip()
    m = g.I.sym(st, "m")
    e = ld(g, g.call(fn(g, "e_make"), None, P.alloc(m)))
    none = ld(g, g.call(fn(g, "l_none"), None))
    g.ensure(val_eq(e.f["message_"], m), "an error keeps its message")
    g.ensure(same_loc(e.f["location_"], none), "a new error has no location")
    k = ld(g, g.call(fn(g, "e_lit"), None))
    g.ensure(val_eq(k.f["message_"], S("text 100%")), "the message is the formatted text")
    x = sym(g, err_type(g), "x")
    g.ensure(same_err(ld(g, g.call(fn(g, "e_copy"), None, P.alloc(x))), x), "a copied error is the same error")
    y = sym(g, err_type(g), "y")
    q = g.call(fn(g, "e_equal"), None, P.alloc(x), P.alloc(y))
    g.ensure(eq(zb(q), zb(val_eq(x.f["message_"], y.f["message_"]))), "errors are equal exactly when their messages are")
    q = g.call(fn(g, "e_unequal"), None, P.alloc(x), P.alloc(y))
    g.ensure(eq(zb(q), zb(b_not(val_eq(x.f["message_"], y.f["message_"])))), "!= is the negation")


# ---- locations --------------------------------------------------------------------------------
KIND = {}


def kinds(g):
    """The enumerators of the position kind, as declared."""
    e = g.prog.enums["nsasm::Location::OffsetType"]
    KIND.update({0: int(e["kNone"]), 1: int(e["kLineNumber"]), 2: int(e["kAddress"])})


def kind(l):
    """0 no position, 1 line, 2 address"""
    k = bv(l.f["offset_type_"], 32)
    r = z3.BitVecVal(3, 32)
    for a, b in KIND.items():
        r = z3.If(k == b, z3.BitVecVal(a, 32), r)
    return r


def pos(l):
    return bv(l.f["offset_"], 32)


def wf(l):
    return z3.ULE(kind(l), 2)


def same_pos(a, b):
    return b_and(kind(a) == kind(b), b_or(kind(a) == 0, pos(a) == pos(b)))


def same_loc(a, b):
    return b_and(val_eq(a.f["path_"], b.f["path_"]), same_pos(a, b))


def updated(new, old, by):
    has_path, has_pos = b_not(by.f["path_"].empty()), kind(by) != 0
    return b_and(b_imp(has_path, val_eq(new.f["path_"], by.f["path_"])), b_imp(b_not(has_path), val_eq(new.f["path_"], old.f["path_"])),
                 b_imp(has_pos, same_pos(new, by)), b_imp(b_not(has_pos), same_pos(new, old)))


def show_loc(g, name, l):
    g.input(name + ".path", lambda m: None if z3.is_true(m.eval(zb(l.f["path_"].empty()), model_completion=True)) else "p" + name)
    g.input(name + ".kind", kind(l))
    g.input(name + ".n", pos(l))


def locs(g, *names):
    kinds(g)
    out = []
    for n in names:
        l = g.I.sym(g.type("nsasm::Location"), n)
        g.P.assume(wf(l))
        show_loc(g, n, l)
        out.append(l)
    return out


def update(g):
    P = g.P
    l, m = locs(g, "l", "m")
    lv = P.alloc(l)
    g.call(fn(g, "l_update"), None, lv, P.alloc(m))
    g.cover("no path", m.f["path_"].empty())
    g.cover("path", b_not(m.f["path_"].empty()))
    g.ensure(updated(P.load(lv), l, m), "the path is replaced only by a non-empty path, the position only by a present one")
    a, b, d = locs(g, "a", "b", "d")
    e0 = sym(g, err_type(g), "e")
    e0 = e0.set("location_", a)
    x = P.alloc(e0)
    g.call(fn(g, "e_set1"), None, x, P.alloc(b))
    e1 = P.load(x)
    g.ensure(updated(e1.f["location_"], a, b), "SetLocation updates the location")
    g.ensure(val_eq(e1.f["message_"], e0.f["message_"]), "and keeps the message")
    x = P.alloc(e0)
    g.call(fn(g, "e_set2"), None, x, P.alloc(b), P.alloc(d))
    e2 = P.load(x)
    mid = Rec(a.key, dict(a.f), a.tn)
    hb = b_not(b.f["path_"].empty())
    # updated by b, then by d
    path = lambda l: l.f["path_"]
    hd = b_not(path(d).empty())
    el = e2.f["location_"]
    g.ensure(b_and(b_imp(hd, val_eq(path(el), path(d))), b_imp(b_and(b_not(hd), hb), val_eq(path(el), path(b))),
                   b_imp(b_and(b_not(hd), b_not(hb)), val_eq(path(el), path(a)))), "two locations: the path of the last that has one")
    g.ensure(b_and(b_imp(kind(d) != 0, same_pos(el, d)), b_imp(b_and(kind(d) == 0, kind(b) != 0), same_pos(el, b)),
                   b_imp(b_and(kind(d) == 0, kind(b) == 0), same_pos(el, a))), "two locations: the position of the last that has one")
    g.ensure(val_eq(e2.f["message_"], e0.f["message_"]), "and keeps the message")


def makers(g):
    kinds(g)
    P = g.P
    st = fn(g, "l_path").ps[0][2].strip()
    p = g.I.sym(st, "p")
    n = g.input("n", g.fresh("n", 32))
    emp = lambda l: l.f["path_"].empty()
    l = ld(g, g.call(fn(g, "l_none"), None))
    g.ensure(b_and(emp(l), kind(l) == 0), "no path and no position")
    l = ld(g, g.call(fn(g, "l_path"), None, P.alloc(p)))
    g.ensure(b_and(val_eq(l.f["path_"], p), kind(l) == 0), "a path alone")
    l = ld(g, g.call(fn(g, "l_line"), None, n))
    g.ensure(b_and(emp(l), shows(g, l, p, 1, n)), "a line alone")
    l = ld(g, g.call(fn(g, "l_pathline"), None, P.alloc(p), n))
    g.ensure(b_and(val_eq(l.f["path_"], p), shows(g, l, p, 1, n)), "a path and a line")
    l = ld(g, g.call(fn(g, "l_addr"), None, n))
    g.ensure(b_and(emp(l), shows(g, l, p, 2, n)), "an address alone")
    a, av = addr(g, "a", 0x1000000)
    l = ld(g, g.call(fn(g, "l_address"), None, a))
    g.ensure(b_and(emp(l), shows(g, l, p, 2, av)), "the address of an Address")


def shows(g, l, p, k, n):
    """The position is the line (1) or address (2) n."""
    return b_and(kind(l) == k, pos(l) == bv(n, 32))


def text_loc(l, k, p):
    """What the location prints as, when its position kind is k and it has a path."""
    if k == 0:
        return p
    if k == 1:
        return p + S(":") + StrV([("d", pos(l), True)])
    return p + S(":0x") + StrV([("x", pos(l), 6, False)])


def printing(g):
    P = g.P
    l, = locs(g, "l")
    e = sym(g, err_type(g), "e").set("location_", l)
    p = l.f["path_"]
    out = ld(g, g.call(fn(g, "e_print"), None, P.alloc(e)))
    lo = ld(g, g.call(fn(g, "l_print"), None, P.alloc(l)))
    msg = e.f["message_"]
    if P.branch(zb(p.empty())):
        g.cover("no path")
        g.ensure(val_eq(out, msg), "without a path: the message alone")
        return
    for k in (0, 1, 2):
        if P.feasible(kind(l) == k):
            g.cover("kind %d" % k)
            g.ensure(b_imp(kind(l) == k, val_eq(out, text_loc(l, k, p) + S(": ") + msg)), "path%s, then the message" % ("", ", line", ", address")[k])
            g.ensure(b_imp(kind(l) == k, val_eq(lo, text_loc(l, k, p))), "the location prints alike")


# ---- cases ----------------------------------------------------------------------------------
def p_err(msg, ups):
    path, pos = "", None
    for l in ups:
        k, p, n = l
        if k in ("p", "pl") and p:
            path = p
        if k in ("l", "pl"):
            pos = "%d" % n
        if k == "a":
            pos = "0x%06x" % (n & 0xffffffff)
    if not path:
        return msg
    return path + (":" + pos if pos is not None else "") + ": " + msg


def c_err(msg, steps):
    ups = [l for st in steps for l in st]
    line = "err %s %d" % (hx(msg), len(steps))
    for st in steps:
        line += " %d" % len(st)
        for k, p, n in st:
            line += " %s %s %d" % (k, hx(p), n)
    return Case(line, want=hx(p_err(msg, ups)))


def c_eor(isval, x, m):
    tail = "%d" % x if isval else hx(m)
    return Case("eor %d %d %s" % (isval, x, hx(m)), want="%d%d%d%d 1 1 %s %s" % (isval, isval, isval, isval, tail, "-" if isval else hx(m)))


def c_eoq(a, b):
    e1 = (a[0] == b[0]) and (a[1] == b[1] if a[0] else a[2] == b[2])
    e2 = (a[0] == b[0]) and (True if a[0] else a[2] == b[2])
    return Case("eoq " + " ".join("%d %d %s" % (x[0], x[1], hx(x[2])) for x in (a, b)), want="%d%d%d%d" % (e1, not e1, e2, not e2))


def goals():
    def rl(i):
        ls = []
        for n in ("l", "m", "a", "b", "d"):
            if n + ".kind" in i:
                k, p, v = i[n + ".kind"], i.get(n + ".path"), s32(i[n + ".n"])
                if k == 1:
                    ls.append(("pl", p, v) if p else ("l", "", v))
                elif k == 2:
                    ls += ([("p", p, 0)] if p else []) + [("a", "", v & 0xffffff)]
                else:
                    ls.append(("p", p, 0) if p else ("n", "", 0))
        out = []
        for q in (ls, [("p", "base", 0)] + ls, [("pl", "base", 7)] + ls):
            out += [c_err("boom", [[x] for x in q]), c_err("boom", [q[:2]] + [[x] for x in q[2:]] if len(q) > 1 else [q] if q else [])]
        return out
    re = lambda i: [c_eor(b, s32(i.get("v", i.get("xv", 5))), m) for b in (0, 1) for m in ("", "boom")] + \
        [c_eoq((a, s32(i.get("xv", 1)), m), (b, s32(i.get("yv", 2)), n)) for a in (0, 1) for b in (0, 1) for m in ("x", "y") for n in ("x", "y")]
    out = []
    for t in ("int", "string", "void"):
        out += [Goal("ErrorOr<%s> construction" % t, build(t), re), Goal("ErrorOr<%s> copy and move" % t, transfer(t), re),
                Goal("ErrorOr<%s> equality" % t, equality(t), re)]
    return out + [Goal("RETURN_IF_ERROR_WITH_LOCATION", located, rl), Goal("Error", errors, re), Goal("Location::Update, Error::SetLocation", update, rl),
                  Goal("Location constructors", makers, rl), Goal("Error::ToString", printing, rl)]


def cases(r, n):
    for a in (0, 1):
        for b in (0, 1):
            for m in ("", "x"):
                for v in (0, 5):
                    yield c_eoq((a, 5, "x"), (b, v, m))
    for _ in range(n // 3):
        yield c_eor(r.random() < .5, r.randrange(-5, 100), r.choice(["", "boom", "%s", "a b"]))
        def loc():
            k = r.choice(["n", "p", "l", "pl", "a"])
            num = r.choice([0, 1, -1, 9, 65535, -2**31, 2**31 - 1]) if k != "a" else r.randrange(0x1000000)
            return (k, r.choice(["", "f", "dir/x.asm"]) if k in ("p", "pl") else "", num)
        steps = [[loc() for _ in range(r.choice([1, 2]))] for _ in range(r.randrange(5))]
        yield c_err(r.choice(["boom", "", "100%", "a: b"]), steps)
        yield c_eoq((r.random() < .5, r.randrange(2), r.choice("xy")), (r.random() < .5, r.randrange(2), r.choice("xy")))
