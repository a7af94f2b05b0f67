from .par import *

ID = "C25"
SRC = ["nsasm/parse.cc"]
DRIVER = "parse"


def setup(g):
    g.I.merge_ifs = False
    line = Line(g)
    expressions(g)
    gr = Grammar(g, line)
    t = g.type("nsasm::LookupContext")
    ctx = g.P.alloc(Rec(t.key, {}, t.tn))
    p = g.fresh("p", 64)
    g.P.assume(z3.ULT(p, line.n))
    line.touch(p)
    pos = g.P.alloc(line.span(p))
    return line, gr, ctx, p, pos


def contract(g, gr, line, x, rank, top):
    """Contract of one grammar function at a call from another.  It needs a position inside the line, later than where
    the caller started or with a function of lower rank."""
    I = g.I
    err = I.sym(g.type("nsasm::Error"), "syntax error")

    def h(c):
        P = c.P
        a = c.args[0]
        lv = a.lv if isinstance(a, Ptr) else P.load(a).lv
        p = line.pos(P.load(lv))
        P.oblige(z3.ULT(p, line.n), "precondition", g.goal, "%s is called inside the line" % x)
        P.oblige(b_or(z3.UGT(p, top[0]), b_and(p == top[0], RANK[x] < top[1])), "termination", g.goal, "%s is called with less to do" % x)
        line.touch(p)
        pok, end, e = gr.f[x].at(p)
        P.assume(gr.post(x, p))
        if P.branch(pok):
            line.touch(end)
            P.write(lv, line.span(end))
            return Rec(c.rt.key, {"value": VarV(1, (err, wrap(g, abstract(g, e))))}, c.rt.tn)
        q = P.fresh("stopped", B64)
        P.assume(b_and(z3.ULE(p, q), z3.ULT(q, line.n)))
        P.write(lv, line.span(q))
        return Rec(c.rt.key, {"value": VarV(0, (err, None))}, c.rt.tn)
    I.contracts[PARSE + x] = h


RANK = {"Comp": 0, "Factor": 1, "Term": 2, "Expr": 3}


def outcome(g, line, ctx, r, pos):
    """(parsed, end, expression) of a real result."""
    P = g.P
    r = P.load(r) if isinstance(r, LV) else r
    v = r.f["value"]
    if P.branch(eq(v.idx, 1)):
        return True, line.pos(P.load(pos)), meaning(g, v.alts[1], ctx)
    return False, None, None


def check(g, line, ctx, got, want, p):
    g.ensure(eq(zb(want[0]), zb(got[0])), "accepted exactly when the grammar accepts")
    if got[0]:
        g.cover("an expression")
        g.ensure(got[1] == want[1], "up to where the grammar says")
        g.ensure(bv(got[2].t, 32) == bv(want[2].t, 32), "of the right type")
        g.ensure(eq(zb(got[2].ok), zb(want[2].ok)), "it evaluates exactly when its operands do and no divisor is zero")
        g.ensure(b_imp(want[2].ok, got[2].v == want[2].v), "to the right value")
        g.ensure(b_and(z3.UGT(got[1], p), z3.ULT(got[1], line.n)), "something is consumed, but not the end of the line")


class Remaining:
    """Invariant of the loops of Expr and Term: what remains to be read, after what was read so far, gives the whole."""

    def __init__(s, g, gr, line, ctx, x, whole):
        s.g, s.gr, s.line, s.ctx, s.x, s.whole = g, gr, line, ctx, x, whole

    def at(s, I, L):
        s.leaves = None
        s.I, s.L = I, L
        P = I.P
        # which leaves does an iteration change?

        def once():
            P2 = I.P
            if L.k != "do":
                P2.assume(L.cond())
            return "cont" if L.body() is None else "exit"
        def leaves():
            P2 = I.P
            st0 = P2.store
            P2.store = dict(st0)
            try:
                outs = P2.explore(once, quiet=True)
            finally:
                P2.store = st0
            ls = set()
            for o in outs:
                if o.val == "cont":
                    for r in st0:
                        if o.store[r] is not st0[r]:
                            ps = []
                            diff(st0[r], o.store[r], (), ps)
                            ls |= {(r, p) for p in ps}
            return sorted(ls, key=str)
        ls = P.memoize("leaves", lambda: P.untouched(leaves))
        st0 = P.store
        spans = [l for l in ls if isinstance(get_at(st0[l[0]], l[1]), SpanV)]
        exprs = [l for l in ls if isinstance(get_at(st0[l[0]], l[1]), UPtr)]
        if not spans and not exprs:
            return None
        if len(spans) != 1 or len(exprs) != 1 or len(ls) != 2:
            raise Undecided("the loop of %s changes something else: %s" % (s.x, [(l, type(get_at(st0[l[0]], l[1])).__name__) for l in ls]))
        s.span, s.expr = spans[0], exprs[0]
        return s

    def now(s):
        P = s.I.P
        p = s.line.pos(get_at(P.store[s.span[0]], s.span[1]))
        e = P.store[s.expr[0]]
        if not (isinstance(e, Rec) and str(e.tn) == "nsasm::ExpressionOrNull"):
            raise Undecided("the running expression is not an ExpressionOrNull")
        return p, meaning(s.g, e, s.ctx)

    def establish(s):
        p, e = s.now()
        s.holds(p, e, "initially")

    def holds(s, p, e, when):
        g = s.g
        g.ensure(z3.ULT(p, s.line.n), "the position stays inside the line, " + when)
        g.ensure(res_eq(s.gr.rest_at(s.x, p, e), s.whole), "what remains gives the whole, " + when)

    def havoc(s):
        g, P = s.g, s.I.P
        p, t, ok, v = P.fresh("at", B64), P.fresh("t", B32), P.fresh("ok", z3.BoolSort()), P.fresh("v", B32)
        e = Ex(t, ok, v)
        P.write(LV(s.span[0], s.span[1]), s.line.span(p))
        P.write(LV(s.expr[0], s.expr[1]), UPtr(Ptr(abstract(g, e))))
        P.assume(b_and(z3.ULT(p, s.line.n), z3.ULT(t, len(TYPES)), z3.UGT(p, s.first)))
        P.assume(res_eq(s.gr.rest_at(s.x, p, e), s.whole))
        P.assume(res_eq(s.gr.rest_at(s.x, p, e), s.gr.unfold(s.x, p, e)))
        P.assume(s.gr.post(s.gr.LEVEL[s.x][0], p + 1))
        s.p0 = p

    def may(s, root, path):
        return (root, path[:len(s.span[1])]) == s.span or (root, path[:len(s.expr[1])]) == s.expr

    def back(s):
        p, e = s.now()
        s.holds(p, e, "after each operator")
        s.g.ensure(z3.UGT(p, s.p0), "each operator consumes tokens", "termination")


def folds(x):
    def f(g):
        line, gr, ctx, p, pos = setup(g)
        sub, ops = gr.LEVEL[x]
        contract(g, gr, line, sub, RANK[sub], (p, RANK[x]))
        pok, end, e = gr.f[sub].at(p)
        whole = gr.rest_at(x, end, e)
        g.P.assume(res_eq(whole, gr.unfold(x, end, e)))

        def hoare(I, L):
            inv = Remaining(g, gr, line, ctx, x, whole)
            inv.first = p
            return inv.at(I, L)
        g.I.hoare = hoare
        r = g.call(PARSE + x, None, Ptr(pos))
        got = outcome(g, line, ctx, r, pos)
        check(g, line, ctx, got, (b_and(pok, whole[0]), whole[1], whole[2]), p)
    return f


def factor(g):
    line, gr, ctx, p, pos = setup(g)
    for x in ("Comp", "Factor"):
        contract(g, gr, line, x, RANK[x], (p, RANK["Factor"]))
    pok, end, e = gr.f["Factor"].at(p + 1)
    g.P.assume(gr.post("Factor", p + 1))
    want = ites([(line.punct(p, op), (pok, end, unary(op, e))) for op in "-<>^"], gr.f["Comp"].at(p))
    r = g.call(PARSE + "Factor", None, Ptr(pos))
    check(g, line, ctx, outcome(g, line, ctx, r, pos), want, p)


def comp(g):
    I, P = g.I, g.P
    line, gr, ctx, p, pos = setup(g)
    contract(g, gr, line, "Expr", RANK["Expr"], (p, RANK["Comp"]))
    okf, valf = z3.Bool("defined"), z3.BitVec("looked up", 32)
    err = I.sym(g.type("nsasm::Error"), "undefined")
    at = line.punct(p, "@")
    q = z3.simplify(p + z3.If(zb(at), z3.BitVecVal(1, 64), z3.BitVecVal(0, 64)))
    for d in range(5):
        line.touch(p + d)
    SC = g.prog.enums["nsasm::Punctuation"]["P_scope"]
    ident = lambda i: line.is_(i, "basic_string")
    scope = lambda i: line.punct(i, SC)
    glob, qual, plain = b_and(scope(q), ident(q + 1)), b_and(ident(q), scope(q + 1), ident(q + 2)), b_and(ident(q), b_not(scope(q + 1)))

    def lookup(c):
        a = c.args[0]
        v = c.P.load(a) if isinstance(a, LV) else a
        m, n = v.f["mod_name_"], v.f["id_name_"]
        k = c.P
        mh = zb(m.has)
        g.ensure(b_imp(plain, b_and(b_not(mh), val_eq(n, line.text(q)))), "a plain name is looked up as it is")
        if m.v is not None:
            g.ensure(b_imp(glob, b_and(mh, val_eq(m.v, StrV()), val_eq(n, line.text(q + 1)))), "::name is looked up globally")
            g.ensure(b_imp(qual, b_and(mh, val_eq(m.v, line.text(q)), val_eq(n, line.text(q + 2)))), "module::name is looked up in that module")
        else:
            g.ensure(b_not(b_or(glob, qual)), "a qualified name is looked up with its module")
        return Rec(c.rt.key, {"value": VarV(merge(okf, 1, 0), (err, valf))}, c.rt.tn)
    I.contracts["nsasm::LookupContext::Lookup"] = lookup
    name = Ex(z3.If(zb(at), z3.BitVecVal(3, 32), z3.BitVecVal(2, 32)), okf, valf)
    T = z3.BoolVal(True)
    epok, eend, e = gr.f["Expr"].at(p + 1)
    P.assume(gr.post("Expr", p + 1))
    line.touch(eend)
    t = line.type(p)
    want = ites([(line.is_(p, "int"), (T, p + 1, Ex(t, True, cast(t, line.number(p))))),
                 (glob, (T, q + 2, name)), (qual, (T, q + 3, name)), (plain, (T, q + 1, name)),
                 (b_and(line.punct(p, "("), epok, line.punct(eend, ")")), (T, eend + 1, e))], (z3.BoolVal(False), p, name))
    r = g.call(PARSE + "Comp", None, Ptr(pos))
    check(g, line, ctx, outcome(g, line, ctx, r, pos), want, p)


def whole(g):
    I, P = g.I, g.P
    line, gr, ctx, p, pos = setup(g)
    contract(g, gr, line, "Expr", RANK["Expr"], (z3.BitVecVal(0, 64), 4))
    tok = g.fresh("tokenized", None)
    z = z3.BitVecVal(0, 64)
    P.assume(gr.post("Expr", z))
    pok, end, e = gr.f["Expr"].at(z)
    line.touch(end)
    err = I.sym(g.type("nsasm::Error"), "lexical error")
    seq = line.seq
    I.contracts["nsasm::Tokenize"] = lambda c: Rec(c.rt.key, {"value": VarV(merge(tok, 1, 0), (err, seq))}, c.rt.tn)
    r = g.call("nsasm::ParseExpression", None, I.sym(g.type("std::basic_string_view<char>"), "text"))
    r = P.load(r) if isinstance(r, LV) else r
    v = r.f["value"]
    good = b_and(tok, pok, b_or(line.is_(end, "EndOfLine"), line.punct(end, ":")))
    g.ensure(eq(zb(eq(v.idx, 1)), zb(good)), "accepted when the line is one expression")
    if P.branch(eq(v.idx, 1)):
        g.ensure(e.same(meaning(g, v.alts[1], ctx)), "its type and value")


def copies(kind):
    """A copy, and an expression with a label put on it, mean what the original means."""
    def f(g):
        I, P = g.I, g.P
        expressions(g)
        t = g.type("nsasm::LookupContext")
        ctx = P.alloc(Rec(t.key, {}, t.tn))
        okf, valf = g.fresh("defined", None), g.fresh("looked up", 32)
        err = I.sym(g.type("nsasm::Error"), "undefined")
        seen = []

        def lookup(c):
            a = c.args[0]
            seen.append(c.P.load(a) if isinstance(a, LV) else a)
            return Rec(c.rt.key, {"value": VarV(merge(okf, 1, 0), (err, valf))}, c.rt.tn)
        I.contracts["nsasm::LookupContext::Lookup"] = lookup
        sub = [Ex(g.fresh("t%d" % i, 32), g.fresh("ok%d" % i, None), g.fresh("v%d" % i, 32)) for i in (0, 1)]
        for s in sub:
            P.assume(z3.ULT(s.t, len(TYPES)))
        ty = g.type("nsasm::" + kind) if kind else None
        if not kind:
            e = wrap(g, LV(0, ()))
            e = Rec(e.key, {n: UPtr(NULL) for n in e.f}, e.tn)
        else:
            v = {}
            for n, ft in I.fields(ty):
                q = str(ft.strip().tn)
                if q == "nsasm::ExpressionOrNull":
                    v[n] = wrap(g, abstract(g, sub[len([x for x in v.values() if isinstance(x, Rec)])]))
                elif q == "std::unique_ptr":
                    v[n] = UPtr(Ptr(abstract(g, sub[0])))
                elif q in ("nsasm::BinaryOp", "nsasm::UnaryOp"):
                    v[n] = I.dispatch_any(g.find("nsasm::Make%sOp" % ("Divide" if "Binary" in q else "Negate")).info, None, [], None)
                else:
                    v[n] = I.sym(ft, n)
                    if ft.strip().k == "enum":
                        P.assume(z3.ULT(v[n], len(TYPES)))
            e = Rec(ty.key, v, ty.tn)
            if kind == "Literal":
                # its constructor reduces the value to the type
                k = g.find("nsasm::Literal::Literal", pred=lambda f: len(f.ps) == 2)
                e = I.construct(k.info, ty, [g.fresh("number", 32), v["type_"]])
            e = wrap(g, P.alloc(e))
        lv = P.alloc(e)
        m0 = meaning(g, e, ctx)
        et = g.type("nsasm::ExpressionOrNull")
        ct = g.find("nsasm::ExpressionOrNull::ExpressionOrNull", pred=lambda f: f.info.sp == "copyctor")
        g.under(ct)
        c1 = I.construct(ct.info, et, [lv])
        g.cover("evaluates", m0.ok) if kind else None
        g.ensure(m0.same(meaning(g, c1, ctx)), "a copy means the same")
        g.ensure(m0.same(meaning(g, P.load(lv), ctx)), "and so does what was copied")
        lv2 = P.alloc(c1)
        if kind:
            g.call("nsasm::ExpressionOrNull::ApplyLabel", lv2, I.sym(g.type("std::basic_string<char>"), "label"))
            m2 = meaning(g, P.load(lv2), ctx)
            g.ensure(m0.same(m2), "a label on it changes neither type nor value")
            g.ensure(m0.same(meaning(g, I.construct(ct.info, et, [lv2]), ctx)), "nor does copying the labelled expression")
        else:
            g.ensure(b_not(m0.ok), "a null expression has no value")
        for x in seen[1:]:
            g.ensure(val_eq(x, seen[0]), "the same name is looked up")
    return f


def goals():
    pol = {"merge_ifs": False}
    return [Goal("expr: terms joined by + and -, from the left", folds("Expr"), policy=pol),
            Goal("term: factors joined by * and /, from the left", folds("Term"), policy=pol),
            Goal("factor: a prefix operator applies to the factor after it", factor, policy=pol),
            Goal("operand: a literal, a name or a parenthesised expression", comp, policy=pol),
            Goal("line: a whole line is one expression", whole, policy=pol)] + \
        [Goal("copy of %s" % (k or "a null expression"), copies(k), policy=pol) for k in ("Literal", "IdentifierExpression", "BinaryExpression", "UnaryExpression", "Label", None)]


# ---- real code ----------------------------------------------------------------------------------
def c_expr(text):
    r = p_whole(text)
    w = "err" if r is None else " ".join(["%d:%s" % (r[0], "?" if r[1] is None else r[1])] * 4)
    return Case("expr " + hx(text.encode()), want=w, nontrivial=r is not None and r[1] is not None)


NCASES = 20000
FIXED = ["2147483647+1", "-2147483647-2", "65536*65536", "46341*46341", "-(-2147483647-1)", "(-2147483647-1)/-1", "(-2147483647-1)/(0-1)", "1/0", "1/(2-2)", "0/0",
         "7-3-2", "64/4/2", "64/4*2", "2*3+4*5", "2+3*4-5", "-2*3", "-$10", ">$1234+1", "<$1234*2", "^$123456", "-<$ff", "<-1", ">-1", "^-1", "--1", "- -1", "$12345678",
         "%101", "%111111111", "%11111111111111111", "$0000+1", "$00+$0000", "-$00+$000000", "-7/2", "7/-2", "foo+undef", "undef", "@foo+1", "a", "lda", "(1", "1)", "()", "", "1 2", "1:",
         "1;2", "@1", "@(foo)", "foo::", "::", "::1", "a::b", "m::lda", "1+", "+1", "*1", "1**2", "((((((1))))))", "-(1+2)*3", "(1+2)*(3-4)", "<(>$123456)"]


def cases(rnd, n):
    for t in FIXED:
        yield c_expr(t)
    for _ in range(n):
        t = rand_expr(rnd, rnd.randrange(0, 5))
        if rnd.random() < .1:
            i = rnd.randrange(len(t) + 1)
            t = t[:i] + rnd.choice("+-*/()<>^@:,#;x$ %.") + t[i:]
        if BIG not in (p_tokens(t) or ()):
            yield c_expr(t)


ASSUMPTIONS = ["a line of tokens is what the tokenizer gives: known kinds and types, one end-of-line token, the last (C26 covers literals)",
               "an expression's parts give the same answer every time they are asked in one context",
               "the call stack is deep enough for the nesting of the expression"]
