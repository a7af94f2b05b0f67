"""Instruction sizes hold on every path: the search of Module::RunFirstPass over the lines of a module.

A machine is anything a tracked state may describe.  D(s, m): the tracked state s describes the machine m.  What the
statements do to machines, and which states describe them, are arbitrary functions tied together by the contracts of
Execute, ExecuteBranch (C24), merging and comparing states (C22)."""
import copy
from .util import *
from .par import wide
from .mod import *
from . import mod, c20, c22, ins
from .c29 import inside, touched, is_counter, pcell, once_only

ID = "C33"
SRC = mod.SRC
DRIVER = "asm"


def paths(g):
    """Module::RunFirstPass: every line's state covers all paths to it, and fixes the size of its instruction."""
    I, P = g.I, g.P
    est, sft = g.type("nsasm::ExecutionState"), g.type("nsasm::StatusFlags")
    KEYSORT["machine"] = INT
    B = z3.BoolSort()
    D = P.fresh_fn("describes", [INT, INT], B)
    step, bstep = P.fresh_fn("after", [B64, INT], INT), P.fresh_fn("after the branch", [B64, INT], INT)
    leaves_, isbra = P.fresh_fn("leaves", [B64], B), P.fresh_fn("local branch", [B64], B)
    declared = P.fresh_fn("declared", [B64], INT)
    ident, goal = P.fresh_fn("branches to", [B64], INT), P.fresh_fn("line named", [INT, B64], B32)
    depth, scope = P.fresh_fn("scopes", [B64], B64), P.fresh_fn("scope", [B64, B64], B32)
    fixed = P.fresh_fn("size fixed", [B64, INT], B)
    name_len = P.fresh_fn("length", [B64], B64)
    st_ = lambda t, i: Rec(t.key, {"$id": i}, t.tn)
    ES = lambda i: st_(est, i)
    lft = dict(I.fields(g.type("nsasm::Module::Line")))
    et = lft["active_scopes"].strip().ta[0].strip()
    L = Lines(g, active_scopes=lambda i: Seq(n=depth(i), fn=lambda k: scope(i, bv(k, 64)), et=et, ver=newver()))
    n = L.n
    P.fact(("idx",), lambda i: z3.ULE(depth(i), n))
    P.fact(("idx",), lambda i: b_not(L.reached(i)))             # a module as it is loaded
    dt = [x for x, _ in I.fields(L.dt) if x == "flag_state_argument"]
    if not dt:
        raise Unsupported("the flags of an .entry")
    L.rest[L.dt.tn, "flag_state_argument"] = lambda i: st_(sft, declared(i))
    in0 = P.fresh_fn("incoming", [B64], INT)
    L.rest[L.t.tn, "incoming_state"] = lambda i: ES(in0(i))
    t = g.type("nsasm::Module")
    this = P.alloc(Rec(t.key, {k: L.seq if k == "lines_" else Opaque(k) for k, _ in I.fields(t)}, t.tn))
    lines = this.sub(("f", "lines_"))
    err = some(g, "error")
    entry = lambda i: L.isdir(i, "entry")
    target = lambda i: z3.SignExt(32, goal(ident(i), i))

    def ident_of(c, x):
        v = c.P.load(x) if isinstance(x, LV) else x
        v = c.P.load(v.lv) if isinstance(v, Ptr) else v
        if not isinstance(v, Rec) or "$id" not in v.f:
            raise Unsupported("a state of unknown origin")
        return v.f["$id"]

    def moved(c, what, fn):
        i = touched(P, L.of(c))
        a = c.args[0]
        lv = a.lv if isinstance(a, Ptr) else a
        old, new = ident_of(c, lv), P.fresh(what, INT)
        P.fact(("machine",), lambda m: b_imp(D(old, m), D(new, fn(i, m))))
        c.P.write(lv, ES(new))
        return result(c, P.fresh(what + " ok", B), err, void=True)

    def join(c):
        a, b, m = ident_of(c, c.obj), ident_of(c, c.args[0]), P.fresh("joined", INT)
        P.fact(("machine",), lambda x: b_imp(b_or(D(a, x), D(b, x)), D(m, x)))
        c.P.write(c.obj, ES(m))
        return c.obj

    def same_state(neg):
        def f(c):
            a, b, e = ident_of(c, c.obj), ident_of(c, c.args[0]), P.fresh("same state", B)
            P.fact(("machine",), lambda x: b_imp(e, eq(D(a, x), D(b, x))))
            return b_not(e) if neg else e
        return f

    def local(c):
        s = c.args[1]
        s = c.P.load(s) if isinstance(s, LV) else s
        if not isinstance(s, Seq) or not z3.is_app(s.n) or not s.n.decl().eq(depth(bv(0, 64)).decl()):
            raise Unsupported("the scopes of another place")
        a = c.args[0]
        a = c.P.load(a) if isinstance(a, LV) else a
        v = goal(str_code(a), s.n.arg(0))
        ok = P.fresh("found", B)
        P.assume(b_imp(ok, ult(z3.SignExt(32, v), n)))          # C29
        return result(c, ok, err, v)

    def fix(c):
        i, f, ok = touched(P, L.of(c)), ident_of(c, c.args[0]), P.fresh("fixed", B)
        P.assume(b_imp(ok, fixed(i, f)))
        return result(c, ok, err, void=True)

    def start(c):
        """a state from declared flags, as at an entry (C22: ExecutionState at entry)"""
        return ES(ident_of(c, c.args[0]) if c.args else P.fresh("no state", INT))
    some_of = lambda what: (lambda c: I.sym(c.rt, what))
    idx = lambda c: touched(P, L.of(c))
    I.contracts.update({
        "nsasm::Statement::Execute": lambda c: moved(c, "executed", step), "nsasm::Instruction::ExecuteBranch": lambda c: moved(c, "branched", bstep),
        "nsasm::Instruction::Execute": lambda c: moved(c, "executed", step),
        "nsasm::Statement::IsExitInstruction": lambda c: leaves_(idx(c)), "nsasm::Instruction::IsLocalBranch": lambda c: isbra(idx(c)),
        "nsasm::Statement::Location": some_of("location"), "nsasm::Module::LocalIndex": local,
        "nsasm::ExecutionState::operator==": same_state(False), "nsasm::ExecutionState::operator!=": same_state(True),
        "nsasm::ExecutionState::operator|=": join, "nsasm::ExecutionState::ExecutionState": start,
        "nsasm::ExecutionState::Flags": lambda c: P.alloc(st_(sft, ident_of(c, c.obj))),
        "nsasm::Instruction::FixAddressingMode": fix, "nsasm::Statement::SerializedSize": lambda c: L.size(idx(c)),
        "nsasm::ExpressionOrNull::SimpleIdentifier": lambda c: OptV(P.fresh("named", B), StrV([("o", "branches to", ident(idx(c)), name_len(idx(c)))])),
        "nsasm::ToString": some_of("text"),
        "nsasm::ExpressionOrNull::Evaluate": lambda c: result(c, P.fresh("evaluates", B), err, P.fresh("origin", B32)),
    })

    def family(visits, values):
        M = copy.copy(cur["L"])
        M.rest = dict(M.rest)
        if visits:
            f = P.fresh_fn("incoming", [B64], INT)
            M.rest[L.t.tn, "incoming_state"] = lambda i: ES(f(i))
            M.reached = P.fresh_fn("reached", [B64], B)
            cur["L"] = M
        if values:
            M.has, M.val = P.fresh_fn("has value", [B64], B), P.fresh_fn("value", [B64], B32)
        return Seq(n=n, fn=M.line, et=L.t, ver=newver())
    cur = {"L": L}

    def now(i):
        r = P.load(lines).get(i)
        return r, zb(r.f["reached"]), r.f["incoming_state"].f["$id"]

    def same(i):
        r, _, _ = now(i)
        st = r.f["statement"]
        d = st.f["data_"]
        a = d.alts
        return b_and(eq(bv(P.load(lines).n, 64), n), b_imp(ult(i, n), b_and(r.f["$line"] == i, st.f["$line"] == i,
                     eq(bv(d.idx, 64), z3.If(zb(L.kind(i)), z3.BitVecVal(L.alt[1], 64), z3.BitVecVal(L.alt[0], 64))),
                     b_imp(L.kind(i), b_and(a[L.alt[1]].f["name"] == L.dn(i), a[L.alt[1]].f["flag_state_argument"].f["$id"] == declared(i))))))

    visit = {}

    def there(i, m):
        """A machine at line i is covered, or the line is to be visited in a state that covers it."""
        v = hashmap.to_func(I, P.load(visit["lv"]))
        x = v.get(i)
        w = b_and(v.has(i), D(x.f["$id"], m)) if isinstance(x, Rec) and "$id" in x.f else False
        _, r, s = now(i)
        return b_or(w, b_and(ult(i, n), r, D(s, m)))

    def at(i, *ms):
        if mode["prove"]:
            P.touch("idx", i)
            for m in ms:
                P.touch_raw("machine", m)

    def onward(i, m):
        at(z3.simplify(i + 1), step(i, m))
        _, r, s = now(i)
        return b_imp(b_and(ult(i, n), r, D(s, m), b_not(leaves_(i))), there(z3.simplify(i + 1), step(i, m)))

    def aside(i, m):
        at(target(i), bstep(i, m))
        _, r, s = now(i)
        return b_imp(b_and(ult(i, n), r, D(s, m), b_not(L.kind(i)), isbra(i)), b_and(ult(target(i), n), there(target(i), bstep(i, m))))

    def begun(upto):
        def f(i, m):
            at(z3.simplify(i + 1), m)
            return b_imp(b_and(ult(i, n), ult(i, upto), entry(i), D(declared(i), m)), there(z3.simplify(i + 1), m))
        return f
    PATHS = [(("idx", "machine"), onward, "what follows a line is covered or to be visited"),
             (("idx", "machine"), aside, "and where it branches to"),
             (("idx", "machine"), begun(n), "and every entry")]
    keep = (("idx",), same, "the statements stay")

    def sized(p):
        def f(i):
            _, r, s = now(i)
            return b_imp(b_and(ult(i, n), ult(i, p), b_not(L.kind(i))), b_and(r, fixed(i, s)))
        return (("idx",), f, "instructions passed are reached and have the size of their state")
    stage = {}

    class Inv_(QInv):
        scoped = True

    def loop(I, Lp):
        if once_only(Lp):
            return None
        ch = changed(I, Lp)
        if any(is_counter(P, r) for r, _ in ch):
            at_ = g.type("nsasm::Address")
            c0 = cur["L"]

            def stay(i):
                r, a, b = now(i)
                return b_and(eq(a, zb(c0.reached(i))), b == c0.rest[L.t.tn, "incoming_state"](i).f["$id"])
            cells = [(lines, lambda: family(False, True)), (pcell(P), lambda: OptV(P.fresh("known", B), Rec(at_.key, {"value_": P.fresh("counter", B32)}, at_.tn)))]
            return Inv_(g, I, Lp, cells, lambda q: [keep, (("idx",), stay, "the states stay")])
        leaves = {r for r, _ in ch}
        lv_, law = None, None
        try:
            cell, law = inside(I, P, n)
            visit["lv"] = cell[0]
        except Undecided:
            pass
        if law is None or visit["lv"].root not in leaves:
            return Inv_(g, I, Lp, [], lambda q: [sized(q.pos())])
        vt = P.load(visit["lv"]).t

        def some_visits():
            h, x = P.fresh_fn("to visit", [B64], B), P.fresh_fn("to visit in", [B64], INT)
            return hashmap.MapV(vt, lambda k: h(k), lambda k: ES(x(k)))
        cell = (visit["lv"], some_visits)
        if lines.root not in leaves:
            return Inv_(g, I, Lp, [cell], lambda q: [law, (("idx", "machine"), begun(q.pos()), "entries passed are to be visited")])
        return Inv_(g, I, Lp, [(lines, lambda: family(True, False)), cell], lambda q: [keep, law] + PATHS)
    I.hoare = loop
    i, m = g.fresh("line", 64), P.fresh("machine", INT)
    P.touch("idx", i)
    P.touch_raw("machine", m)
    r = g.call("nsasm::Module::RunFirstPass", this)
    ok, _ = errorval(r)
    g.cover("succeeds", ok)
    g.cover("fails", b_not(ok))
    if not P.branch(ok):
        return
    P.assume(ult(i, n))
    for j, x in ((z3.simplify(i + 1), m), (z3.simplify(i + 1), step(i, m)), (target(i), bstep(i, m))):
        P.touch("idx", j)
        P.touch_raw("machine", x)
    _, rch, s = now(i)
    covers = lambda j, x: b_and(ult(j, n), now(j)[1], D(now(j)[2], x))
    g.ensure(b_imp(b_not(L.kind(i)), b_and(rch, fixed(i, s))), "every instruction is reached and has its size fixed by the state it is reached in")
    g.ensure(b_imp(b_and(entry(i), D(declared(i), m)), covers(z3.simplify(i + 1), m)), "an entry's state covers the declared flags")
    g.ensure(b_imp(b_and(rch, D(s, m), b_not(leaves_(i))), covers(z3.simplify(i + 1), step(i, m))), "the state of the next line covers what falls through")
    g.ensure(b_imp(b_and(rch, D(s, m), b_not(L.kind(i)), isbra(i)), covers(target(i), bstep(i, m))), "the state at a branch's target covers what branches there")


ENDS = ("jmp", "rts", "rtl", "rti", "stp", "bra", "brl")


def ends(g):
    """Which statements do not go on to the next one, and which branch within the module."""
    I, P = g.I, g.P
    s = ins.instr(g)
    vt = dict(I.fields(g.type("nsasm::ReturnConvention")))["state_"].strip()
    never = [j for j, x in enumerate(vt.ta) if x.strip().tn == "nsasm::NoReturn"]
    if len(never) != 1:
        raise Unsupported("the return conventions")
    k = dict(I.fields(g.type("nsasm::Statement")))["data_"].strip()
    alt = {x.strip().tn: j for j, x in enumerate(k.ta)}
    mn, md, dn = g.prog.enums["nsasm::Mnemonic"], g.prog.enums["nsasm::AddressingMode"], g.prog.enums["nsasm::DirectiveName"]
    last = b_or(*[bv(s.mn, 32) == int(mn["M_" + x]) for x in ENDS])
    st = g.type("nsasm::Statement")

    def statement(j, v):
        a = [None] * len(k.ta)
        a[j] = v
        return P.alloc(Rec(st.key, {"data_": VarV(j, tuple(a))}, st.tn))
    w = statement(alt["nsasm::Instruction"], s.rec)
    g.cover("ends", last)
    e = g.call("nsasm::Statement::IsExitInstruction", w)
    g.ensure(eq(zb(e), zb(b_or(last, wide(s.ret.f["state_"].idx) == never[0]))), "jumps, returns, STP, BRA, BRL and calls that never return do not go on")
    b = g.call("nsasm::Statement::IsLocalBranch", w)
    rel = b_or(*[bv(s.am, 32) == int(md[x]) for x in ("A_rel8", "A_rel16")])
    g.ensure(eq(zb(b), zb(b_and(rel, bv(s.mn, 32) != int(mn["M_per"])))), "relative instructions but PER branch within the module")
    L = Lines(g)
    i = g.fresh("line", 64)
    P.assume(b_and(ult(i, L.n), L.kind(i)))
    P.touch("idx", i)
    w = statement(alt["nsasm::Directive"], P.load(P.alloc(L.line(i).f["statement"])).f["data_"].alts[alt["nsasm::Directive"]])
    g.ensure(eq(zb(g.call("nsasm::Statement::IsExitInstruction", w)), zb(L.isdir(i, "halt"))), "of the directives only .halt ends a path")
    g.ensure(b_not(zb(g.call("nsasm::Statement::IsLocalBranch", w))), "directives do not branch")


def goals():
    pol = {"merge_ifs": False}
    return [Goal("Module::RunFirstPass: every path", paths, policy=pol),
            Goal("statements that end a path or branch", ends, policy=pol, src=["nsasm/statement.cc", "/verif/replay/inst_asm.cc"]),
            *[Goal("C20: " + x.name, x.fn, src=c20.SRC, policy=x.policy) for x in c20.goals()],
            *[Goal("C22: " + x.name, x.fn, src=c22.SRC, policy=x.policy) for x in c22.goals() if x.name.startswith("ExecutionState")]]


ASSUMPTIONS = ["the state after Execute and ExecuteBranch describes every machine the state before describes, run through the statement (C24)",
               "merging two states describes what either describes, states that compare equal describe the same (C22; its whole-state goals are run here too)",
               "a branch names a line of the module (C29); RunFirstPass runs once on a freshly loaded module",
               "that the analysis comes to an end is not decided here"]
NCASES = 3000


# ---- small programs, run by hand ---------------------------------------------------------------------------
def program(rnd):
    n = rnd.randrange(2, 9)
    out = []
    for i in range(n):
        k = rnd.choice(["rep", "sep", "lda", "lda", "ldx", "nop", "bcc", "bne", "bra", "rts"])
        out.append((k, rnd.choice([0x10, 0x20, 0x30]) if k in ("rep", "sep") else rnd.randrange(n) if k in ("bcc", "bne", "bra") else rnd.randrange(128)))
    if rnd.random() < .9:
        out[-1] = rnd.choice([("rts", 0), ("bra", rnd.randrange(n))])
    return rnd.choice(["m8x8", "m16x16", "m8x16", "m16x8"]), out


def text(e, p):
    o = ["  .org $8000", "  .entry " + e]
    for i, (k, a) in enumerate(p):
        o.append("l%d: %s" % (i, {"rep": "rep #$%02x", "sep": "sep #$%02x", "lda": "lda #%d", "ldx": "ldx #%d", "bcc": "bcc l%d", "bne": "bne l%d", "bra": "bra l%d"}[k] % a if k not in ("nop", "rts") else k))
    return "\n".join(o) + "\n"


def bytes_of(e, p):
    """The bytes, or None when the sizes differ between paths, or a statement is not reached, or a path runs off the end."""
    m, x = "8" in e.split("x")[0], e.endswith("x8")
    seen, todo = {i: set() for i in range(len(p))}, [(0, m, x)]
    while todo:
        i, m, x = todo.pop()
        if i >= len(p):
            return None
        if (m, x) in seen[i]:
            continue
        seen[i].add((m, x))
        k, a = p[i]
        if k in ("bcc", "bne", "bra"):
            todo.append((a, m, x))
        if k in ("rep", "sep"):
            m, x = (k == "sep" if a & 0x20 else m), (k == "sep" if a & 0x10 else x)
        if k not in ("bra", "rts"):
            todo.append((i + 1, m, x))
    size = []
    for i, (k, a) in enumerate(p):
        w = {s[k == "ldx"] for s in seen[i]}
        if not w or (k in ("lda", "ldx") and len(w) > 1):
            return None
        size.append({"rep": 2, "sep": 2, "nop": 1, "rts": 1, "bcc": 2, "bne": 2, "bra": 2}.get(k) or (2 if w == {True} else 3))
    at = [sum(size[:i]) for i in range(len(p) + 1)]
    out = []
    for i, (k, a) in enumerate(p):
        out += {"rep": lambda: [0xc2, a], "sep": lambda: [0xe2, a], "nop": lambda: [0xea], "rts": lambda: [0x60],
                "lda": lambda: [0xa9, a, 0][:size[i]], "ldx": lambda: [0xa2, a, 0][:size[i]]}.get(k, lambda: [{"bcc": 0x90, "bne": 0xd0, "bra": 0x80}[k], (at[a] - at[i + 1]) & 255])()
    return out


def cases(rnd, n):
    back = ("m8x8", [("lda", 18), ("rep", 0x20), ("bra", 0)])
    for j in range(n):
        e, p = program(rnd) if j else back
        b = bytes_of(e, p)
        good = None if b is None else "ok " + "".join("%x:%x," % (0x8000 + i, v) for i, v in enumerate(b))
        yield Case("asm 1 %s 0" % hx(text(e, p).encode()), check=lambda o, g=good: o.startswith("err") or (g is not None and o.strip() == g), nontrivial=True)
