"""An arbitrary instruction: helpers shared by C17-C20 and C24."""
from .util import *
from .st import *
from . import isa

SRC = ["nsasm/instruction.cc", "/verif/replay/inst_instr.cc"]
Q = "nsasm::Instruction::"


def optv(g, t, name):
    return g.I.sym(t, name)


def someerror(g, name):
    return g.I.sym(g.type("nsasm::Error"), name)


class Ins:
    """Fields: mn, am, suf (terms or ints), v1/ok1, v2/ok2 (what the operands
    evaluate to), lv (the instruction object)."""


def instr(g, mn=None, am=None, suf=None, ret=None):
    I, P = g.I, g.P
    t = g.type("nsasm::Instruction")
    ft = dict(I.fields(t))
    s = Ins()

    def en(v, f, top, name):
        w = ft[f].strip().w
        if v is None:
            v = g.fresh(name, w)
            P.assume(z3.ULT(v, top))
            g.input(name, v)
            return v
        return v
    s.mn = en(mn, "mnemonic", len(g.prog.enums["nsasm::Mnemonic"]), "mnemonic")
    s.suf = en(suf, "suffix", 3, "suffix")
    s.am = en(am, "addressing_mode", 27, "mode")
    vals = {}
    for i in (1, 2):
        v, ok, exists = g.fresh("v%d" % i, 32), g.fresh("ok%d" % i, None), g.fresh("has%d" % i, None)
        g.input("v%d" % i, v)
        g.input("ok%d" % i, ok)
        vals["arg%d" % i] = (v, ok)
    s.v1, s.ok1 = vals["arg1"]
    s.v2, s.ok2 = vals["arg2"]
    s.err = {n: someerror(g, n + ".error") for n in vals}

    # contract of Expression::Evaluate: a number, or an error; the same one every time
    def ev(c):
        p = [x for x in c.obj.path if x[0] == "f" and x[1] in vals]
        if not p:
            raise Unsupported("evaluation of another expression")
        n = p[0][1]
        v, ok = vals[n]
        return Rec(c.rt.key, {"value": VarV(merge(ok, 1, 0), (s.err[n], v))}, c.rt.tn)
    I.contracts["nsasm::ExpressionOrNull::Evaluate"] = ev
    e = g.type("nsasm::ExpressionOrNull")
    ex = lambda n: Rec(e.key, {f: Opaque("expression " + n) for f, _ in I.fields(e)}, e.tn)
    s.ret = ret if ret is not None else I.sym(ft["return_convention"], "ret")
    f = {"mnemonic": s.mn, "suffix": s.suf, "addressing_mode": s.am, "arg1": ex("arg1"), "arg2": ex("arg2"), "return_convention": s.ret,
         "location": I.sym(ft["location"], "location")}
    if set(f) != set(ft):
        raise Unsupported("the fields of Instruction")
    s.rec = Rec(t.key, {n: f[n] for n in ft}, t.tn)
    s.lv = P.alloc(s.rec)
    return s


def context(g):
    """Some lookup context (its only use is through Evaluate)."""
    t = g.type("nsasm::LookupContext")
    return g.P.alloc(Rec(t.key, {}, t.tn))


class Sink:
    """Contract of an output sink: records what it is given, answers with success or an error.  Holds what was written in
    a cell of the state: n (writes), addr, len, b0..b7 of the last."""

    def __init__(self, g, fails=True, keep=8):
        I, P = g.I, g.P
        self.g, self.keep = g, keep
        zero = lambda w: z3.BitVecVal(0, w)
        f = {"n": zero(32), "addr": zero(32), "len": zero(64)}
        f.update({"b%d" % i: zero(8) for i in range(keep or 0)})
        if not keep:
            f.update({"data": Seq(()), "off": 0})
        self.cell = P.alloc(Rec("ghost", f, "ghost"))
        self.ok = g.fresh("sink.ok", None) if fails else True
        if fails:
            g.input("sink.ok", self.ok)
        I.contracts["nsasm::OutputSink::Write"] = self.write
        t = g.type("nsasm::OutputSink")
        self.ptr = Ptr(P.alloc(Rec(t.key, {}, t.tn)))
        self.err = someerror(g, "sink.error")

    def write(self, c):
        P, g = c.P, self.g
        a, d = c.arg(0), c.arg(1)
        old = P.load(self.cell)
        s = P.load(d.lv)
        f = {"n": old.f["n"] + 1, "addr": bv(a.f["value_"], 32), "len": bv(d.n, 64)}
        if not self.keep:
            f.update({"data": s, "off": d.off})
            P.write(self.cell, Rec("ghost", f, "ghost"))
            return Rec(c.rt.key, {"value": OptV(b_not(self.ok), self.err)}, c.rt.tn)
        P.oblige(z3.ULE(bv(d.n, 64), self.keep), "ensures", c.I.where(), "at most %d bytes a write" % self.keep)
        for i in range(self.keep):
            inr = z3.ULT(z3.BitVecVal(i, 64), bv(d.n, 64))
            if P.feasible(inr):
                v = bv(s.get(add64(d.off, i)), 8)
                f["b%d" % i] = z3.simplify(z3.If(inr, v, z3.BitVecVal(0, 8)))
            else:
                f["b%d" % i] = z3.BitVecVal(0, 8)
        P.write(self.cell, Rec("ghost", f, "ghost"))
        t = c.rt
        # ErrorOr<void>: an error when there is a value
        return Rec(t.key, {"value": OptV(b_not(self.ok), self.err)}, t.tn)

    def log(self):
        """(writes, address, length, bytes)"""
        r = self.g.P.load(self.cell)
        if not self.keep:
            return r.f["n"], r.f["addr"], r.f["len"], lambda i: bv(r.f["data"].get(add64(r.f["off"], i)), 8)
        return r.f["n"], r.f["addr"], r.f["len"], [r.f["b%d" % i] for i in range(self.keep)]
