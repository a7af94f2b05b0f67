from .util import *
from .ins import instr, context, Sink, Q
from . import ins, isa, c17
from .c17 import numbers, opcodes

ID = "C19"
SRC = c17.SRC
DRIVER = "instr"
BOUND = {"A_rel8": (-128, 127), "A_rel16": (-32768, 32767)}


def branch(mode):
    def f(g):
        I, P = g.I, g.P
        mn, md = numbers(g)
        tab = opcodes(mode)
        s = instr(g, am=int(md[mode]))
        P.assume(b_or(*[s.mn == mn[m] for m in tab]))
        a, av = addr(g, "at")
        k = Sink(g)
        r = g.call(Q + "Assemble", s.lv, a, context(g), k.ptr)
        ok, _ = errorval(r)
        n, wa, wl, b = k.log()
        nb = isa.BYTES[mode]
        one, t = eq(n, 1), s.v1
        nxt = z_addw(av, 1 + nb)
        inbank = b_and(z3.ULE(t, 0xffffff), z3.Extract(23, 16, t) == z3.Extract(23, 16, av))
        d = z3.SignExt(16, z3.Extract(15, 0, t - nxt))
        lo, hi = BOUND[mode]
        fits = b_and(d >= lo, d <= hi)
        for w, c in (("in reach", b_and(inbank, fits)), ("another bank", b_not(inbank)), ("bank wrap", b_and(one, z3.ULT(z3.Extract(15, 0, t), z3.Extract(15, 0, av)), d > 0))):
            g.cover(w, c)
        if nb == 1:
            g.cover("too far", b_and(inbank, b_not(fits)))
        g.ensure(b_or(eq(n, 0), one), "at most one write")
        g.ensure(eq(one, b_and(s.ok1, inbank, fits)), "assembled exactly for targets in the bank and in reach")
        g.ensure(b_imp(b_not(one), b_not(ok)), "an error in every other case")
        disp = b[1] if nb == 1 else z3.Concat(b[2], b[1])
        back = z_addw(nxt, z3.SignExt(32 - 8 * nb, disp))
        g.ensure(b_imp(one, b_and(wl == 1 + nb, back == t)), "the displacement leads from the following instruction to the target")
    return f


def goals():
    return [Goal("branch " + m, branch(m), rep(m)) for m in c17.REL]


def rep(mode):
    def f(i):
        sx = lambda v: v - (1 << 32) if v >> 31 else v
        return [c17.c_asm(c17.MN[i["mnemonic"]], isa.MODE_ORDER.index(mode), i["suffix"], sx(i["v1"]) if i["ok1"] else None, None, i["at"], not i["sink.ok"])]
    return f


NCASES = 6000


def cases(rnd, n):
    for mode in c17.REL:
        k, tab = isa.MODE_ORDER.index(mode), sorted(opcodes(mode))
        for at in (0, 0x8000, 0xfffe, 0x12ffff, 0x12fffd, 0x120000, 0xff0080, 0xffffff):
            for d in (-32768, -32767, -129, -128, -127, -1, 0, 1, 126, 127, 128, 32766, 32767):
                t = p_addw(p_addw(at, 1 + isa.BYTES[mode]), d)
                for x in (0, 0x10000, -0x10000, 0x1000000, None):
                    yield c17.c_asm(rnd.choice(tab), k, 0, None if x is None else t + x, None, at, False)
        for _ in range(n // 2):
            at = rand_addr(rnd) & 0xffffff
            t = rnd.choice((p_addw(at, rnd.randrange(-140, 140)), (at & 0xff0000) | rnd.randrange(65536), rnd.randrange(1 << 24), rnd.randrange(-2**31, 2**31)))
            yield c17.c_asm(rnd.choice(tab), k, rnd.randrange(3), t, None, at, rnd.random() < .1)


ASSUMPTIONS = c17.ASSUMPTIONS
