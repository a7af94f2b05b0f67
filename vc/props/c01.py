from .util import *

ID = "C01"
SRC = ["nsasm/rom.cc"]
DRIVER = "core"


def mapping_goal(g):
    f = g.find("nsasm::SnesToROMAddress")
    a, av = addr(g, "a")
    m = g.input("m", g.fresh("m", 32))
    g.P.assume(z3.ULE(m, 2))
    r = g.call(f, None, a, m)
    ok, val = errorval(r)
    g.cover("success", ok)
    g.cover("failure", b_not(ok))
    g.ensure(eq(zb(ok), z3.Not(z_unmapped(av, m))), "translation succeeds exactly for cartridge addresses")
    if val is not None:
        g.ensure(b_imp(ok, eq(val, z_offset(av, m))), "the offset is the one the cartridge wiring defines")


def case(a, m):
    o = p_offset(a, m)
    return Case("s2r %x %x" % (a, m), want="err" if o is None else "ok %x" % o)


def goals():
    return [Goal("SnesToROMAddress", mapping_goal, replay=lambda i: [case(i["a"], i["m"])])]


def cases(r, n):
    for b in range(256):
        for m in range(3):
            for lo in (0, 0x7fff, 0x8000, 0xffff):
                yield case(b << 16 | lo, m)
    for _ in range(n):
        yield case(rand_addr(r), r.randrange(3))
