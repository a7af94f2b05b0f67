"""Specification functions (z3) and their Python twins for the oracles."""
import zlib, numpy as np, z3
from ..values import *
from ..run import Goal, Case


def addr(g, name, maxv=0xffffff):
    """A symbolic nsasm::Address and its number."""
    a = g.I.sym(g.type("nsasm::Address"), name)
    v = a.f["value_"]
    g.P.assume(z3.ULE(v, maxv))
    g.input(name, v)
    return a, v


# ---- the cartridge mapping (from the property text) ---------------------------------
def z_unmapped(a, m):
    bank, low = z3.LShR(a, 16), a & 0xffff
    return z3.Or(bank == 0x7e, bank == 0x7f,
                 z3.And(z3.ULT(low, 0x8000), z3.Or(z3.ULT(bank, 0x40), z3.And(z3.UGE(bank, 0x80), z3.ULT(bank, 0xc0)))),
                 z3.And(m == 0, z3.ULT(low, 0x8000)))


def z_offset(a, m):
    """64-bit cartridge offset of a mapped address."""
    bank, low = z3.LShR(a, 16), a & 0xffff
    lo = ((bank & 0x7f) << 15) | (low & 0x7fff)
    hi = ((bank & 0x3f) << 16) | low
    ex = hi | z3.If((bank & 0x80) == 0, z3.BitVecVal(0x400000, 32), z3.BitVecVal(0, 32))
    return z3.ZeroExt(32, z3.If(m == 0, lo, z3.If(m == 1, hi, ex)))


def z_addw(a, off):
    """address advanced by off (32 bits), wrapping in its bank"""
    return (a & 0xff0000) | ((a + off) & 0xffff)


def p_offset(a, m):
    bank, low = a >> 16, a & 0xffff
    if bank in (0x7e, 0x7f) or (low < 0x8000 and (bank < 0x40 or 0x80 <= bank < 0xc0)) or (m == 0 and low < 0x8000):
        return None
    if m == 0:
        return (bank & 0x7f) << 15 | (low & 0x7fff)
    o = (bank & 0x3f) << 16 | low
    return o | (0x400000 if m == 2 and bank < 0x80 else 0)


def p_addw(a, off):
    return (a & 0xff0000) | ((a + off) & 0xffff)


def image(n, seed):
    i = np.arange(n, dtype=np.int64)
    return ((i * 31 + (i >> 8) * 57 + (i >> 16) * 101 + (i >> 4) * 7 + seed) & 255).astype(np.uint8)


def p_bytes(b):
    b = bytes(b)
    if len(b) <= 48:
        return "%d:%s" % (len(b), b.hex() or "-")
    return "%d:#%08x" % (len(b), zlib.crc32(b))


def hx(s):
    if isinstance(s, str):
        s = s.encode("latin1")
    return s.hex() or "-"


def errorval(r):
    """(ok condition, value) of an ErrorOr<T> result record."""
    v = r.f["value"]
    if isinstance(v, OptV):
        return b_not(v.has), None
    return eq(v.idx, 1), v.alts[1]


def s32(x):
    x &= 0xffffffff
    return x - (1 << 32) if x & (1 << 31) else x


EDGE_ADDR = [0, 1, 0x7ffe, 0x7fff, 0x8000, 0x8001, 0xfffe, 0xffff]


def rand_addr(r):
    b = r.choice([0, 1, 0x3f, 0x40, 0x7d, 0x7e, 0x7f, 0x80, 0xbf, 0xc0, 0xff, r.randrange(256)])
    return b << 16 | r.choice(EDGE_ADDR + [r.randrange(0x10000)] * 3)


def sget(s, i, w=8):
    """Element i of a sequence in a specification (anything when out of range)."""
    if s.items is not None and not s.items:
        return z3.BitVecVal(0, w)
    return bv(s.get(i), w)
