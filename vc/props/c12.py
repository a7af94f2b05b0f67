from .util import *
from . import c02, c04
from .. import files, lib

ID = "C12"
SRC = ["nsasm/rom.cc"]
DRIVER = "core"


def load(g):
    I, P = g.I, g.P
    u8 = g.type("unsigned char")
    img = I.symseq(u8, "file")
    n = g.input("n", bv(img.n, 64))
    P.assume(z3.ULE(n, 1 << 40))
    I.fs = fs = files.FileSys(I, u8, img)
    path = I.lib.sym_str(I, "path")
    res = g.call("nsasm::LoadRomFile", None, P.alloc(path))
    ok, val = errorval(res)
    st = fs.st()
    page = n & 0xfff
    head = page == 0x200
    hl = z3.If(head, z3.BitVecVal(0x200, 64), z3.BitVecVal(0, 64))
    size = n - hl
    shape = z3.And(z3.Or(page == 0, head), z3.UGE(size, 0x10000))

    def sums(at):
        b = [bv(sget(img, z3.simplify(hl + at + i)), 8) for i in range(4)]
        for i in range(4):
            P.touch("idx", z3.simplify(hl + at + i))
        return z3.And(b[0] ^ b[2] == 0xff, b[1] ^ b[3] == 0xff)
    lo, hi = sums(0x7fdc), sums(0xffdc)
    for nm, x in (("lo", lo), ("hi", hi)):
        g.input(nm, x)
    g.cover("success", ok)
    g.cover("failure", b_not(ok))
    g.ensure(eq(st.f["open"], 0), "no file is left open")
    if P.branch(ok):
        g.reach()
        g.ensure(b_not(st.f["fault"]), "succeeds only when no file operation failed")
        g.ensure(shape, "succeeds only for a whole ROM of at least 64 KiB")
        g.ensure(lo != hi, "succeeds only when exactly one header checksum is consistent")
        g.ensure(lib.str_eq(st.f["name"], path), "reads the file asked for")
        if not isinstance(val, UPtr) or not isinstance(val.p, Ptr):
            g.ensure(False, "yields a ROM")
            return
        r = P.load(val.p.lv)
        want = z3.If(lo, z3.BitVecVal(0, 32), z3.If(z3.ULT(size, 0x400000), z3.BitVecVal(1, 32), z3.BitVecVal(2, 32)))
        g.ensure(eq(bv(r.f["mapping_mode_"], 32), want), "the mapping is the one whose checksum is consistent")
        d, h = r.f["data_"], r.f["header_"]
        i = g.fresh("i", 64)
        P.touch("idx", i)
        P.touch("idx", z3.simplify(i + hl))
        g.ensure(eq(bv(d.n, 64), size), "the image holds all bytes after the header")
        g.ensure(b_imp(ult(i, size), eq(sget(d, i), sget(img, z3.simplify(i + hl)))), "the image bytes are the file's")
        g.ensure(eq(bv(h.n, 64), hl), "the header is kept when there is one")
        g.ensure(b_imp(ult(i, hl), eq(sget(h, i), sget(img, i))), "the header bytes are the file's")
        g.ensure(lib.str_eq(r.f["path_"], path), "the path is kept")
    else:
        g.reach()
        g.ensure(b_or(st.f["fault"], b_not(shape), lo == hi), "fails only when an operation failed or the file is not such a ROM")


def save(g):
    I, P = g.I, g.P
    u8 = g.type("unsigned char")
    o, img, m = c04.overwriter(g)
    hdr = I.symseq(u8, "header")
    rl = o.f["rom_"].p.lv
    P.write(rl, P.load(rl).set("header_", hdr))
    n, hn = g.input("n", bv(img.n, 64)), g.input("hn", bv(hdr.n, 64))
    P.assume(z3.And(z3.ULE(n, 1 << 40), z3.ULE(hn, 1 << 40)))
    I.fs = fs = files.FileSys(I, u8)
    path = I.lib.sym_str(I, "path")
    this = P.alloc(o)
    res = g.call("nsasm::RomOverwriter::CreateFile", this, P.alloc(path))
    ok, _ = errorval(res)
    st = fs.st()
    g.cover("success", ok)
    g.cover("failure", b_not(ok))
    g.ensure(eq(st.f["open"], 0), "no file is left open")
    g.ensure(P.load(this) is o, "the image is unchanged")
    if P.branch(ok):
        g.reach()
        g.ensure(b_not(st.f["fault"]), "succeeds only when no file operation failed")
        g.ensure(b_and(eq(st.f["opens"], 1), lib.str_eq(st.f["name"], path)), "creates the file asked for")
        out = st.f["out"]
        i = g.fresh("i", 64)
        P.touch("idx", i)
        P.touch("idx", z3.simplify(i - hn))
        P.touch("idx", z3.simplify(i + hn))
        g.ensure(eq(bv(out.n, 64), hn + n), "the file holds the header and the image")
        g.ensure(b_imp(ult(i, hn), eq(sget(out, i), sget(hdr, i))), "the file starts with the original header")
        g.ensure(b_imp(ult(i, n), eq(sget(out, z3.simplify(i + hn)), sget(img, i))), "the image follows the header")
    else:
        g.reach()
        g.ensure(st.f["fault"], "fails only when a file operation failed")


def goals():
    return [Goal("LoadRomFile", load, lambda i: from_model(i)), Goal("RomOverwriter::CreateFile", save, lambda i: from_save(i))]


# ---- the real code ----------------------------------------------------------------------
def content(size, seed, lo, hi, hdr):
    d = image(size, seed)
    for at, k in ((0x7fdc, lo), (0xffdc, hi)):
        if at + 4 > len(d):
            continue
        d[at + 2], d[at + 3] = d[at] ^ 0xff, d[at + 1] ^ 0xff
        if k == 0:
            d[at + 2] ^= 0x10
        if k == 2:
            d[at + 3] ^= 1
    return image(hdr, seed + 1), d


def split(h, d):
    """What a file with these parts is to be read as: (header, data) or None."""
    f = len(h) + len(d)
    if f % 0x1000 not in (0, 0x200):
        return None
    k = 0x200 if f % 0x1000 else 0
    if f - k < 0x10000:
        return None
    full = np.concatenate([h, d])
    h, d = full[:k], full[k:]
    ok = [int(d[at]) ^ int(d[at + 2]) == 255 and int(d[at + 1]) ^ int(d[at + 3]) == 255 for at in (0x7fdc, 0xffdc)]
    if ok[0] == ok[1]:
        return None
    return h, d, 0 if ok[0] else 1 if len(d) < 0x400000 else 2


def read(d, m, a, n):
    if n == 0:
        return b""
    offs = [p_offset(p_addw(a, i), m) for i in range(min(n, 65536))]
    if n < 0 or any(o is None or o >= len(d) for o in offs):
        return None
    b = bytes(bytearray(int(d[o]) for o in offs))
    return (b * (n // 65536 + 1))[:n] if n > 65536 else b


def c_load(size, seed, lo, hi, hdr, a, n, plan=()):
    line = "load %x %x %d %d %x %x %d %s" % (size, seed, lo, hi, hdr, a, n, " ".join(plan) or "-")
    w = split(*content(size, seed, lo, hi, hdr))
    if w is None:
        good = None
    else:
        b = read(w[1], w[2], a, n)
        good = "ok " + ("err" if b is None else "ok " + p_bytes(b)) + " path"
    closing = any(p.startswith("fclose") for p in plan)

    def ok(out):
        f = out.split(" ", 2)
        if len(f) != 3 or f[1] != "open=0":
            return False
        if f[0] != "fired=0" and not closing:
            return f[2] == "err"
        return f[2] == (good or "err") or (closing and f[2] == "err")
    return Case(line, check=ok, want="fired=%s open=0 %s" % ("1" if plan else "0", good or "err"), nontrivial=good is not None)


def c_save(size, seed, lo, hi, hdr, a, n, ws, plan=()):
    line = "resave %x %x %d %d %x %x %x %x %s" % (size, seed, lo, hi, hdr, a, n, ws, " ".join(plan) or "-")
    w = split(*content(size, seed, lo, hi, hdr))
    if w is None:
        return Case(line, want="err", nontrivial=False)
    h, d, m = w
    d = d.copy()
    src = image(n, ws)
    offs = [p_offset(p_addw(a, i), m) for i in range(n)]
    bad = any(o is None or o >= len(d) for o in offs)
    if bad:
        # what a failed write leaves is not specified
        return Case(line, check=lambda o: o.startswith("err fired=") and " open=0 " in o, nontrivial=False)
    for o, b in zip(offs, src):
        d[o] = b
    full = p_bytes(np.concatenate([h, d]).astype(np.uint8).tobytes())

    def ok(out):
        f = out.split(" ")
        if f[0] != "ok" or f[2] != "open=0":
            return False
        if f[1] != "fired=0":
            return f[3] == "err"
        return f[3:] == ["ok", full]
    return Case(line, check=ok, want="ok fired=%s open=0 ok %s" % ("1" if plan else "0", full))


def from_model(i):
    n, out = i.get("n"), []
    if isinstance(n, int) and n < 1 << 24:
        k = 0x200 if n % 0x1000 == 0x200 else 0
        for lo in (1, 0):
            for hi in (1, 0):
                out.append(c_load(n - k if n >= k else n, 3, lo, hi, k, 0xc00000, 16))
                out.append(c_load(n - k if n >= k else n, 3, lo, hi, k, 0x008000, 16))
    return out + [c_load(0x10000 + 0x1000 * j, 5, lo, 1 - lo, h, 0x808000, 4, p) for j in (0, 1) for lo in (0, 1) for h in (0, 0x200) for p in PLANS]


def from_save(i):
    return [c_save(0x10000, 7, 1, 0, h, 0x808000, 3, 9, p) for h in (0, 0x200) for p in PLANS]


PLANS = [()] + [("%s:%d" % (f, k),) for f in ("fopen", "fseek", "ftell", "fread", "fwrite", "fclose") for k in (1, 2)]
SIZES = [0, 1, 0x200, 0xfff, 0x1000, 0xe000, 0xf000, 0xf200, 0xfe00, 0x10000, 0x10000, 0x10000, 0x10001, 0x10100, 0x10200, 0x10e00, 0x11000,
         0x18000, 0x20000, 0x20000]
BIG = [0x3ff000, 0x400000, 0x401000, 0x3ffe00, 0x500000]
NCASES = 400


def cases(rnd, n):
    for i in range(n):
        size = rnd.choice(SIZES)
        if i % 40 == 0:
            size = rnd.choice(BIG)
        hdr = rnd.choice([0, 0, 0x200, 0x200, 0x200, 0x100, 0x400])
        lo, hi = rnd.choice([(1, 0), (0, 1), (1, 2), (2, 1), (1, 0), (0, 1), (0, 0), (1, 1), (2, 2), (0, 2)])
        plan = rnd.choice(PLANS) if rnd.random() < .4 else ()
        seed = rnd.randrange(256)
        a = rnd.choice([0x008000, 0x808000, 0xc00000, 0xc0fff8, 0x400000, 0x40fffe, 0x01fff8, 0x80fffe, rand_addr(rnd)])
        if rnd.random() < .6:
            yield c_load(size, seed, lo, hi, hdr, a, rnd.choice([0, 1, 16, 40, 300, 0x8000]), plan)
        else:
            yield c_save(size, seed, lo, hi, hdr, a, rnd.choice([0, 1, 3, 40, 0x1000]), rnd.randrange(256), plan)


ASSUMPTIONS = ["libc's file calls behave as vc/files.py states: each may fail or transfer fewer bytes; a failed fclose of a file only read is not a fault",
               "the file does not change while it is being read and is smaller than 2^40 bytes; the path holds no NUL byte"]
