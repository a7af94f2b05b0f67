import re
from .util import *
from . import c12
from .. import values as V, lib
from ..engine import PathEnd, Undecided

ID = "C14"
SRC = ["util/quick_dump.cc", "nsasm/memory.cc", "nsasm/rom.cc", "nsasm/error.cc"]
DRIVER = "core"


class World:
    """Contracts of what main() calls: LoadRomFile (C12), Rom::Read (C02), sscanf."""

    def __init__(self, g, stride):
        I, P = g.I, g.P
        self.g, self.stride = g, stride
        u8 = g.type("unsigned char")
        et = g.type("nsasm::Error")
        self.loaded = P.fresh("loads", z3.BoolSort())
        self.loaderr = I.sym(et, "load.error")
        B32, B8 = z3.BitVecSort(32), z3.BitVecSort(8)
        self.mem = z3.Function("rom.byte", B32, B8)
        self.bad = z3.Function("rom.unmapped", B32, z3.BoolSort())
        err = I.symfn(et, "read.error", [B32, B32])
        self.err = err
        # ghost: which arguments were converted, and to what
        self.nums = P.alloc(Rec("scanned", dict([("arg%d" % i, z3.BitVecVal(0, 32)) for i in range(8)] + [("arg%d?" % i, False) for i in range(8)])))
        romt = g.type("nsasm::Rom")
        cell = P.alloc(I.sym(romt, "rom"))

        def load(c):
            rt = c.rt
            return Rec(rt.key, {"value": VarV(merge(self.loaded, 1, 0), (self.loaderr, UPtr(Ptr(cell))))}, rt.tn)

        def read(c):
            a, n = bv(c.arg(0).f["value_"], 32), c.arg(1)
            if not isc(n) or not 0 <= n <= 8:
                raise Undecided("read of an unusual length")
            ok = b_not(self.unread(a, n))
            data = Seq([self.mem(z_addw(a, i)) for i in range(n)], et=u8, ver=newver())
            return Rec(c.rt.key, {"value": VarV(merge(ok, 1, 0), (err(a, z3.BitVecVal(n, 32)), data))}, c.rt.tn)

        def scan(c):
            """%x or %d: converts (1), or finds nothing to convert (0 or EOF)."""
            fmt = lib.to_str(c.I, c.arg(1)).lit()
            name = c.arg(0).s.p[0][1]
            if fmt not in (b"%x", b"%d"):
                raise Undecided("conversion")
            r = c.P.choose(3)
            if r == 0:
                return 0
            if r == 1:
                return 0xffffffff
            v = c.P.fresh(name + fmt.decode()[1:], B32)
            if name == "arg4":
                if self.stride in (2, 3):
                    v = self.stride
                else:
                    c.P.assume(z3.And(v != 2, v != 3))
            if (fmt == b"%x") != (name == "arg2"):
                raise Undecided("conversion")
            r = c.P.load(self.nums).set(name, v).set(name + "?", True)
            c.P.write(self.nums, r)
            c.P.write(c.arg(2).lv, v)
            return 1
        I.contracts["nsasm::LoadRomFile"] = load
        I.contracts["nsasm::Rom::Read"] = I.contracts["nsasm::InputSource::Read"] = read
        I.contracts["sscanf"] = I.contracts["std::sscanf"] = scan
        I.stdout = P.alloc(Seq((), et=g.type("std::basic_string<char>")))

    def unread(self, a, n):
        return b_or(*[self.bad(z3.simplify(z_addw(a, i))) for i in range(n)])


def dump(g, stride):
    I, P = g.I, g.P
    w = World(g, stride)
    argc = g.input("argc", g.fresh("argc", 32))
    P.assume(z3.And(argc >= 1, argc <= 1000))
    args = [CStr(StrV([("o", "arg%d" % i, P.fresh("arg%d.code" % i, z3.IntSort()), P.fresh("arg%d.len" % i, z3.BitVecSort(64)))])) for i in range(8)]
    if stride in (2, 3):
        P.assume(argc > 4)
    av = P.alloc(Seq(args, et=None))
    res = g.call("main", None, argc, Ptr(av.sub(("e", 0))))
    out = P.load(I.stdout)
    nums = P.load(w.nums).f
    if P.branch(argc < 4):
        return          # usage
    if not P.branch(w.loaded):
        g.cover("load error", True)
        g.ensure(eq(bv(res, 32), 1), "exit status 1 when the ROM cannot be loaded")
        printed(g, out, w.loaderr)
        return
    start, count = bv(nums["arg2"], 32), bv(nums["arg3"], 32)
    fine = b_and(nums["arg2?"], nums["arg3?"], b_or(argc <= 4, nums["arg4?"]), b_or(argc <= 5, nums["arg5?"]), z3.ULE(start, 0xffffff))
    if not P.branch(fine):
        return          # not a dump: an argument is not a number, or not an address
    per = z3.If(argc > 5, bv(nums["arg5"], 32), z3.BitVecVal(8, 32))
    per = z3.If(per < 1, z3.BitVecVal(1, 32), per)
    n = z3.ZeroExt(32, z3.If(count < 1, z3.BitVecVal(1, 32), count))
    st = stride if stride in (2, 3) else 1
    at = lambda i: z3.simplify(z_addw(start, z3.Extract(31, 0, bv(i, 64)) * st))

    def value(i):
        v = z3.BitVecVal(0, 32)
        for k in range(st):
            v = v | (z3.ZeroExt(24, w.mem(z3.simplify(z_addw(at(i), k)))) << (8 * k))
        return z3.simplify(v)
    its = [t for t in P.touched if t.startswith("it:") and t != "it:*"]
    if P.must(eq(bv(res, 32), 0)):
        g.cover("dump", True)
        g.reach()
        i = g.fresh("i", 64)
        for t in its:
            P.touch(t, i)
        g.ensure(b_imp(ult(i, n), b_not(w.unread(at(i), st))), "exit status 0 only when every entry can be read")
        lines(g, out, start, n, per, st, value, its)
    else:
        g.cover("read error", True)
        g.reach()
        g.ensure(eq(bv(res, 32), 1), "exit status 1 when an entry cannot be read")
        # the error printed is that of an entry that cannot be read
        if not (out.items is not None and len(out.items) == 1):
            raise Undecided("shape of the output")
        for k in P.iters[-1:] or [z3.BitVecVal(i, 64) for i in range(8)]:
            if P.must(w.unread(at(k), st)):
                break
        g.ensure(b_and(ult(k, n), w.unread(at(k), st)), "fails only when an entry cannot be read")
        printed(g, out, w.err(at(k), z3.BitVecVal(st, 32)))


def printed(g, out, err):
    """The last output is the error's text and a newline."""
    I, P = g.I, g.P
    if out.items is None or len(out.items) != 1:
        raise Undecided("shape of the output")
    f = g.find("nsasm::Error::ToString")
    s = I.call_fn(f, P.alloc(err), [])
    g.ensure(lib.str_eq(out.items[0], s + lib.S("\n")), "prints the error")


def lines(g, out, start, n, per, st, value, its):
    """Output 0 is the origin line; outputs 1.. are data lines."""
    I, P = g.I, g.P
    got = [out.get(0)]
    hexd = lambda v, wd: ("x", v, wd, False)
    g.ensure(lib.str_eq(out.get(0), StrV([b".org $", hexd(start, 6), b"\n"])), "the origin line")
    directive = {1: b".db", 2: b".dw", 3: b".dl"}[st]

    def line(s):
        """The sequence of entries of a data line."""
        p = s.p
        if len(p) > 2 and isinstance(p[0], bytes) and p[0].endswith(b"$") and isinstance(p[-1], bytes):
            # written out: $ x , $ x ... newline
            es = []
            for i in range(1, len(p), 2):
                es.append(StrV([b"$", p[i]]))
                ok = p[i][0] == "x" and i + 1 < len(p) and (p[i + 1] == b"\n" if i + 2 >= len(p) else p[i + 1].strip() in (b",$", b", $"))
                g.ensure(ok, "entries are separated by commas")
            g.ensure(p[0][:-1].split() == [directive] and p[0][-2:-1] in b" \t", "a data directive of the width")
            return Seq(es)
        if len(p) != 3 or not isinstance(p[0], bytes) or p[2] != b"\n":
            raise Undecided("shape of the output")
        g.ensure(p[0].split() == [directive] and p[0][-1:] in b" \t", "a data directive of the width")
        if p[1][0] == "j":
            g.ensure(p[1][1].strip() == b"," , "entries are separated by commas")
            return p[1][2]
        return Seq([StrV([p[1]])])

    def entries(q, lo, what):
        i = g.fresh("pos", 64)
        P.touch("idx", i)
        for t in its:
            P.touch(t, z3.simplify(lo + i))
        if q.items is not None and len(q.items) == 1:
            i = z3.BitVecVal(0, 64)
        e = q.get(i)
        g.ensure(b_imp(ult(i, q.n), lib.str_eq(e, StrV([b"$", hexd(value(lo + i), 2 * st)]))), what + " lists the entries in order")
        g.ensure(b_and(ule(1, q.n), ule(q.n, z3.ZeroExt(32, per))), what + " has at least one and at most per-line entries")
    N = bv(out.n, 64)
    if not P.prefixes:
        if not isc(out.n) or out.n != 2:
            raise Undecided("shape of the output")
        q = line(out.get(1))
        entries(q, z3.BitVecVal(0, 64), "the line")
        g.ensure(eq(bv(q.n, 64), n), "every entry is listed")
        return
    S = P.prefixes[-1].pos
    j = g.fresh("line", 64)
    P.assume(ult(j, N - 2))
    for t in its:
        P.touch(t, j)
    for x in P.iters:
        for t in its:
            P.touch(t, x)
    q = line(out.get(z3.simplify(j + 1)))
    g.ensure(S(z3.BitVecVal(0, 64)) == 0, "the first line starts at entry 0")
    g.ensure(S(z3.simplify(j + 1)) == S(j) + bv(q.n, 64), "each line starts where the one before ended")
    entries(q, S(j), "a line")
    q = line(out.get(z3.simplify(N - 1)))
    g.ensure(S(z3.simplify(N - 2)) + bv(q.n, 64) == n, "the last line ends at the last entry")
    entries(q, S(z3.simplify(N - 2)), "the last line")


def goals():
    return [Goal("main, stride %s" % s, lambda g, s=s: dump(g, s), lambda i, s=s: replay(i, s), policy=dict(merge_ifs=False)) for s in (1, 2, 3)]


# ---- the real code ----------------------------------------------------------------------
LINE = re.compile(r"\s*\.(d[bwl])\s+(\$[0-9a-f]+(?:\s*,\s*\$[0-9a-f]+)*)\s*\Z")


def c_dump(size, seed, lo, hi, hdr, args):
    line = "dump %x %x %d %d %x %d %s" % (size, seed, lo, hi, hdr, len(args), " ".join(hx(a) for a in args))
    w = c12.split(*c12.content(size, seed, lo, hi, hdr))
    nums = [int(args[0], 16)] + [int(a, 10) for a in args[1:]]
    a, n, st, per = nums + [1, 8][len(nums) - 2:]
    st = st if st in (2, 3) else 1
    per, n = max(per, 1), max(n, 1)
    if a > 0xffffff:
        return Case(line, check=lambda o: o.split(" ")[0] in ("0", "1"), want="no abnormal termination", nontrivial=False)
    good = None
    if w is not None:
        vals = []
        for i in range(n):
            b = c12.read(w[1], w[2], p_addw(a, i * st), st)
            if b is None:
                break
            vals.append("$%0*x" % (2 * st, int.from_bytes(b, "little")))
        else:
            good = vals

    def ok(out):
        f = out.split(" ")
        if len(f) != 2 or f[1].startswith("#"):
            return False
        text = bytes.fromhex(f[1].replace("-", "")).decode("latin1")
        if good is None:
            return f[0] == "1" and text.strip() != "" and not any(LINE.match(l) for l in text.split("\n"))
        if f[0] != "0" or not text.endswith("\n"):
            return False
        ls = text[:-1].split("\n")
        if ls[0].split() != [".org", "$%06x" % a]:
            return False
        got = []
        for l in ls[1:]:
            m = LINE.match(l)
            if not m or m.group(1) != {1: "db", 2: "dw", 3: "dl"}[st]:
                return False
            es = [e.strip() for e in m.group(2).split(",")]
            if len(es) > per:
                return False
            got += es
        return got == good
    want = "exit 1 and an error" if good is None else ".org $%06x, then %s %s" % (a, len(good), " ".join(good[:6]))
    return Case(line, check=ok, want=want, nontrivial=good is not None)


def replay(inp, st):
    out = []
    for lo, hi in ((1, 0), (0, 1), (0, 0)):
        for a in (0x808000, 0x80fffd, 0xc00000, 0x00ffff, 0x7e0000, 0x01fff0):
            for n in (1, 5, 8, 9, 16, 17):
                out.append(c_dump(0x10000, 3, lo, hi, 0, ["%x" % a, "%d" % n, "%d" % st]))
                out.append(c_dump(0x10000, 3, lo, hi, 0, ["%x" % a, "%d" % n, "%d" % st, "4"]))
    return out


NCASES = 200


def cases(rnd, n):
    for i in range(n):
        size = rnd.choice([0x10000, 0x10000, 0x10000, 0x11000, 0x20000, 0x20000, 0xf000, 0x10100])
        hdr = rnd.choice([0, 0, 0x200])
        lo, hi = rnd.choice([(1, 0), (0, 1), (1, 2), (0, 1), (1, 0), (0, 0), (1, 1)])
        a = rnd.choice([0x008000, 0x808000, 0xc00000, 0xc0fff8, 0x400000, 0x40fffe, 0x01fff8, 0x80fffe, rand_addr(rnd), rand_addr(rnd)])
        if i % 50 == 9:
            a = rnd.choice([0x1000000, 0x1008000, 0xffffffff])
        args = ["%x" % a, "%d" % rnd.choice([1, 2, 3, 7, 8, 9, 16, 17, 24, 40, 0, -3, rnd.randrange(1, 300), rnd.choice([4000, 30000])])]
        if rnd.random() < .8:
            args.append("%d" % rnd.choice([1, 2, 3, 3, 2, 1, 0, 4, -1, 2, 3]))
            if rnd.random() < .6:
                args.append("%d" % rnd.choice([1, 2, 3, 4, 8, 16, 300, 0, -5]))
        yield c_dump(size, rnd.randrange(256), lo, hi, hdr, args)


ASSUMPTIONS = ["LoadRomFile and Rom::Read behave as their contracts (C12, C02) say; the ROM is not changed while it is dumped",
               "sscanf %x / %d yields 1 and any 32-bit value, or 0 or EOF and no value; printf writes its arguments as documented; output errors are not modelled"]
