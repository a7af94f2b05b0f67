"""Contracts of the C file calls: a read-only file image, the bytes written to
a new file, and a demonic fault at any call.

Ghost cell: open = handles not closed, fault = some call has failed.  A handle
is a cell of its own: pos, data (what the file holds), live, wr."""
import z3
from .values import *
from .engine import *
from .lib import to_str, str_eq

B64 = z3.BitVecSort(64)


class FileSys:
    def __init__(self, I, u8, image=None):
        """image: content of the file being read."""
        self.I, self.u8, self.image = I, u8, image
        self.cell = I.P.alloc(Rec("fs", {"open": z3.BitVecVal(0, 32), "fault": False, "opens": z3.BitVecVal(0, 32),
                                         "name": StrV(), "out": Seq((), et=u8), "closed": False}))

    # -- state
    def st(self):
        return self.I.P.load(self.cell)

    def put(self, **kw):
        r = self.st()
        for k, v in kw.items():
            r = r.set(k, v)
        self.I.P.write(self.cell, r)

    def fault(self):
        """Does this call fail?"""
        P = self.I.P
        x = P.fresh("fault", z3.BoolSort())
        self.put(fault=b_or(self.st().f["fault"], x))
        return P.branch(x)

    def handle(self, v, what):
        P = self.I.P
        if not isinstance(v, Ptr):
            P.oblige(False, "file", self.I.where(), what + " is given an open file")
            raise PathEnd()
        r = P.load(v.lv)
        if not (isinstance(r, Rec) and r.key == "FILE"):
            raise Unsupported("file handle")
        P.oblige(r.f["live"], "file", self.I.where(), what + " is given a file that is still open")
        return r

    # -- calls
    def fopen(self, c):
        P = c.P
        name, mode = to_str(c.I, c.arg(0)), to_str(c.I, c.arg(1)).lit()
        if mode is None or b"+" in mode or mode[:1] not in (b"r", b"w"):
            raise Unsupported("mode of fopen")
        wr = mode[:1] == b"w"
        if not wr and self.image is None:
            raise Unsupported("reading a file not described")
        s = self.st()
        self.put(name=name, opens=s.f["opens"] + 1)
        if self.fault():
            return NULL
        s = self.st()
        self.put(open=s.f["open"] + 1, closed=False)
        if wr:
            self.put(out=Seq((), et=self.u8))
        return Ptr(P.alloc(Rec("FILE", {"live": True, "wr": wr, "pos": z3.BitVecVal(0, 64)})))

    def fclose(self, c):
        P = c.P
        v = c.arg(0)
        r = self.handle(v, "fclose")
        s = self.st()
        self.put(open=s.f["open"] - 1, closed=True)
        P.write(v.lv, r.set("live", False))
        # closing a file that was only read may fail too, but loses nothing
        x = P.fresh("fault", z3.BoolSort())
        if r.f["wr"]:
            self.put(fault=b_or(self.st().f["fault"], x))
        return z3.If(x, z3.BitVecVal(0xffffffff, 32), z3.BitVecVal(0, 32))

    def fseek(self, c):
        P = c.P
        v = c.arg(0)
        r = self.handle(v, "fseek")
        off, wh = bv(c.arg(1), 64), c.arg(2)
        if r.f["wr"]:
            raise Unsupported("seeking in a file being written")
        if not isc(wh):
            raise Unsupported("fseek origin")
        base = {0: z3.BitVecVal(0, 64), 1: r.f["pos"], 2: bv(self.image.n, 64)}[wh]
        to = z3.simplify(base + off)
        if self.fault():
            return 0xffffffff
        P.oblige(to >= 0, "file", self.I.where(), "fseek stays in the file")
        P.write(v.lv, r.set("pos", to))
        return 0

    def rewind(self, c):
        v = c.arg(0)
        r = self.handle(v, "rewind")
        if r.f["wr"]:
            raise Unsupported("seeking in a file being written")
        c.P.write(v.lv, r.set("pos", z3.BitVecVal(0, 64)))

    def ftell(self, c):
        r = self.handle(c.arg(0), "ftell")
        if self.fault():
            return (1 << 64) - 1
        return r.f["pos"]

    def amount(self, c, what):
        P = c.P
        size, count = bv(c.arg(1), 64), bv(c.arg(2), 64)
        total = z3.simplify(size * count)
        P.oblige(z3.Or(size == 0, z3.BVMulNoOverflow(size, count, False)) if not z3.is_bv_value(z3.simplify(size)) or z3.simplify(size).as_long() > 1
                 else True, "file", self.I.where(), what + " is given a size in range")
        return size, count, total

    def result(self, size, count, total, m):
        """Complete elements in m bytes."""
        s, n = z3.simplify(size), z3.simplify(count)
        if z3.is_bv_value(s) and s.as_long() == 1:
            return m
        if z3.is_bv_value(n) and n.as_long() == 1:
            return z3.If(z3.And(m == total, size != 0), z3.BitVecVal(1, 64), z3.BitVecVal(0, 64))
        return z3.If(size == 0, z3.BitVecVal(0, 64), z3.UDiv(m, size))

    def buffer(self, v, total, what):
        P = self.I.P
        if not isinstance(v, Ptr):
            P.oblige(total == 0, "bounds", self.I.where(), what + " is given a buffer")
            return None, None, 0
        if not v.lv.path or v.lv.path[-1][0] != "e":
            raise Unsupported("buffer of " + what)
        lv = LV(v.lv.root, v.lv.path[:-1])
        b, off = P.load(lv), bv(v.lv.path[-1][1], 64)
        P.oblige(z3.And(z3.ULE(off, bv(b.n, 64)), z3.ULE(total, bv(b.n, 64) - off)), "bounds", self.I.where(), what + " stays inside its buffer")
        return lv, b, off

    def fread(self, c):
        P = c.P
        size, count, total = self.amount(c, "fread")
        r = self.handle(c.arg(3), "fread")
        if r.f["wr"]:
            raise Unsupported("reading a file being written")
        lv, b, off = self.buffer(c.arg(0), total, "fread")
        img, pos = self.image, r.f["pos"]
        n = bv(img.n, 64)
        left = z3.If(z3.ULE(pos, n), n - pos, z3.BitVecVal(0, 64))
        avail = z3.If(z3.ULE(total, left), total, left)
        m = P.fresh("bytesread", B64)
        P.assume(z3.ULE(m, avail))
        self.put(fault=b_or(self.st().f["fault"], m != avail))
        P.write(c.arg(3).lv, r.set("pos", z3.simplify(pos + m)))
        if lv is not None:
            def fn(i):
                j = z3.simplify(bv(i, 64) - bv(off, 64))
                P2 = V.CUR
                P2.touch("idx", z3.simplify(pos + j))
                return merge(ult(j, m), img.get(z3.simplify(pos + j)), b.get(i))
            P.write(lv, Seq(n=b.n, fn=fn, et=b.et, ver=b.ver, ev=b.ev))
        return self.result(size, count, total, m)

    def fwrite(self, c):
        P = c.P
        size, count, total = self.amount(c, "fwrite")
        r = self.handle(c.arg(3), "fwrite")
        if not r.f["wr"]:
            raise Unsupported("writing a file being read")
        lv, b, off = self.buffer(c.arg(0), total, "fwrite")
        m = P.fresh("byteswritten", B64)
        P.assume(z3.ULE(m, total))
        s = self.st()
        out = s.f["out"]
        new = Seq(n=z3.simplify(bv(out.n, 64) + m), fn=lambda i: cat(i, out, b, off), et=self.u8)

        def cat(i, out, b, off):
            i = bv(i, 64)
            j = z3.simplify(i - bv(out.n, 64) + bv(off, 64))
            V.CUR.touch("idx", j)
            if out.items is not None and not out.items:
                return b.get(j) if b is not None else z3.BitVecVal(0, 8)
            return merge(ult(i, out.n), out.get(i), b.get(j) if b is not None else z3.BitVecVal(0, 8))
        self.put(fault=b_or(s.f["fault"], m != total), out=new)
        return self.result(size, count, total, m)

    def fflush(self, c):
        self.handle(c.arg(0), "fflush")
        return 0xffffffff if self.fault() else 0


from . import values as V   # noqa
