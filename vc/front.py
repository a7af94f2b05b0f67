"""Runs the front end on the repository's current sources and gives the VC
generator access to the functions found there."""
import hashlib, json, os, subprocess, sys, tempfile, concurrent.futures as cf

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CXXFE = os.path.join(VERIF, "build", "cxxfe")
STD = ["-std=c++20"]


class ExtractionError(Exception):
    pass


class Type:
    __slots__ = ("k", "s", "w", "sg", "to", "el", "n", "tn", "ta", "key", "tu", "cst")

    def __repr__(self):
        return "T(%s)" % self.s

    def strip(self):
        t = self
        while t.k in ("lref", "rref"):
            t = t.to
        return t

    @property
    def isref(self):
        return self.k in ("lref", "rref")

    @property
    def isclass(self):
        return self.k == "rec"


class TU:
    def __init__(self, prog, d, main):
        self.prog, self.main = prog, main
        self.raw = d["types"]
        self.types = [None] * len(self.raw)

    def T(self, i):
        if i is None or i < 0:
            return None
        t = self.types[i]
        if t is not None:
            return t
        r = self.raw[i]
        t = Type()
        self.types[i] = t
        t.k, t.s = r["k"], r["s"]
        t.w, t.sg = r.get("w"), r.get("sg")
        t.n, t.tn, t.key, t.tu = r.get("n"), r.get("tn"), r.get("key"), self
        t.cst = r.get("cst")
        t.to = self.T(r["to"]) if "to" in r else None
        t.el = self.T(r["el"]) if "el" in r else None
        t.ta = []
        for a in r.get("ta", []):
            t.ta.append(self.T(a["t"]) if "t" in a else a.get("i"))
        return t


class Fn:
    """A function of the repository (or of an allowed library header)."""
    __slots__ = ("key", "tu", "ps", "repo", "loc", "end", "inits", "body", "info", "meta")


class FInfo:
    __slots__ = ("key", "tu", "q", "n", "file", "cls", "ct", "static", "virtual", "const", "pure",
                 "sp", "ctor", "conv", "defaulted", "implicit", "trivial", "rt", "pt", "ta", "raw")


class Program:
    def __init__(self):
        self.tus = []
        self.funcs, self.finfo, self.recs, self.enums, self.globals = {}, {}, {}, {}, {}
        self.by_q = {}

    def add(self, d):
        tu = TU(self, d, d["main"])
        self.tus.append(tu)
        for k, i in d["finfo"].items():
            if k in self.finfo and not (k in d["funcs"] and k not in self.funcs):
                continue
            f = FInfo()
            f.key, f.tu, f.raw = k, tu, i
            f.q, f.n, f.file = i["q"], i["n"], i["file"]
            f.cls = i.get("cls")
            f.ct = tu.T(i["ct"]) if "ct" in i else None
            f.static, f.virtual = i.get("static", False), i.get("virtual", False)
            f.const, f.pure = i.get("const", False), i.get("pure", False)
            f.sp, f.ctor, f.conv = i.get("sp"), i.get("ctor", False), i.get("conv", False)
            f.defaulted, f.implicit, f.trivial = i["defaulted"], i["implicit"], i["trivial"]
            f.rt = tu.T(i["rt"])
            f.pt = [tu.T(x) for x in i["pt"]]
            f.ta = [tu.T(a["t"]) if "t" in a else a.get("i") for a in i.get("ta", [])]
            self.finfo[k] = f
        for k, b in d["funcs"].items():
            if k in self.funcs:
                continue
            f = Fn()
            f.key, f.tu = k, tu
            f.ps = [(p["id"], p["n"], tu.T(p["t"])) for p in b["ps"]]
            f.repo, f.loc, f.end = b["repo"], b["loc"], b.get("end")
            f.inits, f.body = b.get("inits"), b["body"]
            f.info, f.meta = self.finfo[k], {}
            self.funcs[k] = f
            self.by_q.setdefault(f.info.q, []).append(f)
        for k, r in d["recs"].items():
            if k in self.recs and "fields" in self.recs[k]:
                continue
            r = dict(r)
            r["tu"] = tu
            self.recs[k] = r
        for k, e in d["enums"].items():
            self.enums.setdefault(k, e)
        for k, g in d["globals"].items():
            if k in self.globals and ("init" in self.globals[k] or "cv" in self.globals[k]):
                continue
            g = dict(g)
            g["tu"] = tu
            self.globals[k] = g

    # -- lookups ---------------------------------------------------------------
    def find(self, q, pred=None, ptypes=None):
        """The unique function with qualified name q (and parameter types)."""
        r = []
        for f in self.by_q.get(q, []):
            if ptypes is not None and [p[2].strip().s.replace("const ", "") for p in f.ps] != ptypes:
                continue
            if pred and not pred(f):
                continue
            r.append(f)
        if len(r) != 1:
            raise ExtractionError("%d candidates for function %s %s" % (len(r), q, ptypes or ""))
        return r[0]

    def type(self, s):
        for tu in self.tus:
            for i, r in enumerate(tu.raw):
                if r["s"] == s:
                    return tu.T(i)
        raise ExtractionError("no type " + s)

    def bases(self, key):
        r = self.recs.get(key)
        out = []
        for b in (r or {}).get("bases", []):
            t = r["tu"].T(b)
            out.append(t)
            out += self.bases(t.key)
        return out


def ensure_frontend():
    p = subprocess.run([os.path.join(VERIF, "fe", "build.sh")], capture_output=True, text=True)
    if p.returncode:
        raise ExtractionError("front end does not build: " + p.stderr[-2000:])


def _one(src, out, extra):
    cmd = [CXXFE, out, REPO + "/:" + VERIF + "/", src, "--", "-resource-dir", "/usr/lib/llvm-18/lib/clang/18",
           *STD, "-include", os.path.join(VERIF, "fe", "opts.h"), "-iquote", REPO, *extra]
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode or not os.path.exists(out):
        raise ExtractionError("%s: %s" % (src, p.stderr[-3000:]))
    with open(out) as f:
        return json.load(f)


def load(sources, extra=()):
    """sources: paths relative to the repository (or absolute)."""
    ensure_frontend()
    prog = Program()
    with tempfile.TemporaryDirectory(prefix="vcfe") as td:
        jobs = []
        with cf.ThreadPoolExecutor(8) as ex:
            for i, s in enumerate(sources):
                path = s if os.path.isabs(s) else os.path.join(REPO, s)
                jobs.append(ex.submit(_one, path, os.path.join(td, "%d.json" % i), list(extra)))
            for j in jobs:
                prog.add(j.result())
    return prog
