"""Runs the checks: proves the goals of a property over /repo's current source,
replays what fails on the real code, writes the evidence file."""
import importlib, json, multiprocessing as mp, os, random, subprocess, sys, time, traceback, hashlib, signal
import z3
from . import front, engine, interp, lib, values
from .values import *

VERIF = front.VERIF
REPO = front.REPO


class Goal:
    """One function (or lemma) under contract."""

    def __init__(self, name, fn, replay=None, src=None, budget=None, policy=None):
        self.name, self.fn, self.replay, self.src, self.budget, self.policy = name, fn, replay, src, budget, policy or {}


class Case:
    """One input for the real code: a line for the driver and its oracle."""
    __slots__ = ("line", "check", "want", "nontrivial")

    def __init__(self, line, check=None, want=None, nontrivial=True):
        self.line, self.check, self.want, self.nontrivial = line, check, want, nontrivial

    def ok(self, out):
        if self.check is not None:
            return bool(self.check(out))
        return out == self.want


class Ctx:
    """What a goal sees on one path."""

    def __init__(self, eng, I, P):
        self.eng, self.I, self.P, self.prog = eng, I, P, eng.prog

    def find(self, q, **kw):
        return self.prog.find(q, **kw)

    def type(self, s):
        return self.prog.type(s)

    def fresh(self, name, bits):
        return self.P.fresh(name, z3.BitVecSort(bits) if bits else z3.BoolSort())

    def input(self, name, t):
        """Registers a term as an input shown in counterexamples."""
        if callable(t):
            self.P.inputs[name] = t
            return t

        def f(m):
            if isc(t):
                return t
            v = m.eval(t, model_completion=True)
            if z3.is_bool(t):
                return z3.is_true(v)
            return v.as_long()
        self.P.inputs[name] = f
        return t

    def inseq(self, name, s, cap=70000):
        """Registers a sequence of bytes as an input."""
        def f(m):
            n = s.n if isc(s.n) else m.eval(bv(s.n, 64), model_completion=True).as_long()
            if n > cap:
                return {"len": n}
            out = []
            for i in range(n):
                v = s.get(i)
                out.append(v if isc(v) else m.eval(v, model_completion=True).as_long())
                if i >= 4096 and n > 8192:
                    return {"len": n, "head": out}
            return {"len": n, "bytes": out}
        self.P.inputs[name] = f

    def under(self, fn):
        self.I.under_proof = fn.key

    def call(self, fn, this, *args):
        if isinstance(fn, str):
            fn = self.find(fn)
        self.I.under_proof = fn.key
        self.eng.stats.functions.setdefault(fn.info.q, 0)
        return self.I.call_fn(fn, this, list(args))

    def ensure(self, c, text, kind="postcondition"):
        self.P.oblige(c, kind, self.goal, text)

    def reach(self):
        """Counts a reachable state from which a contradiction is to be derived."""
        if not self.P.quiet and self.P.feasible(z3.BoolVal(True)):
            self.eng.stats.cover += 1

    def cover(self, name, c=True):
        """A situation that must be reachable on some path (guards against
        vacuous proofs)."""
        if name in self.eng.covered or self.P.quiet:
            return
        self.eng.wanted.add(name)
        if not isinstance(c, bool):
            c = z3.simplify(zb(c))
        if c is True or (c is not False and self.P.feasible(c)):
            self.eng.covered.add(name)


def prove_goal(goal, prog, tier, deadline):
    eng = engine.Engine(prog, prove_ms=30000 if tier == "quick" else 120000)
    eng.deadline = time.time() + deadline
    eng.covered = set()
    eng.wanted = set()
    I = interp.Interp(eng, lib.Lib())
    for k, v in goal.policy.items():
        setattr(eng if k == "feas_ms" else I, k, v)
    res = dict(goal=goal.name, failures=[], undecided=None)
    t0 = time.time()

    def go(P):
        I.frames = []
        I.contracts = {}
        I.hoare = None
        I.inv = {}
        I.ptrbases = {}
        I.stdout = None
        I.fs = None
        g = Ctx(eng, I, P)
        g.goal = goal.name
        goal.fn(g)
        if not P.quiet:
            if P.feasible(z3.BoolVal(True)):
                eng.stats.cover += 1
    try:
        eng.run(go)
    except engine.Undecided as e:
        res["undecided"] = "limit: %s" % e
    except (Unsupported, NotMergeable) as e:
        res["undecided"] = "unsupported: %s (at %s)" % (e, safe(I.where))
        if os.environ.get("VCDBG"):
            traceback.print_exc()
    except front.ExtractionError as e:
        res["undecided"] = "extraction: %s" % e
    except z3.Z3Exception as e:
        if os.environ.get("VCDBG"):
            traceback.print_exc()
        res["undecided"] = "solver: %s (at %s)" % (e, safe(I.where))
    except RecursionError:
        res["undecided"] = "recursion limit"
    except Exception as e:
        res["undecided"] = "internal: %s" % "".join(traceback.format_exception(e)[-4:])
    st = eng.stats
    if res["undecided"] is None and not eng.failures:
        if st.obl == 0:
            res["undecided"] = "vacuous: no obligation was generated"
        elif st.cover == 0:
            res["undecided"] = "vacuous: no path reaches the postcondition"
        elif eng.wanted - eng.covered:
            res["undecided"] = "vacuous: never reached: " + ", ".join(sorted(eng.wanted - eng.covered))
    if st.bounded and res["undecided"] is None:
        res["undecided"] = "a loop could not be summarised: %s (%s)" % (", ".join(st.bounded), I.last_noform)
    for f in eng.failures:
        res["failures"].append(dict(kind=f.kind, where=f.where, what=f.what, unknown=f.unknown, inputs=f.inputs,
                                    notes=getattr(f, "notes", [])))
    res["stats"] = dict(obl=st.obl, dis=st.dis, triv=st.triv, queries=st.queries, solver_s=st.solver_s, paths=st.paths,
                        cover=st.cover, by_kind=st.by_kind, functions=st.functions, contracts=st.contracts_used,
                        lib=st.lib_used, loops=st.loops, bounded=st.bounded, backends=st.backends, covered=sorted(eng.covered))
    res["wall"] = time.time() - t0
    return res


def safe(f):
    try:
        return f()
    except Exception:
        return "?"


def _child(goal, prog, tier, deadline, q):
    sys.setrecursionlimit(20000)
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    try:
        q.send(prove_goal(goal, prog, tier, deadline))
    except MemoryError:
        q.send(dict(goal=goal.name, failures=[], undecided="out of memory", stats=None, wall=0))
    except BaseException as e:
        q.send(dict(goal=goal.name, failures=[], undecided="internal: %r" % e, stats=None, wall=0))
    q.close()


def prove_all(goals, prog, tier, total):
    """Each goal in its own process."""
    end = time.time() + total
    todo, running, done = list(goals), [], []
    ctx = mp.get_context("fork")
    while todo or running:
        while todo and len(running) < 8:
            g = todo.pop(0)
            a, b = ctx.Pipe(False)
            dl = max(5, min(g.budget or total, end - time.time()))
            p = ctx.Process(target=_child, args=(g, prog, tier, dl, b))
            p.start()
            b.close()
            running.append((g, p, a, time.time() + dl + 45))
        for r in list(running):
            g, p, a, t = r
            got = None
            if a.poll(0.02):
                try:
                    got = a.recv()
                except EOFError:
                    got = dict(goal=g.name, failures=[], undecided="the prover process died", stats=None, wall=0)
            elif not p.is_alive() and not a.poll(0.1):
                got = dict(goal=g.name, failures=[], undecided="the prover process died", stats=None, wall=0)
            elif time.time() > t:
                got = dict(goal=g.name, failures=[], undecided="time limit", stats=None, wall=0)
            if got is not None:
                p.kill()
                p.join()
                running.remove(r)
                done.append(got)
    return done


# ---- the real code --------------------------------------------------------------------
class DriverError(Exception):
    pass


class Driver:
    """Builds and runs a replay driver linked with the repository's sources."""

    def __init__(self, spec):
        self.spec = spec
        self.exe = None

    def build(self):
        s = self.spec
        srcs = [os.path.join(VERIF, "replay", x) for x in s["driver"]] + [os.path.join(REPO, x) for x in s["repo"]]
        h = hashlib.sha256()
        for root, _, files in sorted(os.walk(REPO)):
            if "/.git" in root or "/_build" in root:
                continue
            for f in sorted(files):
                if f.endswith((".h", ".cc")):
                    with open(os.path.join(root, f), "rb") as fh:
                        h.update(f.encode() + b"\0" + fh.read())
        for x in sorted(os.listdir(os.path.join(VERIF, "replay"))):
            p = os.path.join(VERIF, "replay", x)
            if os.path.isfile(p):
                with open(p, "rb") as fh:
                    h.update(fh.read())
        h.update(json.dumps(s, sort_keys=True).encode())
        d = os.path.join(VERIF, "build", "drv-" + s["name"])
        os.makedirs(d, exist_ok=True)
        exe, tagf = os.path.join(d, "driver"), os.path.join(d, "tag")
        tag = h.hexdigest()
        if os.path.exists(exe) and os.path.exists(tagf) and open(tagf).read() == tag:
            self.exe = exe
            return
        flags = ["-std=c++20", "-g1", "-O1", "-w", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined",
                 "-I", REPO, "-iquote", REPO, "-I", os.path.join(VERIF, "replay")] + s.get("flags", [])
        tmp = os.path.join(d, "o%d" % os.getpid())
        os.makedirs(tmp, exist_ok=True)
        jobs = []
        objs = []
        for i, src in enumerate(srcs):
            o = os.path.join(tmp, "%d.o" % i)
            objs.append(o)
            ex = ["-Dmain=repo_main"] if src.endswith("quick_dump.cc") else []
            jobs.append((src, subprocess.Popen(["clang++-18", *flags, *ex, "-c", src, "-o", o], stdout=subprocess.DEVNULL,
                                               stderr=subprocess.PIPE, text=True)))
        err = None
        for src, p in jobs:
            e = p.communicate()[1]
            if p.returncode:
                err = err or (src, e)
        if not err:
            p = subprocess.run(["clang++-18", "-fsanitize=address,undefined", *objs, "-o", exe + ".tmp", *s["libs"]],
                               capture_output=True, text=True)
            if p.returncode:
                err = ("link", p.stderr)
        subprocess.run(["rm", "-r", tmp])
        if err:
            raise DriverError("%s: %s" % (err[0], err[1][:3000]))
        os.replace(exe + ".tmp", exe)
        with open(tagf, "w") as f:
            f.write(tag)
        self.exe = exe

    def run(self, lines, per_line=20, total=120):
        """Output of the real code for each line; CRASH: ... when it dies."""
        out = []
        import tempfile, shutil
        scratch = tempfile.mkdtemp(prefix="nsdrv")
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:symbolize=0",
                   UBSAN_OPTIONS="print_stacktrace=0:symbolize=0", TMPDIR=scratch)
        end = time.time() + total
        try:
            while len(out) < len(lines):
                rest = lines[len(out):]
                n0 = len(out)
                with open(os.path.join(scratch, "in"), "w") as f:
                    f.write("\n".join(rest) + "\n")
                with open(os.path.join(scratch, "in")) as fi, open(os.path.join(scratch, "out"), "wb") as fo, \
                        open(os.path.join(scratch, "err"), "wb") as fe:
                    p = subprocess.Popen([self.exe, scratch], stdin=fi, stdout=fo, stderr=fe, env=env, cwd=scratch)
                    try:
                        p.wait(max(1, min(end - time.time(), per_line + 0.05 * len(rest))))
                        hung = False
                    except subprocess.TimeoutExpired:
                        p.kill()
                        p.wait()
                        hung = True
                txt = open(os.path.join(scratch, "out"), errors="replace").read()
                got = [l[2:] for l in txt.split("\n") if l.startswith("> ")]
                out += got[:len(rest)]
                if len(got) >= len(rest):
                    break
                err = open(os.path.join(scratch, "err"), errors="replace").read()
                msg = [l for l in err.split("\n") if "rror" in l or "ssert" in l or "terminate" in l]
                if hung and time.time() >= end:
                    return out
                out.append(("HANG" if hung else "CRASH: " + (msg[0][:300] if msg else "exit status %d" % p.returncode)))
            return out
        finally:
            shutil.rmtree(scratch, ignore_errors=True)


CORE_LIBS = ("absl_str_format_internal absl_cord absl_cordz_info absl_cord_internal absl_cordz_functions absl_cordz_handle "
             "absl_hash absl_city absl_low_level_hash absl_raw_hash_set absl_hashtablez_sampler absl_exponential_biased "
             "absl_synchronization absl_graphcycles_internal absl_stacktrace absl_symbolize absl_debugging_internal "
             "absl_demangle_internal absl_malloc_internal absl_time absl_civil_time absl_time_zone absl_strings "
             "absl_strings_internal absl_base absl_spinlock_wait absl_int128 absl_throw_delegate absl_bad_optional_access "
             "absl_bad_variant_access absl_raw_logging_internal absl_log_severity").split()
CORE_LIBS = ["-l" + x for x in CORE_LIBS] + ["-lrt", "-lpthread"]
WRAP = ["-Wl,--wrap=" + x for x in ("fopen", "fclose", "fread", "fwrite", "fseek", "ftell")]
# what the repository's sources outside the pinned build need
OPTS = ["-include", os.path.join(VERIF, "replay", "opts.h")]
DRIVERS = {
    "core": dict(name="core", driver=["core.cc"],
                 repo=["nsasm/error.cc", "nsasm/memory.cc", "nsasm/mnemonic.cc", "nsasm/ranges.cc", "nsasm/rom.cc",
                       "test/test_sink.cc", "util/quick_dump.cc"], libs=[*WRAP, *CORE_LIBS]),
    "op": dict(name="op", driver=["op.cc", "shim.cc"], repo=["nsasm/opcode_map.cc"], libs=CORE_LIBS, flags=OPTS),
    "instr": dict(name="instr", driver=["instr.cc", "shim.cc"],
                  repo=["nsasm/" + f for f in ("addressing_mode.cc", "calling_convention.cc", "decode.cc", "error.cc", "execution_state.cc", "expression.cc",
                                               "instruction.cc", "memory.cc", "mnemonic.cc", "opcode_map.cc")], libs=CORE_LIBS, flags=OPTS),
    "directive": dict(name="directive", driver=["directive.cc", "shim.cc"],
                      repo=["nsasm/" + f for f in ("calling_convention.cc", "directive.cc", "error.cc", "execution_state.cc", "expression.cc", "memory.cc",
                                                   "mnemonic.cc")], libs=CORE_LIBS, flags=OPTS),
    "parse": dict(name="parse", driver=["parse.cc", "shim.cc"],
                  repo=["nsasm/" + f for f in ("addressing_mode.cc", "calling_convention.cc", "decode.cc", "directive.cc", "error.cc", "execution_state.cc",
                                               "expression.cc", "instruction.cc", "memory.cc", "mnemonic.cc", "opcode_map.cc", "parse.cc", "statement.cc",
                                               "token.cc")], libs=CORE_LIBS, flags=OPTS),
    "asm": dict(name="asm", driver=["asm.cc", "shim.cc"],
                repo=["nsasm/" + f for f in ("addressing_mode.cc", "assembler.cc", "calling_convention.cc", "decode.cc", "directive.cc", "error.cc",
                                             "execution_state.cc", "expression.cc", "file.cc", "instruction.cc", "memory.cc", "mnemonic.cc", "module.cc",
                                             "opcode_map.cc", "parse.cc", "ranges.cc", "statement.cc", "token.cc")], libs=CORE_LIBS, flags=OPTS),
    "state": dict(name="state", driver=["state.cc", "shim.cc"], repo=["nsasm/execution_state.cc"], libs=CORE_LIBS, flags=OPTS),
}


# ---- one property ------------------------------------------------------------------------
def load_known(pid):
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("known:") and "property=%s " % pid in l + " ":
                d = dict(w.split("=", 1) for w in l.split() if "=" in w)
                out.append((d.get("input", ""), l))
    return out


def write_replay(pid, n, d):
    dr = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(dr, exist_ok=True)
    p = os.path.join(dr, "%s-%d.json" % (pid, n))
    with open(p, "w") as f:
        json.dump(d, f, indent=1, default=str)
    return p


def check(pid, tier, seed):
    t0 = time.time()
    mod = importlib.import_module("vc.props." + pid.lower())
    quick = tier == "quick"
    rnd = random.Random(seed)
    drv, derr = None, None
    thr = None
    if getattr(mod, "DRIVER", None):
        drv = Driver(DRIVERS[mod.DRIVER])
        import threading

        def b():
            nonlocal derr
            try:
                drv.build()
            except Exception as e:
                derr = str(e)
        thr = threading.Thread(target=b)
        thr.start()
    results, load_err = [], None
    try:
        progs = {}
        goals = mod.goals()
        for g in goals:
            src = tuple(g.src or mod.SRC)
            if src not in progs:
                progs[src] = front.load(list(src), getattr(mod, "EXTRA", ()))
        total = getattr(mod, "BUDGET", 420) if quick else 3000
        for src, prog in progs.items():
            results += prove_all([g for g in goals if tuple(g.src or mod.SRC) == src], prog, tier, total)
    except front.ExtractionError as e:
        load_err = str(e)
    except Exception as e:
        load_err = "internal: " + traceback.format_exc()
    if thr:
        thr.join()
    gmap = {g.name: g for g in (goals if not load_err else [])}
    # -- replay of the failed obligations, and the bounded run on the real code
    violations, known = [], []
    failures = [(r["goal"], f) for r in results for f in r["failures"]]
    undecided = [(r["goal"], r["undecided"]) for r in results if r["undecided"]]
    undecided += [(g, "solver gave no answer: %s at %s" % (f["what"], f["where"])) for g, f in failures if f["unknown"]]
    if load_err:
        undecided.append(("*", load_err))
    nrep = 0
    ncases = ndist = 0
    samples = []
    bad_cases = []

    def run_cases(cases):
        nonlocal ncases
        outs = drv.run([c.line for c in cases], total=300)
        ncases += len(outs)
        for c, o in zip(cases, outs):
            if not c.ok(o):
                bad_cases.append((c, o))
        return outs
    confirmed = {}
    if drv and not derr:
        for i, (gn, f) in enumerate(failures):
            g = gmap.get(gn)
            if g and g.replay and f["inputs"]:
                try:
                    cs = g.replay(f["inputs"])
                except Exception as e:
                    f["replay_error"] = repr(e)
                    continue
                for c in cs or []:
                    o = drv.run([c.line])[0]
                    if not c.ok(o):
                        confirmed[i] = (c, o)
                        break
        if hasattr(mod, "cases"):
            n = getattr(mod, "NCASES", 3000)
            if not quick:
                n *= 20
            try:
                seen = set()

                def batch(n):
                    nonlocal ndist
                    cases = list(mod.cases(rnd, n))
                    for c in cases:
                        if c.nontrivial and c.line not in seen:
                            seen.add(c.line)
                    ndist = len(seen)
                    return cases, run_cases(cases)
                cases, outs = batch(n)
                if quick and (failures or undecided) and not bad_cases and not confirmed:
                    batch(7 * n)
                for c, o in list(zip(cases, outs))[:: max(1, len(cases) // 4)][:4]:
                    samples.append(dict(input=c.line[:300], output=o[:300]))
            except Exception as e:
                undecided.append(("bounded run", "internal: " + traceback.format_exc()[-1500:]))
    elif derr:
        undecided.append(("replay driver", derr[:2000]))
    kn = load_known(pid)

    def is_known(c):
        for pat, l in kn:
            if pat and c.line.replace(" ", "_") == pat:
                return l
        return None
    # violations with an input confirmed on the real code
    for c, o in [confirmed[i] for i in sorted(confirmed)] + bad_cases:
        l = is_known(c)
        if l:
            if l not in known:
                known.append(l)
            continue
        violations.append(dict(kind="input", line=c.line, got=o, want=c.want or "(oracle rejects the output)"))
    unconf = [(g, f) for i, (g, f) in enumerate(failures) if i not in confirmed and not f["unknown"]]
    out_lines = []
    if violations:
        v = violations[0]
        p = write_replay(pid, 1, dict(property=pid, driver=getattr(mod, "DRIVER", None), input=v["line"], expected=v["want"], got=v["got"],
                                      failed_obligations=[dict(goal=g, **f) for g, f in failures],
                                      more=violations[1:5],
                                      how="feed the input line to /verif/build/drv-%s/driver SCRATCHDIR (linked with /repo's sources)" % getattr(mod, "DRIVER", None)))
        for g, f in failures[:5]:
            out_lines.append("failed obligation: %s: %s at %s: %s" % (g, f["kind"], f["where"], f["what"]))
        out_lines.append("input: %s  expected: %s  got: %s" % (v["line"][:300], str(v["want"])[:300], v["got"][:300]))
        out_lines.append("VIOLATION property=%s replay=%s" % (pid, p))
    elif unconf:
        g, f = unconf[0]
        p = write_replay(pid, 1, dict(property=pid, failed_obligations=[dict(goal=g, **f) for g, f in unconf],
                                      note="no failing input was found on the real code; the obligation is not discharged"))
        for g, f in unconf[:5]:
            out_lines.append("failed obligation: %s: %s at %s: %s  model: %s" % (g, f["kind"], f["where"], f["what"], str(f["inputs"])[:300]))
        out_lines.append("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, p))
    for l in known:
        out_lines.append("KNOWN-FINDING: property=%s %s" % (pid, l.split(None, 3)[-1]))
    # -- evidence
    tot = engine.Stats()
    per_goal, covered = [], []
    for r in results:
        s = r["stats"]
        if s is None:
            per_goal.append(dict(goal=r["goal"], undecided=r["undecided"]))
            continue
        tot.obl += s["obl"]
        tot.dis += s["dis"]
        tot.triv += s["triv"]
        tot.queries += s["queries"]
        tot.solver_s += s["solver_s"]
        tot.paths += s["paths"]
        tot.cover += s["cover"]
        for a, b in ((tot.by_kind, s["by_kind"]), (tot.functions, s["functions"]), (tot.contracts_used, s["contracts"]),
                     (tot.lib_used, s["lib"]), (tot.backends, s["backends"])):
            for k, x in b.items():
                a[k] = a.get(k, 0) + x
        tot.loops.update(s["loops"])
        covered += ["%s: %s" % (r["goal"], c) for c in s["covered"]]
        per_goal.append(dict(goal=r["goal"], obligations=s["obl"], discharged=s["dis"], paths=s["paths"],
                             solver_s=round(s["solver_s"], 2), wall_s=round(r["wall"], 2),
                             undecided=r["undecided"], failures=[f["what"] for f in r["failures"]]))
    cov = dict(obligations=tot.obl, discharged=tot.dis,
               checker_cmd="python3-vt /verif/check.py %s%s" % (pid, "" if quick else " --thorough"),
               trusted_base=["clang 18 front end (AST, types, overload resolution) and /verif/fe/cxxfe.cc",
                             "VC generator /verif/vc (symbolic execution, loop summaries)",
                             "z3 %s, cvc5" % z3.get_version_string()] +
               sorted("assumed contract: " + k for k in tot.lib_used) + list(getattr(mod, "TRUSTED", [])),
               discharged_by_simplifier=tot.triv, back_ends=tot.backends, by_kind=tot.by_kind,
               functions_under_contract=sorted(set(tot.functions)), repository_contracts_assumed_at_calls=tot.contracts_used,
               loops=tot.loops, paths=tot.paths, reachable_paths_witnessed=tot.cover, situations_shown_reachable=covered, solver_queries=tot.queries,
               solver_s=round(tot.solver_s, 2), goals=per_goal, undecided=[list(x) for x in undecided],
               bounded_stand_in=dict(label="bounded, not counted as proved", evaluations=ncases, distinct_nontrivial=ndist,
                                     failing=len(bad_cases), samples=samples))
    ev = dict(property=pid, tier=tier, seed=seed, level="proof", coverage=cov,
              assumptions=list(getattr(mod, "ASSUMPTIONS", [])) + COMMON_ASSUMPTIONS,
              wall_s=round(time.time() - t0, 2), violations=len(violations) if violations else (1 if unconf else 0))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    for g, u in undecided:
        out_lines.insert(0, "UNDECIDED %s: %s" % (g, u[:1500]))
    out_lines.insert(0, "%s: %d/%d obligations discharged, %d goals, %d real-code cases, %.1f s" %
                     (pid, tot.dis, tot.obl, len(results), ncases, time.time() - t0))
    print("\n".join(out_lines))
    if violations or unconf:
        return 1
    if undecided:
        # nothing decided by proof: the bounded run must at least have happened
        if drv and not derr and ncases:
            print("the undecided goals are covered by the bounded run only (%d cases, none failing)" % ncases)
            return 0
        return 2
    return 0


COMMON_ASSUMPTIONS = [
    "memory allocation succeeds; no exceptions other than those the contracts name; single thread",
    "sequences and strings are shorter than 2^40 elements",
    "contracts assumed for the C++ standard library, absl and libc are those listed in trusted_base",
    "the compiler translates the extracted AST as the C++ standard says (LP64, two's complement)",
]
