#!/usr/bin/env python3
"""Decides one property by symbolic execution of the library's current source.

check.py <property> [quick|thorough]      (VERIF_TIER and VERIF_SEED are honoured)

1. compiles /repo's current sources, the harness and the runtime model to LLVM IR and links them,
2. runs the symbolic executor on every scenario of the property (a harness function with fixed shape arguments and
   symbolic values): each path's assertions are decided by z3,
3. replays each counterexample against a native build of the same sources; what fails there is a violation,
4. replays one witness per scenario natively and compares its outputs with the symbolic ones (validation of the model),
5. writes evidence/<property>.json.
"""
import os, sys, json, time, subprocess, shutil, hashlib, signal, tempfile, glob, re, threading
from concurrent.futures import ThreadPoolExecutor, as_completed

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
SYMX = os.path.join(BUILD, "symx")
CXX = "clang++-18"
LLVM_LINK = "llvm-link-18"
INC = ["-I" + REPO + "/include", "-I/usr/include/eigen3", "-I" + VERIF + "/harness"]
STUB = ["-nostdinc++", "-isystem", VERIF + "/stubs", "-isystem", "/usr/lib/llvm-18/include/c++/v1"]
IRFLAGS = ["-std=c++23", "-O1", "-fno-vectorize", "-fno-slp-vectorize", "-ffp-contract=off", "-DEIGEN_DONT_VECTORIZE", "-DVP_SYMBOLIC", "-D__NO_CTYPE",
           "-D_LIBCPP_HARDENING_MODE=_LIBCPP_HARDENING_MODE_EXTENSIVE",
           "-fsanitize=signed-integer-overflow,integer-divide-by-zero,shift", "-fsanitize-trap=all", "-w", "-c", "-emit-llvm"]
NATFLAGS = ["-stdlib=libc++", "-std=c++23", "-O1", "-g1", "-ffp-contract=off", "-fno-omit-frame-pointer", "-D_LIBCPP_HARDENING_MODE=_LIBCPP_HARDENING_MODE_EXTENSIVE",
            "-fsanitize=address,undefined", "-fno-sanitize=function,vptr,alignment", "-fno-sanitize-recover=all", "-ftrivial-auto-var-init=pattern", "-w"]
sys.path.insert(0, VERIF)
import scenarios

def log(*a):
    print(*a, flush=True)

def src_hash(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()

def ensure_engine():
    files = glob.glob(VERIF + "/engine/*")
    h = src_hash(files)
    stamp = SYMX + ".stamp"
    if os.path.exists(SYMX) and os.path.exists(stamp) and open(stamp).read() == h:
        return
    os.makedirs(BUILD, exist_ok=True)
    r = subprocess.run(["bash", VERIF + "/engine/build.sh", BUILD], capture_output=True, text=True)
    if r.returncode:
        log(r.stdout, r.stderr); log("ERROR: the engine does not build"); sys.exit(2)
    open(stamp, "w").write(h)

def run(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)

class Job:
    pass

class Checker:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.prop = scenarios.PROPS[pid]
        self.t0 = time.time()
        os.makedirs(BUILD, exist_ok=True)
        self.work = tempfile.mkdtemp(prefix="run-%s-" % pid, dir=BUILD)
        self.procs = set(); self.plock = threading.Lock(); self.stop = False
        self.native = None; self.native_err = None; self.native_done = threading.Event()
        self.viol = []; self.known_hit = []; self.unrepro = []; self.results = []; self.skipped = []; self.model_mismatch = []; self.validated = 0; self.fallback = []
        self.samples = []

    # ---- builds -------------------------------------------------------------------------------------------------
    def sources(self):
        return sorted(glob.glob(REPO + "/src/**/*.cpp", recursive=True))

    def obj(self, src, ext):
        return os.path.join(self.work, hashlib.md5(src.encode()).hexdigest()[:8] + "-" + os.path.basename(src) + ext)

    def compile_ir(self, src):
        out = self.obj(src, ".bc")
        r = run([CXX] + STUB + IRFLAGS + INC + [src, "-o", out])
        if r.returncode and src.startswith(REPO):
            r2 = run([CXX, "-stdlib=libc++"] + IRFLAGS + INC + [src, "-o", out])  # with the real stream headers instead of the model
            if r2.returncode == 0:
                self.fallback.append(os.path.relpath(src, REPO)); return out, None
            return out, r2.stderr
        return out, (r.stderr if r.returncode else None)

    def compile_native(self, src):
        out = self.obj(src, ".o")
        r = run([CXX] + NATFLAGS + INC + ["-c", src, "-o", out])
        return out, (r.stderr if r.returncode else None)

    def build_native(self, pool, harness):
        futs = [pool.submit(self.compile_native, s) for s in self.sources() + harness + [VERIF + "/replay/replay.cpp"]]
        def fin():
            outs = []
            for f in futs:
                o, e = f.result()
                if e:
                    self.native_err = e
                outs.append(o)
            if not self.native_err:
                exe = os.path.join(self.work, "replay")
                r = run([CXX, "-stdlib=libc++", "-fsanitize=address,undefined", "-rdynamic"] + outs + ["-o", exe])
                if r.returncode:
                    self.native_err = r.stderr
                else:
                    self.native = exe
            self.native_done.set()
        threading.Thread(target=fin, daemon=True).start()

    # ---- symbolic execution ---------------------------------------------------------------------------------------
    def symx(self, bc, fn, args, opts, limit):
        cmd = ["bash", "-c", "ulimit -v 6000000; exec \"$@\"", "x", SYMX, bc, fn] + [str(a) for a in args] + ["--time=%g" % limit] + opts
        if self.stop:
            return None
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, start_new_session=True)
        with self.plock:
            self.procs.add(p)
        try:
            so, se = p.communicate(timeout=limit * 1.3 + 30)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL); so, se = p.communicate()
            se = "timeout"
        with self.plock:
            self.procs.discard(p)
        if self.stop:
            return None
        for line in reversed(so.splitlines()):
            if line.startswith("{"):
                try:
                    return json.loads(line)
                except ValueError:
                    break
        return {"status": "error", "error": (se or "")[-400:] + " rc=%s" % p.returncode, "violations": [], "unsupported": {}, "witnesses": [], "paths": 0, "forks": 0}

    def kill_all(self):
        self.stop = True
        with self.plock:
            for p in list(self.procs):
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    pass

    # ---- native replay ------------------------------------------------------------------------------------------------
    def run_native(self, fn, args, inputs, jitter=0, tol=None, timeout=60):
        d = tempfile.mkdtemp(prefix="rp-", dir=self.work)
        try:
            with open(d + "/in", "w") as f:
                for k, v in inputs.items():
                    f.write("%s %s\n" % (k, v.split()[0]))
                if tol:
                    f.write("#tol %g\n#validate 1\n" % tol)
                if jitter:
                    f.write("#jitter %d\n" % jitter)
            env = {"PATH": "/usr/bin:/bin", "ASAN_OPTIONS": "detect_leaks=0:alloc_dealloc_mismatch=0:max_malloc_fill_size=1000000:malloc_fill_byte=255:allocator_may_return_null=0:max_allocation_size_mb=4096:exitcode=99", "UBSAN_OPTIONS": "halt_on_error=1:exitcode=98", "TMPDIR": d}
            os.mkdir(d + "/cwd")
            try:
                r = subprocess.run([self.native, fn, " ".join(map(str, args)), d + "/in"], cwd=d + "/cwd", env=env, capture_output=True, text=True, timeout=timeout, errors="replace")
                return r.returncode, r.stdout, r.stderr[:3000]
            except subprocess.TimeoutExpired:
                return 124, "", "does not terminate within %d s" % timeout
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def replay(self, fn, args, v):
        self.native_done.wait()
        if not self.native:
            return None
        for j in [0] + [self.seed * 100 + k for k in range(1, 17)]:
            rc, so, se = self.run_native(fn, args, v["in"], j)
            if rc in (0, 77, 2):
                continue
            what = next((l for l in so.splitlines() if l.startswith("FAIL")), None) or (re.search(r"(ERROR: AddressSanitizer[^\n]*|runtime error:[^\n]*|Assertion[^\n]*|[^\n]*terminat[^\n]*)", se) or [None, se.strip()[:200] or "exit %d" % rc])[1]
            return {"rc": rc, "what": what, "jitter": j}
        return None

    def validate(self, fn, args, r):
        """the outputs predicted for a path's witness are those of the real code"""
        for w in r.get("witnesses", []):
            rc, so, se = self.run_native(fn, args, w["in"], tol=1e-7)
            if rc == 77 or rc == 2:
                continue
            if rc != 0:
                yield ("fail", w, next((l for l in so.splitlines() if l.startswith("FAIL")), se.strip()[:200])); continue
            out = dict(l.split()[1:3] for l in so.splitlines() if l.startswith("OUT "))
            bad = None; n = 0
            for k, x in w["out"].items():
                if k not in out:
                    bad = k + " missing"; break
                a = float("nan") if x == "nan" else float.fromhex(x); b = float("nan") if "nan" in out[k] else float.fromhex(out[k]); n += 1
                if a != b and not (a != a and b != b) and not abs(a - b) <= 1e-6 * max(1, abs(a), abs(b)):
                    bad = "%s symbolic %r native %r" % (k, a, b); break
            if bad:
                yield ("mismatch", w, bad)
            elif n:
                yield ("ok", w, out)

    # ---- main -----------------------------------------------------------------------------------------------------------
    def main(self):
        ensure_engine()
        harness = [VERIF + "/harness/" + h for h in self.prop["harness"].split()]
        pool = ThreadPoolExecutor(8)
        rt = VERIF + "/stubs/rt.cpp"
        futs = [pool.submit(self.compile_ir, s) for s in harness + self.sources() + [rt]]
        self.build_native(pool, harness)
        bcs = []
        for f in futs:
            o, e = f.result()
            if e:
                log(e[-3000:]); log("ERROR: cannot compile to IR"); return 2
            bcs.append(o)
        bc = os.path.join(self.work, "all.bc")
        r = run([LLVM_LINK] + bcs + ["-o", bc])
        if r.returncode:
            log(r.stderr[-2000:]); log("ERROR: cannot link the IR"); return 2
        todo = []
        for s in self.prop["scenarios"]:
            tier, fn, args = s[0], s[1], s[2]
            opt = dict(s[3]) if len(s) > 3 else {}
            if tier == "quick" or self.tier == "thorough":
                todo.append((fn, args, opt))
        budget = 330 if self.tier == "quick" else 7200
        budget = float(os.environ.get("VP_BUDGET", budget))
        t1 = time.time()
        def one(job):
            fn, args, opt = job
            left = budget - (time.time() - t1)
            if left < 5 or self.stop:
                return job, None
            lim = opt.get("time", 60 if self.tier == "quick" else 900)
            r = self.symx(bc, fn, args, opt.get("flags", []), min(lim, left))
            if r is not None:
                r["_replays"] = [] if self.stop else [self.replay(fn, args, v) for v in r.get("violations", [])]
                r["_valid"] = []
                if r.get("witnesses") and not self.stop and not any(r["_replays"]):
                    self.native_done.wait()
                    if self.native:
                        r["_valid"] = list(self.validate(fn, args, r))
            return job, r
        done_viol = False
        sp = ThreadPoolExecutor(8)
        for f in as_completed([sp.submit(one, j) for j in todo]):
            (fn, args, opt), r = f.result()
            if r is None:
                if not self.stop:
                    self.skipped.append([fn, list(args)])
                continue
            r["args"] = list(args); r["fn"] = fn
            self.results.append(r)
            if self.stop:
                continue
            for v, rep in zip(r.get("violations", []), r["_replays"]):
                rec = {"fn": fn, "args": list(args), "kind": v["kind"], "assertion": v["msg"], "inputs": v["in"], "native": rep}
                if rep is None:
                    self.unrepro.append(rec)
                elif self.known(rec):
                    pass
                else:
                    self.viol.append(rec)
            for kind, w, d in r["_valid"]:
                if kind == "ok":
                    self.validated += 1
                    if len(self.samples) < 4:
                        self.samples.append({"scenario": "%s%s" % (fn, tuple(args)), "inputs": {k: v.split()[0] for k, v in w["in"].items()}, "native_outputs": d})
                elif kind == "mismatch":
                    self.model_mismatch.append({"fn": fn, "args": list(args), "what": d, "inputs": w["in"]})
                else:
                    # the path's own witness fails on the real code (rounding is outside the real-number model)
                    rec = {"fn": fn, "args": list(args), "kind": "witness", "assertion": d, "inputs": w["in"], "native": {"rc": 1, "what": d, "jitter": 0}}
                    if not self.known(rec):
                        self.viol.append(rec)
            if self.viol and not os.environ.get("VP_ALL"):
                self.kill_all()
        if os.environ.get("VP_VERBOSE"):
            for r in sorted(self.results, key=lambda r: -r.get("wall_s", 0)):
                log("%7.1fs %-9s %s%s paths=%s vc=%s/%s unk=%s fail=%s uns=%s taint=%s dead=%s pend=%s unkvc=%s reach=%s %s" % (r.get("wall_s", 0), r["status"], r["fn"], tuple(r["args"]), r.get("paths"), r.get("vc_proved"), r.get("vc_total"), r.get("vc_unknown"), r.get("vc_failed"), r.get("unsupported"), r.get("tainted"), r.get("assume_dead"), r.get("pending"), r.get("unknown_vc"), r.get("reach"), r.get("error", "")))
        return self.finish()

    def known(self, rec):
        for k in known_findings():
            if k["property"] == self.pid and k["fn"] == rec["fn"] and k["args"] == rec["args"] and k["assertion"] in (rec["assertion"] + " " + str(rec["native"]["what"])):
                self.known_hit.append(k["what"]); return True
        return False

    def finish(self):
        ok = [r for r in self.results if r["status"] == "complete" and not r.get("vc_unknown") and not r.get("tainted")]
        und = []
        for r in self.results:
            why = []
            if r["status"] != "complete": why.append(r["status"])
            if r.get("error"): why.append(r["error"])
            if r.get("vc_unknown"): why.append("%d assertions unknown to the solver: %s" % (r["vc_unknown"], "; ".join(r.get("unknown_vc", [])[:4])))
            if r.get("tainted"): why.append("%d paths past an undecided branch" % r["tainted"])
            if r.get("unsupported"): why.append("unsupported: " + "; ".join("%s x%d" % kv for kv in list(r["unsupported"].items())[:5]))
            if why: und.append("%s%s: %s" % (r["fn"], tuple(r["args"]), ", ".join(why)))
        und += ["%s%s: not run within the budget" % (f, tuple(a)) for f, a in self.skipped]
        S = lambda k: sum(r.get(k) or 0 for r in self.results)
        fns = sorted({f for r in self.results for f in r.get("functions", []) if "libnurbs::" in f})
        replays = []
        rdir = os.path.join(VERIF, "evidence", "replay"); os.makedirs(rdir, exist_ok=True)
        for old in glob.glob(rdir + "/%s-*.json" % self.pid):
            os.remove(old)
        for i, v in enumerate(self.viol[:5]):
            p = os.path.join(rdir, "%s-%d.json" % (self.pid, i)); json.dump(dict(v, property=self.pid, harness=self.prop["harness"], how="python3 /verif/replay.py " + p), open(p, "w"), indent=1); replays.append(p)
        if not self.samples:
            for r in self.results:
                for w in r.get("witnesses", [])[:1]:
                    self.samples.append({"scenario": "%s%s" % (r["fn"], tuple(r["args"])), "inputs": w["in"], "symbolic_outputs": w["out"]})
                if len(self.samples) >= 3: break
        cov = {"states": S("paths"), "transitions": S("forks"), "traces_validated_against_impl": self.validated, "samples": self.samples[:4] or [{"scenario": "%s%s" % (r["fn"], tuple(r["args"])), "paths": r.get("paths")} for r in self.results[:3]],
               "scenarios_run": len(self.results), "scenarios_decided_completely": len(ok), "assertions": S("vc_total"), "assertions_trivial": S("vc_trivial"), "assertions_proved": S("vc_proved"), "assertions_failed": S("vc_failed"), "assertions_unknown": S("vc_unknown"),
               "identities_by_normal_form_too_large_for_solver_confirmation": S("nf_only"),
               "solver_queries": {"sat": S("q_sat"), "unsat": S("q_unsat"), "unknown": S("q_unknown")}, "solver_seconds": round(S("solver_s"), 2), "instructions": S("instrs"),
               "functions_encoded": fns, "bounds": self.prop["bounds"], "outside_bounds": self.prop.get("outside", ""), "decided": ["%s%s" % (r["fn"], tuple(r["args"])) for r in ok][:200], "undecided": und, "unreproduced_counterexamples": [dict(u, inputs={k: v.split()[0] for k, v in list(u["inputs"].items())[:20]}) for u in self.unrepro[:5]],
               "model_mismatches": self.model_mismatch[:5], "known_findings": sorted(set(self.known_hit)), "compiled_with_real_stream_headers": self.fallback, "exhaustive": False}
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": "model_checking", "coverage": cov, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.viol),
              "assumptions": scenarios.ASSUMPTIONS + self.prop.get("assumptions", [])}
        os.makedirs(VERIF + "/evidence", exist_ok=True)
        json.dump(ev, open(VERIF + "/evidence/%s.json" % self.pid, "w"), indent=1)
        for k in sorted(set(self.known_hit)):
            log("KNOWN-FINDING: property=%s %s" % (self.pid, k))
        log("%s: %d scenarios, %d decided completely, %d paths, %d assertions (%d proved, %d unknown), %d solver queries, %d witnesses validated, %.0f s" % (self.pid, len(self.results), len(ok), S("paths"), S("vc_total"), S("vc_proved") + S("vc_trivial"), S("vc_unknown"), S("q_sat") + S("q_unsat") + S("q_unknown"), self.validated, time.time() - self.t0))
        for u in und[:12]: log("  undecided:", u)
        for u in self.unrepro[:5]: log("  counterexample not reproduced natively: %s%s %s: %s" % (u["fn"], tuple(u["args"]), u["kind"], u["assertion"]))
        for u in self.model_mismatch[:5]: log("  model mismatch:", u["fn"], u["args"], u["what"])
        if self.viol:
            for v in self.viol[:5]: log("  %s%s: %s: %s [native: %s]" % (v["fn"], tuple(v["args"]), v["kind"], v["assertion"], v["native"]["what"]))
            for p in replays: log("VIOLATION property=%s replay=%s" % (self.pid, p))
            return 1
        if self.native_err: log(self.native_err[-1500:]); log("ERROR: the native replay build fails"); return 2
        if not any(r.get("vc_total") for r in self.results): log("ERROR: nothing was decided"); return 2
        return 0

def known_findings():
    p = VERIF + "/known-findings.json"
    return json.load(open(p)).get("known", []) if os.path.exists(p) else []

if __name__ == "__main__":
    if sys.argv[1] == "--setup":
        ensure_engine(); sys.exit(0)
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    c = Checker(sys.argv[1], tier)
    rc = 2
    try:
        rc = c.main()
    finally:
        c.kill_all(); shutil.rmtree(c.work, ignore_errors=True)
    sys.stdout.flush(); os._exit(rc)
