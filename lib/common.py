"""Shared machinery of the checks: builds the library and a driver, runs
scripts through it, has TLC check the traces, confirms rejections, writes the
evidence.  Exit status: 0 held, 1 violated (with a VIOLATION line), 2 the check
itself failed (build error, TLC internal error)."""
import concurrent.futures as cf
import hashlib, json, os, random, re, shutil, signal, subprocess, sys, tempfile, threading, time
import build as B

VERIF = B.VERIF
SPEC = os.path.join(VERIF, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"
CORES = max(2, min(8, os.cpu_count() or 4))

# the drivers write their trace to descriptor 3: keep it occupied here, so that no other file gets it
_null = os.open(os.devnull, os.O_RDWR)
if _null != 3:
    os.dup2(_null, 3); os.close(_null)

class CheckError(Exception):
    pass

def tier(q, t):
    return t if THOROUGH else q

class Ctx:
    """One run of one check."""
    def __init__(self, pid, level):
        self.pid, self.level = pid, level
        self.t0 = time.time()
        self.rng = random.Random("%s/%d" % (pid, SEED))
        self.work = tempfile.mkdtemp(prefix="verif-%s-" % pid)
        self.states = self.transitions = self.traces = self.lines = self.evals = 0
        self.histories = 0
        self.distinct = set()
        self.samples, self.notes, self.mc_runs = [], [], []
        self.violations = []
        self.rule = ""
        self.assumptions = []
        self.extra = {}
        self.lock = threading.Lock()
        self.n = 0

    def path(self, name):
        with self.lock:
            self.n += 1
            return os.path.join(self.work, "%04d-%s" % (self.n, name))

    # ---- TLC ----
    def tlc(self, spec, cfg_text, env=None, workers=1, heap="1500m", timeout=800, extra=()):
        d = self.path("tlc"); os.makedirs(d)
        cfg = os.path.join(d, "run.cfg")
        open(cfg, "w").write(cfg_text)
        e = dict(os.environ); e.update(env or {})
        cmd = ["java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC",
               "-XX:TieredStopAtLevel=1" if workers == 1 and not os.environ.get("C2") else "-XX:+TieredCompilation",
               "-Xmx" + heap, "-Xss16m", "-Djava.io.tmpdir=" + d, "-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:FlOverrides",
               "-cp", JARS + ":" + B.java(), "tlc2.TLC",
               "-workers", str(workers), "-metadir", os.path.join(d, "md"), "-noGenerateSpecTE",
               "-config", cfg, *extra, os.path.join(SPEC, spec + ".tla")]
        try:
            r = subprocess.run(cmd, cwd=d, env=e, capture_output=True, text=True, timeout=timeout, errors="replace")
        except subprocess.TimeoutExpired:
            raise CheckError("TLC timed out on %s" % spec)
        out = r.stdout + r.stderr
        shutil.rmtree(d, ignore_errors=True)
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
        gen, dist = (int(m.group(1)), int(m.group(2))) if m else (0, 0)
        m = re.search(r"depth of the complete state graph search is (\d+)", out)
        depth = int(m.group(1)) if m else None
        return r.returncode, out, gen, dist, depth

    def mc(self, spec, cfg_text, name=None, workers=4, timeout=800, heap="3g", simulate=None):
        """Model-checks the specification itself; it must hold."""
        extra = ("-simulate", simulate) if simulate else ()
        rc, out, gen, dist, depth = self.tlc(spec, cfg_text, workers=workers, timeout=timeout, heap=heap, extra=extra)
        if rc != 0:
            raise CheckError("model checking of %s failed (rc %d):\n%s" % (spec, rc, out[-3000:]))
        with self.lock:
            self.states += dist; self.transitions += gen
            self.mc_runs.append({"spec": name or spec, "states": dist, "transitions": gen, "depth": depth})
        return out

    def enumerate(self, spec, cfg_text, timeout=800, workers=1):
        """Behaviours TLC prints with PrintT(<<"SCRIPT", ...>>): list of strings."""
        rc, out, gen, dist, depth = self.tlc(spec, cfg_text, workers=workers, timeout=timeout, heap="3g")
        if rc != 0:
            raise CheckError("enumeration with %s failed (rc %d):\n%s" % (spec, rc, out[-3000:]))
        with self.lock:
            self.states += dist; self.transitions += gen
            self.mc_runs.append({"spec": spec, "states": dist, "transitions": gen, "depth": depth, "role": "behaviours generated"})
        return re.findall(r'^"SCRIPT (.*)"$', out, re.M)

    # ---- the real code ----
    def drive(self, exe, script, timeout=120, env=None, args=()):
        """-> (trace path, returncode or 'timeout', stderr tail)"""
        tr = self.path("trace.ndjson")
        e = dict(os.environ); e.setdefault("OMP_NUM_THREADS", "4"); e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=1"; e.update(env or {})
        e["MALLOC_PERTURB_"] = e.get("MALLOC_PERTURB_", "181")
        fd = os.open(tr, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o644)
        sp = tr + ".in"
        open(sp, "w").write(script)
        p = None
        try:
            def pre():
                os.dup2(fd, 3)
            p = subprocess.Popen([exe, *map(str, args)], stdin=open(sp), stdout=subprocess.DEVNULL, stderr=subprocess.PIPE,
                                 env=e, preexec_fn=pre, pass_fds=(3, fd), cwd=self.work)
            try:
                err = p.communicate(timeout=timeout)[1].decode(errors="replace")[-1500:]
                rc = p.returncode
            except subprocess.TimeoutExpired:
                p.kill(); p.communicate()
                rc, err = "timeout", ""
        finally:
            os.close(fd)
        return tr, rc, err

    def check_trace(self, tr, spec, cfg_text, env=None, timeout=800):
        n = sum(1 for _ in open(tr))
        if n == 0:
            return True, 0, ""
        ev = {"TRACE": tr}; ev.update(env or {})
        rc, out, gen, dist, depth = self.tlc(spec, cfg_text, env=ev, timeout=timeout)
        with self.lock:
            self.states += dist; self.transitions += gen
        if rc == 0:
            m = re.search(r'^"UNJUDGED (\d+)"', out, re.M)
            with self.lock:
                if m:
                    self.extra["trace_lines_not_judged"] = self.extra.get("trace_lines_not_judged", 0) + int(m.group(1))
                self.lines += n
            return True, n, out
        if rc in (10, 12, 13) and depth is not None:
            return False, depth, out           # line `depth` is the first one refused
        if depth is None and rc in (10, 12, 13):
            m = re.findall(r"^State (\d+):", out, re.M)
            return False, int(m[-1]) if m else n, out
        # the specification could not even be evaluated on what was observed (it always can on
        # what the unchanged library does): that is a refusal, too
        if "Parsing or semantic analysis failed" in out:
            raise CheckError("specification %s does not parse:\n%s" % (spec, out[-2000:]))
        if rc in (75, 150, 151, 152, 153) or "unexpected exception" in out or "evaluat" in out:
            m = re.findall(r"^State (\d+):", out, re.M)
            return False, int(m[-1]) if m else n, out
        raise CheckError("TLC failed on a trace of %s (rc %d):\n%s" % (spec, rc, out[-3000:]))

    def conform(self, driver, histories, spec, consts="", variant="std", shards=None, args=(), env=None,
                tlcenv=None, timeout=120, retries=1, what=""):
        """Runs the histories (each a script without its leading reset) through the real code and
        has TLC check the traces."""
        exe = B.build(driver, variant)
        cfg = consts + "\nSPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nPOSTCONDITION Accepts\n"
        self.histories += len(histories)
        for h in histories:
            self.distinct.add(hashlib.md5((driver + variant + h).encode()).digest())
        k = min(len(histories), shards or 2 * CORES)
        groups = [histories[i::k] for i in range(k)]
        def join(hs):
            return "".join("reset\n" + h.strip("\n") + "\n" for h in hs)
        def once(hs):
            """-> None or (line number, reason, trace)"""
            tr, rc, err = self.drive(exe, join(hs), timeout=timeout, env=env, args=args)
            n = sum(1 for _ in open(tr))
            if rc != 0:
                if rc == 2:
                    raise CheckError("driver %s: %s" % (driver, err))
                # drop a half-written last line
                ls = open(tr, errors="replace").read().split("\n")
                ok, line, out = True, 0, ""
                return n + 1, "the library %s (%s)" % ("did not come back" if rc == "timeout" else "crashed", "hang" if rc == "timeout" else "exit status %s" % rc) + ": " + err.strip()[-300:], tr
            ok, line, out = self.check_trace(tr, spec, cfg, env=tlcenv)
            if ok:
                return None
            return line, "trace line %d is not a step of %s" % (line, spec), tr
        def hist_of(tr, line):
            c = 0
            for j, l in enumerate(open(tr, errors="replace")):
                if j >= line: break
                if '"op":"reset"' in l: c += 1
            return max(0, c - 1)
        def shard(hs):
            r = once(hs)
            if r is None:
                with self.lock: self.traces += len(hs)
                for f in os.listdir(self.work):
                    pass
                return None
            line, why, tr = r
            h = hist_of(tr, line)
            with self.lock: self.traces += h
            h = min(h, len(hs) - 1)
            for cand in ([hs[h]], hs[:h + 1], hs):
                for _ in range(retries):
                    r2 = once(cand)
                    if r2:
                        return cand, r2
            for _ in range(2 * retries):
                r2 = once(hs)
                if r2: return hs, r2
            self.notes.append("a rejection did not repeat and was not reported: %s" % why)
            return None
        with cf.ThreadPoolExecutor(CORES) as ex:
            res = list(ex.map(shard, groups))
        for r in res:
            if r:
                cand, (line, why, tr) = r
                self.violate(driver, variant, join(cand), tr, line, why, spec, consts, args)
        if not self.samples and histories:
            self.samples.append({"history": histories[len(histories) // 2].split("\n")[:12], "driver": driver})
        return all(r is None for r in res)

    def violate(self, driver, variant, script, tr, line, why, spec, consts="", args=()):
        ls = open(tr, errors="replace").read().split("\n") if tr else []
        bad = ls[line - 1] if 0 < line <= len(ls) else "(the call after the last line)"
        key = "%s %s" % (why, bad)
        d = os.path.join(VERIF, "replays"); os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%s-%s.txt" % (self.pid, hashlib.md5((script + why).encode()).hexdigest()[:10]))
        with open(p, "w") as f:
            f.write("# property %s: %s\n# refused line: %s\n# driver %s (variant %s) args %s, specification %s\n# %s\n"
                    "# rerun: python3 /verif/bin/replay %s\n" % (self.pid, why.replace("\n", " "), bad[:2000], driver, variant,
                    " ".join(map(str, args)), spec, consts.replace("\n", " ; "), p))
            f.write(script)
        self.violations.append((p, why, bad))

    def finish(self):
        known = known_findings(self.pid)
        cov = {"evaluations": self.histories + self.evals, "distinct_nontrivial": len(self.distinct), "states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces,
               "samples": self.samples or [{"none": True}],
               "trace_lines": self.lines,
               "rule": self.rule or "seeded random and TLC-enumerated call histories; counted once per distinct script",
               "model_checking_runs": self.mc_runs, "notes": self.notes}
        cov.update(self.extra)
        ev = {"property": self.pid, "tier": "thorough" if THOROUGH else "quick", "seed": SEED, "level": self.level,
              "coverage": cov, "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2),
              "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        p = os.path.join(VERIF, "evidence", self.pid + ".json")
        tmp = p + ".tmp"
        json.dump(ev, open(tmp, "w"), indent=1); os.rename(tmp, p)
        shutil.rmtree(self.work, ignore_errors=True)
        for k in known:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, k))
        if self.violations:
            p, why, bad = self.violations[0]
            print("%s\n  %s" % (why, bad[:600]))
            print("VIOLATION property=%s replay=%s" % (self.pid, p))
            return 1
        print("%s held: %d histories, %d trace lines, %d states, %.1f s" %
              (self.pid, self.histories, self.lines, self.states, time.time() - self.t0))
        return 0

def known_findings(pid):
    p = os.path.join(VERIF, "known_findings.txt")
    out = []
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) (.*)", l)
            if m and m.group(1) == pid:
                out.append(m.group(2).strip())
    return out

REG = {}
def prop(pid, level="model_checking"):
    def deco(f):
        REG[pid] = (f, level)
        return f
    return deco

def run(pid):
    f, level = REG[pid]
    c = Ctx(pid, level)
    try:
        f(c)
        return c.finish()
    except (CheckError, B.BuildError, subprocess.CalledProcessError) as e:
        sys.stderr.write("check %s could not be carried out: %s\n" % (pid, e))
        shutil.rmtree(c.work, ignore_errors=True)
        return 2
