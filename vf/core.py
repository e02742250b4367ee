"""Check runner library: builds harnesses from /repo, runs TLC, replays behaviours, reports, writes evidence."""
import atexit, concurrent.futures as cf, fnmatch, hashlib, json, os, random, re, resource, shutil, signal, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CXX = "/usr/bin/clang++-20"
TLCJAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"

class CheckError(Exception):
    """The check could not give an answer (exit 2)."""

class Ctx:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.rng = random.Random(self.seed * 7919 + hash_int(pid))
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix=f"vf_{pid}_")
        atexit.register(lambda: shutil.rmtree(self.work, ignore_errors=True))
        self.states = self.transitions = self.traces = 0
        self.samples, self.assumptions, self.notes = [], [], {}
        self.violations, self.known = [], []
        self.known_list = [k for k in load_known() if k["property"] == pid and k["kind"] == "finding"]
        self.exhaustive = None
    @property
    def quick(self): return self.tier == "quick"
    def pick(self, q, t): return q if self.quick else t
    # ------------------------------------------------------------------ building
    def build(self, src, out=None, flags=(), opt="-O1", timeout=400, liburing=True):
        """Compile /verif/harness/<src> against /repo's current tree; returns the binary."""
        out = os.path.join(self.work, out or re.sub(r"\W", "_", os.path.basename(src)))
        cmd = [CXX, "-std=c++20", "-DNDEBUG", opt, "-g1", "-w", "-D_GLIBCXX_ASSERTIONS",
               "-DHXLIBS_ENABLE_SSL", "-DHXLIBS_ENABLE_DB_SQLITE3",
               f"-I{REPO}/include", f"-I{REPO}/lib/liburing/include", f"-I{V}/harness",
               *flags, os.path.join(V, "harness", src), "-o", out]
        if liburing: cmd += [f"{REPO}/lib/liburing/liburing.cpp"]
        cmd += ["-lssl", "-lcrypto", "-lsqlite3", "-lpthread", "-ldl"]
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout)
        if p.returncode:
            raise CheckError("harness does not compile:\n" + p.stderr[-4000:])
        return out
    # ------------------------------------------------------------------ TLC
    def tlc(self, spec, consts=None, init="Init", next="Next", spec_formula=None, invariants=(), properties=(),
            constraint=None, action_constraint=None, view=None, post=None, simulate=None, depth=None, workers=4, deadlock=False, timeout=600,
            symmetry=None, heap="6g", files=(), count=True, expect_ok=True, dfs=False):
        """Runs TLC on /verif/spec/<spec>.tla. Returns dict(ok, out, states, distinct, gen=[decoded '@@' lines])."""
        d = tempfile.mkdtemp(dir=self.work, prefix="tlc_")
        for f in os.listdir(V + "/spec"):
            if f.endswith(".tla"): os.symlink(f"{V}/spec/{f}", f"{d}/{f}")
        for name, content in files:
            if os.path.lexists(f"{d}/{name}"): os.unlink(f"{d}/{name}")   # never write through the link
            with open(f"{d}/{name}", "w") as fh: fh.write(content)
        cfg = []
        if consts:
            cfg.append("CONSTANTS")
            for k, v in consts.items(): cfg.append(f"  {k} {v if str(v).startswith('<-') else '= ' + str(v)}")
        if spec_formula: cfg.append(f"SPECIFICATION {spec_formula}")
        else: cfg += [f"INIT {init}", f"NEXT {next}"]
        if invariants: cfg.append("INVARIANTS " + " ".join(invariants))
        if properties: cfg.append("PROPERTIES " + " ".join(properties))
        if constraint: cfg.append(f"CONSTRAINT {constraint}")
        if action_constraint: cfg.append(f"ACTION_CONSTRAINT {action_constraint}")
        if view: cfg.append(f"VIEW {view}")
        if post: cfg.append(f"POSTCONDITION {post}")
        if symmetry: cfg.append(f"SYMMETRY {symmetry}")
        cfg.append(f"CHECK_DEADLOCK {'TRUE' if deadlock else 'FALSE'}")
        with open(f"{d}/{spec}.cfg", "w") as fh: fh.write("\n".join(cfg) + "\n")
        jopt = ["-XX:+UseParallelGC", f"-Xmx{heap}", "-Dtlc2.tool.fp.FPSet.impl=tlc2.tool.fp.OffHeapDiskFPSet"] if False else ["-XX:+UseParallelGC", f"-Xmx{heap}"]
        if dfs: jopt.append("-Dtlc2.tool.queue.IStateQueue=StateDeque")
        cmd = ["java", *jopt, "-Xss64m", "-cp", TLCJAR, "tlc2.TLC", "-config", f"{spec}.cfg", "-metadir", f"{d}/states", "-noGenerateSpecTE", "-workers", str(workers)]
        if simulate: cmd += ["-simulate", f"num={simulate}", "-seed", str(self.seed)]
        if depth: cmd += ["-depth", str(depth)]
        cmd.append(f"{spec}.tla")
        outf = f"{d}/out.txt"
        try:
            with open(outf, "w") as fh:
                p = subprocess.run(cmd, cwd=d, stdout=fh, stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise CheckError(f"TLC timed out on {spec} after {timeout}s")
        gen, rest = [], []
        with open(outf) as fh:
            for line in fh:
                if line.startswith('"@@'):
                    gen.append(json.loads(json.loads(line)[2:]))
                else: rest.append(line)
        out = "".join(rest)
        st = dt = 0
        m = re.findall(r"(\d+) states generated(?:[^,]*), (\d+) distinct states found", out)
        if m: st, dt = int(m[-1][0]), int(m[-1][1])
        m = re.findall(r"The number of states generated: (\d+)", out)
        if m: st = dt = int(m[-1])
        diam = re.findall(r"depth of the complete state graph search is (\d+)", out)
        ok = p.returncode == 0
        if count:
            self.states += dt; self.transitions += st
        shutil.rmtree(d, ignore_errors=True)
        if os.environ.get("VF_DEBUG"): print(f"[{time.time()-self.t0:.1f}s] tlc {spec} rc={p.returncode} states={dt} gen={len(gen)}", file=sys.stderr)
        r = dict(ok=ok, out=out, states=dt, generated=st, gen=gen, diameter=int(diam[-1]) if diam else 0, rc=p.returncode)
        if expect_ok and not ok:
            raise CheckError(f"TLC reports an error in the specification {spec}:\n{out[-3500:]}")
        return r
    # ------------------------------------------------------------------ replay
    def replay(self, binary, cases, timeout_case=10.0, jobs=4, args=(), chunk=None, env=None, cwd=None):
        """Feeds cases (JSON, one per line) to the harness; expects one JSON line per case.
        A crash or hang is attributed to the case in progress. Returns the list of results
        (dict, or {"crash": sig} / {"hang": True})."""
        n = len(cases)
        if n == 0: return []
        chunk = chunk or max(1, min(2000, (n + jobs - 1) // jobs))
        parts = [(i, cases[i:i + chunk]) for i in range(0, n, chunk)]
        res = [None] * n
        def run(part):
            off, cs = part
            i = 0; nfail = 0
            while i < len(cs):
                got, status = run_lines(binary, args, cs[i:], timeout_case, self.work, env, cwd)
                for k, r in enumerate(got): res[off + i + k] = r
                i += len(got)
                if i < len(cs):
                    if status is None: status = {"crash": "short output"}
                    res[off + i] = status; i += 1; nfail += 1
                    if nfail > 8:      # hopeless: mark the rest of the part
                        while i < len(cs): res[off + i] = {"skipped": True}; i += 1
        with cf.ThreadPoolExecutor(jobs) as ex: list(ex.map(run, parts))
        if os.environ.get("VF_DEBUG"): print(f"[{time.time()-self.t0:.1f}s] replayed {n}", file=sys.stderr)
        return res
    # ------------------------------------------------------------------ verdicts
    def mismatch(self, key, what, detail=None):
        """A confirmed disagreement between implementation and specification, identified by key."""
        for k in self.known_list:
            if fnmatch.fnmatchcase(key, k["match"]):
                if not any(x[0] is k for x in self.known): self.known.append((k, key, what))
                return False
        self.violations.append((key, what, detail))
        return True
    def sample(self, s, cap=4):
        if len(self.samples) < cap: self.samples.append(s)
    def finish(self, level="model_checking"):
        for k, key, what in self.known:
            print(f"KNOWN-FINDING: property={self.pid} {k['what']}")
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": level,
              "coverage": {"states": self.states, "transitions": self.transitions,
                           "traces_validated_against_impl": self.traces, "samples": self.samples, **self.notes},
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2),
              "violations": len(self.violations)}
        if self.exhaustive is not None: ev["coverage"]["exhaustive"] = self.exhaustive
        os.makedirs(V + "/evidence", exist_ok=True)
        rc = 0
        if self.violations:
            rd = os.path.join(V, "evidence", "replay"); os.makedirs(rd, exist_ok=True)
            rp = os.path.join(rd, f"{self.pid}.json")
            with open(rp, "w") as f:
                json.dump([{"key": k, "what": w, "detail": d} for k, w, d in self.violations[:50]], f, indent=1, default=str)
            for k, w, d in self.violations[:5]:
                print(f"  {k}: {w}")
            print(f"VIOLATION property={self.pid} replay={rp}")
            rc = 1
        with open(f"{V}/evidence/{self.pid}.json", "w") as f: json.dump(ev, f, indent=1, default=str)
        print(f"{self.pid} {self.tier}: states={self.states} transitions={self.transitions} replayed={self.traces} violations={len(self.violations)} wall={ev['wall_s']}s")
        return rc

def hash_int(s): return int(hashlib.sha256(s.encode()).hexdigest()[:8], 16)

def load_known():
    """'finding: property=<id> match=<glob> :: <what>' lines of known_findings.txt ('fixed:' lines suppress nothing)."""
    out = []
    p = V + "/known_findings.txt"
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) match=(.*?) :: (.*)", l.strip())
            if m: out.append({"property": m[1], "kind": "finding", "match": m[2], "what": m[3]})
    return out

def run_lines(binary, args, cases, timeout_case, work, env, cwd):
    """Runs one harness process; returns (results so far, failure status of the next one or None)."""
    import threading, queue
    e = dict(os.environ); e.update(env or {})
    errf = tempfile.TemporaryFile()
    p = subprocess.Popen([binary, *args], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=errf, env=e, cwd=cwd or work,
                         preexec_fn=lambda: (os.setpgid(0, 0), resource.setrlimit(resource.RLIMIT_CORE, (0, 0))))
    def feed():
        try:
            for c in cases: p.stdin.write((json.dumps(c) + "\n").encode())
            p.stdin.close()
        except (BrokenPipeError, OSError): pass
    threading.Thread(target=feed, daemon=True).start()
    q = queue.Queue()
    def rd():
        for line in p.stdout:
            if line.startswith(b"@@"): q.put(line[2:])
        q.put(None)
    threading.Thread(target=rd, daemon=True).start()
    got, status = [], None
    while len(got) < len(cases):
        try: l = q.get(timeout=timeout_case)
        except queue.Empty:
            status = {"hang": True}; break
        if l is None:
            rc = p.wait()
            errf.seek(0); err = errf.read()[-600:].decode("utf8", "replace")
            status = {"crash": f"signal {-rc}" if rc < 0 else f"exit {rc}", "stderr": err}; break
        try: got.append(json.loads(l))
        except Exception: got.append({"badjson": l.decode("utf8", "replace")})
    try: os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError: pass
    p.wait(); errf.close()
    return got, status

def main(pid, tier):
    import importlib
    ctx = Ctx(pid, tier)
    try:
        mod, fn = REGISTRY[pid]
        getattr(importlib.import_module("checks." + mod), fn)(ctx)
        return ctx.finish()
    except CheckError as e:
        print(f"ERROR: {e}"); return 2
from checks import REGISTRY  # noqa: E402
