"""Shared driver code: build the harness, run TLC, collect violations, write evidence."""
import json, os, re, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.abspath(__file__))
B = os.path.join(V, "build")
SPECS = os.path.join(V, "specs")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
def seeds(n):
    """n choice-tree roots, disjoint ranges for different seeds"""
    return {((SEED - 1) * 4001 + k) % 46337 for k in range(1, n + 1)}

class ToolError(Exception):
    pass

def env():
    e = dict(os.environ)
    e.update(RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", RUSTC_WRAPPER="",
             CARGO_TARGET_DIR=os.path.join(B, "target"), CARGO_TERM_COLOR="never")
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "")
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET", "JAVA_TOOL_OPTIONS"):
        e.pop(k, None)
    e["RUSTFLAGS"] = "-Awarnings"
    return e

def build(crate="harness", binname=None):
    """cargo build of a harness crate against /repo's current tree; returns the binary path."""
    os.makedirs(B, exist_ok=True)
    d = os.path.join(V, crate)
    # work from a copy so that cargo never rewrites the committed lock file
    w = os.path.join(B, "src-" + crate)
    shutil.rmtree(w, ignore_errors=True)
    shutil.copytree(d, w, ignore=shutil.ignore_patterns("target"))
    r = subprocess.run(["cargo", "build", "--offline", "-q"], cwd=w, env=env(), capture_output=True, text=True)
    if r.returncode != 0:
        raise ToolError("harness build failed:\n" + r.stderr[-6000:])
    return os.path.join(B, "target", "debug", binname or crate)

def harness(binary, *args, timeout=420, cwd=None):
    r = subprocess.run([binary, *map(str, args)], capture_output=True, text=True, timeout=timeout, cwd=cwd)
    return r

import threading
LOCK = threading.Lock()

class Ctx:
    def __init__(self, pid, tier):
        self.pid, self.tier, self.t0 = pid, tier, time.time()
        self.states = self.transitions = self.traces = 0
        self.samples, self.viol, self.info = [], [], {}
        self.assumptions = []
        self.work = os.path.join(B, f"work-{pid}-{tier}")
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.bin = None
        self.nrun = 0
    @property
    def thorough(self): return self.tier == "thorough"
    def pick(self, q, t): return t if self.thorough else q
    def path(self, n): return os.path.join(self.work, n)

    # ---------------------------------------------------------------- TLC
    def tlc(self, module, consts=None, spec=None, init=None, next=None, invs=(), props=(), constraint=(), view=None,
            post=None, workers=8, simulate=None, depth=None, extra_env=None, deadlock=False, timeout=800, expect_ok=True, seed=None, heap="6g", symmetry=None):
        with LOCK:
            self.nrun += 1
            nrun = self.nrun
        tag = f"{nrun:02d}-{module}"
        cfg = []
        if spec: cfg.append(f"SPECIFICATION {spec}")
        if init: cfg += [f"INIT {init}", f"NEXT {next}"]
        wrap = f"R{nrun:02d}_{module}"   # wrapper module carries the constants (cfg syntax has no tuples)
        defs = ""
        for k, v in (consts or {}).items():
            cfg.append(f"CONSTANT {k} <- c_{k}")
            defs += f"c_{k} == {tlaval(v)}\n"
        open(self.path(wrap + ".tla"), "w").write(f"---- MODULE {wrap} ----\nEXTENDS {module}\n{defs}====\n")
        for i in invs: cfg.append(f"INVARIANT {i}")
        for p in props: cfg.append(f"PROPERTY {p}")
        for c in ([constraint] if isinstance(constraint, str) else constraint): cfg.append(f"CONSTRAINT {c}")
        if view: cfg.append(f"VIEW {view}")
        if post: cfg.append(f"POSTCONDITION {post}")
        if symmetry: cfg.append(f"SYMMETRY {symmetry}")
        cfg.append(f"CHECK_DEADLOCK {'TRUE' if deadlock else 'FALSE'}")
        cf = self.path(tag + ".cfg")
        open(cf, "w").write("\n".join(cfg) + "\n")
        cmd = ["java", "-XX:+UseParallelGC", f"-Xmx{heap}", "-Xss64m", "-DTLA-Library=" + SPECS, "-cp", "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar",
               "tlc2.TLC", "-config", cf, "-metadir", self.path(tag + ".meta"), "-noGenerateSpecTE", "-workers", str(workers), "-lncheck", "final"]
        if simulate:
            cmd += ["-simulate", f"num={simulate}", "-seed", str(seed if seed is not None else SEED)]
            if depth: cmd += ["-depth", str(depth)]
        cmd.append(self.path(wrap + ".tla"))
        e = env(); e.update(extra_env or {})
        t = time.time()
        try:
            r = subprocess.run(cmd, cwd=self.work, env=e, capture_output=True, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise ToolError(f"TLC timeout on {module}")
        out = r.stdout + r.stderr
        open(self.path(tag + ".log"), "w").write(out)
        shutil.rmtree(self.path(tag + ".meta"), ignore_errors=True)
        res = dict(rc=r.returncode, out=out, wall=time.time() - t, states=0, distinct=0)
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
        if m:
            res["states"] = int(m[-1][0].replace(",", "")); res["distinct"] = int(m[-1][1].replace(",", ""))
        m = re.findall(r"The number of states generated: ([\d,]+)", out)
        if m and not res["states"]:
            res["states"] = res["distinct"] = int(m[-1].replace(",", ""))
        if expect_ok and r.returncode != 0:
            raise ToolError(f"TLC failed on {module} (rc {r.returncode}):\n" + out[-5000:])
        if os.environ.get("VERBOSE"): print(f"  tlc {tag} {res['wall']:.1f}s states={res['distinct']}", file=sys.stderr)
        with LOCK:
            self.states += res["distinct"]; self.transitions += res["states"]
        return res

    def validate(self, module, tracefile, spec="TSpec", consts=None, key=None, extra_env=None, invs=(), what="recorded history", timeout=800, nev=None):
        """code -> spec: every recorded event must be a step the specification allows."""
        n = sum(1 for _ in open(tracefile))
        ee = {"TRACE": tracefile}; ee.update(extra_env or {})
        r = self.tlc(module, consts=consts, spec=spec, post="Accepted", workers=1, extra_env=ee, expect_ok=False, invs=invs, timeout=timeout)
        if r["rc"] == 0:
            return n
        if "POSTCONDITION" in r["out"].upper() or "postcondition" in r["out"] or "Invariant" in r["out"]:
            m = re.findall(r"depth of the complete state graph search is (\d+)", r["out"])
            d = int(m[-1]) if m else 1
            rows = open(tracefile).read().splitlines()
            bad = rows[d - 1] if d - 1 < len(rows) else "?"
            start = max(0, d - 25)
            self.violation(key or f"trace:{module}", f"{what}: event {d} of {n} is not a step of {module}: {bad[:600]}",
                           {"module": module, "event": d, "history": [json.loads(x) for x in rows[start:d]]})
            return d - 1
        raise ToolError(f"TLC error validating trace with {module}:\n" + r["out"][-4000:])

    # ------------------------------------------------------------ harness
    def run(self, *args, timeout=420, crash_ok=True):
        """run the harness, parse its report, merge violations. An abort of the process is a violation (crash of code under test)."""
        t = time.time()
        try:
            r = harness(self.bin, *args, timeout=timeout)
            if os.environ.get("VERBOSE"): print(f"  harness {args[:2]} {time.time()-t:.1f}s", file=sys.stderr)
        except subprocess.TimeoutExpired:
            self.violation("hang:" + str(args[0]), f"harness {args[:2]} did not terminate within {timeout}s", {"args": [str(a) for a in args]})
            return None
        if r.returncode != 0:
            if r.returncode in (1, 2, 101) or not crash_ok:
                raise ToolError(f"harness {args} rc={r.returncode}: {r.stderr[-3000:]}")
            self.violation(("alloc:" if r.returncode == 77 else "abort:") + str(args[0]), f"harness {args[:2]} was killed (rc {r.returncode}): {r.stderr[-500:]}", {"args": [str(a) for a in args]})
            return None
        try:
            rep = json.loads(r.stdout.strip().splitlines()[-1])
        except Exception:
            raise ToolError(f"harness {args}: no report\n{r.stdout[-1000:]}\n{r.stderr[-2000:]}")
        for v in rep.get("violations", []):
            self.violation(v["key"], v["what"], v["case"])
        return rep

    def violation(self, key, what, case):
        self.viol.append(dict(key=key, what=what, case=case))

    def sample(self, x):
        if len(self.samples) < 6: self.samples.append(x)

    def sample_file(self, f, n=1, cut=1500):
        with open(f) as h:
            for i, line in enumerate(h):
                if i >= n: break
                x = json.loads(line) if len(line) < 200000 else line
                if isinstance(x, str) and len(x) < cut * 3: x = json.loads(x)
                self.sample(x if len(json.dumps(x)) < cut else json.dumps(x)[:cut] + "...")

    # ---------------------------------------------------------------- end
    def finish(self):
        # lines "known: property=<id> key=<signature> <what fails>" suppress exactly that signature;
        # lines "fixed: property=<id> <commit> <what failed>" are a record and suppress nothing
        kf = {}
        for line in open(os.path.join(V, "known-findings.txt")):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line)
            if m: kf[(m[1], m[2])] = dict(what=m[3].strip())
        seen, new = {}, []
        for v in self.viol:
            k = kf.get((self.pid, v["key"]))
            if k: seen[v["key"]] = k
            else: new.append(v)
        for k in seen.values():
            print(f"KNOWN-FINDING: property={self.pid} {k['what']}")
        ev = dict(property=self.pid, tier=self.tier, seed=SEED, level="model_checking",
                  coverage=dict(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces,
                                samples=self.samples or ["none"], **self.info),
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 1), violations=len(new))
        os.makedirs(os.path.join(V, "evidence", "replay"), exist_ok=True)
        json.dump(ev, open(os.path.join(V, "evidence", self.pid + ".json"), "w"), indent=1)
        if not new:
            shutil.rmtree(self.work, ignore_errors=True)
            print(f"OK property={self.pid} states={self.states} transitions={self.transitions} traces={self.traces} wall={ev['wall_s']}s")
            return 0
        shown = {}
        for v in new:
            if v["key"] in shown: continue
            shown[v["key"]] = 1
            if len(shown) > 20: break
            f = os.path.join(V, "evidence", "replay", f"{self.pid}-{len(shown)}.json")
            json.dump(v, open(f, "w"), indent=1)
            print(f"  [{v['key']}] {v['what'][:700]}")
            print(f"VIOLATION property={self.pid} replay={f}")
        return 1

def tlaval(v):
    if isinstance(v, bool): return "TRUE" if v else "FALSE"
    if isinstance(v, int): return str(v)
    if isinstance(v, str):
        if v.startswith("="): return v[1:]
        return '"' + v + '"'
    if isinstance(v, (set, frozenset)): return "{" + ", ".join(tlaval(x) for x in sorted(v, key=str)) + "}"
    if isinstance(v, (list, tuple)): return "<<" + ", ".join(tlaval(x) for x in v) + ">>"
    raise TypeError(v)
