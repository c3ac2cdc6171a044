"""Shared machinery: building the harness crates, running scenarios, running TLC, evidence."""
import hashlib, json, os, re, resource, shutil, signal, subprocess, sys, time, threading

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
WORK = os.path.join(VERIF, ".work")
REPLAYS = os.path.join(VERIF, "replays")
SPEC = os.path.join(VERIF, "spec")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick") or "quick"


class ToolError(Exception):
    """The machinery itself failed: the check gives no verdict (exit 2)."""


class Violation(Exception):
    """The code under test breaks the property."""
    def __init__(self, what, data=None):
        super().__init__(what)
        self.what, self.data = what, data


def log(*a):
    print(*a, file=sys.stderr, flush=True)


# ---------------------------------------------------------------- building
def cargo_env():
    e = dict(os.environ)
    e.update(CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="",
             CARGO_INCREMENTAL="0")
    e.setdefault("HOME", "/root")
    for k in ("RUSTFLAGS", "CARGO_BUILD_TARGET", "CARGO_ENCODED_RUSTFLAGS"):
        e.pop(k, None)
    return e


def repo_hash():
    h = hashlib.sha256()
    for d in ("src", "laps_macros", "laps_regex"):
        for root, dirs, files in os.walk(os.path.join(REPO, d)):
            dirs.sort()
            dirs[:] = [x for x in dirs if x != "target"]
            for f in sorted(files):
                p = os.path.join(root, f)
                h.update(p.encode() + b"\0")
                with open(p, "rb") as fh:
                    h.update(fh.read())
    with open(os.path.join(REPO, "Cargo.toml"), "rb") as fh:
        h.update(fh.read())
    return h.hexdigest()


def build(crate, crate_dir=None, timeout=800, extra=None):
    """Builds a harness crate against /repo's working tree; returns the binary's path.

    If the harness does not compile although the repository itself does, the public API or the
    code generated by the macros is broken, which the caller reports as a violation."""
    crate_dir = crate_dir or os.path.join(VERIF, "harness", crate)
    target = os.path.join(BUILD, crate)
    os.makedirs(target, exist_ok=True)
    env = cargo_env()
    env["CARGO_TARGET_DIR"] = target
    env.update(extra or {})
    stamp = os.path.join(target, "repo.stamp")
    h = repo_hash()
    old = open(stamp).read() if os.path.exists(stamp) else None
    if old != h:
        # do not trust modification times: rebuild the repository's crates
        if old is not None:
            for p in ("laps", "laps_macros", "laps_regex"):
                subprocess.run(["cargo", "clean", "--offline", "-p", p], cwd=crate_dir, env=env,
                               stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        try:
            os.remove(stamp)
        except FileNotFoundError:
            pass
    t = time.time()
    r = subprocess.run(["cargo", "build", "--offline", "--locked"], cwd=crate_dir, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    log(f"[build {crate}] {time.time()-t:.1f}s rc={r.returncode}")
    if r.returncode != 0:
        chk = subprocess.run(["cargo", "check", "--offline", "--workspace", "--all-features"],
                             cwd=REPO, env=dict(env, CARGO_TARGET_DIR=os.path.join(BUILD, "repocheck")),
                             stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if chk.returncode == 0:
            raise Violation("user code written against the documented interface no longer compiles",
                            dict(kind="compile", crate=crate, output=r.stdout[-12000:]))
        raise ToolError("build failed:\n" + r.stdout[-6000:])
    with open(stamp, "w") as f:
        f.write(h)
    return os.path.join(target, "debug", crate)


# ---------------------------------------------------------------- running the code under test
def _limits():
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def run_harness(binary, domain, scenarios, out, stall=90, env=None, stderr=None, procs=1):
    """Runs the scenarios (list of JSON objects) through the harness; returns the number of traces.

    A crash or hang of the code under test is a violation, carrying the scenario that caused it."""
    os.makedirs(os.path.dirname(out), exist_ok=True)
    inp = out + ".in"
    with open(inp, "w") as f:
        for s in scenarios:
            f.write(json.dumps(s, separators=(",", ":")) + "\n")
    e = dict(os.environ, RUST_BACKTRACE="0", NO_COLOR="1")
    e.update(env or {})
    errf = open(stderr or os.devnull, "wb")
    p = subprocess.Popen([binary, domain, inp, out], env=e, preexec_fn=_limits,
                         stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=errf)
    # the harness prints one line per finished scenario batch: its progress
    last = [time.time(), 0]
    def rd():
        for line in p.stdout:
            last[0] = time.time()
            try:
                last[1] = int(line)
            except ValueError:
                pass
    th = threading.Thread(target=rd, daemon=True)
    th.start()
    while True:
        try:
            p.wait(timeout=0.25)
            break
        except subprocess.TimeoutExpired:
            if time.time() - last[0] > stall:
                p.kill()
                p.wait()
                th.join(2)
                i = min(last[1], len(scenarios) - 1)
                raise Violation("the code under test does not terminate",
                                dict(kind="hang", domain=domain, scenario=scenarios[i]))
    th.join(5)
    errf.close()
    if p.returncode != 0:
        i = min(last[1], len(scenarios) - 1)
        if p.returncode == 3:
            raise ToolError(f"harness reported a usage error in domain {domain}, scenario {i}: {scenarios[i]}")
        raise Violation(f"the code under test aborts (status {p.returncode})",
                        dict(kind="crash", domain=domain, status=p.returncode, scenario=scenarios[i]))
    return len(scenarios)


# ---------------------------------------------------------------- TLC
class TlcResult:
    pass


EVAL_ERR = ("Attempted to", "In evaluation", "not in the domain", "is not in the domain",
            "evaluating", "The first argument of", "The second argument of", "outside")


def tlc(module, cfg=None, env=None, workers=8, timeout=840, heap="6g", args=(), workdir=None):
    """Runs TLC on spec/<module>.tla; returns a TlcResult with ok/violated/error and counts."""
    meta = workdir or os.path.join(WORK, "tlc", f"{module}-{os.getpid()}-{time.time_ns()}")
    os.makedirs(meta, exist_ok=True)
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    e.update(env or {})
    cmd = ["java", "-XX:+UseParallelGC", f"-Xmx{heap}", "-Xss256m", "-Dtlc2.tool.impl.Tool.cdot=true",
           "-cp", JAR, "tlc2.TLC", "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE",
           "-deadlock", "-config", os.path.join(SPEC, (cfg or module) + ".cfg"), *args,
           os.path.join(SPEC, module + ".tla")]
    t = time.time()
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError(f"TLC timed out after {timeout}s on {module}")
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    out = r.stdout.decode("utf-8", "replace")
    res = TlcResult()
    res.module, res.cfg, res.out, res.wall = module, cfg or module, out, time.time() - t
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
    res.generated, res.distinct = (int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", ""))) if m else (0, 0)
    m = re.findall(r"depth of the complete state graph search is ([\d,]+)", out)
    res.depth = int(m[-1].replace(",", "")) if m else 0
    res.ok = r.returncode == 0 and ("Model checking completed. No error has been found." in out
                                    or ("-simulate" in args and "Error:" not in out))
    res.violated = None
    m = re.search(r"Invariant (\S+) is violated|Action property (.+?) is violated|Temporal properties were violated|(?:Assumption) (.+?) is false", out)
    if m:
        res.violated = m.group(1) or m.group(2) or m.group(3) or "temporal property"
    res.evalerr = None
    if not res.ok and not res.violated:
        if any(x in out for x in EVAL_ERR) and "Parsing or semantic analysis failed" not in out \
           and "OutOfMemory" not in out and "StackOverflow" not in out:
            i = out.find("Error:")
            res.evalerr = out[i:i + 1500]
        else:
            i = min((x for x in (out.find("Semantic errors:"), out.find("***Parse Error***"), out.find("Error:")) if x >= 0), default=0)
            raise ToolError(f"TLC failed on {module}:\n" + out[max(i, 0):][:2500])
    log(f"[tlc {res.cfg}] {res.wall:.1f}s generated={res.generated} distinct={res.distinct} depth={res.depth} ok={res.ok} violated={res.violated}")
    return res


def final_state(out):
    """The last state printed in a counterexample, as a dict of variable -> text."""
    i = out.rfind("\nState ")
    k = out.find("is violated by the initial state")
    if i < 0:
        i = k
    if i < 0:
        return {}
    txt = out[i:]
    txt = txt.split("\n\n")[0] if "\n\n" in txt else txt
    d = {}
    for m in re.finditer(r"^(?:/\\ )?(\w+) = ((?:.|\n)*?)(?=^(?:/\\ )?\w+ = |\Z)", txt, re.M):
        d[m.group(1)] = m.group(2).strip()
    return d


def validate(module, trace_file, n, cfg=None, env=None, min_states=None, workers=8, timeout=840, heap="6g"):
    """Validates recorded traces against a trace specification. Raises Violation on a mismatch."""
    e = {"TRACE": trace_file}
    e.update(env or {})
    r = tlc(module, cfg, e, workers=workers, timeout=timeout, heap=heap)
    if r.violated or r.evalerr:
        st = final_state(r.out)
        tid = None
        if st.get("tid", "").isdigit():
            tid = int(st["tid"])
        trace = None
        if tid:
            with open(trace_file) as f:
                for i, line in enumerate(f, 1):
                    if i == tid:
                        trace = json.loads(line)
                        break
        i = r.out.find("Error:")
        raise Violation(f"the recorded behaviour is not allowed by {module} ({r.violated or 'cannot be interpreted'})",
                        dict(kind="trace", module=module, cfg=r.cfg, invariant=r.violated, tid=tid, step=st.get("l"),
                             state={k: v[:4000] for k, v in st.items()}, trace=trace,
                             tlc=r.out[max(0, i):][:6000]))
    need = n if min_states is None else min_states
    if r.distinct < need:
        raise ToolError(f"{module}: only {r.distinct} states for {n} traces (expected at least {need}): vacuous")
    return r


def model_check(module, cfg=None, env=None, min_states=1, **kw):
    """Checks the specification itself (once); a failure here is an error of the specification."""
    key = repr((module, cfg, env))
    if key in CHECKED:
        return None
    r = tlc(module, cfg, env, **kw)
    if not r.ok:
        raise ToolError(f"the specification {module}/{r.cfg} does not satisfy its own properties:\n" + r.out[-6000:])
    if r.distinct < min_states:
        raise ToolError(f"{module}: only {r.distinct} states, expected at least {min_states}")
    CHECKED.add(key)
    return r


CHECKED = set()


def ndjson(path):
    with open(path) as f:
        for line in f:
            if line.strip():
                yield json.loads(line)


# ---------------------------------------------------------------- evidence and reporting
class Run:
    """Collects what one check covered, and writes its evidence file."""
    def __init__(self, pid):
        self.pid, self.t0 = pid, time.time()
        self.states = self.transitions = self.traces = 0
        self.samples, self.models, self.assumptions, self.extra = [], [], [], {}
        self.dir = os.path.join(WORK, f"{pid}-{os.getpid()}")
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)

    def path(self, name):
        return os.path.join(self.dir, name)

    def add(self, r, traces=0):
        if r is None: return      # counted in an earlier round
        self.states += r.distinct
        self.transitions += r.generated
        self.traces += traces
        self.models.append(dict(module=r.module, cfg=r.cfg, distinct=r.distinct, generated=r.generated,
                                depth=r.depth, traces=traces, wall_s=round(r.wall, 1)))

    def sample(self, x):
        if len(self.samples) < 6:
            s = json.dumps(x)
            self.samples.append(x if len(s) < 3000 else s[:3000] + "...")

    def evidence(self, violations):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        cov = dict(states=self.states, transitions=self.transitions,
                   traces_validated_against_impl=self.traces, samples=self.samples or ["(none)"],
                   tlc_runs=self.models)
        cov.update(self.extra)
        ev = dict(property=self.pid, tier=TIER if TIER in ("quick", "thorough") else "quick", seed=SEED,
                  level="model_checking", coverage=cov, assumptions=self.assumptions,
                  wall_s=round(time.time() - self.t0, 2), violations=violations)
        tmp = os.path.join(VERIF, "evidence", f".{self.pid}.tmp")
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(tmp, os.path.join(VERIF, "evidence", f"{self.pid}.json"))

    def close(self):
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(self.dir, ignore_errors=True)


def report(run, v):
    os.makedirs(REPLAYS, exist_ok=True)
    path = os.path.join(REPLAYS, f"{run.pid}.json")
    with open(path, "w") as f:
        json.dump(dict(property=run.pid, what=v.what, seed=SEED, tier=TIER, detail=v.data), f, indent=1)
    log("VIOLATION:", v.what)
    if v.data:
        log(json.dumps({k: x for k, x in v.data.items() if k not in ("tlc",)}, indent=0)[:4000])
    print(f"VIOLATION property={run.pid} replay={path}", flush=True)


def simulate(module, cfg, num, depth, seed=None, timeout=300, tag="SCN "):
    """Behaviours that TLC generates from a specification, as scenarios for the real code."""
    r = tlc(module, cfg, workers=1, timeout=timeout,
            args=("-simulate", f"num={num}", "-depth", str(depth), "-seed", str(SEED if seed is None else seed)))
    out, seen = [], set()
    for line in r.out.splitlines():
        if line.startswith('"' + tag):
            x = json.loads(json.loads(line)[len(tag):])
            # TLC prints every successor of the last but one state: keep one
            k = json.dumps(dict(x, ops=x["ops"][:-1]) if "ops" in x else x, sort_keys=True)
            if k not in seen:
                seen.add(k)
                out.append(x)
    if len(out) < num // 2:
        raise ToolError(f"{module}/{cfg}: only {len(out)} behaviours generated:\n" + r.out[-1500:])
    return out
