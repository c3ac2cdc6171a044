#!/usr/bin/env python3
"""corrupt.py ID [N]: are corrupted recordings rejected?

Runs the quick check of a property; of every set of recorded traces it takes N, changes one value in
each that the code under test has produced (a number, text, truth value or the length of a sequence), and reports
which of them the trace specification accepts all the same. For development: no check uses it."""
import copy, json, os, random, sys
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "lib"))
import vlib

PID, N = sys.argv[1], int(sys.argv[2]) if len(sys.argv) > 2 else 40
rnd = random.Random(int(os.environ.get("VERIF_SEED", "1")) + 77)


def leaves(x, inp, path=()):
    """Paths of the values that are not part of the scenario."""
    if isinstance(x, dict):
        for k, v in x.items():
            i = inp.get(k, None) if isinstance(inp, dict) else None
            yield from leaves(v, i, path + (k,))
    elif isinstance(x, list):
        if inp != x:
            if not (isinstance(inp, list) and len(inp) == len(x)): yield path
            for j, v in enumerate(x):
                yield from leaves(v, inp[j] if isinstance(inp, list) and j < len(inp) else None, path + (j,))
    elif inp != x: yield path


def change(x):
    if isinstance(x, bool): return not x
    if isinstance(x, int): return x + rnd.choice([-1, 1])
    if isinstance(x, str): return x + "?" if rnd.random() < .5 or not x else x[:-1]
    if x and rnd.random() < .5:
        x = list(x); del x[rnd.randrange(len(x))]; return x
    return list(x) + [copy.deepcopy(x[-1]) if x else 0]


def corrupt(t, s):
    ps = list(leaves(t, s))
    if not ps: return None
    # kinds of places evenly, not the longest sequences most often
    kinds = {}
    for p in ps: kinds.setdefault(tuple(k if isinstance(k, str) else "#" for k in p), []).append(p)
    p = rnd.choice(kinds[rnd.choice(sorted(kinds))])
    t = copy.deepcopy(t)
    if not p: return None
    x = t
    for k in p[:-1]: x = x[k]
    old = x[p[-1]]
    x[p[-1]] = change(old)
    if x[p[-1]] == old: return None
    return p, old, x[p[-1]], t


def validate(module, trace_file, n, cfg=None, env=None, **kw):
    ts = list(vlib.ndjson(trace_file))
    inp = list(vlib.ndjson(trace_file + ".in"))
    if len(ts) % max(1, len(inp)) == 0 and len(ts) != len(inp):
        k = len(ts) // len(inp)
        inp = [x for x in inp for _ in range(k)]
    jobs = []
    for _ in range(20 * N):
        if len(jobs) == N: break
        i = rnd.randrange(len(ts))
        c = corrupt(ts[i], inp[i] if i < len(inp) else {})
        if c: jobs.append((i, *c))

    def go(j):
        i, p, old, new, t = j
        f = f"{trace_file}.c{id(j)}"
        with open(f, "w") as h: h.write(json.dumps(t) + "\n")
        try: r = vlib.tlc(module, cfg, dict(env or {}, TRACE=f), workers=1, heap="1g")
        except vlib.ToolError: return True, j      # nothing the specification can read
        finally: os.remove(f)
        return bool(r.violated or r.evalerr), j
    with ThreadPoolExecutor(8) as ex: res = list(ex.map(go, jobs))
    bad = [j for ok, j in res if not ok]
    print(f"{module} {os.path.basename(trace_file)}: {len(res) - len(bad)} of {len(res)} rejected", flush=True)
    for i, p, old, new, t in bad:
        op = ""
        if p[0] == "ops": op = json.dumps({k: v for k, v in t["ops"][p[1]].items() if k not in ("ret", "view")})[:90]
        print("   accepted:", ".".join(map(str, p)), json.dumps(old)[:60], "->", json.dumps(new)[:60], op)
    return vlib.TlcResult.__new__(vlib.TlcResult)


class Quiet(vlib.Run):
    def add(self, *a, **k): pass
    def evidence(self, *a): pass


vlib.validate = validate
vlib.log = lambda *a: None
vlib.Run = Quiet
import importlib
checks = {}
for m in ("reader", "regex", "automata", "tokens", "lexer", "decls", "spans", "e2e"):
    mod = importlib.import_module(m)
    if hasattr(mod, "model_check"): mod.model_check = lambda *a, **k: None
    checks.update(mod.CHECKS)
run = Quiet(PID)
checks[PID](run, False)
import shutil
shutil.rmtree(run.dir, ignore_errors=True)
