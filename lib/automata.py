"""L06, L07: the stages on the way to a table, and automata as data structures."""
import random
from vlib import *
from regexgen import *
from regex import rset, plain, small, many_symbols

UNTAGGED = 999999


def rmir(rnd, alpha, d):
    """A random MIR without tags: what a user may put together, also what no expression gives."""
    x = rnd.random()
    if d <= 0 or x < .3:
        if x < .05: return dict(t="eps")
        out = []
        for _ in range(rnd.choice([1, 1, 1, 2, 3])):
            a, b = rnd.choice(alpha), rnd.choice(alpha)
            out.append([min(a, b), max(a, b)] if rnd.random() < .6 else [a, a])
        rnd.shuffle(out)          # neither sorted nor disjoint
        return dict(t="cls", r=out)
    if x < .55: return dict(t="cat", k=[rmir(rnd, alpha, d - 1) for _ in range(rnd.choice([1, 2, 2, 3]))])
    if x < .85:
        k = [rmir(rnd, alpha, d - 1) for _ in range(rnd.choice([1, 2, 2, 3]))]
        if rnd.random() < .4:     # common beginnings
            p = rmir(rnd, alpha, d - 2)
            k = [dict(t="cat", k=[p, y]) for y in k]
        return dict(t="alt", k=k, tags=[UNTAGGED] * len(k))
    return dict(t="rep", k=[rmir(rnd, alpha, d - 1)])


def tagged(rnd, alpha, d, level=2):
    """An alternation with tags; untagged alternatives may have tags inside, also behind a prefix."""
    k, tags = [], []
    for _ in range(rnd.choice([1, 2, 2, 3, 4])):
        x = rnd.random()
        if level and x < .15:
            k.append(tagged(rnd, alpha, d - 1, level - 1)); tags.append(UNTAGGED)
        elif level and x < .3:
            k.append(dict(t="cat", k=[rmir(rnd, alpha, 1), tagged(rnd, alpha, d - 1, level - 1)])); tags.append(UNTAGGED)
        else:
            k.append(rmir(rnd, alpha, d)); tags.append(UNTAGGED if x > .9 else rnd.randint(0, 4))
    if rnd.random() < .3:
        p = rmir(rnd, alpha, 1)
        k = [dict(t="cat", k=[p, y]) for y in k]
    return dict(t="alt", k=k, tags=tags)


def wide(rnd, k, m, mode):
    """k ways to begin, all of which go on alike: hundreds of states, few of them needed."""
    a, b = rnd.sample("uvwxyz", 2)
    heads = [chr(c) for c in rnd.sample(range(0x3b1, 0x3b1 + 2 * k) if mode == "char" else [*range(48, 58), *range(65, 91), *range(97, 117)], k)]
    step = lambda: rnd.choice([f"[{a}{b}]", f"(?:{a}|{b})", f"{a}{b}?", a]) if mode == "char" else a
    tail = "".join(step() for _ in range(m)) + rnd.choice(["", f"{b}*", f"(?:{a}{b})?"])
    if rnd.random() < .5: return plain(mode, ["|".join(h + tail for h in heads), a + "+"], [1, 2])
    tags = [3] * k                # as many expressions with the same tag
    for i in range(rnd.choice([0, 1, 2])): tags[i] = 1 + i
    return plain(mode, [h + tail for h in heads], tags)


def l06(run, deep):
    rnd = random.Random(SEED * 1000 + 16)
    scen = [plain("char", [r]) for r in (small() if deep else rnd.sample(small(), 150))]
    for i in range(3000 if deep else 170):
        s, _, _ = rset(rnd, ["char", "char", "bytes", "u8"][i % 4])
        scen.append(s)
    for i in range(1800 if deep else 300):
        mode = rnd.choice(["char", "u8"])
        alpha = rnd.choice([ASCII[:2], ASCII, UNI, UNI[:6]]) if mode == "char" else rnd.choice([BYTE, BYTE[2:4], BYTE[5:]])
        d = rnd.choice([1, 2, 3] if deep else [1, 1, 2])
        m = tagged(rnd, alpha, d)
        scen.append(dict(mode=mode, res=[], tags=[], mir=m))
    for r in [r for r in SYNTAX if not any(x in r for x in (r"\p", r"(?i)[", r"alpha", r"\w", r"\W"))]:
        scen.append(plain("char", [r]))
    for r in BSYNTAX: scen.append(plain("bytes", [r]))
    for k, m, mode in [(30, 10, "char"), (24, 14, "u8"), (20, 30, "char")] + ([(60, 20, "char"), (100, 12, "char"), (50, 40, "u8"), (130, 12, "char")] if deep else []):
        scen.append(wide(rnd, k, m, mode))
    words = ["while", "where", "when", "if", "in", "impl", "[a-z]+", "[0-9]+", "0x[0-9a-f]+", "[+*/=<>!-]=?"]
    scen.append(plain("char", words))
    for _ in range(6 if deep else 1):
        scen.append(plain("char", many_symbols(rnd, 80 if deep else 24, 2)))
    out = run.path("stages.ndjson")
    run_harness(build("rx"), "stages", scen, out)
    r = validate("StageCheck", out, len(scen), min_states=3 * len(scen))
    run.add(r, traces=len(scen))
    for s in scen[150:151] + scen[500:501]: run.sample(s)
    run.add(model_check("Automata", "Automata_deep" if deep else "Automata", min_states=5000))
    if tlc("Automata", "Automata_original").ok:
        raise ToolError("Automata does not reject the original construction")


def fa_history(rnd, n, dense):
    ops, alive, owner = [], [], []       # owner[i]: the automaton of state i
    for _ in range(rnd.randint(1, 3)):
        ops.append(dict(op="new", n=rnd.randint(0, 1))); owner.append(len(alive)); alive.append(True)
    def some(f, foreign=.12):
        own = [i for i, o in enumerate(owner) if o == f]
        x = rnd.random()
        return -1 if x < .03 else rnd.randrange(len(owner)) if x < foreign else rnd.choice(own)
    for _ in range(n):
        fs = [i for i, a in enumerate(alive) if a]
        f = rnd.choice(fs)
        k = rnd.choice(["new", "add", "add", "addf", "setf", "setn", "edge", "edge", "edge", "edge", "look", "state", "union", "closures"])
        if k == "new" and len(alive) > 4: k = "edge"
        if k == "union" and (len(fs) < 2 or rnd.random() < .6): k = "addf"
        if k == "closures" and (dense or len(fs) < 2 or rnd.random() < .5): k = "look"
        if k == "new": ops.append(dict(op="new", n=rnd.randint(0, 1))); owner.append(len(alive)); alive.append(True)
        elif k in ("add", "addf"): ops.append(dict(op=k, fa=f)); owner.append(f)
        elif k in ("setf", "setn", "state"): ops.append(dict(op=k, fa=f, x=some(f)))
        elif k == "edge": ops.append(dict(op="edge", fa=f, x=some(f), s=rnd.choice([0, 0, 1, 1, 2, 3]), y=some(f)))
        elif k == "look": ops.append(dict(op="look", fa=f))
        elif k == "union":
            j = rnd.choice([x for x in fs if x != f])
            ops.append(dict(op="union", fa=f, j=j)); alive[j] = False
            owner[:] = [f if o == j else o for o in owner]
        else: ops.append(closures(rnd, f, owner)); alive[f] = False
    for i, a in enumerate(alive):
        if a:
            ops.append(dict(op="look", fa=i))
            ops += [dict(op="state", fa=i, x=x) for x, o in enumerate(owner) if o == i][:6]
            if not dense: ops.append(closures(rnd, i, owner))
    return dict(mode="char", res=[], tags=[], dense=int(dense), ops=ops)


def closures(rnd, f, owner):
    own = [i for i, o in enumerate(owner) if o == f]
    return {"op": "closures", "fa": f, "from": sorted(set(rnd.choices(own, k=rnd.randint(0, 3)))), "syms": [rnd.choice([0, 0, 1, 1, 2, 3]) for _ in range(rnd.randint(1, 8))]}


def l07(run, deep):
    rnd = random.Random(SEED * 1000 + 17)
    scen = [fa_history(rnd, rnd.choice([3, 8, 20, 40]), i % 2 == 0) for i in range(6000 if deep else 700)]
    # graphs full of empty edges
    for _ in range(1500 if deep else 200):
        n = rnd.randint(2, 9)
        ops = [dict(op="new", n=0)] + [dict(op=rnd.choice(["add", "addf"]), fa=0) for _ in range(n - 1)]
        for _ in range(rnd.randint(n, 3 * n)):
            ops.append(dict(op="edge", fa=0, x=rnd.randrange(n), s=rnd.choice([0, 0, 0, 1, 2]), y=rnd.randrange(n)))
        ops += [dict(op="look", fa=0), closures(rnd, 0, [0] * n)]
        scen.append(dict(mode="char", res=[], tags=[], dense=0, ops=ops))
    for _ in range(60 if deep else 12):
        scen.append(dict(mode="char", res=[], tags=[], dense=1, ops=[dict(op="new", n=0), dict(op="threads", n=rnd.randint(2, 8)), dict(op="add", fa=0), dict(op="threads", n=8)]))
    # larger ones: chains of empty edges, states with many edges, unions of many automata
    for i in range(40 if deep else 6):
        n = rnd.choice([20, 40, 80] + ([150] if deep else []))
        xs = list(range(n)); rnd.shuffle(xs)
        back = i % 3 == 0
        parts = rnd.choice([1, 1, 4, 12])
        ops = [dict(op="new", n=rnd.randint(0, 1)) for _ in range(parts)] + [dict(op=rnd.choice(["add", "addf"]), fa=j % parts) for j in range(n - parts)]
        ops += [dict(op="union", fa=0, j=j) for j in range(1, parts)]
        es = [(xs[j], 0, xs[j + 1]) for j in range(n - 1)] + [(xs[0], rnd.choice([1, 2, 3]), rnd.choice(xs)) for _ in range(n // 2)] + [(rnd.choice(xs), rnd.choice([0, 1, 2]), rnd.choice(xs)) for _ in range(8)]
        if back: es.reverse()
        ops += [dict(op="edge", fa=0, x=a, s=s, y=b) for a, s, b in es]
        ops += [dict(op="look", fa=0), dict(op="state", fa=0, x=xs[0])] + [{"op": "closures", "fa": 0, "from": [xs[0]], "syms": [0, 1, 0, 2, 1]}]
        scen.append(dict(mode="char", res=[], tags=[], dense=i % 2, ops=ops if i % 2 == 0 else ops[:-1]))
    out = run.path("fa.ndjson")
    run_harness(build("rx"), "fa", scen, out)
    r = validate("TraceFA", out, len(scen), min_states=len(scen) + sum(len(s["ops"]) for s in scen))
    run.add(r, traces=len(scen))
    for s in scen[:2]: run.sample(s)


CHECKS = dict(L06=l06, L07=l07)
