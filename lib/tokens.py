"""T01-T03, P01-P04, S01: token streams, parsers and token ASTs against TokenStream and Grammar."""
import itertools, random
from vlib import *
from grammar import *

OPS = [(2, 2)]
ALPHA = [(NUM, 1), (SYM, 43), (PLUS, 0), (WORD, 1), (NUM, 5), (SYM, 97), (NUM, 3), (SYM, 120), (NUM, 4)]


def table(rnd, kvs, multi=True):
    """A token table with unique spans in source order."""
    toks, line, col = [], 1, 0
    for k, v in kvs:
        if multi and rnd.random() < .3:
            line += rnd.randint(1, 2); col = 0
        col += rnd.randint(1, 3)
        l2, c2 = line, col + rnd.randint(0, 4)
        if multi and rnd.random() < .1:
            l2, c2 = line + 1, rnd.randint(1, 5)
        toks.append(dict(k=k, v=v, sp=[line, col, l2, c2], disp=disp(k, v)))
        line, col = l2, c2
    return toks


def script(rnd, word, faults=0, extra=0, tail="eof"):
    """The tokenizer's script for a word: faults errors at random places, extra tokens to push."""
    kvs = list(word) + [(EOF, 0)] + [rnd.choice(ALPHA) for _ in range(extra)]
    toks = table(rnd, kvs)
    items = list(range(1, len(word) + 1))
    n = rnd.randint(1, 50)
    for _ in range(faults):
        items.insert(rnd.randint(0, len(items)), -n)
        n += 1
    return dict(items=items, eof=len(word) + 1 if tail == "eof" else -n, toks=toks)


def stop(rnd, word, tail):
    st = [alt(k, v, v) for k, v in rnd.sample(list(word), min(len(word), rnd.randint(0, 1)))]
    if rnd.random() < .3:
        st.append(alt(NUM, m=2, r=rnd.randint(0, 1)))
    if tail == "eof":
        st.append(alt(EOF))
    return st


def history(rnd, n, sc, word, tail, kind, toks=(), roots=()):
    ops, nt = [], len(sc["toks"])
    for _ in range(n):
        r = rnd.random()
        if r < .28: o = dict(op="next")
        elif r < .36: o = dict(op="peek", n=1)
        elif r < .44: o = dict(op="peek2", n=2)
        elif r < .54: o = dict(op="peekn", n=rnd.choice([0, 1, 2, 3, 3, 4, 6]))
        elif r < .66: o = dict(op="unread")
        elif r < .71: o = dict(op="push", i=rnd.randint(1, nt))
        elif r < .83:
            o = dict(op=rnd.choice(["skip", "coll"]), stop=stop(rnd, word, tail))
            if rnd.random() < .35: o["nth"] = rnd.randint(2, 3)     # a predicate that counts
        elif r < .90:
            o = dict(op="expect", i=rnd.randint(1, nt))
            if rnd.random() < .3: o["tok"] = 1
        elif r < .93: o = dict(op="inner")
        elif r < .97 or not roots: o = look(rnd, toks)
        else: o = dict(op=rnd.choice(["parse", "maybe"]), g=rnd.choice(roots))
        ops.append(o)
    return ops


def look(rnd, toks):
    steps = [0 if rnd.random() < .4 or not toks else rnd.choice(toks) for _ in range(rnd.randint(0, 5))]
    return dict(op="look", steps=steps, result=rnd.random() < .7)


def long(rnd, n, faults, toks):
    """Long histories over many tokens: far lookahead, many tokens unread or pushed, then everything is delivered."""
    out = []
    for i in range(n):
        kind = ["buf", "own", "from"][i % 3]
        word = [rnd.choice(ALPHA) for _ in range(rnd.choice([20, 40, 90, 150]))]
        sc = script(rnd, word, rnd.randint(0, 3) if faults else 0, 2, "eof" if rnd.random() < .8 else "err")
        nt, ops = len(sc["toks"]), []
        for _ in range(rnd.randint(2, 8)):
            r, k = rnd.random(), rnd.choice([3, 7, 8, 9, 16, 17, 33])
            if r < .2: ops += [dict(op="next")] * k
            elif r < .4: ops += [dict(op="unread")] * k
            elif r < .5: ops += [dict(op="push", i=rnd.randint(1, nt)) for _ in range(k)]
            elif r < .75: ops.append(dict(op="peekn", n=rnd.choice([5, 8, 9, 17, 33, 65, 130])))
            elif r < .9:        # (few checks: each may or may not fetch its token behind a mismatch)
                steps = [0] * rnd.choice([4, 9, 17, 40])
                for _ in range(4 if toks else 0): steps[rnd.randrange(len(steps))] = rnd.choice(toks)
                ops.append(dict(op="look", steps=steps, result=rnd.random() < .7))
            else: ops += history(rnd, 2, sc, word, "eof", kind, toks) if sc["eof"] > 0 else [dict(op="peek2", n=2)]
        out.append(dict(kind=kind, sc=sc, ops=[dict(o) for o in ops] + drain(rnd.choice([5, 20, 60]))))
    return out


def far(rnd, sizes, faults, looks):
    """Buffers of hundreds of tokens, and everything that was put into them delivered."""
    out = []
    for n in sizes:
        for kind in ("buf", "own", "from"):
            word = [rnd.choice(ALPHA) for _ in range(n + rnd.randint(0, 4))]
            sc = script(rnd, word, 0, 2)
            if faults: sc["items"].insert(rnd.randint(n // 2, n), -7)
            nt, ops = len(sc["toks"]), []
            for _ in range(rnd.randint(2, 4)):
                k = rnd.choice([n - 1, n, n, n + 1, n // 2, 3])
                m = rnd.choice(["look"] if looks else ["peekn", "peekn", "look"])
                ops.append(dict(op="peekn", n=k) if m == "peekn" else dict(op="look", steps=[0] * k, result=rnd.random() < .7))
                ops += rnd.choice([[dict(op="next"), dict(op="unread")], [dict(op="push", i=rnd.randint(1, nt))] * rnd.choice([1, 2, 5]),
                                   [dict(op="next")] * 3, [dict(op="peek2", n=2)], [dict(op="next"), dict(op="next"), dict(op="unread"), dict(op="unread")]])
            if n < 300:
                k = n - rnd.randint(0, 3)
                ops += [dict(op="next")] * k + [dict(op="unread")] * (k - rnd.randint(0, 3))
            ops += [dict(op="coll", stop=[alt(EOF)])] * (2 if faults else 1)
            out.append(dict(kind=kind, sc=sc, ops=[dict(o) for o in ops] + drain(3)))
    return out


def drain(n): return [dict(op="next") for _ in range(n)]


class World:
    """A generated grammar with its harness binary."""
    def __init__(self, run, g):
        self.run, self.g = run, g
        d = os.path.join(BUILD, "gen")
        os.makedirs(d, exist_ok=True)
        self.src = os.path.join(d, f"{run.pid}.rs")
        code = g.code()
        if not os.path.exists(self.src) or open(self.src).read() != code:
            with open(self.src, "w") as f:
                f.write(code)
        self.bin = build("tok", extra=dict(LAPS_GEN=self.src))
        self.gram = run.path("grammar.ndjson")
        with open(self.gram, "w") as f:
            f.write(json.dumps(dict(nodes=g.nodes)) + "\n")

    def check(self, scen, what, cfg=None):
        out = self.run.path(what + ".ndjson")
        run_harness(self.bin, "tokens", scen, out)
        r = validate("TraceTokens", out, len(scen), cfg=cfg, env=dict(GRAMMAR=self.gram),
                     min_states=len(scen) + sum(len(s["ops"]) for s in scen))
        self.run.add(r, traces=len(scen))
        for s in scen[:2]:
            self.run.sample(s)


def small(pid, ntok=0):
    g = Grammar(SEED * 7919 + sum(map(ord, pid)))
    g.fixed_tokens()
    for i in range(ntok):
        g.random_token(i)
    g.leaves = [n for n, _, _ in g.toknames if n != g.T["h"]]
    return g


def toknodes(g): return [n for n, _, _ in g.toknames]


def design(run, deep):
    r = model_check("TokenBufferImpl", "TokenBufferImpl_deep" if deep else "TokenBufferImpl", min_states=5000)
    run.add(r)
    o = tlc("TokenBufferImpl", "TokenBufferImpl_original")
    if o.ok:
        raise ToolError("TokenBufferImpl does not reject the original buffer")
    run.assumptions.append("the design model TokenBufferImpl bounds scripts to 4 (thorough: 5) items and histories to 4 (thorough: 5) operations; "
                           "longer ones are replayed on the real streams")


def generated(n, g):
    """Histories that TLC generates from the design model, as scenarios."""
    out = []
    rnd = random.Random(SEED)
    for s in simulate("TokenBufferImpl", "TokenBufferImpl_gen", n, 13):
        items = s["items"]
        nt = max([i for i in items if i > 0] + [0])
        word = [ALPHA[i % 3] for i in range(nt)]
        sc = dict(items=items, eof=nt + 1, toks=table(rnd, word + [(EOF, 0), (WORD, 9)]))
        out.append(dict(kind={"buf": rnd.choice(["buf", "from"]), "own": "own"}[s["kind"]], sc=sc,
                        ops=[fix(o, nt, g) for o in s["ops"]] + drain(4)))
    return out


def fix(o, nt, g):
    o = dict(o)
    if o["op"] == "push": o["i"] = nt + 2
    if o["op"] in ("skip", "coll"): o["stop"] = [alt(NUM), alt(EOF)] if o.pop("w") == 1 else [alt(SYM), alt(EOF)]
    if o["op"] == "expect": o["i"] = min(nt + 1, o["i"])
    if o["op"] == "look": o["steps"] = [0] * o.pop("d"); o["result"] = False
    return o


def t01(run, deep):
    rnd = random.Random(SEED * 1000 + 11)
    g = small("T01")
    w = World(run, g)
    scen = [s for s in generated(1200 if deep else 250, g)]
    for i in range(8000 if deep else 1500):
        kind = ["buf", "own", "from"][i % 3]
        word = [rnd.choice(ALPHA) for _ in range(rnd.randint(0, 8))]
        tail = "eof" if rnd.random() < .8 else "err"
        sc = script(rnd, word, 0, rnd.randint(0, 2), tail)
        scen.append(dict(kind=kind, sc=sc, ops=history(rnd, rnd.randint(3, 16), sc, word, tail, kind, toknodes(g)) + drain(3)))
    alphabet = [dict(op="next"), dict(op="peek", n=1), dict(op="peek2", n=2), dict(op="peekn", n=3), dict(op="unread"),
                dict(op="expect", i=1), dict(op="skip", stop=[alt(PLUS), alt(EOF)]), dict(op="coll", stop=[alt(SYM), alt(EOF)]), dict(op="push", i=5)]
    for kind in ("buf", "own"):
        for h in itertools.product(alphabet, repeat=4 if deep else 3):
            sc = script(rnd, [(NUM, 1), (SYM, 43), (PLUS, 0)], 0, 1)
            scen.append(dict(kind=kind, sc=sc, ops=[dict(o) for o in h] + drain(4)))
    for _ in range(10 if deep else 3):     # long runs
        word = [rnd.choice(ALPHA) for _ in range(300)]
        sc = script(rnd, word, 0, 0)
        k = rnd.choice(["buf", "own"])
        scen.append(dict(kind=k, sc=sc, ops=[dict(op="peekn", n=200), dict(op="coll", stop=[alt(WORD, 7, 7), alt(EOF)]), dict(op="peek2", n=2), dict(op="next")]))
    scen += long(rnd, 400 if deep else 60, False, toknodes(g))
    scen += far(rnd, (60, 70, 130, 140, 260, 270, 520, 1030, 1200, 2100, 4100) if deep else (60, 130, 260, 520, 1030, 2100), False, False)
    w.check(scen, "streams")
    design(run, deep)


def t02(run, deep):
    rnd = random.Random(SEED * 1000 + 12)
    g = small("T02")
    roots_base(g)
    w = World(run, g)
    rb = {s: [n for n, x in g.roots if x == s] for s in ("buf", "own")}
    scen = [s for s in generated(1200 if deep else 250, g)]
    # an error at every place of short scripts, in front of every operation
    opsets = [dict(op="next"), dict(op="peek", n=1), dict(op="peek2", n=2), dict(op="peekn", n=3), dict(op="peekn", n=4),
              dict(op="expect", i=1), dict(op="expect", i=2), dict(op="skip", stop=[alt(PLUS), alt(EOF)]), dict(op="coll", stop=[alt(PLUS), alt(EOF)])]
    word = [(NUM, 1), (SYM, 43), (PLUS, 0), (WORD, 1)]
    for kind in ("buf", "own"):
        for at in range(5):
            for o1, o2 in itertools.product(opsets, repeat=2):
                sc = script(rnd, word)
                sc["items"].insert(at, -7)
                if rnd.random() < .3: sc["items"].insert(at + rnd.choice([0, 1]), -8)
                scen.append(dict(kind=kind, sc=sc, ops=[dict(o1), dict(o2)] + drain(5)))
            for n in rb[kind]:
                sc = script(rnd, (g.words(n, 1) or [word])[0][:6] + word[:1])
                sc["items"].insert(min(at, len(sc["items"])), -7)
                for op in ("maybe", "parse"):
                    scen.append(dict(kind=kind, sc=sc, ops=[dict(op=op, g=n)] + drain(4)))
    for i in range(8000 if deep else 1500):
        kind = ["buf", "own", "from"][i % 3]
        word = [rnd.choice(ALPHA) for _ in range(rnd.randint(0, 8))]
        tail = "eof" if rnd.random() < .7 else "err"
        sc = script(rnd, word, rnd.randint(1, 4), rnd.randint(0, 2), tail)
        scen.append(dict(kind=kind, sc=sc, ops=history(rnd, rnd.randint(3, 14), sc, word, tail, kind, toknodes(g), rb["own" if kind == "own" else "buf"]) + drain(3)))
    scen += long(rnd, 400 if deep else 60, True, toknodes(g))
    scen += far(rnd, (60, 70, 130, 140, 260, 270, 520, 1030, 1200, 2100, 4100) if deep else (60, 130, 260, 520, 1030, 2100), True, False)
    w.check(scen, "faults")
    design(run, deep)


def t03(run, deep):
    rnd = random.Random(SEED * 1000 + 13)
    g = small("T03", 12 if deep else 6)
    w = World(run, g)
    tn = toknodes(g)
    a, b, c = g.T["a"], g.T["b"], g.T["c"]
    scen = []
    # all chains of up to three checks over all short words
    for kind in ("buf", "own"):
        for n in range(0, 4):
            for chain in itertools.product([0, a, b] if n > 2 else [0, a, b, c], repeat=n):
                for word in itertools.product([(NUM, 1), (SYM, 43)], repeat=min(n, 2)):
                    sc = script(rnd, list(word), 1 if rnd.random() < .3 else 0)
                    pre = rnd.choice([[], [dict(op="peek2", n=2)], [dict(op="peek", n=1)], [dict(op="next"), dict(op="unread")]])
                    scen.append(dict(kind=kind, sc=sc, ops=pre + [dict(op="look", steps=list(chain), result=rnd.random() < .7)] + drain(3)))
    for i in range(8000 if deep else 1500):
        kind = ["buf", "own", "from"][i % 3]
        steps = [rnd.choice(tn) for _ in range(rnd.randint(1, 5))]
        word = [x for s in steps for x in g.word(s, [9])]
        if rnd.random() < .5 and word:
            word[rnd.randrange(len(word))] = rnd.choice(ALPHA)
        word = word[:rnd.randint(0, len(word))] if rnd.random() < .3 else word
        sc = script(rnd, word, rnd.choice([0, 0, 0, 1, 2]), 1, rnd.choice(["eof", "eof", "err"]))
        if rnd.random() < .3:
            steps.insert(rnd.randint(0, len(steps)), 0)
        pre = history(rnd, rnd.randint(0, 3), sc, word, "eof", kind, tn) if rnd.random() < .5 and sc["eof"] > 0 else []
        scen.append(dict(kind=kind, sc=sc, ops=pre + [dict(op="look", steps=steps, result=rnd.random() < .8), look(rnd, tn)] + drain(3)))
    scen += long(rnd, 400 if deep else 60, True, tn)
    scen += far(rnd, (60, 70, 130, 140, 260, 270, 520, 1030, 1200, 2100, 4100) if deep else (60, 130, 260, 520, 1030, 2100), True, True)
    w.check(scen, "lookahead")
    design(run, deep)


def roots_base(g):
    """The predefined types over single tokens, and small compositions."""
    a, b, c, d = (g.T[x] for x in "abcd")
    base = [a, g.box(a), g.opt(a), g.vec(a), g.tuple(a), g.tuple(a, b), g.tuple(a, b, c), g.tuple(g.opt(a), b), g.tuple(g.vec(a), b),
            g.neseq(a), g.seplist(a, b), g.seplist(a, b, True), g.quoted(b, a, c), g.quoted(b, g.vec(a), c), g.quoted(b, g.sep("sepseq", a, c), b)]
    base += [g.sep(t, a, b) for t in Grammar.SEPS]
    base += [g.prefix(t, b, a) for t in ("optprefix", "opttokprefix", "tokprefix")]
    pre = [g.prefix(t, b, a) for t in ("optprefix", "opttokprefix", "tokprefix")]
    base += [g.vec(p) for p in pre] + [g.opt(p) for p in pre] + [g.neseq(pre[1]), g.sep("sepseq", pre[2], c), g.sep("optsepseq", pre[1], c)]
    base += [g.vec(g.tuple(a, b)), g.sep("sepseq", g.tuple(a, g.opt(c)), b), g.sep("neoptseplist", g.tuple(a, g.opt(c)), b),
             g.prefix("optprefix", g.tuple(b, c), a), g.sep("nesepseq", a, g.tuple(b, c)), g.opt(g.tuple(g.opt(a), b)), g.box(g.opt(g.neseq(a)))]
    for n in base:
        g.roots += [(n, "buf"), (n, "own")]
    return base


def roots_overlap(g):
    """Types in which an element may start like what comes behind it: the first choice counts."""
    a, b = g.T["a"], g.T["b"]
    p = len(g.roots)
    el = [g.tuple(g.opt(a), b), g.tuple(a, g.opt(b)), b, g.tuple(b, g.opt(a)), g.neseq(a), g.opt(a), g.prefix("optprefix", b, a), g.tuple(g.opt(b), a), g.neseq(b), g.tuple(g.vec(b), a)]
    for i, x in enumerate(el):
        for j, t in enumerate(Grammar.SEPS):
            for s in (b, a, g.tuple(b, g.opt(b)))[: 2 if (i + j) % 3 else 3]:
                g.roots.append((g.sep(t, x, s), "own" if (i + j) % 4 == 0 else "buf"))
    for t in ("optprefix", "opttokprefix", "tokprefix"):
        for x in el:
            for q in (a, b):
                n = g.prefix(t, q, x)
                g.roots.append((n, "buf"))
                if not g.nullable(n): g.roots += [(g.neseq(n), "own"), (g.sep("optsepseq", n, b), "buf"), (g.tuple(g.opt(n), b), "buf")]
    g.roots += [(g.tuple(g.vec(b), b), "buf"), (g.tuple(g.opt(b), b), "own"), (g.tuple(g.sep("sepseq", a, b), b), "buf"), (g.tuple(g.sep("optsepseq", a, b), b), "buf"),
                (g.tuple(g.seplist(a, b, True), b), "own"), (g.tuple(g.seplist(a, b), b), "buf"), (g.tuple(g.opt(g.tuple(a, b)), a), "buf")]
    return g.roots[p:]


def roots_far(g):
    """Types with a part that is predicted by its second or third token, at every place."""
    a, b, c = (g.T[x] for x in "abc")
    far = [g.struct([a, b], [a, b]), g.struct([a, g.opt(a), b], [a, b]), g.prefix("tokprefix", a, b), g.prefix("opttokprefix", a, b),
           g.enum(g.reserve("plain"), [[a, b], [c]], [a, b, c]), g.prefix("tokprefix", a, g.prefix("tokprefix", b, c)), g.tuple(g.prefix("tokprefix", a, b), c)]
    p = len(g.roots)
    for i, x in enumerate(far):
        out = [x, g.box(x), g.opt(x), g.vec(x), g.neseq(x), g.seplist(x, c), g.tuple(x, a), g.struct([x, b]), g.quoted(x, a, c),
               g.enum(g.reserve("plain"), [[x], [a]]), g.enum(g.reserve("plain"), [[c], [x], [b, a]])]
        out += [g.sep(t, x, c) for t in Grammar.SEPS] + [g.sep(t, a, x) for t in Grammar.SEPS]
        for q in ("optprefix", "opttokprefix", "tokprefix"):
            out += [g.prefix(q, c, x), g.vec(g.prefix(q, c, x))]
            if q == "optprefix": out += [g.prefix(q, x, a), g.prefix(q, x, c), g.neseq(g.prefix(q, x, c))]
        g.roots += [(n, "own" if (i + j) % 4 == 0 else "buf") for j, n in enumerate(out)]
    return g.roots[p:]


def faulty(g, rnd, roots, length, alpha=((NUM, 1), (SYM, 43), (PLUS, 0))):
    """Short words with an error of the tokenizer at every place."""
    scen = []
    for n, kind in roots:
        for k in range(length + 1):
            for w in itertools.product(alpha, repeat=k):
                for at in range(k + 1):
                    sc = script(rnd, list(w))
                    sc["items"].insert(at, -rnd.randint(1, 50))
                    scen.append(dict(kind=kind, sc=sc, ops=[dict(op=rnd.choice(["maybe", "maybe", "parse"]), g=n), dict(op=rnd.choice(["maybe", "parse"]), g=n)] + drain(2)))
    return scen


def tuples(g):
    xs = [g.T[x] for x in "abcd"]
    out = []
    for n in range(4, 27):
        cs = [xs[(i * 3 + i // 4) % 4] for i in range(n)]
        if n % 3 == 0: cs[n // 2] = g.opt(g.T["c"])
        out.append(g.tuple(*cs))
        g.roots.append((out[-1], "buf" if n % 2 else "own"))
    return out


def randoms(g, n, make):
    out = []
    for i in range(n):
        x = make()
        g.roots.append((x, ["buf", "own"][i % 2]))
        out.append(x)
    return out


def mutate(rnd, w):
    w = list(w)
    for _ in range(rnd.choice([1, 1, 2])):
        r = rnd.random()
        if r < .3 and w: del w[rnd.randrange(len(w))]
        elif r < .6: w.insert(rnd.randint(0, len(w)), rnd.choice(ALPHA))
        elif r < .8 and w: w[rnd.randrange(len(w))] = rnd.choice(ALPHA)
        elif w: w = w[:rnd.randrange(len(w))]
    return w


def parses(g, rnd, roots, count, maybe=.3, faults=.1):
    """Scenarios that parse words of the types, words with mistakes, and random words."""
    scen = []
    for n, kind in roots:
        for w in g.words(n, count):
            for v in range(2):
                x = w if v == 0 else mutate(rnd, w)
                if v and rnd.random() < .15: x = [rnd.choice(ALPHA) for _ in range(rnd.randint(0, 6))]
                ops = []
                if rnd.random() < maybe: ops.append(dict(op="maybe", g=n))
                if rnd.random() < .1: ops.append(dict(op=rnd.choice(["peek2", "peekn"]), n=2))
                ops.append(dict(op="parse", g=n))
                if rnd.random() < .15: ops.append(dict(op="parse", g=n))
                ops += drain(rnd.randint(1, 3))
                follow = [rnd.choice(ALPHA) for _ in range(rnd.choice([0, 0, 1, 2]))]
                sc = script(rnd, list(x) + follow, rnd.choice([1, 1, 2]) if rnd.random() < faults else 0, 0, "eof")
                scen.append(dict(kind="from" if kind == "buf" and rnd.random() < .2 else kind, sc=sc, ops=ops))
    return scen


def stretched(g, rnd, roots, counts):
    """Words with one part repeated many times."""
    scen = []
    for n, kind in roots:
        for k in counts:
            w = g.long_word(n, k + rnd.randint(-1, 1))
            if w:
                if rnd.random() < .3: w = mutate(rnd, w)
                scen.append(dict(kind=kind, sc=script(rnd, w, rnd.choice([0, 0, 0, 1]), 0, "eof"), ops=[dict(op="parse", g=n)] + drain(2)))
    return scen


def exhaustive(g, rnd, roots, length, ops=("parse",), alpha=((NUM, 1), (SYM, 43), (PLUS, 0))):
    scen = []
    for i, (n, kind) in enumerate(roots):
        for k in range(length + 1):
            for w in itertools.product(alpha, repeat=k):
                sc = script(rnd, list(w))
                scen.append(dict(kind=kind, sc=sc, ops=[dict(op=o, g=n) for o in ops] + drain(2)))
    return scen


def grammar_model(run, deep):
    r = model_check("GrammarModel", "GrammarModel_deep" if deep else "GrammarModel", min_states=1000)
    run.add(r)
    run.assumptions.append("that the specified parsing is the documented shape is checked on the specification for all small types and all words up to length 4")


def p01(run, deep):
    rnd = random.Random(SEED * 1000 + 21)
    g = small("P01", 4)
    base = roots_base(g)
    half = [(n, s) for i, (n, s) in enumerate(g.roots) if deep or i % 2 == (i // 2) % 2]
    tp = tuples(g)
    p = len(g.roots)
    ov = roots_overlap(g)
    g.roots[p:] = ov
    rs = randoms(g, 160 if deep else 60, lambda: g.rtype(g.rnd.choice([2, 3])))
    w = World(run, g)
    scen = exhaustive(g, rnd, half, 4 if deep else 3)
    scen += exhaustive(g, rnd, ov, 6 if deep else 4, alpha=((NUM, 1), (SYM, 43)))
    scen += parses(g, rnd, [x for x in g.roots if x[0] in set(base)], 12 if deep else 3)
    scen += parses(g, rnd, [x for x in g.roots if x[0] in set(tp)], 6 if deep else 3)
    scen += parses(g, rnd, [x for x in g.roots if x[0] in set(rs)], 40 if deep else 10)
    scen += stretched(g, rnd, sorted({x for x in g.roots if x[0] in set(base) | set(rs)}), [33, 65, 129, 257] if deep else [rnd.choice([33, 65, 129, 257])])
    w.check(scen, "types")
    grammar_model(run, deep)


def p02(run, deep):
    rnd = random.Random(SEED * 1000 + 22)
    g = small("P02", 4)
    base = roots_base(g)
    p = len(g.roots)
    ov = roots_overlap(g)
    if not deep: ov = [x for i, x in enumerate(ov) if i % 2 == (i // 2) % 2]
    g.roots[p:] = ov
    far = roots_far(g)
    rs = randoms(g, 160 if deep else 60, lambda: g.rtype(g.rnd.choice([2, 3])))
    w = World(run, g)
    scen = exhaustive(g, rnd, g.roots[:2 * len(base)], 3 if deep else 2, ("maybe", "parse"))
    scen += faulty(g, rnd, far, 3 if deep else 2)
    scen += exhaustive(g, rnd, far, 4 if deep else 3, ("maybe", "parse"))
    scen += exhaustive(g, rnd, ov, 4 if deep else 3, ("maybe", "parse"), alpha=((NUM, 1), (SYM, 43)))
    for n, kind in g.roots:
        for wd in g.words(n, 20 if deep else 6) + [[rnd.choice(ALPHA) for _ in range(rnd.randint(0, 4))] for _ in range(4)]:
            x = mutate(rnd, wd) if rnd.random() < .4 else wd
            sc = script(rnd, x, rnd.choice([0, 0, 1]), 1, "eof")
            if rnd.random() < .3 and sc["items"]:
                sc["items"].insert(rnd.randint(0, min(2, len(sc["items"]))), -9)
            ops = [dict(op="maybe", g=n)] * rnd.choice([1, 2]) + [dict(op=rnd.choice(["next", "maybe", "peek"]), g=n, n=1)]
            ops += [dict(op="maybe", g=n), dict(op="parse", g=n)] + drain(2)
            scen.append(dict(kind=kind, sc=sc, ops=[dict(o) for o in ops]))
    w.check(scen, "prediction")
    grammar_model(run, deep)


def p03(run, deep):
    rnd = random.Random(SEED * 1000 + 23)
    g = small("P03", 6)
    fx = fixed_derived(g)
    rs = randoms(g, 160 if deep else 60, lambda: g.renum(g.rnd.choice([1, 2])) if g.rnd.random() < .55 else g.rstruct(g.rnd.choice([1, 2])))
    plainroots = list(g.roots)
    many = manyfold(g, rnd, deep)
    w = World(run, g)
    scen = parses(g, rnd, plainroots, 60 if deep else 14, maybe=.6)
    for n, kind, x in many:
        for op in ("maybe", "parse"):
            sc = script(rnd, x + [rnd.choice(ALPHA) for _ in range(rnd.choice([0, 1]))], rnd.choice([0, 0, 0, 0, 1]))
            scen.append(dict(kind=kind, sc=sc, ops=[dict(op=op, g=n)] + drain(rnd.choice([1, 3]))))
    for k in [20, 60, 150] if deep else [20, 60]:     # deeply nested
        for x in ([(SYM, 43)] * k + [(NUM, 1)] + [(PLUS, 0)] * k, [(SYM, 43)] * k + [(NUM, 1)] + [(PLUS, 0)] * (k - 1), [(WORD, 1), (NUM, 2)] * k + [(NUM, 1)],
                  [(WORD, 1)] * k + [(NUM, 1)] * (k + 1), [(WORD, 1)] * k + [(NUM, 1)] * k):
            scen.append(dict(kind=rnd.choice(["buf", "own"]), sc=script(rnd, x), ops=[dict(op="parse", g=fx[0])] + drain(2)))
    scen += stretched(g, rnd, sorted(set(plainroots)), [33, 65, 129] if deep else [rnd.choice([33, 65, 129])])
    w.check(scen, "derived")
    grammar_model(run, deep)


def manyfold(g, rnd, deep):
    """Enums of many variants that different tokens predict, structs of many fields, long declared prefixes."""
    ts = [g.tok(f"s{i}", f"Kind::Sym('{chr(97 + i)}')", [alt(SYM, 97 + i, 97 + i)], disp(SYM, 97 + i), prompt=False) for i in range(26)]
    kv = lambda i: (SYM, 97 + i)
    words, roots = [], []           # (node, word)
    for n, extra in ((9, 0), (12, 1), (17, 0), (26, 1)):
        order = rnd.sample(range(26), n)
        vs = [[ts[i]] + ([ts[(i + 7) % 26]] if j % 3 == 0 else [g.opt(g.T["a"])] if j % 3 == 1 and extra else []) for j, i in enumerate(order)]
        e = g.enum(g.reserve("plain"), vs)
        v, o = g.vec(e), g.sep("optsepseq", e, g.T["d"])
        roots += [e, v, o]
        one = lambda j: [kv(order[j])] + ([kv((order[j] + 7) % 26)] if j % 3 == 0 else [(NUM, 1)] if j % 3 == 1 and extra and rnd.random() < .5 else [])
        words += [(e, one(j)) for j in range(n)]
        for _ in range(6 if deep else 2):
            js = rnd.sample(range(n), n)
            words += [(v, [t for j in js for t in one(j)]), (o, [t for j in js for t in one(j) + [(WORD, 1)]])]
    for k in (4, 5, 6, 8, 9, 12):
        pre = [rnd.randrange(26) for _ in range(k)]
        last = [x for x in range(26) if x != pre[-1]][:1] + [rnd.randrange(26)]
        a = g.struct([ts[i] for i in pre] + [g.opt(g.T["a"])], [ts[i] for i in pre])
        b = g.struct([ts[i] for i in pre[:-1]] + [ts[last[0]]])
        c = g.struct([g.T["d"], ts[last[1]]])
        e = g.enum(g.reserve("plain"), [[a], [b], [c]])
        f = g.enum(g.reserve("plain"), [[ts[i] for i in pre], [ts[pre[0]], g.T["a"]], [g.T["d"]]], [ts[pre[0]]])
        v = g.vec(e)
        roots += [a, e, v, f]
        wa, wb = [kv(i) for i in pre], [kv(i) for i in pre[:-1] + last[:1]]
        for w in (wa, wb, wa + [(NUM, 1)], wa[:-1], wa[:-1] + [(NUM, 2)], [(WORD, 1), kv(last[1])]):
            words += [(a, w), (e, w), (f, w)]
        words += [(v, wa + wb + [(WORD, 1), kv(last[1])] + wb + wa), (v, wb + wa + [(NUM, 1)] + wa[:-1])]
        for i in range(k): words.append((a, wa[:i] + [(NUM, 3)] + wa[i + 1:]))
    for k in (14, 20, 30):
        fs = [rnd.randrange(26) for _ in range(k)]
        st = g.struct([ts[i] for i in fs])
        roots.append(st)
        w = [kv(i) for i in fs]
        words += [(st, w)] + [(st, w[:i] + [rnd.choice(ALPHA)] + w[i + 1:]) for i in rnd.sample(range(k), 6)]
    for i, n in enumerate(roots): g.roots += [(n, "buf")] if i % 2 else [(n, "own")]
    return [(n, "buf" if roots.index(n) % 2 else "own", w) for n, w in words]


def fixed_derived(g):
    """Shapes every check of derived types has: recursion, order of variants, last variant, declared prefixes."""
    a, b, c, d, e, f = (g.T[x] for x in "abcdef")
    n = g.reserve("spanned")                                    # expressions
    bx = g.box(n)
    g.enum(n, [[b, bx, c], [a], [d, bx, bx]])
    over = [g.enum(g.reserve("plain"), [[e, b], [a, c], [a]]),   # overlapping first tokens
            g.enum(g.reserve("plain"), [[g.opt(e), b], [a]]),    # the first is always predicted
            g.enum(g.reserve("plain"), [[f], [a], []]),
            g.enum(g.reserve("spanned"), [[f, d], [a, d], [b, b]], []),
            g.struct([]), g.struct([a, g.opt(b), c]), g.struct([g.vec(a), b]),
            g.struct([a, b, c], [a, b]), g.struct([a, b, c], [a, b, c]), g.struct([a, b], [f, b, c]),
            g.enum(g.reserve("spanned"), [[a, b, c], [a, d]], [a]),
            g.enum(g.reserve("plain"), [[g.prefix("tokprefix", a, b), d], [g.prefix("tokprefix", a, c), d], [a, a]]),
            g.enum(g.reserve("plain"), [[g.prefix("opttokprefix", d, a)], [g.prefix("opttokprefix", d, b)], [d, c]])]
    out = [n] + over + [g.vec(over[0]), g.opt(over[7]), g.vec(over[8]), g.sep("sepseq", n, d), g.vec(over[11]), g.opt(over[12]), g.neseq(over[10])]
    for i, x in enumerate(out):
        g.roots += [(x, "buf"), (x, "own")]
    return out


def p04(run, deep):
    rnd = random.Random(SEED * 1000 + 24)
    g = small("P04", 80 if deep else 40)
    g.visible_tokens()
    tn = toknodes(g) + list(g.vis)
    for i, n in enumerate(tn):
        g.roots += [(n, "buf"), (n, "own")]
    w = World(run, g)
    allkv = [(NUM, v) for v in range(13)] + [(SYM, v) for v in [43, 45, 33, 34, 92, 0x20ac] + list(range(97, 123))] + \
            [(WORD, v) for v in range(8)] + [(PLUS, 0), (EOF, 0)]
    scen = []
    for n in tn:
        for kv in allkv:
            kind = rnd.choice(["buf", "own"])
            sc = script(rnd, [kv, rnd.choice(ALPHA)])
            ops = [dict(op="maybe", g=n), dict(op="parse", g=n)] if rnd.random() < .6 else [dict(op="unwrap", g=n)]
            if rnd.random() < .2: ops.insert(0, dict(op="peek2", n=2))
            if rnd.random() < .2: ops.append(dict(op="parse", g=rnd.choice(tn)))
            scen.append(dict(kind=kind, sc=sc, ops=ops + drain(1)))
    for _ in range(3000 if deep else 500):
        n = rnd.choice(tn)
        word = [rnd.choice(allkv) for _ in range(rnd.randint(0, 4))]
        sc = script(rnd, word, rnd.choice([0, 0, 1]), 2)
        ops = [dict(op=rnd.choice(["maybe", "parse", "unwrap"]), g=rnd.choice(tn)) if rnd.random() < .7 else
               dict(op="expect", i=rnd.randint(1, len(sc["toks"]))) for _ in range(rnd.randint(1, 6))]
        scen.append(dict(kind=rnd.choice(["buf", "own"]), sc=sc, ops=ops + drain(2)))
    w.check(scen, "tokenasts", cfg="TraceTokens_text")


def s01(run, deep):
    rnd = random.Random(SEED * 1000 + 25)
    g = small("S01", 4)
    base = roots_base(g)
    tuples(g)
    fixed_derived(g)
    # elements without a span at any place of a sequence
    b2, c2, d2 = g.T["b"], g.T["c"], g.T["d"]
    for x in (a2 := g.T["a"], g.tuple(a2, c2)):
        y = g.shy(b2, x)
        for n in (y, g.vec(y), g.opt(y), g.sep("sepseq", y, d2), g.sep("optsepseq", y, d2), g.opt(g.vec(y)), g.vec(g.shy(b2, g.sep("nesepseq", x, d2))), g.vec(g.shy(c2, g.tuple(b2, x)))):
            g.roots.append((n, "own" if len(g.roots) % 3 else "buf"))
        g.roots.append((g.struct([g.vec(y), d2, g.vec(y)]), "buf"))
        g.roots.append((g.struct([d2, g.vec(y), g.sep("sepseq", y, d2)]), "own"))
    many = []
    # many fields, of which any number at the front and at the end may be absent
    cyc = [g.T[x] for x in "abcd"]
    for lead, mid, tail in [(0, 1, 1), (0, 3, 2), (0, 4, 2), (1, 1, 1), (2, 1, 3), (3, 2, 3), (0, 2, 6), (6, 1, 0), (5, 3, 5)]:
        fs = [cyc[i % 4] for i in range(lead + mid + tail)]
        opt = lambda i, x: x if lead <= i < lead + mid else [g.opt, g.vec, g.opt, lambda y: g.sep("sepseq", y, d2)][i % 3 if deep else 0](x)
        fs = [opt(i, x) for i, x in enumerate(fs)]
        many.append(g.struct(fs))
        n = g.reserve("spanned", generic=False)
        g.enum(n, [[d2, cyc[1]], [cyc[0]] + fs[lead:], [cyc[2]] + fs])
        many.append(n)
    g.roots += [(n, ["own", "buf"][i % 2]) for i, n in enumerate(many)]
    made = 0
    want = 160 if deep else 60
    while made < want:
        x = g.rstruct(2) if g.rnd.random() < .35 else g.renum(2) if g.rnd.random() < .4 else g.rtype(g.rnd.choice([2, 3]))
        if g.span(x) != "n":
            g.roots.append((x, ["buf", "own"][made % 2]))
            made += 1
    g.roots = [(n, s) for i, (n, s) in enumerate(g.roots) if g.span(n) != "n" and (deep or i % 2 or n not in set(base))]
    w = World(run, g)
    scen = []
    for n, kind in g.roots:
        for wd in g.words(n, (40 if deep else 12) * (3 if n in many else 1)):
            sc = script(rnd, wd + [rnd.choice(ALPHA) for _ in range(rnd.choice([0, 0, 1]))])
            scen.append(dict(kind=kind, sc=sc, ops=[dict(op="parse", g=n)] + drain(1)))
    w.check(scen, "spans")


CHECKS = dict(T01=t01, T02=t02, T03=t03, P01=p01, P02=p02, P03=p03, P04=p04, S01=s01)
