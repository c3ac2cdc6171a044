"""X01-X03, K01: derived lexers and token kinds against Lexer and Names."""
import random
from vlib import *
from lexgen import *


class LexWorld:
    def __init__(self, run, lx):
        self.run, self.lx = run, lx
        d = os.path.join(BUILD, "gen")
        os.makedirs(d, exist_ok=True)
        src = os.path.join(d, f"{run.pid}.rs")
        code = lx.source()
        if not os.path.exists(src) or open(src).read() != code:
            with open(src, "w") as f:
                f.write(code)
        self.bin = build("lex", extra=dict(LAPS_GEN=src))
        if not lx.lx:
            return
        # the syntax trees of the rules, as regex-syntax reads them
        sets = [dict(mode=x["mode"], res=[cps(t) for _, _, _, t in x["gens"]], tags=[i for i, _, _, _ in x["gens"]]) for x in lx.lx]
        out = run.path("trees.ndjson")
        run_harness(build("rx"), "trees", sets, out)
        self.desc = []
        self.file = run.path("lexers.ndjson")
        with open(self.file, "w") as f:
            for x, t in zip(lx.lx, ndjson(out)):
                t["vars"] = x["vars"]
                if not all(r["ok"] for r in t["rules"]):
                    raise ToolError(f"a generated rule is not an expression: {x['gens']}")
                self.desc.append(t)
                f.write(json.dumps(t) + "\n")

    def cover(self, rnd, limit, tails=True):
        """Texts that lead to every state of every lexer, each extended by every kind of symbol."""
        r = tlc("LexCover", env=dict(LEXERS=self.file), workers=1)
        self.run.add(r)
        by = {}
        for line in r.out.splitlines():
            if line.startswith('"SCN '):
                x = json.loads(json.loads(line)[4:])
                by.setdefault(x["lx"], []).append(x["w"])
        if len(by) != len(self.desc):
            raise ToolError("LexCover: not every lexer was explored")
        out = []
        for n, ws in sorted(by.items()):
            reps = self.desc[n - 1]["reps"]
            top = 255 if self.lx.lx[n - 1]["mode"] == "u8" else 0x10ffff
            syms = sorted({c for a in reps for c in (a, a - 1) if 0 <= c <= top and not 0xd800 <= c < 0xe000} | {top})
            k = [(n, w + [c]) for w in ws for c in syms]
            if len(k) > limit:
                # every state and every symbol at least once
                ws = [w for w in ws if len(w) < 60] + rnd.sample(*(lambda l: (l, min(limit, len(l))))([w for w in ws if len(w) >= 60])) + ws[-3:]
                k = [(n, w + [rnd.choice(syms)]) for w in ws] + [(n, rnd.choice(ws) + [c]) for c in syms] + rnd.sample(k, limit)
            for n, w in k:
                tail = []
                if tails and rnd.random() < .5: tail = [rnd.choice(syms) for _ in range(rnd.randint(1, 3))]
                if tails and rnd.random() < .3: tail += rnd.choice(ws)[:20]
                out.append((n, w + tail))
        return out

    def text(self, rnd, n):
        x = self.lx.lx[n - 1]
        t = []
        for _ in range(rnd.choice([0, 1, 1, 2, 3, 5, 8])):
            g = rnd.choice(x["gens"])[2]
            s = g.sample()
            if rnd.random() < .25 and s: s = s[:rnd.randint(1, len(s))]
            if rnd.random() < .15: s = mutate(rnd, s, [0x61, 0x62, 0x20])
            t += s
        return t

    def longest(self, rnd, n, size):
        """A text whose middle is repeated, if a rule of the lexer goes on for that long."""
        for _, _, g, text in rnd.sample(self.lx.lx[n - 1]["gens"], len(self.lx.lx[n - 1]["gens"])):
            if not any(x in text for x in "*+"): continue
            for _ in range(8):
                s = g.sample()
                if len(s) < 2: continue
                a = rnd.randrange(len(s)); b = rnd.randint(a + 1, min(len(s), a + 4))
                return s[:a] + s[a:b] * (size // (b - a)) + s[b:]
        return None

    def skipped(self, rnd, n, size):
        """Many texts that the lexer skips."""
        gs = [g for _, kind, g, _ in self.lx.lx[n - 1]["gens"] if kind == "skip"]
        some = [s for s in (rnd.choice(gs).sample() for _ in range(12)) if s]
        if not some: return []
        some = sorted(some, key=len)[:rnd.choice([1, 2, 4])]
        t = []
        while len(t) < size: t += rnd.choice(some)
        return t

    def check(self, scen, what):
        out = self.run.path(what + ".ndjson")
        run_harness(self.bin, "lex", scen, out)
        r = validate("TraceLexer", out, len(scen), env=dict(LEXERS=self.file), min_states=len(scen) + sum(len(s["ops"]) for s in scen))
        self.run.add(r, traces=len(scen))
        for s in scen[:2]:
            self.run.sample(s)


def encode(mode, t):
    return t if mode == "u8" else list("".join(map(chr, t)).encode())


def pieces(rnd, bs):
    """The bytes, read in pieces."""
    r = rnd.random()
    if r < .3: return list(bs)
    if r < .6: return [y for b in bs for y in (b, 257)]
    out = []
    for b in bs:
        out.append(b)
        if rnd.random() < .3: out.append(257)
    return out


def scenario(rnd, w, n, t, ops=None, ctor=None):
    mode = w.lx.lx[n - 1]["mode"]
    bs = encode(mode, t)
    ctor = ctor or rnd.choice(["new", "new", "str", "custom", "string"])
    return dict(lx=n, mode=mode, ctor=ctor, src=pieces(rnd, bs) if ctor == "new" else bs,
                ops=ops or [dict(op="tok") for _ in range(min(len(t), 400) + 2)])


def plain_lexers(pid, n, deep, keywords=(25,), sizes=True):
    lx = Lexers(SEED * 7919 + sum(map(ord, pid)))
    lx.fixed()
    for _ in range(n):
        lx.random()
    if sizes: lx.counted([256, 255, 257, 256, 256, 256, 300, 254] if deep else [256, 255, 256])
    if keywords:
        for k in keywords: lx.keywords(k)
    return lx


def design(run, deep):
    r = model_check("LexerImpl", "LexerImpl_deep" if deep else "LexerImpl", min_states=2000)
    run.add(r)


def x01(run, deep):
    rnd = random.Random(SEED * 1000 + 31)
    w = LexWorld(run, plain_lexers("X01", 60 if deep else 26, deep, (60, 260, 520) if deep else (25, 260)))
    scen = [scenario(rnd, w, n, t) for n, t in w.cover(rnd, 3000 if deep else 60)]
    for n in range(1, len(w.lx.lx) + 1):
        for _ in range(100 if deep else 20):
            scen.append(scenario(rnd, w, n, w.text(rnd, n)))
    # tokens longer than the buffer of the reader, and many tokens
    for n in range(1, len(w.lx.lx) + 1):
        t = w.longest(rnd, n, rnd.choice([1030, 1500, 2100]))
        if t: scen.append(scenario(rnd, w, n, t + rnd.choice([[], [0x20], [0x61], t[:3]]), [dict(op="tok") for _ in range(4)]))
    for n in rnd.sample(range(1, len(w.lx.lx) + 1), 12 if deep else 4):
        t = []
        while len(t) < 1500:
            t += w.text(rnd, n) or [0x20]
        scen.append(scenario(rnd, w, n, t, [dict(op="tok") for _ in range(300)]))
    # tokens of tens of thousands of characters, and as many tokens to skip one after another
    big = []
    few = [n for n in range(1, len(w.lx.lx) + 1) if len(w.lx.lx[n - 1]["gens"]) < 9]
    for n in rnd.sample(few, min(len(few), 16 if deep else 5)):
        t = w.longest(rnd, n, rnd.choice([33000, 66000]))
        if t: big.append(scenario(rnd, w, n, t + rnd.choice([[], [0x20], t[:3]]), [dict(op="tok") for _ in range(4)], "str"))
    able = [n for n in few if any(g[1] == "skip" for g in w.lx.lx[n - 1]["gens"])]
    for n in rnd.sample(able, min(len(able), 12 if deep else 4)):
        big.append(scenario(rnd, w, n, w.skipped(rnd, n, 40000) + w.text(rnd, n), [dict(op="tok") for _ in range(4)], "str"))
    w.check(big + scen, "texts")
    design(run, deep)


def x02(run, deep):
    rnd = random.Random(SEED * 1000 + 32)
    w = LexWorld(run, plain_lexers("X02", 60 if deep else 20, deep, (), False))
    scen = []
    for n in range(1, len(w.lx.lx) + 1):
        x = w.lx.lx[n - 1]
        for _ in range(250 if deep else 45):
            t = []
            for _ in range(rnd.randint(0, 4)):
                t += w.text(rnd, n) + [10] * (rnd.random() < .5) + ([rnd.choice([0x20, 0x41, 0x61, 0x7f])] if rnd.random() < .3 else [])
            ops = []
            for _ in range(rnd.randint(2, 10)):
                ops.append(dict(op="tok"))
                if rnd.random() < .3:
                    ops.append(rnd.choice([dict(op="next"), dict(op="peek"), dict(op="peeks"), dict(op="set", line=rnd.randint(1, 9), col=rnd.randint(0, 9)),
                                           dict(op="coll", stop=[10, rnd.choice(t or [10])]), dict(op="unread")]))
                    if ops[-1]["op"] == "unread" and ops[-2]["op"] != "next": ops.pop()
            s = scenario(rnd, w, n, t, ops + [dict(op="tok")] * 3)
            if s["ctor"] == "new" and rnd.random() < .25:
                s["src"].insert(rnd.randint(0, len(s["src"])), 256)
            elif s["ctor"] == "new" and rnd.random() < .1:
                s["src"] += [rnd.choice([0xff, 0xc3, 0xe6])]
            s["ops"] = [dict(o) for o in s["ops"]]
            scen.append(s)
    w.check(scen, "spans")
    design(run, deep)


def x03(run, deep):
    rnd = random.Random(SEED * 1000 + 33)
    lx = Lexers(SEED * 7919 + 33)
    lx.fixed()
    F = Fixed
    # one lexer per conversion, with rules that match more than what can be converted
    texts = {"i16": ("[-+]?[0-9]*x?", ["0", "32767", "32768", "-32768", "-32769", "+1", "-0", "00012", "7x", "-", "+", "99999999"]), "u8": ("[-+]?[0-9]+", ["0", "255", "256", "+255", "-0", "-1", "000255", "1000"]),
             "bool": ("[a-z]+", ["true", "false", "tru", "truee", "t", "falsetrue"]), "char": ("[^ ;]+", ["a", "é", "😀", "ab", "日本", "\n"]), "first": ("[^ ;]+", ["a", "éa", "日本"]),
             "never": ("[^ ;]+", ["a", "ab"]), "text": ("[^ ;]+", ["a", "é😀", "\\n\"", "a\tb"]), "rev": ("[^ ;]+", ["abc", "é日"]), "even": ("[^ ;]+", ["a", "ab", "é日", "abc"]), "unit": ("[^ ;]+", ["a", "ab"]),
             "utf8": ("[^ ;]", [])}
    for mode in ("char", "u8"):
        for f in Lexers.FIELDS[mode]:
            if mode == "char" and f[1] == "Vec<u8>": continue
            re, ss = texts[f[0]]
            if mode == "u8":
                re, ss = "(?-u:[a-z])+|日本", ["a", "ab", "xyz", "日本".encode()]
            for eof in (True, False):
                vs = [("regex", F(re, *ss), f), ("regex", F(";", ";"), None), ("skip", F(" ", " "), None)]
                if eof: vs.append(("eof", None, None if rnd.random() < .5 else ("unit", "()", None)))
                rnd.shuffle(vs)
                lx.add(mode, vs)
    for _ in range(50 if deep else 12):
        lx.random(nullables=0)
    w = LexWorld(run, lx)
    scen = []
    for n in range(1, len(lx.lx) + 1):
        x = lx.lx[n - 1]
        for _, _, g, _ in x["gens"]:
            for s in (g.samples if isinstance(g, Fixed) else [g.sample() for _ in range(4)]):
                s = [ord(c) for c in s] if isinstance(s, str) else list(s)
                for tail in ([], [0x3b], [0x20], [0x20] + s, s):
                    scen.append(scenario(rnd, w, n, s + tail, [dict(op="tok") for _ in range(5)]))
        for _ in range(120 if deep else 12):
            scen.append(scenario(rnd, w, n, w.text(rnd, n)))
    # a text that ends in every state of every lexer, and one that goes on with every kind of symbol
    for n, t in w.cover(rnd, 600 if deep else 16, tails=False):
        scen.append(scenario(rnd, w, n, t, [dict(op="tok") for _ in range(4)]))
        if rnd.random() < .5: scen.append(scenario(rnd, w, n, t[:-1], [dict(op="tok") for _ in range(4)]))
    w.check(scen, "values")
    design(run, deep)


def k01(run, deep):
    rnd = random.Random(SEED * 1000 + 34)
    lx = Lexers(SEED * 7919 + 34)
    lx.rnd.random()
    for i in range(150 if deep else 40):
        lx.kind(lx.rnd.randint(0, 6), lx.rnd.randint(1 if i % 3 else 0, 4) or 1)
    lx.kind(10, 6)
    lx.kind(3, 40)
    w = LexWorld(run, lx)
    scen = []
    for i, e in enumerate(lx.enums, 1):
        ops = [dict(op="kind", var=v, val=j) for v, c in enumerate(e["count"], 1) for j in range(c)]
        scen.append(dict(e=i, ops=ops))
    enums = run.path("enums.ndjson")
    with open(enums, "w") as f:
        for e in lx.enums:
            f.write(json.dumps(e) + "\n")
    out = run.path("kinds.ndjson")
    run_harness(w.bin, "kind", scen, out)
    r = validate("TraceKinds", out, len(scen), env=dict(ENUMS=enums), min_states=len(scen) + sum(len(s["ops"]) for s in scen))
    run.add(r, traces=len(scen))
    for s in scen[:2]: run.sample(s)


CHECKS = dict(X01=x01, X02=x02, X03=x03, K01=k01)
