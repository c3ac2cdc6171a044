"""V01, V02, K02, D01-D03: literals, spans, tokens and logging against Literals, Spans, Render and Counters."""
import random
from vlib import *

SIZES = dict(i8=8, i16=16, i32=32, i64=64, i128=128, u8=8, u16=16, u32=32, u64=64, u128=128)


def cps(s): return [ord(c) for c in s]


# ---------------------------------------------------------------- literals
def literals(run, texts, op, batch=150):
    texts = list(dict.fromkeys(texts))
    scen = [dict(ops=[dict(op=op, s=cps(t)) for t in texts[i:i + batch]]) for i in range(0, len(texts), batch)]
    out = run.path("literals.ndjson")
    run_harness(build("core"), "literals", scen, out)
    r = validate("TraceLiterals", out, len(scen), min_states=len(scen) + len(texts))
    run.add(r, traces=len(texts))
    run.sample(texts[:40])
    run.extra["texts"] = len(texts)


def words(alpha, n):
    out, cur = [""], [""]
    for _ in range(n):
        cur = [w + c for w in cur for c in alpha]
        out += cur
    return out


def mutations(rnd, t, alpha):
    t = list(t)
    for _ in range(rnd.choice([1, 1, 2])):
        k = rnd.random()
        i = rnd.randint(0, len(t))
        if k < .4: t.insert(i, rnd.choice(alpha))
        elif k < .7 and t: t.pop(min(i, len(t) - 1))
        elif t: t[min(i, len(t) - 1)] = rnd.choice(alpha)
    return "".join(t)


def v01(run, deep):
    rnd = random.Random(SEED * 1000 + 41)
    t = words("0178box-+f", 4 if deep else 3)
    forms = [("", "d"), ("0b", "b"), ("0o", "o"), ("0x", "x"), ("0x", "X")]
    limits = []
    for b in set(SIZES.values()):
        for x in (2 ** b, 2 ** (b - 1)):
            limits += [x + d for d in (-2, -1, 0, 1, 2)]
        limits += [10 ** k + d for k in range(1, 40) for d in (-1, 0) if k * 3.3 < b + 4]
        limits += [rnd.randrange(2 ** b) for _ in range(30 if deep else 6)]
        limits += [2 ** b * k for k in (2, 3, 10, 16, 255, 256, 2 ** 64)]
    for v in limits:
        for pre, f in forms if deep or v > 2 ** 16 - 3 else rnd.sample(forms, 3):
            for sign in ("", "-", "+"):
                zeros = "0" * rnd.choice([0, 0, 0, 1, 3, 20, 140])
                s = sign + pre + zeros + format(v, f)
                if pre and rnd.random() < .2: s = "".join(rnd.choice([c.upper(), c]) if i > 2 else c for i, c in enumerate(s))
                t.append(s)
    base = t[:]
    odd = "0123456789abcdefABCDEFgGzZ_+- .boxBOX\u0660\uff10\u00b2é\n\0"
    for _ in range(12000 if deep else 1500):
        t.append(mutations(rnd, rnd.choice(base), odd))
    t += ["0x" + "f" * k for k in range(1, 36)] + ["0b" + "1" * k for k in range(1, 132)] + ["9" * k for k in range(1, 45)] + [sg + pre + "0" * k + d for k in (255, 256, 257, 1000) for sg in ("", "-", "+") for pre, d in (("", "9"), ("0b", "1"), ("0o", "7"), ("0x", "f"))] + ["-0x8" + "0" * k for k in range(0, 34)] + ["-0b1" + "0" * k for k in range(0, 130)]
    t += ["-" + x for x in ("", "+1", "-1", "0x", "0b", "0o", "0x-1", "0b+1", " 1")] + ["+" + x for x in ("", "+1", "-1", "0x", "0x+1")] + ["0x+1", "0x-1", "0b-1", "0X1", "0B1", "0O7", "0b2", "0o8", "0xg", "1e3", "1.0", "１", "1_000"]
    literals(run, t, "int")
    r = model_check("LiteralsModel", "LiteralsModel_deep" if deep else "LiteralsModel", min_states=1000)
    run.add(r)


def v02(run, deep):
    rnd = random.Random(SEED * 1000 + 42)
    t = []
    esc = ["\\r", "\\n", "\\t", "\\0", "\\\\", "\\'", '\\"', "\\x00", "\\x7f", "\\xfF", "\\xAb", "\\u{0}", "\\u{d7ff}", "\\u{e000}", "\\u{10FFFF}", "\\u{10ffff}", "\\u{000041}", "\\u{1F602}"]
    bad = ["\\", "\\?", "\\a", "\\x", "\\x4", "\\xg0", "\\x0g", "\\X41", "\\u", "\\u{", "\\u{}", "\\u{1", "\\u1}", "\\u{g}", "\\u{1g}", "\\u{d800}", "\\u{dfff}", "\\u{110000}", "\\u{100000000}", "\\u{00000000000000000041}", "\\u{FFFFFFFF}", "\\u{FFFFFFFFF}", "\\u{+41}", "\\u{ 41}", "\\u{4_1}",
           "\n", "\r", "\t", "\\\n", "\\U{41}", "\\x{41}", "\\1", "\\u{{41}}", "\\u{110041}", "\\x٣٣"]
    raw = ["a", " ", "é", "日", "😂", "\0", "'", '"', "\x0b", "\u2028", "\x7f", "{", "}", "\\\\", "\u0301", "\u0085"]
    allp = esc + bad + raw
    for q in "'\"":
        for o in "'\"":
            t += [q + p + o for p in allp] + [q + p for p in allp]
        t += [q + a + b + q for a in allp for b in allp] + [a + q + b + q for a in raw for b in raw[:4]] + [q + a + q + b for a in raw for b in raw]
        t += words("'\"", 4) + words(q + "\\x4u{}", 5 if deep else 4)
        t += [q + f"\\x{i:02x}" + q for i in range(256)] + [q + f"\\x{i:02X}" + q for i in range(0, 256, 7)]
        for c in list(range(0, 0x30)) + list(range(0x7f, 0xa1)) + [0xd7ff, 0xe000, 0xffff, 0x10000, 0x10ffff]:
            t += [q + chr(c) + q, q + f"\\u{{{c:x}}}" + q, q + f"\\{chr(c)}" + q]
        for c in [0xd7ff, 0xd800, 0xdbff, 0xdc00, 0xdfff, 0xe000, 0x10ffff, 0x110000, 0xffffff, 0x1000000, 0xfffffff, 0x10000000, 0xffffffff, 0x100000000, 0x100000041, 2 ** 64 + 65]:
            t += [q + f"\\u{{{c:x}}}" + q, q + f"\\u{{{'0' * 9}{c:X}}}" + q]
        for c in range(0x21, 0x7f):
            t += [q + "\\" + chr(c) + q, q + "\\x4" + chr(c) + q, q + "\\x" + chr(c) + "4" + q, q + "\\u{4" + chr(c) + "}" + q]
    for _ in range(30000 if deep else 3000):
        q = rnd.choice("'\"")
        s = q + "".join(rnd.choice(esc + raw if rnd.random() < .9 else bad) for _ in range(rnd.randint(0, 8))) + q
        if rnd.random() < .4: s = mutations(rnd, s, ["\\", "'", '"', "{", "}", "x", "u", "n", "0", "f", "\n", "é"])
        t.append(s)
    # long strings
    for n in [9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 400, 700, 1023, 1024, 1025, 1500]:
        for q in "'\"":
            t += [q + c * n + q for c in ("a", "é", "\\n", "\\u{1F602}")] + [q + "".join(rnd.choice(esc + raw[:4]) for _ in range(n)) + e for e in (q, "", "\\" + q, "\n" + q)]
            if n < 300: t += [q + "\\u{" + "0" * n + "41}" + q, q + "\\u{" + "0" * n + "110000}" + q, q + "\\u{" + "1" * n + "}" + q]
    literals(run, t, "text")
    r = model_check("LiteralsModel", "LiteralsModel_deep" if deep else "LiteralsModel", min_states=1000)
    run.add(r)


# ---------------------------------------------------------------- histories of spans
def rle(b):
    """Bytes as runs."""
    return [[1, list(b)]] if b else []


def histories(run, scen, what, crate="core", env=None):
    out = run.path(what + ".ndjson")
    run_harness(build(crate), "spans", scen, out, env=env)
    r = validate("TraceSpans", out, len(scen), env=dict(LOGGER="0" if crate == "nolog" else "1"), min_states=len(scen) + sum(len(s["ops"]) for s in scen))
    run.add(r, traces=len(scen))
    for s in scen[:2]: run.sample(s)


BUFFER = dict(kind="buffer", name=cps("<buffer>"))
STDIN = dict(kind="stdin", name=cps("<stdin>"))
KINDS = ["error", "fatal", "warning", "rawerror", "rawfatal", "rawwarning"]
MSGS = ["", "message", "{}", "a `b` {0} %s \\n", "日本 é😀", "two\nlines", "expected ';', found '}'"]


class Hist:
    """A random history; knows how many spans, tokens and sources there are."""
    def __init__(self, rnd, files):
        self.rnd, self.files, self.n, self.t, self.ops = rnd, files, 0, 0, []

    def new(self):
        f = self.rnd.randint(1, len(self.files))
        self.ops.append(dict(op="new", ft=f, how=self.rnd.choice(["new", "reader", "bytes"]) if self.files[f - 1]["kind"] in ("file", "buffer", "stdin") else "new"))
        self.n += 1

    def loc(self): return dict(line=self.rnd.choice([1, 1, 2, 3, 7, 10]), col=self.rnd.choice([0, 1, 1, 2, 3, 5, 9]))
    def kind(self): return (lambda k: dict(k=k, w=self.rnd.choice(["", "w", "W", "word", "longer word"]) + str(k)))(self.rnd.randint(0, 2))

    def step(self, names):
        r = self.rnd
        if self.n == 0: return self.new()
        o = dict(op=r.choice(names))
        k = o["op"]
        if k == "new": return self.new()
        if k == "drop" and self.n < 2: return
        if k == "tok":
            o.update(self.kind(), i=r.randint(1, self.n)); self.t += 1
        elif k[0] == "t":
            if not self.t: return
            o.update(i=r.randint(1, self.t), j=r.randint(1, self.t))
            if k == "tset": o.update(self.kind(), via=r.choice(["field", "borrow", "asmut"]))
            if k == "tspan": self.n += 1
            if k == "tclone": self.t += 1
        else:
            o.update(i=r.randint(1, self.n), j=r.randint(1, self.n))
            if k in ("clone", "intoup", "intoend"): self.n += 1
            if k == "drop": self.n -= 1
            if k in ("update", "intoup"):
                o["c"] = r.choice([97, 97, 32, 10, 10, 13, 9, 0, 255, 8232, 0x1f600])
                if o["c"] < 256 and r.random() < .4: o["byte"] = 1
            if k == "end" and r.random() < .5: o["byte"] = 1
            if k == "loc": o.update(self.loc())
            if k == "log": o.update(kind=r.choice(KINDS + ["summary"]), via=r.choice(["method", "macro", "return"]), msg=cps(r.choice(MSGS)))
            if k == "log" and o["via"] == "return" and o["kind"] != "error": o["via"] = "macro"
        self.ops.append(o)


MOVES = ["update", "intoup", "loc", "end", "intoend", "clone"]
LOOKS = ["same", "eq", "disp", "name"]
TOKS = ["tok", "tok", "tset", "teq", "teq", "tlike", "tspan", "tclone"]


def random_histories(rnd, n, weights, files=None, length=14):
    scen = []
    for _ in range(n):
        h = Hist(rnd, files or [BUFFER, STDIN, dict(kind="missing", name=cps("no such file"))])
        for _ in range(rnd.choice([1, 2, 2, 3])): h.new()
        for _ in range(rnd.randint(3, length)):
            if h.n > 7: break
            h.step(weights)
        scen.append(dict(files=h.files, ops=h.ops))
    return scen


def k02(run, deep):
    rnd = random.Random(SEED * 1000 + 43)
    scen = random_histories(rnd, 12000 if deep else 1500, MOVES * 2 + LOOKS * 2 + TOKS * 3 + ["new", "drop", "log"], length=24 if deep else 16)
    # every pair of short movements, compared afterwards
    moves = [[], [dict(op="update", c=97)], [dict(op="update", c=10)], [dict(op="loc", line=1, col=0)], [dict(op="loc", line=2, col=1)], [dict(op="update", c=97), dict(op="update", c=10)]]
    for a in moves:
        for b in moves:
            for src in (1, 2):
                ops = [dict(op="new", ft=1, how="new"), dict(op="new", ft=1, how="new") if src == 2 else dict(op="clone", i=1)]
                ops += [dict(x, i=1) for x in a] + [dict(x, i=2) for x in b]
                ops += [dict(op=k, i=i, j=j) for k in ("eq", "same") for i in (1, 2) for j in (1, 2)] + [dict(op="intoend", i=1, j=2), dict(op="eq", i=1, j=3), dict(op="eq", i=3, j=2), dict(op="same", i=3, j=1), dict(op="same", i=1, j=3), dict(op="disp", i=3),
                        dict(op="tok", i=1, k=1, w="a"), dict(op="tok", i=2, k=1, w="A"), dict(op="tok", i=1, k=2, w="a"), dict(op="teq", i=1, j=2), dict(op="teq", i=1, j=3), dict(op="tlike", i=1, j=2), dict(op="tlike", i=3, j=1), dict(op="tspan", i=2, j=1)]
                scen.append(dict(files=[BUFFER], ops=ops))
    histories(run, scen, "spans")


# ---------------------------------------------------------------- counters
def tallies(rnd, deep):
    """Many messages for one source, with the summary for every number of them."""
    log = lambda k, i=1: dict(op="log", i=i, kind=k, via="method", msg=[])
    out = []
    for e, w in ((130, 0), (0, 130), (130, 130), (1, 130), (130, 1)):
        rest = [log(rnd.choice(["rawerror", "rawfatal"]))] * e + [log("rawwarning", 2)] * w
        if e == w: rnd.shuffle(rest)
        out.append(dict(files=[BUFFER], ops=START + [x for o in rest for x in (o, log("summary", rnd.choice([1, 2])))]))
    for n in [1100] + ([5000, 11112] if deep else []):      # (seldom shown, but at 1001, 1010, 1011, 1100, ...)
        ops = []
        for i in range(n):
            ops.append(log("rawerror"))
            if set(str(i + 1)) <= set("01") or rnd.random() < .03: ops.append(log("summary"))
        out.append(dict(files=[BUFFER], ops=START + ops))
    return out


def threads(run, rnd, n, crate, what):
    scen = []
    for _ in range(n):
        k = rnd.choice([2, 2, 3])
        ts = []
        for _ in range(k):
            t = []
            for _ in range(rnd.randint(1, 3 if k > 2 else 4)):
                t.append(dict(kind=rnd.choice(KINDS), src=rnd.choice([1, 1, 2])))
                for q in ("errors", "warnings"):
                    if rnd.random() < .5: t.append(dict(kind=q, src=rnd.choice([1, 1, 2])))
            ts.append(t)
        scen.append(dict(sources=2, threads=ts))
    out = run.path(what + ".ndjson")
    run_harness(build(crate), "threads", scen, out)
    r = validate("TraceCounters", out, len(scen), min_states=2 * len(scen))
    run.add(r, traces=len(scen))
    run.sample(scen[0])


def stress(run, crate, what, calls, kinds=KINDS):
    scen = []
    for k in kinds:
        scen.append(dict(calls=[dict(kind=k, n=calls)] * 8))
    scen.append(dict(calls=[dict(kind=k, n=calls) for k in KINDS]))
    out = run.path(what + ".ndjson")
    run_harness(build(crate), "stress", scen, out, stall=300)
    r = validate("TraceCounters", out, len(scen), min_states=2 * len(scen))
    run.add(r, traces=len(scen))
    run.extra[what + "_calls"] = sum(c["n"] for s in scen for c in s["calls"])


def counters_design(run, deep):
    r = model_check("Counters", "Counters_deep" if deep else "Counters", min_states=1000)
    run.add(r)
    bad = tlc("Counters", "Counters_original")
    if bad.violated != "NeverLost":
        raise ToolError("the model does not see that additions in two steps lose calls")


def d01(run, deep):
    rnd = random.Random(SEED * 1000 + 44)
    files = [BUFFER, STDIN, dict(kind="file", name=cps("a.txt"), bytes=rle(b"one\ntwo\n"))]
    weights = ["log"] * 10 + ["clone", "clone", "new", "drop", "intoup", "intoend", "tspan", "tok", "end", "update"]
    histories(run, random_histories(rnd, 6000 if deep else 700, weights, files, 30 if deep else 18), "counts")
    histories(run, tallies(rnd, deep), "tallies")
    histories(run, random_histories(rnd, 3000 if deep else 400, weights, None, 18) + tallies(rnd, False), "counts-nolog", "nolog")
    threads(run, rnd, 5000 if deep else 700, "core", "threads")
    threads(run, rnd, 5000 if deep else 500, "nolog", "threads-nolog")
    stress(run, "core", "stress", 60000 if deep else 6000)
    stress(run, "nolog", "stress-nolog", 3000000 if deep else 150000)
    counters_design(run, deep)


# ---------------------------------------------------------------- diagnostics
PIECES = ["a", "b", " ", "x1", "日", "本語", "\u0301", "e\u0301", "\t", "😀", "é", "\x01", "\u200b", "{", "}", "%", "ﾊ", "\u00ad", "\x7f", "\u1100", "한"]


def content(rnd, lines, width=6, weird=True):
    out = []
    for i in range(lines):
        out.append("".join(rnd.choice(PIECES if weird else PIECES[:4]) for _ in range(rnd.randint(0, width))))
    nl = rnd.choice(["\n", "\n", "\r\n"]) if weird else "\n"
    t = nl.join(out) + rnd.choice(["", nl])
    b = t.encode()
    if weird and rnd.random() < .12:
        i = rnd.randint(0, len(b))
        b = b[:i] + rnd.choice([b"\xff", b"\xc3", b"\xe6\x97", b"\x80"]) + b[i:]
    return b


def pick_span(rnd, lines):
    a = rnd.randint(1, lines + 1)
    b = rnd.choice([a, a, a, a + 1, a + rnd.randint(0, 8), lines, rnd.randint(0, lines + 3)])
    c = lambda: rnd.choice([1, 1, 2, 3, 4, 5, 6, 7, 9, 0 if rnd.random() < .3 else 8, rnd.randint(1, 30)])
    return a, c(), b, c()


def mark(s, sev="error", msg="m", i=1):
    """Operations that make span i the given one (using a clone) and log at it."""
    return [dict(op="loc", i=i, line=s[0], col=s[1]), dict(op="loc", i=i + 1, line=s[2], col=s[3]), dict(op="end", i=i, j=i + 1),
            dict(op="log", i=i, kind=sev, via="method", msg=cps(msg))]


START = [dict(op="new", ft=1, how="new"), dict(op="clone", i=1)]


def d02(run, deep):
    rnd = random.Random(SEED * 1000 + 45)
    scen = []
    names = ["f.txt", "日 本.c", "with space", "dir.name"]
    # all spans of small files
    for text in ["a\tb\n日本x\n\u0301e\n", "ab", "\n\n", "x\ny\nz\nw\nv\nu\nt\ns\n"][: 4]:
        n = text.count("\n") + 1
        ls = text.split("\n")
        spans = [(a, c, b, d) for a in range(1, n + 2) for b in range(a, n + 2) for c in range(0, 5) for d in range(0, 5)
                 if deep or n < 5 or (c + d) % 4 == 1]
        for i in range(0, len(spans), 12):
            ops = list(START)
            for s in spans[i:i + 12]: ops += mark(s)
            scen.append(dict(files=[dict(kind="file", name=cps("f.txt"), bytes=rle(text.encode()))], ops=ops))
    # random files
    for _ in range(5000 if deep else 500):
        lines = rnd.choice([0, 1, 1, 2, 3, 5, 7, 8, 9, 12, 14])
        f = dict(kind="file", name=cps(rnd.choice(names)), bytes=rle(content(rnd, lines)))
        if rnd.random() < .1: f = rnd.choice([BUFFER, STDIN, dict(kind="missing", name=cps("gone.txt")), dict(kind="dir", name=cps("a directory"))])
        ops = list(START)
        for _ in range(6):
            ops += mark(pick_span(rnd, lines), rnd.choice(KINDS), rnd.choice(MSGS))
            ops[-1]["via"] = rnd.choice(["method", "macro"])
            if rnd.random() < .3: ops.append(dict(op="log", i=rnd.choice([1, 2]), kind="summary", via="method", msg=[]))
        scen.append(dict(files=[f], ops=ops))
    # line numbers of several widths
    for n in [9, 10, 11, 99, 100, 101, 999, 1000, 1001, 9999, 65540] + ([10000, 32770, 100000, 262150] if deep else []):
        b = [[n - 3, cps("x\n")], [1, list("ab\tc日\nzz\nyy\nxx\nww\nvv\nuu\n".encode())]]
        f = dict(kind="file", name=cps("long.txt"), bytes=b)
        ops = list(START)
        for k in range(-4, 4):
            ops += mark((n + k, 1, n + k, 2), "warning")
            for m in (1, 3, 5, 6):
                ops += mark((n + k, 1, n + k + m, 2), "error")
            if k % 4 == 0: ops += mark((rnd.randint(1, 5), 1, n + k, 1))
        scen.append(dict(files=[f], ops=ops))
    # long lines, names and messages
    for k in [40, 90, 130, 270, 520, 1050, 2100, 4200] * (8 if deep else 1):
        ls = ["".join(rnd.choice(PIECES) for _ in range(rnd.choice([k, k, 3, k // 2]))) for _ in range(rnd.choice([1, 2, 3]))]
        f = dict(kind="file", name=cps(rnd.choice(["wide.txt", "n" * rnd.choice([60, 130, 250])])), bytes=rle("\n".join(ls).encode()))
        ops = list(START)
        for _ in range(8):
            a = rnd.randint(1, len(ls)); b = rnd.choice([a, a, rnd.randint(a, len(ls))])
            c = lambda: rnd.choice([1, 2, k // 2, k - 1, k, k + 1, rnd.randint(1, k), rnd.randint(1, k), rnd.randint(1, 3 * k)])
            x, y = c(), c()
            if a == b and rnd.random() < .8: x, y = min(x, y), max(x, y)
            ops += mark((a, x, b, y), rnd.choice(KINDS), rnd.choice(MSGS + ["long " * rnd.choice([20, 60, 250])]))
        scen.append(dict(files=[f], ops=ops))
    # columns wider than formatting can pad
    for one, k in ((b"\t", 33000), (b"a", 66000), ("日".encode(), 33000)):
        if one != b"\t" and not deep: continue
        f = dict(kind="file", name=cps("wide.txt"), bytes=[[k, list(one)], [1, list(b"b\nc\n")]])
        big = 2000000000
        ops = list(START)
        for s in ((1, k, 1, k + 1), (1, 1, 1, k), (1, k, 2, 1), (1, 1, 1, big), (1, big, 2, big), (2, 1, 2, big), (2, big, big, big)): ops += mark(s)
        scen.append(dict(files=[f], ops=ops))
    f = dict(kind="file", name=cps("f.txt"), bytes=rle(b"ab\ncd\n"))
    mx = "4294967295"
    for v in ((mx, mx, mx, mx), ("1", "1", mx, mx), ("1", mx, "2", mx), (mx, "1", "1", "1"), ("1", "1", "1", mx), ("0", "0", mx, "1"), ("2", "2", mx, "1"), (mx, "1", mx, "1")):
        scen.append(dict(files=[f], ops=START + [dict(op="logbig", i=1, msg=cps("big"), line=cps(v[0]), col=cps(v[1]), eline=cps(v[2]), ecol=cps(v[3]))]))
    # summaries
    scen += tallies(rnd, False)
    for e in (0, 1, 2, 11):
        for w in (0, 1, 2, 10):
            ops = START + [dict(op="log", i=1, kind="rawerror", via="method", msg=[])] * e + [dict(op="log", i=2, kind="rawwarning", via="method", msg=[])] * w
            scen.append(dict(files=[BUFFER], ops=ops + [dict(op="log", i=1, kind="summary", via="method", msg=[])] * 2))
    histories(run, scen, "render")
    # on a terminal: the same, but for the colours
    histories(run, rnd.sample(scen, len(scen) // 3), "colours", env=dict(CLICOLOR_FORCE="1", LAPS_COLORED="1"))
    r = model_check("RenderModel", "RenderModel_deep" if deep else "RenderModel", min_states=10000)
    run.add(r)


def d03(run, deep):
    rnd = random.Random(SEED * 1000 + 46)
    files = [BUFFER, STDIN, dict(kind="file", name=cps("a.txt"), bytes=rle(b"one\ntwo\n")), dict(kind="missing", name=cps("日 本/ghost.c"))]
    weights = ["log"] * 10 + MOVES + ["new", "tspan", "tok", "disp", "name", "eq", "same"]
    scen = random_histories(rnd, 8000 if deep else 1200, weights, files, 30 if deep else 18)
    for s in [(1, 0, 1, 0), (1, 1, 3, 4), (7, 12, 7, 13), (100, 3, 200, 1), (0, 0, 0, 0), (5, 2, 4, 1)]:
        for k in KINDS:
            for m in MSGS:
                for f in files: scen.append(dict(files=[f], ops=START + mark(s, k, m) + [dict(op="log", i=2, kind="summary", via="method", msg=[])]))
    mx = "4294967295"
    scen.append(dict(files=[BUFFER], ops=START + [dict(op="logbig", i=1, msg=cps("big"), line=cps(mx), col=cps(mx), eline=cps("1"), ecol=cps("1"))]))
    histories(run, scen, "messages", "nolog")
    # failed reads and undecodable text without the logger
    from reader import nolog_histories
    nolog_histories(run, rnd, 1500 if deep else 250)
    threads(run, rnd, 1500 if deep else 300, "nolog", "threads-nolog")


CHECKS = dict(V01=v01, V02=v02, K02=k02, D01=d01, D02=d02, D03=d03)
