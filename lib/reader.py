"""R01-R05: histories of the readers and of user-written streams against CharStream."""
import itertools, random
from vlib import *

ERR, CUT, EOF = 256, 257, 258
# characters of every encoded length and around the boundaries between them
CHARS = [0x61, 0x62, 0x0a, 0x20, 0x09, 0x00, 0x7f, 0x80, 0xe9, 0x7ff, 0x800, 0x20ac, 0xd7ff, 0xe000,
         0xfeff, 0xfffd, 0xffff, 0x10000, 0x1f600, 0x10ffff, 0x5c, 0x200b, 0x301, 0x3042, 0x0d, 0x0b, 0x0c, 0x85, 0x2028, 0x2029, 0x1a]
BADS = [[0x80], [0xbf], [0xc0, 0x80], [0xc1, 0xbf], [0xc3], [0xe2, 0x82], [0xe0, 0x80, 0x80], [0xed, 0xa0, 0x80],
        [0xf0, 0x9f, 0x98], [0xf0, 0x80, 0x80, 0x80], [0xf4, 0x90, 0x80, 0x80], [0xf5], [0xff], [0xfe],
        [0xe2, 0x28, 0xa1], [0xf0, 0x9f], [0xf0], [0xe2], [0xed, 0x9f], [0xf4, 0x8f, 0xbf], [0xf8, 0x88, 0x80, 0x80, 0x80]]


def enc(cs):
    return list("".join(map(chr, cs)).encode("utf-8"))


def cuts(rnd, bs, p):
    out = []
    for b in bs:
        if out and rnd.random() < p:
            out.append(CUT)
        out.append(b)
    return out


def split_all(bs):
    """Every way to split the bytes into reads."""
    for m in range(1 << max(0, len(bs) - 1)):
        out = []
        for i, b in enumerate(bs):
            if i and m >> (i - 1) & 1:
                out.append(CUT)
            out.append(b)
        yield out


def text(rnd, n, alpha=None):
    return [rnd.choice(alpha or CHARS) for _ in range(n)]


def reads(rnd, n, kinds=("next", "nextc", "nexts", "nspan")):
    return [dict(op=rnd.choice(kinds)) for _ in range(n)]


def stops(rnd, cs):
    pool = list(set(cs)) + [10, 32, 0x61, 0x7a]
    return sorted(set(rnd.sample(pool, rnd.randint(0, min(2, len(pool))))))


def until(rnd, stop):
    """Reading up to a character; some predicates count and hold at a later one only."""
    o = dict(op=rnd.choice(["skip", "coll", "colls"]), stop=stop)
    if rnd.random() < .35: o["nth"] = rnd.randint(2, 4)
    return o


def history(rnd, n, cs, byte=False, io=True):
    """A random history; pushes stay within the character type."""
    ops = []
    for _ in range(n):
        r = rnd.random()
        if r < .34: ops.append(dict(op=rnd.choice(["next", "next", "nextc", "nexts", "nspan"])))
        elif r < .52: ops.append(dict(op=rnd.choice(["peek", "peeks"])))
        elif r < .70: ops.append(dict(op="unread"))
        elif r < .76: ops.append(dict(op="set", line=rnd.randint(1, 40), col=rnd.randint(0, 40)))
        elif r < .82: ops.append(dict(op="push", c=rnd.choice([10, 0x61, 0x80, 0xff] if byte else CHARS),
                                      line=rnd.randint(1, 9), col=rnd.randint(0, 9)))
        else: ops.append(until(rnd, stops(rnd, cs)))
    return ops


def big(rnd, n, alpha):
    """A text whose encoding is about n bytes."""
    out, k = [], 0
    while k < n:
        c = rnd.choice(alpha)
        out.append(c)
        k += len(enc([c]))
    return out


def huge(rnd, kind, n, op):
    """A text with one long run (of one line or of empty lines) and what comes behind it."""
    c = rnd.choice([0x61, 0x0a])
    src = [0x0a] * rnd.randint(0, 2) + [0x61] * rnd.randint(0, 2) + [c] * n + [0x7a, 0x0a, 0x62, 0x62]
    ops = [dict(op=op, stop=[0x7a]), dict(op="next"), dict(op="unread"), dict(op="peeks"), dict(op="nexts"), dict(op="next"),
           dict(op="unread"), dict(op="colls", stop=[]), dict(op="nexts")]
    return dict(kind=kind, src=src, ops=reads(rnd, rnd.randint(0, 3)) + ops)


def steady(rnd, n, byte, faults=0):
    """A long text read in long stretches and, for long, one by one; with errors in reading if wanted."""
    out, k = [], 0
    while k < n:
        m = rnd.choice([1, 5, 40, 300] + ([] if faults else [1500, 5000]))
        c = rnd.choice([x for x in CHARS if x != 0x7a])
        out += [c] * m if rnd.random() < .6 else [rnd.choice(CHARS) for _ in range(m)]
        out.append(0x7a)
        k += 3 * m
    src = enc(out)
    for _ in range(faults):
        src.insert(rnd.randint(0, len(src)), ERR)
    ops = []
    while len(ops) < 150:
        r = rnd.random()
        if r < .3: ops.append(until(rnd, [0x7a]))
        elif r < .5: ops += [dict(op=rnd.choice(["next", "unread", "peek"]))] * rnd.choice([1, 2, 10])
        else: ops += reads(rnd, rnd.choice([1, 2, 8])) + [dict(op="peeks")]
    return dict(kind="byte" if byte else "char", src=cuts(rnd, src, rnd.choice([0, .0005])), ops=ops + [dict(op="colls", stop=[0x7a] if faults else []), dict(op="next"), dict(op="peeks"), dict(op="nexts")])


def ends(rnd, kind, faults=False):
    """Many calls at the end of a text, many errors in reading."""
    src = [0x61, 0x0a] + [ERR] * (rnd.choice([3, 40, 260]) if faults else 0) + [0x62]
    ops = []
    for op in ("next", "nexts", "peeks", "unread", "next", "nextc", "peek", "coll", "skip", "unread", "next"):
        ops += [dict(op=op, stop=[0x62]) if op in ("coll", "skip") else dict(op=op)] * rnd.choice([1, 1, 20, 130, 260])
    return dict(kind=kind, src=src, ops=ops)


def run_all(run, scen, what, crate="core"):
    b = build(crate)
    out = run.path(what + ".ndjson")
    run_harness(b, "reader", scen, out)
    r = validate("TraceReader", out, len(scen), min_states=len(scen) + sum(len(s["ops"]) for s in scen))
    run.add(r, traces=len(scen))
    for s in scen[:3]:
        run.sample(s)


def from_tlc(n, kinds=("char", "byte")):
    s = simulate("ReaderImpl", "ReaderImpl_gen", n, 14)
    return [x for x in s if x["kind"] in kinds]


def designs(run, deep):
    r = model_check("ReaderImpl", "ReaderImpl_deep" if deep else "ReaderImpl", min_states=20000)
    run.add(r)
    # the specification must tell the defective reader from the repaired one
    o = tlc("ReaderImpl", "ReaderImpl_original")
    if o.ok:
        raise ToolError("ReaderImpl does not reject the original reader")
    run.assumptions.append("the design model ReaderImpl bounds scripts to 3 (thorough: 4) items and its buffer to 4 bytes; "
                           "the real reader's 1024-byte buffer is exercised by replay")


def r01(run, deep):
    rnd = random.Random(SEED * 1000 + 1)
    scen = []
    tail = [dict(op="next"), dict(op="peeks"), dict(op="nextc"), dict(op="peek"), dict(op="nexts")]
    # every split of short texts that have characters of every length
    for cs in [[0x61, 0xe9, 0x0a], [0x20ac, 0x61], [0x1f600, 0x62], [0xe9, 0x10ffff], [0x800, 0xffff]]:
        for src in split_all(enc(cs)):
            scen.append(dict(kind="char", src=src, ops=reads(rnd, len(cs)) + tail))
    # every split of short texts with an undecodable part
    for bad in BADS:
        for pre in ([], [0x61], [0x20ac]):
            for post in ([], [0x62], [0x80]):
                allv = list(split_all(enc(pre) + bad + post))
                for src in (allv if deep else rnd.sample(allv, min(4, len(allv)))):
                    scen.append(dict(kind="char", src=src, ops=reads(rnd, len(pre) + 2) + tail))
    # every byte value first, second
    for b in range(256):
        scen.append(dict(kind="char", src=[b], ops=reads(rnd, 2)))
        scen.append(dict(kind="char", src=[0xe1, CUT, b, CUT, 0x90] if b & 1 else [b, CUT, 0xbf, 0xbf, 0xbf], ops=reads(rnd, 5)))
    # random texts, random splits
    for _ in range(4000 if deep else 900):
        cs = text(rnd, rnd.randint(0, 14))
        bs = enc(cs)
        if rnd.random() < .4:
            bs = bs + rnd.choice(BADS) + enc(text(rnd, rnd.randint(0, 3)))
        scen.append(dict(kind="char", src=cuts(rnd, bs, rnd.choice([0, .1, .3, 1])), ops=reads(rnd, rnd.randint(1, len(cs) + 3)) + tail))
    # random bytes
    for _ in range(2000 if deep else 300):
        bs = [rnd.choice([rnd.randint(0, 255), rnd.randint(0x80, 0xf8), 0x61, 0xbf]) for _ in range(rnd.randint(1, 8))]
        scen.append(dict(kind="char", src=cuts(rnd, bs, rnd.choice([0, .5, 1])), ops=reads(rnd, 9)))
    # around the internal buffer
    for off in (range(0, 8) if not deep else range(0, 24)):
        for alpha in ([0x61], [0x61, 0xe9], [0x20ac], [0x1f600], [0x61, 0xe9, 0x20ac, 0x1f600, 0x0a]):
            cs = [0x62] * off + big(rnd, rnd.choice([1020, 1030, 2050]), alpha) + [0x7a, 0x1f600]
            p = rnd.choice([0, 0, .002, .01])
            ops = [dict(op="coll", stop=[0x7a])] + reads(rnd, 3) + tail
            if rnd.random() < .5:
                ops = reads(rnd, 3) + ops
            bs = enc(cs) + (rnd.choice(BADS) if rnd.random() < .3 else [])
            scen.append(dict(kind="char", src=cuts(rnd, bs, p), ops=ops))
    # characters of the whole range
    for a in (range(0, 0x110000, 64) if deep else sorted(rnd.sample(range(0, 0x110000, 64), 150)) + list(range(0, 0x400, 64))):
        if 0xd800 <= a < 0xe000: continue
        scen.append(dict(kind="char", src=cuts(rnd, enc(range(a, a + 64)), rnd.choice([0, .1])), ops=reads(rnd, 2) + [dict(op="coll", stop=[]), dict(op="nexts")]))
    # every way to make a reader from text
    for _ in range(300 if deep else 60):
        cs = text(rnd, rnd.randint(0, 10))
        scen.append(dict(kind="char", ctor=rnd.choice(["str", "string", "slice", "path"]), src=enc(cs),
                         ops=reads(rnd, len(cs) + 1) + tail))
    scen += [steady(rnd, n, False) for n in ([8000, 40000, 75000, 140000] * 3 if deep else [8000, 75000])]
    run_all(run, scen, "char")
    designs(run, deep)


def r02(run, deep):
    rnd = random.Random(SEED * 1000 + 2)
    scen = []
    tail = [dict(op="next"), dict(op="peeks"), dict(op="nextc"), dict(op="peek"), dict(op="nexts")]
    for bs in ([0xe9, 0x0a, 0xff, 0x00], [0x80, 0xc0, 0xe2, 0x82, 0xac], [10, 10, 13, 10]):
        for src in split_all(bs):
            scen.append(dict(kind="byte", src=src, ops=reads(rnd, len(bs)) + tail))
    for b in range(256):
        scen.append(dict(kind="byte", src=[b, CUT, 255 - b], ops=reads(rnd, 2) + tail[:2]))
    scen.append(dict(kind="byte", src=list(range(256)), ops=reads(rnd, 20) + [dict(op="coll", stop=[200]), dict(op="coll", stop=[])] + tail))
    for _ in range(3000 if deep else 700):
        bs = [rnd.choice([rnd.randint(0, 255), 10, 0xff, 0x80]) for _ in range(rnd.randint(0, 14))]
        scen.append(dict(kind="byte", src=cuts(rnd, bs, rnd.choice([0, .2, 1])), ops=reads(rnd, rnd.randint(1, len(bs) + 2)) + tail))
    # more data behind a temporary end of input
    for _ in range(1000 if deep else 200):
        src = []
        for _ in range(rnd.randint(1, 4)):
            src += [rnd.randint(0, 255) for _ in range(rnd.randint(0, 3))] + [EOF]
        scen.append(dict(kind="byte", src=src, ops=reads(rnd, len(src) + 2)))
    for off in range(8 if deep else 3):
        bs = [rnd.randint(0, 254) for _ in range(rnd.choice([1023, 1024, 1025, 2048, 3000]) + off)] + [255, 1, 2]
        scen.append(dict(kind="byte", src=cuts(rnd, bs, rnd.choice([0, .002])),
                         ops=reads(rnd, 2) + [dict(op="coll", stop=[255])] + reads(rnd, 4) + tail))
    for _ in range(200 if deep else 40):
        cs = text(rnd, rnd.randint(0, 8))
        scen.append(dict(kind="byte", ctor=rnd.choice(["str", "string", "slice", "path"]), src=enc(cs),
                         ops=reads(rnd, len(enc(cs)) + 1) + tail))
    scen += [steady(rnd, n, True) for n in ([8000, 40000, 75000, 140000] * 3 if deep else [8000, 75000])]
    run_all(run, scen, "byte")
    designs(run, deep)


def r03(run, deep):
    rnd = random.Random(SEED * 1000 + 3)
    scen = from_tlc(1500 if deep else 300)
    for i in range(6000 if deep else 1200):
        kind = ["char", "byte", "custom"][i % 3]
        cs = text(rnd, rnd.randint(0, 12), [0x61, 0x62, 0x0a, 0x0a, 0xe9, 0x20ac, 0x1f600, 0x09, 0x0d])
        src = enc(cs) if kind == "custom" else cuts(rnd, enc(cs), rnd.choice([0, .3, 1]))
        scen.append(dict(kind=kind, src=src, ops=history(rnd, rnd.randint(3, 16), cs, kind == "byte")))
    # locations beyond 2^16, buffers filled many times over
    for kind, op in zip(["char", "byte", "custom"] * 3, ["skip", "coll", "colls"] * (3 if deep else 1)):
        scen.append(huge(rnd, kind, rnd.choice([66000, 70000, 131075]), op))
    # exhaustive short histories over one small text
    alphabet = [dict(op="next"), dict(op="unread"), dict(op="peeks"), dict(op="peek"), dict(op="set", line=5, col=9),
                dict(op="colls", stop=[0x0a]), dict(op="nexts")]
    for kind in ("char", "byte", "custom"):
        for h in itertools.product(alphabet, repeat=4 if deep else 3):
            scen.append(dict(kind=kind, src=[0x61, 0x0a, 0x62] if kind == "custom" else [0x61, 0x0a, CUT, 0x62], ops=list(h)))
    for i in range(60 if deep else 12):
        kind = ["char", "byte", "custom"][i % 3]
        cs = text(rnd, rnd.choice([20, 150, 400]), [0x61, 0x62, 0x0a, 0xe9, 0x20ac, 0x1f600])
        scen.append(dict(kind=kind, src=enc(cs), ops=history(rnd, 300, cs, kind == "byte")))
        scen.append(ends(rnd, kind))
    run_all(run, scen, "history")
    designs(run, deep)


def r04(run, deep):
    rnd = random.Random(SEED * 1000 + 4)
    scen = []
    for i in range(6000 if deep else 1500):
        kind = ["char", "byte", "custom"][i % 3]
        cs = text(rnd, rnd.randint(0, 12), rnd.choice([[0x61, 0x62, 0x0a, 0x20], CHARS, [0x61, 0x0a]]))
        src = enc(cs) if kind == "custom" else cuts(rnd, enc(cs), rnd.choice([0, .3, 1]))
        body = cs if kind != "byte" else enc(cs)
        ops = []
        for _ in range(rnd.randint(1, 6)):
            r = rnd.random()
            if r < .75: ops.append(until(rnd, stops(rnd, body)))
            elif r < .9: ops.append(dict(op=rnd.choice(["next", "peeks", "nexts"])))
            else: ops.append(dict(op="unread"))
        ops.append(dict(op="nexts"))
        scen.append(dict(kind=kind, src=src, ops=ops))
    for op in ("skip", "coll", "colls"):
        for n in (0, 1, 2, 3):
            for m in itertools.product([0x61, 0x0a, 0x78], repeat=n):
                for kind in ("char", "byte", "custom"):
                    scen.append(dict(kind=kind, src=list(m), ops=[dict(op=op, stop=[0x78]), dict(op="peeks"), dict(op="next"), dict(op="nexts"),
                                                                 dict(op="unread"), dict(op=op, stop=[])]))
    for _ in range(60 if deep else 12):   # runs across the internal buffer
        cs = big(rnd, rnd.choice([1020, 1024, 2048, 2500]), [0x61, 0x0a, 0xe9, 0x20ac]) + [0x78, 0x79]
        k = rnd.choice(["char", "byte", "custom"])
        scen.append(dict(kind=k, src=enc(cs), ops=[dict(op=rnd.choice(["coll", "colls", "skip"]), stop=[0x78]), dict(op="nexts"), dict(op="nexts")]))
    for kind, op in zip(["custom", "char", "byte"] * 3, ["skip", "coll", "colls"] * (3 if deep else 1)):
        scen.append(huge(rnd, kind, rnd.choice([66000, 70000, 131075]), op))
    run_all(run, scen, "until")
    designs(run, deep)


def r05(run, deep):
    rnd = random.Random(SEED * 1000 + 5)
    scen = [s for s in from_tlc(1500 if deep else 300)]
    # an error at every point of every split of short texts
    for cs in [[0x61, 0x20ac], [0x1f600], [0xe9, 0x62]]:
        bs = enc(cs)
        for src in split_all(bs):
            for at in range(len(src) + 1):
                scen.append(dict(kind="char", src=src[:at] + [ERR] + src[at:],
                                 ops=[dict(op=rnd.choice(["next", "peek", "peeks", "nexts", "nextc"])) for _ in range(len(cs) + 4)]))
                scen.append(dict(kind="byte", src=src[:at] + [ERR] + src[at:],
                                 ops=[dict(op=rnd.choice(["next", "peek", "peeks", "nexts"])) for _ in range(len(bs) + 3)]))
    for i in range(6000 if deep else 1200):
        kind = ["char", "byte"][i % 2]
        cs = text(rnd, rnd.randint(0, 10))
        bs = enc(cs)
        if rnd.random() < .4:
            bs = bs + rnd.choice(BADS) + enc(text(rnd, rnd.randint(0, 3)))
        src = cuts(rnd, bs, rnd.choice([0, .3, 1]))
        for _ in range(rnd.randint(0, 4)):
            src.insert(rnd.randint(0, len(src)), ERR)
        scen.append(dict(kind=kind, src=src, ops=history(rnd, rnd.randint(4, 16), cs, kind == "byte")))
    for bad in BADS:
        for post in ([], [0x61], [0x80, 0xbf], [0x0a]):
            scen.append(dict(kind="char", src=[0x61, CUT] + bad + [CUT] + post,
                             ops=reads(rnd, 2) + [dict(op="peek"), dict(op="coll", stop=[0x0a]), dict(op="skip", stop=[]), dict(op="peeks")] + reads(rnd, 5)))
    for _ in range(60 if deep else 12):
        cs = big(rnd, rnd.choice([1020, 1024, 2048]), [0x61, 0xe9, 0x20ac, 0x1f600]) + [0x78]
        src = enc(cs)
        for _ in range(3):
            src.insert(rnd.choice([rnd.randint(0, len(src)), 1023, 1024, 1025]), ERR)
        scen.append(dict(kind=rnd.choice(["char", "byte"]), src=src,
                         ops=[dict(op=rnd.choice(["coll", "skip", "colls"]), stop=[0x78]) for _ in range(4)] + reads(rnd, 4)))
    for i in range(60 if deep else 8): scen.append(ends(rnd, ["char", "byte"][i % 2], True))
    for i in range(12 if deep else 4): scen.append(steady(rnd, [3000, 75000][i // 2 % 2], i % 2, rnd.choice([1, 4, 12])))
    run_all(run, scen, "faults")
    designs(run, deep)


def nolog_histories(run, rnd, n):
    """Readers built without the logger."""
    scen = []
    for _ in range(n):
        cs = text(rnd, rnd.randint(0, 8))
        bs = enc(cs) + (rnd.choice(BADS) if rnd.random() < .3 else [])
        src = cuts(rnd, bs, .4)
        for _ in range(rnd.choice([0, 1, 1, 2])): src.insert(rnd.randint(0, len(src)), ERR)
        scen.append(dict(kind=rnd.choice(["char", "char", "byte"]), src=src, ops=history(rnd, rnd.randint(3, 12), cs, True)))
    run_all(run, scen, "readers-nolog", "nolog")


CHECKS = dict(R01=r01, R02=r02, R03=r03, R04=r04, R05=r05)
