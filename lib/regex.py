"""L01-L05: matchers and exported tables against the residuals of their expressions."""
import itertools, random
from vlib import *
from regexgen import *


def rset(rnd, mode, n=None, alpha=None, depth=None):
    """A random set of tagged expressions: (scenario fields, generators)."""
    alpha = alpha or {"char": rnd.choice([ASCII[:2], ASCII[:3], ASCII, UNI, UNI[:6]]),
                      "bytes": rnd.choice([BYTE, BYTE[2:4], BYTE[5:]]), "u8": [0x61, 0x62, 0x7f, 0x00]}[mode]
    n = n or rnd.choice([1, 1, 2, 2, 3, 4])
    gens = [Gen(rnd, alpha, mode, depth if depth is not None else rnd.choice([1, 2, 3, 3])) for _ in range(n)]
    if n > 1 and rnd.random() < .3:      # shared sub-expressions, equal expressions
        a = rnd.choice(gens)
        g = Gen(rnd, alpha, mode, 1)
        single = mode != "char" and a.t[0] in ("lit", "cls") and g.t[0] in ("lit", "cls")     # they would become a Unicode class
        g.t = rnd.choice([a.t, ("cat", [a.t, g.t]), ("cat", [g.t, a.t]), ("cat" if single else "alt", [a.t, g.t]), ("rep", 0, -1, a.t)])
        gens[rnd.randrange(n)] = g
    tags = rnd.choice([list(range(n)), [rnd.randint(0, n) for _ in range(n)], list(range(n))[::-1]])
    return dict(mode=mode, res=[cps(g.text()) for g in gens], tags=tags, par=rnd.choice([0, 0, 2, 1])), gens, alpha


def small():
    """All expressions with at most two operators over two symbols."""
    lv = [["a", "b", "(?:)", "[ab]"]]
    for n in (1, 2):
        cur = []
        for x in lv[n - 1]:
            cur += [f"(?:{x})*", f"(?:{x})+", f"(?:{x})?", f"(?:{x}){{2}}"]
        for k in range(n):
            for x in lv[k]:
                for y in lv[n - 1 - k]:
                    cur += [f"(?:{x})(?:{y})", f"(?:{x}|{y})"]
        lv.append(cur)
    return [r for l in lv for r in l]


def tables(run, scen, what, domain="table", per=1, min_factor=1.5):
    b = build("rx")
    out = run.path(what + ".ndjson")
    run_harness(b, domain, scen, out)
    r = validate("TableCheck", out, len(scen) * per, min_states=int(len(scen) * per * min_factor))
    run.add(r, traces=len(scen) * per)
    for s in scen[:2]:
        run.sample(dict(s, res=["".join(map(chr, x)) for x in s["res"]]))


def matches(run, scen, what):
    b = build("rx")
    out = run.path(what + ".ndjson")
    run_harness(b, "match", scen, out)
    done = sum(len(t["ops"]) for t in ndjson(out))
    if done < sum(len(s["ops"]) for s in scen) // 2 and all(not t["k"].startswith("panic") for t in ndjson(out)):
        # most sets must be buildable, otherwise nothing is tested (TableCheck judges the outcomes)
        log(f"only {done} operations were possible")
        if done == 0:
            raise Violation("no matcher could be built", dict(kind="build", example=next(ndjson(out))))
    r = validate("TraceMatch", out, len(scen), min_states=done + len(scen))
    run.add(r, traces=len(scen))
    for s in scen[:2]:
        run.sample(dict(s, res=["".join(map(chr, x)) for x in s["res"]]))


def strings(rnd, gens, alpha, n, mode):
    out = []
    for _ in range(n):
        g = rnd.choice(gens)
        s = g.sample()
        if rnd.random() < .3:
            s = s + rnd.choice(gens).sample()
        if rnd.random() < .6:
            s = mutate(rnd, s, alpha if mode != "u8" else alpha + [0xc3, 0xa9])
        out.append(s[:24])
    return out


def match_ops(rnd, gens, alpha, mode, n=8):
    ops = []
    for s in strings(rnd, gens, alpha, n, mode):
        if mode == "char" and rnd.random() < .5:
            ops.append(dict(op="smatch", u=s))
        else:
            ops.append(dict(op="match", s=s))
        if mode != "char" and rnd.random() < .4:
            u = [rnd.choice([0x61, 0x62, 0xe9, 0x65e5, 0x672c]) for _ in range(rnd.randint(0, 3))]
            ops.append(dict(op="smatch", u=u))
    return ops


def step_ops(rnd, gens, alpha, mode, n=4):
    ops, states = [], 1
    for s in strings(rnd, gens, alpha, n, mode):
        for c in s:
            ops.append(dict(op="acc", c=c))
            states += 1
            if rnd.random() < .4:
                ops.append(dict(op="final"))
            if rnd.random() < .2:
                ops.append(dict(op="sfinal", i=rnd.randrange(states)))
            if rnd.random() < .1:      # a symbol that is probably refused, in between
                ops.append(dict(op="acc", c=rnd.choice(alpha)))
                states += 1
        ops.append(dict(op="final"))
        ops.append(dict(op="match", s=s))
        if rnd.random() < .8:
            ops.append(dict(op="reset"))
            states += 1
            if rnd.random() < .3:
                ops.append(dict(op="final"))
    return ops


def lasting(rnd, mode, steps):
    """Long strings: matched as a whole, or taken step by step."""
    res = rnd.choice([["(?:a|b)*c", "a+", "(?:ab)+"], ["(?:aab|b)+", "[ab]*bb", "[ab]{3}"], ["(?:(?:a|b){2}c?)*", "b*"], ["[ab]*a[ab]", "[ab]*a", "(?:a|bb)*"], ["(?:a|b|c)+", "c*"]])
    ops = []
    for n in rnd.sample([60, 130, 257, 300, 520, 1025], 2):
        if steps: n = min(n, 400)
        s = []
        while len(s) < n: s += rnd.choice([b"a", b"b", b"ab", b"aab", b"bb", b"b" * 40, b"a" * 70, b"ab" * 30])
        if rnd.random() < .6: s.append(99)
        if rnd.random() < .2: s.insert(rnd.randint(0, len(s)), 122)
        if not steps:
            ops += [{"op": "match", "s": x} if mode != "char" or rnd.random() < .5 else {"op": "smatch", "u": x} for x in (s, s[1:], s[:-1], s + [97])]
            continue
        for i, c in enumerate(s):
            ops.append(dict(op="acc", c=c))
            if rnd.random() < .1: ops.append(dict(op="final"))
            if rnd.random() < .05: ops.append(dict(op="sfinal", i=rnd.randrange(i + 1)))
        ops += [dict(op="final"), dict(op="reset"), dict(op="final")]
    return dict(plain(mode, res, rnd.sample(range(9), len(res))), ops=ops)


def design(run, deep):
    r = model_check("Automata", "Automata_deep" if deep else "Automata", min_states=5000)
    run.add(r)
    if tlc("Automata", "Automata_original").ok:
        raise ToolError("Automata does not reject the original construction")


def plain(mode, res, tags=None, par=0):
    return dict(mode=mode, res=[cps(r) for r in res], tags=tags or list(range(len(res))), par=par)


def large(rnd, mode, deep):
    """Sets that are large: many expressions, counts, literals, ranges, much nesting; with strings for them."""
    B = (lambda x: f"(?-u:{x})") if mode != "char" else (lambda x: x)
    word = lambda n: "".join(rnd.choice("abcdefgh") for _ in range(n))
    nest = lambda n: "(?:" * n + "a" + "".join(rnd.choice([")", ")", "b)", "|cd)", ")?"]) for _ in range(n))
    out = []
    for n in [66, 129, 260] + ([258, 400] if deep else []):
        ws = list({word(rnd.randint(1, 4)) for _ in range(2 * n)})[:n]
        out.append((ws, [rnd.choice(ws) + rnd.choice(["", "a"]) for _ in range(8)]))
    forms = [lambda a, k: f"{a}{{{k}}}", lambda a, k: f"{a}{{{k},}}", lambda a, k: f"{a}{{0,{k}}}", lambda a, k: f"(?:{a}{{{k // 2}}}b?){{1,2}}",
             lambda a, k: f"(?:{a}{{4}}){{{k // 8},{k // 4}}}", lambda a, k: f"{a}{{{k // 3},{k}}}", lambda a, k: f"(?:{a}{{0,{k // 9}}}d){{0,9}}"]
    ks = [254, 255, 256, 257, 300] + ([511, 513, 700] if deep else [])
    for i, f in enumerate(forms * (3 if deep else 1)):
        # (the repository expands {0,k} into an alternation of all counts)
        k = (rnd.choice(ks) if i % 7 != 2 else rnd.choice(ks[:3] + [130, 200])) if i < len(ks) else rnd.randint(60, 260)
        a = rnd.choice(["a", "[ab]" if mode == "char" else B("[ab]"), "(?:ab|c)" if k < 130 else "a"])
        out.append(([f(a, k), rnd.choice(["b+", "ca", "a"])], ["a" * (k + d) for d in (-1, 0, 1)] + ["ab" * k, "c" * k, "a" * (2 * k), "b" * 2000, "a" * 1999 + "b"] + ["a" * rnd.randint(1, k) for _ in range(4)]))
    for k in (20, 60):
        out.append(([nest(k), "a*"], ["a" + "b" * i for i in range(4)] + ["cd", "cdb", "acd", ""]))
    t = word(900)
    out.append(([t, t[:500] + "(?:x|yy)", word(5)], [t, t[:-1], t + "a", t[:500] + "x", t[:500] + "y", t[:500] + "yy"]))
    # states that only long strings tell apart
    k, p = rnd.randint(600, 800), rnd.choice(["a", "ab"])
    t = p * (k // len(p)) + "c"
    out.append(([t], [t, t[len(p):], p + t, t[:-1], t[:-1] + p + "c", "c"]))
    lo = list(range(0x21, 0x7e)) if mode != "char" else list(range(0x100, 0x1000))
    rs = sorted(rnd.sample(lo, 40 if mode != "char" else 110))
    cls = lambda xs: B("[" + "".join((f"\\x{c:02x}" if mode != "char" else f"\\x{{{c:x}}}") for c in xs) + "]")
    out.append(([cls(rs) + "+", cls(rs[::2]), cls(rs[1::3]) + "a"], ["".join(map(chr, rnd.sample(rs, 3))) for _ in range(5)] + [chr(rs[0]), chr(rs[1]), chr(rs[1]) + "a", chr(rs[-1] + 1)]))
    sc, mt = [], []
    for res, ss in out:
        s = plain(mode, res, rnd.choice([None, rnd.sample(range(1000), len(res)), [rnd.randint(0, 300) for _ in res]]), rnd.choice([0, 1, 2]))
        sc.append(s)
        mt.append(dict(s, ops=[dict(op="match", s=cps(x) if mode == "char" else list(x.encode())) for x in ss]))
    return sc, mt


def l01(run, deep):
    rnd = random.Random(SEED * 1000 + 11)
    sm = small()
    scen = [plain("char", [r]) for r in sm]
    for _ in range(6000 if deep else 500):
        n = rnd.choice([2, 2, 3])
        tags = rnd.choice([[0, 1, 2], [2, 1, 0], [0, 0, 1], [1, 0, 1]])[:n]
        scen.append(plain("char", rnd.choices(sm, k=n), tags, rnd.choice([0, 1, 2])))
    mt = []
    for _ in range(5000 if deep else 700):
        s, gens, alpha = rset(rnd, "char")
        scen.append(s)
        mt.append(dict(s, ops=match_ops(rnd, gens, alpha, "char")))
    for r in SYNTAX:
        scen.append(plain("char", [r]))
    light = [r for r in SYNTAX if not any(x in r for x in (r"\p", r"(?i)[", r"alpha"))]
    for _ in range(600 if deep else 80):
        k = rnd.randint(2, 4)
        scen.append(plain("char", rnd.sample(light, k), rnd.sample(range(9), k)))
    a, b = large(rnd, "char", deep)
    tables(run, scen + a, "tables")
    matches(run, mt + b + [lasting(rnd, "char", False) for _ in range(60 if deep else 9)], "matches")
    design(run, deep)


def l02(run, deep):
    rnd = random.Random(SEED * 1000 + 12)
    mt, tb = [], []
    for i in range(6000 if deep else 1100):
        mode = ["char", "char", "bytes", "u8"][i % 4]
        s, gens, alpha = rset(rnd, mode)
        mt.append(dict(s, ops=step_ops(rnd, gens, alpha, mode)))
        if i % 3 == 0:
            tb.append(s)
    mt += [lasting(rnd, ["char", "bytes", "u8"][i % 3], True) for i in range(60 if deep else 9)]
    matches(run, mt, "steps")
    tables(run, tb, "tables")    # prefixes of all strings: SameLife
    design(run, deep)


def many_symbols(rnd, n, tags):
    """Sets that split the alphabet into many classes, so that the automatic choice is parallel."""
    res = []
    for i in range(tags):
        cs = rnd.sample(range(0x21, 0x180), n // tags)
        words = []
        for c in cs:
            words.append("\\x{%x}" % c + rnd.choice(["", "a", "\\x{%x}" % rnd.randint(0x21, 0x17f), "[\\x{%x}-\\x{%x}]" % (0x100, 0x100 + rnd.randint(0, 80))]))
        res.append("|".join(words) + rnd.choice(["", "|(?:" + "|".join(words[:5]) + ")*z"]))
    return res


def l03(run, deep):
    rnd = random.Random(SEED * 1000 + 13)
    scen = []
    for i in range(2400 if deep else 330):
        mode = ["char", "char", "bytes", "u8"][i % 4]
        s, _, _ = rset(rnd, mode)
        for par in (0, 1, 2):
            scen.append(dict(s, par=par))
    for i in range(24 if deep else 4):
        res = many_symbols(rnd, rnd.choice([80, 120, 200]), rnd.choice([1, 2, 3]))
        for par in (0, 1, 2):
            scen.append(plain("char", res, None, par))
    lg = large(rnd, "char", deep)[0]
    for i, s in enumerate(lg if deep else lg[:3] + rnd.sample(lg[3:10], 4) + lg[12:14]):
        for par in ((0, 1, 2) if len(max(s["res"], key=len)) < 500 or deep else (1, 2)):
            scen.append(dict(s, par=par))
    words = ["while", "where", "when", "if", "in", "impl", "for", "fn", "foreach", "[a-z]+", "[0-9]+", "0x[0-9a-f]+", "\"[^\"]*\"", "[+*/=<>!-]=?", "\\s+", "."]
    for par in (0, 1, 2):
        scen.append(plain("char", words, None, par))
    for r in ("a", "", "(?s).", "[\\x{0}-\\x{10FFFF}]*", "a*", "()*"):
        for par in (0, 1, 2):
            scen.append(plain("char", [r], None, par))
    tables(run, scen, "tables")
    conc = []
    for i in range(200 if deep else 30):
        s, _, _ = rset(rnd, ["char", "bytes"][i % 2], n=rnd.choice([2, 3, 4]), depth=3)
        conc.append(dict(s, threads=9))
    for _ in range(6 if deep else 2):
        conc.append(dict(plain("char", many_symbols(rnd, 90, 2)), threads=6))
    b = build("rx")
    out = run.path("conc.ndjson")
    run_harness(b, "conc", conc, out)
    n = sum(s["threads"] for s in conc)
    r = validate("TableCheck", out, n, min_states=2 * n)
    run.add(r, traces=n)
    design(run, deep)


def l04(run, deep):
    rnd = random.Random(SEED * 1000 + 14)
    scen, mt = [], []
    for i in range(4000 if deep else 700):
        mode = ["bytes", "bytes", "u8"][i % 3]
        s, gens, alpha = rset(rnd, mode)
        scen.append(s)
        mt.append(dict(s, ops=match_ops(rnd, gens, alpha, mode) + step_ops(rnd, gens, alpha, mode, 2)))
    for r in BSYNTAX:
        scen.append(plain("bytes", [r]))
    for r in USYNTAX:
        scen.append(plain("u8", [r]))
    for _ in range(400 if deep else 60):
        k = rnd.randint(2, 4)
        scen.append(plain("bytes", rnd.sample(BSYNTAX, k), rnd.sample(range(9), k)))
        scen.append(plain("u8", rnd.sample(USYNTAX, k), rnd.sample(range(9), k)))
    for mode in ("bytes", "u8"):
        a, b = large(rnd, mode, deep)
        scen += a; mt += b
    # every single byte, alone and in a range up to the end
    for b in range(256):
        scen.append(plain("bytes", ["(?-u:\\x%02x)" % b, "(?-u:[\\x%02x-\\xff])" % b]))
        mt.append(dict(plain("bytes", ["(?-u:[\\x%02x-\\x%02x])" % (min(b, 255 - b), max(b, 255 - b)), "(?s-u:.)"]),
                       ops=[dict(op="match", s=[c]) for c in {0, 1, 127, 128, 254, 255, b, (b + 1) % 256, (b - 1) % 256}]))
    tables(run, scen, "tables")
    matches(run, mt + [lasting(rnd, ["bytes", "u8"][i % 2], False) for i in range(60 if deep else 8)], "matches")
    design(run, deep)


def l05(run, deep):
    rnd = random.Random(SEED * 1000 + 15)
    scen = [dict(mode=m, res=[], tags=[], par=0) for m in ("char", "bytes", "u8")]
    pools = dict(char=SYNTAX, bytes=BSYNTAX, u8=USYNTAX)
    for m in ("char", "bytes", "u8"):
        for r in BROKEN + UNSUP + VOID + PARTVOID + pools[m] + (UCLASS if m != "char" else []):
            scen.append(plain(m, [r], [7]))
            good = rnd.choice(pools[m])
            scen.append(plain(m, [r, good], [3, 5]))
            scen.append(plain(m, [good, r], [3, 5]))
        for _ in range(1500 if deep else 200):
            k = rnd.randint(2, 4)
            pool = BROKEN + UNSUP + VOID + PARTVOID + UCLASS + ["a", "b|c", "x*"] * 6
            if rnd.random() < .3:
                pool = VOID + PARTVOID + ["a", "b|c", "x*"]
            scen.append(plain(m, rnd.choices(pool, k=k), rnd.sample(range(9), k), rnd.choice([0, 1, 2])))
    # random strings of the characters that mean something
    sig = list("ab()[]{}*+?|\\^$.-,0129:<>=!&#~ ") + ["(?", "(?:", "\\x", "\\p", "[^", "{1,", "(?-u:", "&&", "\\d", "\\b", "é"]
    for _ in range(12000 if deep else 2500):
        r = "".join(rnd.choice(sig) for _ in range(rnd.randint(1, 8)))
        if any(len(x) > 2 for x in r.replace("}", "{").split("{") if x.isdigit()):
            continue
        scen.append(plain(rnd.choice(["char", "char", "bytes", "u8"]), [r] + ([rnd.choice(["a", "(", "x+"])] if rnd.random() < .2 else []), None, rnd.choice([0, 1, 2])))
    tables(run, scen, "builds", min_factor=1)
    design(run, deep)


CHECKS = dict(L01=l01, L02=l02, L03=l03, L04=l04, L05=l05)
