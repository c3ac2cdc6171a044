"""E01: from characters to syntax trees, against EndToEnd."""
import random, shutil
from vlib import *
from grammar import *
import tokens
from tokens import small, fixed_derived, randoms, mutate, history, stop, look, toknodes, drain, ALPHA
from lexer import pieces


def kind_code(r, mode):
    """A token kind with a derived lexer: its code, its rules [(number of the variant, expression)], its variants."""
    u8 = mode == "u8"
    C = (lambda x: f"(?-u:[{x}])") if u8 else (lambda x: f"[{x}]")
    d = C("0-9")
    num = r.choice([f"{d}+", f"0|{C('1-9')}{d}*", f"{d}+(?:x|yy)?", f"{d}{{1,3}}", f"{d}+|x{d}{{3}}"])
    word = r.choice([f"w(?:0|{C('1-9')}{d}{{0,2}})", f"w{d}", f"w(?:{d}|{C('1-9')}{d})"])
    sym = r.choice([C("!-~"), C("!-~"), C("^0-9 \\n") if not u8 else C("!-/:-~"), C("a-z+-") + ("|€|=>" if not u8 else "|=>"), "." if not u8 else C("\\x21-\\x7e")])
    plus = r.choice(["plus", r"\+\+|plus", "p(?:lus)+", "plus|PLUS|pl"])
    nconv = r.choice(["i16", "u8", "i16"])
    prs = {"i16": "i16", "u8": "u8"}[nconv]
    nums = f"|s: &[u8]| std::str::from_utf8(s).ok()?.parse::<{prs}>().ok().map(i64::from)" if u8 else f"|s: &str| s.parse::<{prs}>().ok().map(i64::from)"
    syms = "|s: &[u8]| (s.len() == 1).then(|| s[0] as char)" if u8 else r.choice([None, "|s: &str| s.parse().ok()"])
    words = "|s: &[u8]| String::from_utf8(s.to_vec()).ok()" if u8 else r.choice([None, "|s: &str| Some(s.into())"])
    ws = C(" \\n")
    skips = [ws + "+"] + r.sample([f"#{C('^#') if not u8 else C(' -~')}*?#" if False else f"#{C('a-z ')}*#", "//" + C("a-z ") + "*\\n", "\\\\\\n" if not u8 else "~~"], r.randint(0, 2))
    if r.random() < .1: skips = []
    vs = [("regex", num, nums, "Number.", "Num", "(i64)", nconv, 0), ("regex", sym, syms, "Symbol.", "Sym", "(char)", "char", 1),
          ("regex", word, words, None, "Word", "(String)", "text", 2), ("regex", plus, None, "Plus sign.", "Plus", "", "unit", 3),
          ("eof" if r.random() < .8 else "none", None, None, None, "EndOfFile", "", "unit", 4)]
    vs += [("skip", s, None, None, f"_Skip{i}", "", "unit", 9) for i, s in enumerate(skips)]
    if r.random() < .6:
        # the usual order: what is specific in front
        vs.sort(key=lambda v: {"Plus": 0, "Word": 1, "Sym": 3}.get(v[4], 2))
    else: r.shuffle(vs)
    body, rules, info = [], [], []
    for i, (kind, re, conv, doc, name, pay, c, k) in enumerate(vs, 1):
        at = f"#[eof]\n" if kind == "eof" else "" if kind == "none" else f"#[{kind}({rstr(re)}" + (f", {conv}" if conv else "") + ")]\n"
        at = [at] + ([f"/// {doc}\n"] if doc else [])
        body.append("".join(reversed(at)) + f"{name}{pay},\n")
        if re: rules.append((i, re))
        info.append(dict(name=name, docs=[doc] if doc else [], kind=kind, conv=c, k=k))
    a = ["#[char_type(u8)]"] if u8 else ["#[char_type(char)]"] if r.random() < .2 else []
    if r.random() < .5: a.append(f"#[enable_par({r.choice(['true', 'false'])})]")
    r.shuffle(a)
    code = "#[token_kind]\n#[derive(Debug, Eq, Hash, Tokenize)]\n" + "\n".join(a) + "\npub enum Kind {\n" + "".join(body) + "}\n"
    code += f"pub type Chars = laps::reader::{'ByteReader' if u8 else 'Reader'}<Box<dyn std::io::Read>>;\n"
    return code, rules, info


class EndWorld:
    def __init__(self, run, i, deep):
        self.run, self.i = run, i
        self.rnd = r = random.Random(SEED * 1000 + 71 + i)
        self.mode = ["char", "u8"][i % 3 == 1]
        g = self.g = Grammar(SEED * 7919 + 500 + i)
        g.fixed_tokens()
        for j in range(5): g.random_token(j)
        g.leaves = [n for n, _, _ in g.toknames if n != g.T["h"]]
        g.kindcode, rules, vars_ = kind_code(r, self.mode)
        fixed_derived(g)
        fx = [n for n, _ in g.roots]
        g.roots = []
        rs = randoms(g, 40 if deep else 14, lambda: r.choice([g.renum, g.rstruct])(2) if r.random() < .6 else g.rtype(r.choice([2, 3])))
        e = g.T["h"]
        rs += [g.tuple(n, e) for n in r.sample(rs, 4)] + [g.struct([g.vec(r.choice(rs[:4])), e]) if not g.nullable(rs[0]) and False else g.struct([r.choice(rs), e])]
        self.types = sorted(set(rs) | set(r.sample(sorted(set(fx)), 6)))
        g.roots = [(n, "lex") for n in self.types]
        d = os.path.join(BUILD, "gen")
        os.makedirs(d, exist_ok=True)
        self.src = os.path.join(d, f"{run.pid}-{i}.rs")
        code = g.code()
        if not os.path.exists(self.src) or open(self.src).read() != code:
            with open(self.src, "w") as f: f.write(code)
        self.rules, self.vars = rules, vars_

    def build(self):
        self.bin = self.run.path(f"tok{self.i}")
        shutil.copy(build("tok", extra=dict(LAPS_GEN=self.src)), self.bin)
        self.gram = self.run.path(f"grammar{self.i}.ndjson")
        with open(self.gram, "w") as f: f.write(json.dumps(dict(nodes=self.g.nodes)) + "\n")
        out = self.run.path(f"trees{self.i}.ndjson")
        run_harness(build("rx"), "trees", [dict(mode=self.mode, res=[[ord(c) for c in t] for _, t in self.rules], tags=[i for i, _ in self.rules])], out)
        self.lx = next(iter(ndjson(out)))
        if not all(r["ok"] for r in self.lx["rules"]): raise ToolError(f"a generated rule is not an expression: {self.rules}")

    # ------------------------------------------------------------- texts
    JUNK = "w12 plus 0x9yy=>+€#a#//b\n~\\!ppl 300 w 99999 -"

    def render(self, word, sep=.93):
        r, out = self.rnd, []
        for k, v in word:
            if k == EOF: break
            t = {NUM: str(v), SYM: chr(v), WORD: f"w{v}", PLUS: "plus"}[k]
            if self.mode == "u8" and any(ord(c) > 126 for c in t): t = "+"
            out.append(t)
            x = r.random()
            if x < sep: out.append(r.choice([" ", " ", " ", "\n", "  ", "\n ", " #a b# ", "//x\n", " "]))
        return "".join(out)

    def text(self, n):
        r = self.rnd
        ws = self.g.words(n, 1)
        w = ws[0] if ws else [r.choice(ALPHA) for _ in range(r.randint(0, 5))]
        if r.random() < .25: w = mutate(r, w)
        if r.random() < .3: w = list(w) + [r.choice(ALPHA) for _ in range(r.randint(1, 3))]
        w = w[:14]
        t = self.render(w, r.choice([1, .95, .6]))
        if r.random() < .25:
            j = r.randint(0, len(t)); a = r.randrange(len(self.JUNK))
            t = t[:j] + self.JUNK[a:a + r.randint(1, 3)] + t[j + r.choice([0, 0, 1]):]
        if self.mode == "u8": t = "".join(c if ord(c) < 127 else "~" for c in t)
        return t[:70]

    def ops(self, n, t):
        r = self.rnd
        ops = []
        word = [r.choice(ALPHA)]
        if r.random() < .15:
            # far lookahead, and where the characters are while it is used up
            k = r.choice([3, 5, 6, 9, 12, 17])
            ops.append(dict(op="peekn", n=k))
            for _ in range(k + r.choice([-1, 0, 0, 2])):
                ops.append(dict(op="next"))
                if r.random() < .25: ops.append(dict(op="char", do=dict(op=r.choice(["peek", "peeks"]))))
                if r.random() < .05: ops.append(dict(op="unread"))
            return ops + drain(2)
        if r.random() < .3: ops.append(dict(op="maybe", g=n))
        if r.random() < .15: ops.append(r.choice([dict(op="peek", n=1), dict(op="peekn", n=r.randint(0, 4)), dict(op="peek2", n=2)]))
        ops.append(dict(op="parse", g=n))
        for _ in range(r.choice([0, 1, 2, 3, 6])):
            x = r.random()
            if x < .25: ops.append(dict(op=r.choice(["parse", "maybe"]), g=r.choice(self.types)))
            elif x < .30: ops.append(dict(op="unwrap", g=r.choice(toknodes(self.g))))
            elif x < .50:       # recovery: something of the characters is left out
                ops.append(dict(op="char", do=r.choice([dict(op="nextc"), dict(op="nextc"), dict(op="peek"), dict(op="nexts"), dict(op="nspan"), dict(op="peeks"),
                                                        dict(op="skip", stop=[10, ord(r.choice(t or "a"))]), dict(op="coll", stop=[32, 10])])))
                if r.random() < .15:
                    ops[-1]["do"] = dict(op="next")
                    if r.random() < .7: ops.append(dict(op="char", do=dict(op="unread")))
                if r.random() < .5: ops.append(dict(op=r.choice(["rewrap", "relex"])))
            elif x < .56: ops.append(dict(op=r.choice(["rewrap", "relex"])))
            else: ops += [o for o in history(r, 1, dict(toks=self.toks), word, "eof", "buf", toknodes(self.g), self.types)]
        return ops + drain(r.choice([1, 2, 3]))

    def scenarios(self, n):
        r, out = self.rnd, []
        self.toks = [dict(k=k, v=v, sp=[r.randint(1, 9), r.randint(0, 9), 10, r.randint(0, 20)]) for k, v in [(EOF, 0)] + [r.choice(ALPHA) for _ in range(3)]]
        for i in range(n):
            ty = self.types[i % len(self.types)]
            t = self.text(ty)
            bs = list(t.encode())
            ctor = r.choice(["slice", "pieces", "chain"])
            out.append(dict(src=pieces(r, bs) if ctor == "pieces" else bs, ctor=ctor, toks=self.toks, ops=self.ops(ty, t)))
        return out

    def check(self, n):
        scen = self.scenarios(n)
        # what reads until something comes may read on forever: the end stops it
        for s in scen:
            for o in s["ops"]:
                if o["op"] in ("skip", "coll"): o["stop"] = o["stop"] + [alt(EOF)]
        out = self.run.path(f"traces{self.i}.ndjson")
        run_harness(self.bin, "e2e", scen, out)
        chars = {c for s in scen for c in bytes(b for b in s["src"] if b < 256).decode(errors="replace")} | {chr(v) for k, v in ALPHA if k == SYM}
        lex = self.run.path(f"lexer{self.i}.ndjson")
        with open(lex, "w") as f:
            f.write(json.dumps(dict(self.lx, vars=self.vars, mode=self.mode, chr={str(ord(c)): c for c in chars})) + "\n")
        r = validate("TraceEndToEnd", out, len(scen), env=dict(GRAMMAR=self.gram, LEXERS=lex), min_states=2 * len(scen) + sum(len(s["ops"]) for s in scen))
        self.run.add(r, traces=len(scen))
        for s in scen[:2]: self.run.sample(s)


def e01(run, deep):
    run.add(model_check("EndToEndModel", "EndToEndModel_deep" if deep else "EndToEndModel", min_states=20000))
    ws = [EndWorld(run, i, deep) for i in range(6 if deep else 2)]
    for w in ws: w.build()
    for w in ws: w.check(4000 if deep else 1000)


CHECKS = dict(E01=e01)
