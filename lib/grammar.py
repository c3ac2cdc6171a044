"""Random grammars: the same types as Rust code for the harness and as nodes for the specification."""
import random

NUM, SYM, WORD, PLUS, EOF = range(5)
BIG = 10**6


def disp(k, v):
    return [f"number `{v}`", f"symbol `{chr(v)}`", f"word `w{v}`", "plus sign", "end of file"][k]


def alt(k, lo=0, hi=BIG, m=1, r=0):
    return dict(k=k, lo=lo, hi=hi, m=m, r=r)


class Grammar:
    def __init__(self, seed):
        self.rnd = random.Random(seed)
        self.nodes, self.info, self.items, self.toknames = [], [], [], []
        self.roots = []        # (node, stream)
        self.memo = {}
        self.kindcode = None   # the token kind, if it is not the usual one
        self.gens = {}         # name and generic parameters of enums

    # ------------------------------------------------------------- nodes
    def add(self, t, rust, a=(), pats=(), sw=(), vs=(), want="", nullable=False, span="s", dump=True):
        key = (t, rust)
        if key in self.memo:
            return self.memo[key]
        self.nodes.append(dict(t=t, a=list(a), pats=list(pats), sw=list(sw), vs=[list(v) for v in vs], want=want))
        self.info.append(dict(rust=rust, nullable=nullable, span=span))
        n = len(self.nodes)
        self.memo[key] = n
        return n

    def rust(self, n): return self.info[n - 1]["rust"]
    def nullable(self, n): return self.info[n - 1]["nullable"]
    def span(self, n): return self.info[n - 1]["span"]

    def tok(self, name, pat, pats, want, prompt=True):
        n = self.add("tok", f"Tok![{name}]", pats=pats, want=want)
        p = f", prompt: {rstr(want)}" if prompt else ""
        self.toknames.append((n, name, f"[{name}] => {{ kind: {pat}{p} }}"))
        return n

    def fixed_tokens(self):
        self.T = dict(
            a=self.tok("num", "Kind::Num(_)", [alt(NUM)], "number"),
            b=self.tok("+", "Kind::Sym('+')", [alt(SYM, 43, 43)], disp(SYM, 43), prompt=False),
            c=self.tok("plus", "Kind::Plus", [alt(PLUS)], disp(PLUS, 0), prompt=False),
            d=self.tok("any word", "Kind::Word(_)", [alt(WORD)], "a word"),
            e=self.tok("5", "Kind::Num(5)", [alt(NUM, 5, 5)], disp(NUM, 5), prompt=False),
            f=self.tok("even", "Kind::Num(n) if *n % 2 == 0", [alt(NUM, m=2)], "even number"),
            g=self.tok("=>", "Kind::Sym('a'..='f' | 'x')", [alt(SYM, 97, 102), alt(SYM, 120, 120)], "a letter"),
            h=self.tok("eof", "Kind::EndOfFile", [alt(EOF)], disp(EOF, 0), prompt=False),
            i=self.tok("plus or num", "Kind::Plus | Kind::Num(3..=4)", [alt(PLUS), alt(NUM, 3, 4)], "plus or 3 or 4"),
        )

    # visibilities of a token_ast macro, the module it is in, and the innermost module that may use what is restricted
    VIS = [("", "vis::m", "vis::m"), ("pub(self)", "vis::m", "vis::m"), ("pub(super)", "vis::m", "vis"), ("pub(crate)", "vis::m", ""),
           ("pub", "vis::m", ""), ("pub(in crate::gen)", "vis::m", ""), ("pub(in crate::gen::vis)", "vis::m", "vis"), ("pub(in super::super)", "vis::m", ""),
           ("pub(in self)", "vis::m", "vis::m"), ("pub(in super)", "vis::m", "vis")]

    def visible_tokens(self):
        """Token ASTs of macros with every visibility: node -> (module, place of use, alias)."""
        self.vis = {}
        for i, (v, mod, use) in enumerate(self.VIS):
            for j in range(2):
                self.random_token(f"{i}{j}v")
                n, name, arm = self.toknames.pop()
                al = f"V{i}x{j}"
                self.memo.pop(("tok", self.rust(n)))
                self.info[n - 1]["rust"] = f"{mod}{i}::{al}".replace("vis::m", "vis::m")
                self.vis[n] = (i, al, name, arm)

    def visible_code(self):
        at = {"": [], "vis": []}
        out = ["pub mod vis { use super::*;"]
        for i, (v, mod, use) in enumerate(self.VIS):
            mine = [(n, al, name, arm) for n, (k, al, name, arm) in self.vis.items() if k == i]
            # the path of the module may be written or left out
            path = f"crate::gen::vis::m{i}::" if v not in ("", "pub(self)", "pub(in self)") or i % 2 else ""
            out.append(f"pub mod m{i} {{ use super::*; token_ast! {{ #[derive(Clone, Debug, PartialEq)] {v} macro {path}Vis{i}<Kind> {{ " + ", ".join(arm for _, _, _, arm in mine) + " } }")
            for n, al, name, _ in mine:
                out.append(f"pub type {al} = Vis{i}![{name}];")
                code = (f"impl Dump for {'vis::m%d::' % i if use == '' else 'm%d::' % i if use == 'vis' else ''}{al} {{ fn dump(&self, cx: &Cx, o: &mut Vec<i64>) {{ o.push(cx.find(&self.0)) }} }}\n"
                        f"pub fn unwrap{n}<S: Stream>(s: &mut S, cx: &Cx) -> Result<(Vec<i64>, Vec<i64>)> {{ unwraps!({'vis::m%d::' % i if use == '' else 'm%d::' % i if use == 'vis' else ''}{al}, s, cx) }}")
                if use == "vis::m": out.append(code)
                else: at[use].append(code)
            out.append("}")
        out += at["vis"] + ["}"] + at[""]
        return out

    def unwrap_place(self, n):
        i, use = self.vis[n][0], self.VIS[self.vis[n][0]][2]
        return {"": "", "vis": "vis::", "vis::m": f"vis::m{i}::"}[use] + f"unwrap{n}"

    def random_token(self, i):
        r, name = self.rnd, f"r{i}"
        alts, pat = [], []
        guard = None
        n = r.choice([1, 1, 1, 2, 3])
        if r.random() < .15:       # no prompt: one value
            k = r.choice([NUM, SYM, PLUS])
            v = r.randint(0, 9) if k == NUM else r.choice([43, 45, 97, 34, 92, 0x20ac]) if k == SYM else 0
            lit = {NUM: f"Kind::Num({v})", SYM: f"Kind::Sym({rchr(v)})", PLUS: "Kind::Plus"}[k]
            return self.tok(name, lit, [alt(k, v, v)], disp(k, v), prompt=False)
        for _ in range(n):
            k = r.choice([NUM, NUM, SYM, WORD, PLUS])
            if k == NUM:
                lo = r.randint(0, 8); hi = lo + r.randint(0, 4)
                alts.append(alt(NUM, lo, hi)); pat.append(f"Kind::Num({lo}..={hi})")
            elif k == SYM:
                lo = r.randint(97, 120); hi = lo + r.randint(0, 2)
                alts.append(alt(SYM, lo, hi)); pat.append(f"Kind::Sym({rchr(lo)}..={rchr(hi)})")
            elif k == WORD:
                alts.append(alt(WORD)); pat.append("Kind::Word(_)")
            else:
                alts.append(alt(PLUS)); pat.append("Kind::Plus")
        if n == 1 and r.random() < .6:
            k = alts[0]["k"]
            m = r.randint(2, 3); q = r.randint(0, m - 1); lo = r.randint(0, 4)
            if k == NUM:
                pat, alts, guard = ["Kind::Num(n)"], [alt(NUM, lo, BIG, m, q)], f"*n >= {lo} && *n % {m} == {q}"
            elif k == SYM:
                pat, alts, guard = ["Kind::Sym(c)"], [alt(SYM, 97, 122, m, q)], f"c.is_ascii_lowercase() && *c as u32 % {m} == {q}"
            elif k == WORD:
                pat, alts, guard = ["Kind::Word(w)"], [alt(WORD, lo, lo)], f"w == {rstr(f'w{lo}')}"
        s = " | ".join(pat)
        if r.random() < .2:
            s = "| " + s
        if guard:
            s += f" if {guard}"
        return self.tok(name, s, alts, r.choice(["thing", "the `quoted` thing", f"token {i}"]))

    # ------------------------------------------------------------- types
    def box(self, c): return self.add("box", f"Box<{self.rust(c)}>", [c], nullable=self.nullable(c), span="s" if self.span(c) == "s" else "n")
    def opt(self, c): return self.add("opt", f"Option<{self.rust(c)}>", [c], nullable=True, span="t" if self.span(c) != "n" else "n")
    def vec(self, c): return self.add("vec", f"Vec<{self.rust(c)}>", [c], nullable=True, span="t" if self.span(c) != "n" else "n")

    def tuple(self, *cs):
        sp = "s" if self.span(cs[0]) == "s" and self.span(cs[-1]) == "s" else "n"
        return self.add("tuple", "(" + "".join(self.rust(c) + ", " for c in cs) + ")", cs, nullable=all(map(self.nullable, cs)), span=sp)

    def neseq(self, c): return self.add("neseq", f"NonEmptySeq<{self.rust(c)}>", [c], nullable=False, span="s" if self.span(c) == "s" else "n")

    SEPS = dict(sepseq="SepSeq", optsepseq="OptSepSeq", nesepseq="NonEmptySepSeq", neoptsepseq="NonEmptyOptSepSeq",
                neseplist="NonEmptySepList", neoptseplist="NonEmptyOptSepList")

    def sep(self, t, x, s):
        if t in ("sepseq", "optsepseq"):
            nl, sp = True, "t" if self.span(x) != "n" else "n"
        elif t == "neoptseplist":
            nl, sp = self.nullable(x), "s" if self.span(x) == self.span(s) == "s" else "n"
        else:
            nl, sp = self.nullable(x), "s" if self.span(x) == "s" else "n"
        return self.add(t, f"{self.SEPS[t]}<{self.rust(x)}, {self.rust(s)}>", [x, s], nullable=nl, span=sp)

    def seplist(self, x, s, o=False):     # the aliases SepList and OptSepList
        c = self.sep("neoptseplist" if o else "neseplist", x, s)
        return self.add("opt", f"{'OptSepList' if o else 'SepList'}<{self.rust(x)}, {self.rust(s)}>", [c], nullable=True,
                        span="t" if self.span(c) != "n" else "n")

    def quoted(self, l, t, r):
        return self.add("quoted", f"Quoted<{self.rust(l)}, {self.rust(t)}, {self.rust(r)}>", [l, t, r],
                        nullable=all(map(self.nullable, (l, t, r))), span="s" if self.span(l) == self.span(r) == "s" else "n")

    def prefix(self, t, p, x):
        nm = dict(optprefix="OptPrefix", opttokprefix="OptTokenPrefix", tokprefix="TokenPrefix")[t]
        nl = self.nullable(x) and (t != "tokprefix" or self.nullable(p))
        return self.add(t, f"{nm}<{self.rust(p)}, {self.rust(x)}>", [p, x], nullable=nl,
                        span="s" if self.span(p) == self.span(x) == "s" else "n")

    def shy(self, p, x):
        """A type of the user's own: a part that is not kept in front of an optional one."""
        o = self.opt(x)
        return self.add("shy", f"Shy<{self.rust(p)}, {self.rust(x)}>", [p, o], nullable=self.nullable(p), span="t" if self.span(x) != "n" else "n")

    # ------------------------------------------------------------- derived types
    def fields(self, fs, named, spanned):
        """Rust fields and construct for dumping; spanned: mark with try_span what needs it."""
        out = []
        for i, f in enumerate(fs):
            ty = self.rust(f)
            at = "#[try_span] " if spanned and spanned[i] else ""
            out.append(f"{at}{f'f{i}: ' if named else ''}{ty}")
        return (" { " if named else "(") + ", ".join(out) + (" }" if named else ")")

    def spanplan(self, fs):
        """For each field whether it gets try_span, or None if Spanned cannot be derived."""
        if not fs:
            return None
        r = self.rnd
        solid = [i for i, f in enumerate(fs) if self.span(f) == "s"]
        if not solid:
            return None
        keep = r.choice(solid)
        plan = [self.span(f) == "t" or (self.span(f) == "s" and i != keep and r.random() < .3) for i, f in enumerate(fs)]
        first = next(i for i, p in enumerate(plan) if not p)
        last = max(i for i, p in enumerate(plan) if not p)
        for i, f in enumerate(fs):
            if self.span(f) == "n" and not (first < i < last and self.span(fs[first]) == "s" and self.span(fs[last]) == "s"):
                return None
        if self.span(fs[first]) != "s" or self.span(fs[last]) != "s":
            return None
        return plan

    def ident(self, p):
        self.cnt = getattr(self, "cnt", 0) + 1
        return f"{p}{self.cnt}"

    def generics(self, p=.3):
        """Generic parameters of a derived type: (definition, where clause, uses, arguments), or None."""
        r = self.rnd
        if r.random() >= p:
            return None
        life, ty, const = r.choice([(0, 0, 1), (1, 1, 0), (1, 1, 1), (1, 0, 0), (0, 1, 0), (0, 1, 1), (2, 1, 0), (2, 2, 1)])
        ls = ["'x", "'y: 'x"][:life]
        df, where, tail = [], [], []
        for t in ["T", "U"][:ty]:
            x = r.random()
            out = ["'static", "'x", "'y"][life]
            b = f"Level + {out}"
            if x < .4: df.append(f"{t}: {b}")
            elif x < .7: df.append(t); where.append(f"{t}: {b}")
            else: df.append(f"{t}: Level" + (" + ?Sized" if r.random() < .2 else "")); where.append(f"{t}: Sized + {out}")
        if r.random() < .3: where.append("[u8; 3]: Copy")
        if life and r.random() < .3: where.append("'x: 'x")
        cs = ["const N: usize"] * const
        if r.random() < .3: df, cs = [d + f" = Lv{r.randint(1, 2)}" for d in df], [c + " = 3" for c in cs]     # defaults
        elif r.random() < .4: df, cs = cs, df          # constants in front of types
        if r.random() < .2 and (df or cs): (df or cs)[0] = "#[allow(unused_attributes)] " + (df or cs)[0]
        nodefault = [d.split(" = ")[0] for d in ls + df + cs]
        args = [f"Lv{r.randint(1, 2)}" for _ in range(ty)]
        names = [d.split("] ")[-1].replace("const ", "").split(":")[0].split(" =")[0].strip() for d in ls + df + cs]
        it = iter(args)
        inst = ["'static" if n[0] == "'" else "3" if n == "N" else next(it) for n in names]
        w = " where " + ", ".join(where) + r.choice(["", ","]) if where else ""
        marks = [f"Mark<{l.split(':')[0]}, {t}>" for l, t in zip((ls + ["'static"] * 3), (["T", "U"][:ty] + ["Lv1"] * 3)) ][:max(life, ty)]
        return dict(df="<" + ", ".join(ls + df + cs) + ">", imp="<" + ", ".join(nodefault) + ">", use="<" + ", ".join(names) + ">", inst="<" + ", ".join(inst) + ">",
                    where=w, marks=marks)

    def mark(self, m):
        """A node for a field that takes no tokens."""
        return self.add("struct", m, [], nullable=True, span="n")

    def struct(self, fs, sw=(), spanned=None):
        """A struct of the fields; sw: nodes of token types for starts_with."""
        r = self.rnd
        name = self.ident("S")
        g = self.generics() if spanned is None else None
        if g:
            fs = list(fs)
            for m in g["marks"]:
                fs.insert(r.randint(min(len(fs), max(1, len(sw))), len(fs)), self.mark(m))
        else: g = dict(df="", imp="", use="", inst="", where="", marks=[])
        plan = self.spanplan(fs) if spanned is None else spanned
        named = r.random() < .6
        inst = name + g["inst"]
        n = self.add("struct", inst, fs, sw=sw, nullable=all(self.nullable(f) for f in fs), span="s" if plan else "n")
        at = self.attrs(sw, bool(fs))
        derives = "Parse, Spanned" if plan else "Parse"
        if fs: body = g["where"] + self.fields(fs, named, plan) if named else self.fields(fs, named, plan) + g["where"] + ";"
        else: body = r.choice([g["where"] + ";", g["where"] + " {}", "()" + g["where"] + ";"])
        acc = [f"self.f{i}" if named else f"self.{i}" for i in range(len(fs))]
        self.items.append(f"#[derive({derives})] {at} pub struct {name}{g['df']}{body}\n"
                          f"impl{g['imp']} Dump for {name}{g['use']}{g['where']} {{ fn dump(&self, cx: &Cx, o: &mut Vec<i64>) {{ tag(o, -9, {len(fs)}); "
                          + " ".join(f"{a}.dump(cx, o);" for a in acc) + " } }")
        return n

    def attrs(self, sw, needs):
        at = "#[token(Token)]" if needs or sw or self.rnd.random() < .5 else ""
        if sw:
            at += " #[starts_with(" + ", ".join(self.rust(s) for s in sw) + ")]"
        return at

    def reserve(self, kind, generic=True):
        """An enum that its own fields may mention."""
        name = self.ident("E")
        g = self.generics(.25) if generic else None
        n = self.add("enum", name + (g["inst"] if g else ""), nullable=False, span="s" if kind == "spanned" else "n")
        self.gens[n] = (name, g)
        return n

    def enum(self, n, vs, sw=(), nullable=None):
        name, g = self.gens[n]
        if g:
            vs = [list(v) for v in vs]
            if not any(len(v) > 1 for v in vs): vs[0] = (vs[0] or [self.leaf()]) + [self.leaf()]
            for m in g["marks"]:
                v = self.rnd.choice([v for v in vs if len(v) > 1])
                v.insert(self.rnd.randint(max(1, len(sw)), len(v) - 1), self.mark(m))
        else: g = dict(df="", imp="", use="", inst="", where="", marks=[])
        plans = [next((p for p in (self.spanplan(v) for _ in range(30)) if p is not None), None) for v in vs]
        sp = all(p is not None for p in plans) and bool(vs)
        if self.span(n) == "s" and not sp:
            raise ValueError("not spanned")
        nd = self.nodes[n - 1]
        nd["vs"], nd["sw"] = [list(v) for v in vs], list(sw)
        self.info[n - 1]["nullable"] = any(all(self.nullable(f) for f in v) for v in vs)
        at = self.attrs(sw, any(vs))
        lines, arms = [], []
        for i, v in enumerate(vs):
            named = self.rnd.random() < .4
            lines.append(f"V{i}" + (self.fields(v, named, plans[i] if self.span(n) == "s" else None) if v else ""))
            names = [f"x{j}" for j in range(len(v))]
            pat = (" { " + ", ".join(f"f{j}: x{j}" for j in range(len(v))) + " }" if named else "(" + ", ".join(names) + ")") if v else ""
            arms.append(f"Self::V{i}{pat} => {{ tag(o, {-11 - i}, {len(v)}); " + " ".join(f"{x}.dump(cx, o);" for x in names) + " }")
        self.items.append(f"#[derive({'Parse, Spanned' if self.span(n) == 's' else 'Parse'})] {at} pub enum {name}{g['df']}{g['where']} {{ {', '.join(lines)} }}\n"
                          f"impl{g['imp']} Dump for {name}{g['use']}{g['where']} {{ fn dump(&self, cx: &Cx, o: &mut Vec<i64>) {{ match self {{ {', '.join(arms)} }} }} }}")
        return n

    # ------------------------------------------------------------- random types
    def leaf(self):
        return self.rnd.choice(self.leaves)

    def rtype(self, depth, consuming=False):
        r = self.rnd
        if depth == 0 or r.random() < .12:
            return self.leaf()
        k = r.choice(["box", "opt", "vec", "tuple", "tuple", "neseq", "sep", "sep", "seplist", "quoted", "prefix", "prefix", "struct", "enum"])
        x = lambda c=True: self.rtype(depth - 1, c)
        if k in ("opt", "vec", "seplist") and consuming:
            k = r.choice(["tuple", "neseq", "prefix"])
        if k == "box": n = self.box(x(consuming))
        elif k == "opt": n = self.opt(x(r.random() < .9))
        elif k == "vec": n = self.vec(x())
        elif k == "tuple":
            cs = [x(False) for _ in range(r.choice([1, 2, 2, 3, 3, 4]))]
            if consuming and all(map(self.nullable, cs)):
                cs.insert(r.randint(0, len(cs)), self.leaf())
            n = self.tuple(*cs)
        elif k == "neseq": n = self.neseq(x())
        elif k == "sep":
            t = r.choice(list(self.SEPS))
            if consuming and t in ("sepseq", "optsepseq"):
                t = "ne" + t
            n = self.sep(t, x(), self.rtype(max(0, depth - 2), True))
        elif k == "seplist": n = self.seplist(x(), self.leaf(), r.random() < .5)
        elif k == "quoted": n = self.quoted(self.leaf(), x(False), self.leaf())
        elif k == "prefix":
            t = r.choice(["optprefix", "opttokprefix", "tokprefix"])
            p = self.rtype(max(0, depth - 2), True) if t == "optprefix" else self.leaf()
            n = self.prefix(t, p, x(consuming))
        elif k == "struct": n = self.rstruct(depth - 1, consuming)
        else: n = self.renum(depth - 1)
        if consuming and self.nullable(n):
            n = self.tuple(self.leaf(), n)
        return n

    def rstruct(self, depth, consuming=False):
        r = self.rnd
        fs = [self.rtype(depth) for _ in range(r.choice([0, 1, 2, 2, 3, 4] * 5 + [9, 13] if not consuming else [1, 2, 3]))]
        sw = []
        if fs and r.random() < .35:
            # leading token types, so that the declared prefix is the real one
            sw = [self.leaf() for _ in range(r.randint(1, 3))]
            fs = sw + fs
            if r.random() < .2:      # a declaration that is not what the fields say
                sw = sw[:-1] + [self.leaf()]
        if consuming and all(map(self.nullable, fs)):
            fs = [self.leaf()] + fs
        return self.struct(fs, sw)

    def renum(self, depth):
        r = self.rnd
        n = self.reserve(r.choice(["spanned", "plain"]))
        spanned = self.span(n) == "s"
        vs, nv = [], r.choice([1, 2, 3, 4] * 6 + [7, 11])
        unit = not spanned and r.random() < .2      # the last variant has no fields
        sw = [self.leaf()] if not unit and r.random() < .15 else []
        for i in range(nv):
            if i == nv - 1 and unit:
                vs.append([])
                continue
            fs = sw + [self.rtype(depth, True)]
            if spanned and self.span(fs[0]) != "s":
                fs = [self.leaf()]
            for _ in range(r.choice([0, 1, 1, 2])):
                y = r.random()
                if y < .3:   # recursion, behind a token
                    rec = self.box(n)
                    fs.append(r.choice([rec, rec if unit else self.vec(n), self.opt(rec)]) if not spanned else rec)
                else:
                    fs.append(self.rtype(depth))
            if spanned and self.spanplan(fs) is None:
                fs.append(self.leaf())
            vs.append(fs)
        try:
            return self.enum(n, vs, sw)
        except ValueError:
            return self.enum(n, [[self.leaf(), self.leaf()]])

    # ------------------------------------------------------------- words
    def word(self, n, budget):
        """A random word of a type, as (kind, value) pairs; budget is a one-element list."""
        r, nd = self.rnd, self.nodes[n - 1]
        t, a = nd["t"], nd["a"]
        budget[0] -= 1
        low = budget[0] < 0
        W = lambda c: self.word(c, budget)
        def many():
            if getattr(self, "stretch", 0):      # one repetition is long
                k, self.stretch = self.stretch, 0
                return k
            return 0 if low else r.choice([0, 1, 1, 2, 3])
        if t == "tok":
            p = r.choice(nd["pats"])
            return [(p["k"], pick(r, p))]
        if t == "box": return W(a[0])
        if t == "opt": return W(a[0]) if not low and r.random() < .6 else []
        if t == "vec": return [x for _ in range(many()) for x in W(a[0])]
        if t in ("tuple", "quoted", "struct", "tokprefix", "shy"): return [x for c in a for x in W(c)]
        if t == "neseq": return [x for _ in range(1 + many()) for x in W(a[0])]
        if t in self.SEPS:
            k = many() + (0 if t in ("sepseq", "optsepseq") else 1)
            out = []
            for i in range(k):
                if i: out += W(a[1])
                out += W(a[0])
            if k and "opt" in t and r.random() < .5: out += W(a[1])
            return out
        if t in ("optprefix", "opttokprefix"):
            return (W(a[0]) if r.random() < .5 else []) + W(a[1])
        if t == "enum":
            vs = nd["vs"]
            v = min(vs, key=len) if low else r.choice(vs)
            if budget[0] < -60: raise RecursionError
            return [x for c in v for x in W(c)]
        raise ValueError(t)

    def words(self, n, count):
        out = []
        for _ in range(count * 3):
            if len(out) >= count:
                break
            try:
                w = self.word(n, [self.rnd.choice([4, 10, 25])])
            except RecursionError:
                continue
            if len(w) <= 40:
                out.append(w)
        return out

    def long_word(self, n, count, longest=400):
        """A word of a type in which one part is repeated count times."""
        self.stretch = count
        try: w = self.word(n, [6])
        except RecursionError: w = []
        return None if self.stretch or len(w) > longest else w

    # ------------------------------------------------------------- output
    def code(self):
        arms = list(self.toknames)
        self.rnd.shuffle(arms)
        mod = "crate::gen::Tok" if self.rnd.random() < .5 else "Tok"
        out = [self.kindcode or KIND, "token_ast! {", "  #[derive(Clone, Debug, PartialEq)]", f"  pub(crate) macro {mod}<Kind> {{"]
        out += [f"    {x}," for _, _, x in arms]
        out += ["  }", "}"]
        for n, name, _ in self.toknames:
            out.append(f"impl Dump for Tok![{name}] {{ fn dump(&self, cx: &Cx, o: &mut Vec<i64>) {{ o.push(cx.find(&self.0)) }} }}")
        out.append("""macro_rules! unwraps { ($t:ty, $s:ident, $cx:ident) => {{ let t: $t = $s.parse()?;
      let mut o = Vec::new();
      o.push(guard(|| t.clone().unwrap::<i64, _>()).unwrap_or(-1));
      o.push(guard(|| t.clone().unwrap::<char, _>()).map_or(-1, |c| c as i64));
      o.push(guard(|| t.clone().unwrap::<String, _>()).map_or(-1, |w| w[1..].parse().unwrap()));
      o.push(guard(|| *t.unwrap_ref::<&i64, _>()).unwrap_or(-1));
      o.push(guard(|| *t.unwrap_ref::<&char, _>()).map_or(-1, |c| c as i64));
      o.push(guard(|| t.unwrap_ref::<&String, _>().clone()).map_or(-1, |w| w[1..].parse().unwrap()));
      let sp = Spanned::span(&t);
      Ok((vec![if sp == t.0.span { $cx.find(&t.0) } else { 0 }], o)) }} }""")
        if hasattr(self, "vis"): out += self.visible_code()
        out += self.items
        for st, ty in (("buf", "Buf"), ("own", "Own")) if not self.kindcode else (("lex", "Lexed"),):
            ps, ms = [], []
            for n, s in sorted(set(self.roots)):
                if s == st:
                    ps.append(f"    {n} => go::<{self.rust(n)}, {ty}>(s, cx, span_{self.span(n)}),")
                    ms.append(f"    {n} => <{self.rust(n)} as Parse<{ty}>>::maybe(s),")
            out += [f"pub fn parse_{st}(g: i64, s: &mut {ty}, cx: &Cx) -> Out {{ match g {{"] + ps + ["    _ => json::usage(\"grammar\") } }"]
            out += [f"pub fn maybe_{st}(g: i64, s: &mut {ty}) -> Result<bool> {{ match g {{"] + ms + ["    _ => json::usage(\"grammar\") } }"]
        out.append("pub fn la_step<'a, S: Stream>(l: Lookahead<'a, S, Token>, i: i64) -> Result<Lookahead<'a, S, Token>> { match i {")
        out += [f"    {n} => l.maybe(Tok![{name}])," for n, name, _ in self.toknames]
        out.append("    _ => json::usage(\"token type\") } }")
        out.append("pub fn unwrap_g<S: Stream>(g: i64, s: &mut S, cx: &Cx) -> Result<(Vec<i64>, Vec<i64>)> { match g {")
        for n, name, _ in self.toknames:
            out.append(f"    {n} => unwraps!(Tok![{name}], s, cx),")
        for n in getattr(self, "vis", {}):
            out.append(f"    {n} => {self.unwrap_place(n)}(s, cx),")
        out.append("    _ => json::usage(\"token type\") } }")
        if self.kindcode:
            for st, ty in (("buf", "Buf"), ("own", "Own")):      # not used
                out.append(f'pub fn parse_{st}(_: i64, _: &mut {ty}, _: &Cx) -> Out {{ json::usage("stream") }}\npub fn maybe_{st}(_: i64, _: &mut {ty}) -> Result<bool> {{ json::usage("stream") }}')
            out.append('include!(concat!(env!("CARGO_MANIFEST_DIR"), "/src/e2e.rs"));')
        else: out.append('pub fn e2e(_: J) -> J { json::usage("domain") }')
        return "\n".join(out) + "\n"


# The token kind all scenarios use.
KIND = """#[token_kind]
#[derive(Debug, Eq, Hash)]
pub enum Kind {
  /// Number.
  Num(i64),
  /// Symbol.
  Sym(char),
  Word(String),
  /// Plus sign.
  Plus,
  EndOfFile,
}
"""


def pick(r, p):
    """A value of an alternative."""
    if p["k"] in (PLUS, EOF): return 0
    lo, hi = p["lo"], min(p["hi"], 12 if p["k"] != SYM else 122)
    if p["k"] == SYM: lo = max(lo, 33)
    vs = [v for v in range(lo, max(lo, hi) + 1) if v % p["m"] == p["r"]]
    return r.choice(vs)


def rstr(s):
    return '"' + s.replace("\\", "\\\\").replace('"', '\\"') + '"'


def rchr(v):
    return "'\\u{%x}'" % v
