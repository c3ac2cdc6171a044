"""Random token enums with derived lexers: Rust code for the harness, descriptions for the specification."""
import random
from regexgen import *
from grammar import rstr

WORDS = ["Str", "Int", "Literal", "EOF", "Id", "Punct", "Op", "A", "B2", "X", "Key", "Word", "Char", "IEEE754", "Lit", "Value"]
DOCS = [["String literal."], ["Integer literal"], ["An Identifier.", "With more text."], ["", "Second line"], ["  Padded  "], ["UPPER case..."], ["."], [""],
        ["über-Literal."], ["A \"quoted\" \\ thing."], ["Three", "lines of", "documentation."], ["White   space", "", "kept."]]


def nullable(t):
    k = t[0]
    if k == "eps": return True
    if k in ("lit", "cls"): return False
    if k == "cat": return all(map(nullable, t[1]))
    if k == "alt": return any(map(nullable, t[1]))
    return t[1] == 0 or nullable(t[3])


class Fixed:
    """A hand-written expression with sample strings."""
    def __init__(self, text, *samples):
        self._text, self.samples = text, samples
        self.t = ("lit", 97)
    def text(self): return self._text
    def sample(self):
        import random
        s = self.r.choice(self.samples)
        return [ord(c) for c in s] if isinstance(s, str) else list(s)


class Lexers:
    def __init__(self, seed):
        self.rnd = random.Random(seed)
        self.lx, self.code, self.inst = [], [], []
        self.enums, self.ecode = [], []

    # ---------------------------------------------------------- variants
    FIELDS = {  # conversion: (field type, parser) for char and byte lexers
        "char": [("unit", None, None), ("unit", "()", None), ("text", "String", None), ("i16", "i16", None), ("u8", "u8", None), ("bool", "bool", None), ("char", "char", None),
                 ("text", "String", "|s: &str| Some(s.to_string())"), ("rev", "String", "|s: &str| Some(s.chars().rev().collect::<String>())"),
                 ("even", "String", "|s: &str| (s.chars().count() % 2 == 0).then(|| s.into())"), ("never", "u8", "|_: &str| None"),
                 ("first", "char", "|s: &str| s.chars().next()"), ("text", "Vec<u8>", "|s: &str| Some(s.bytes().collect())")],
        "u8": [("unit", None, None), ("unit", "()", None), ("text", "Vec<u8>", "|s: &[u8]| Some(s.to_vec())"), ("rev", "Vec<u8>", "|s: &[u8]| Some(s.iter().rev().copied().collect())"),
               ("even", "Vec<u8>", "|s: &[u8]| (s.len() % 2 == 0).then(|| s.to_vec())"), ("never", "u8", "|_: &[u8]| None"),
               ("first", "u8", "|s: &[u8]| s.first().copied()"), ("utf8", "String", "|s: &[u8]| String::from_utf8(s.to_vec()).ok()")],
    }

    def field(self, mode, r=None):
        fs = [f for f in self.FIELDS[mode] if f[1] != "Vec<u8>" or mode == "u8"]
        return (r or self.rnd).choice(fs)

    def name(self, used):
        while True:
            n = "".join(self.rnd.choice(WORDS) for _ in range(self.rnd.randint(1, 3)))
            if n not in used:
                used.add(n)
                return n

    def raw(self, name):
        """An identifier may be written raw: that is not a part of its name."""
        return ("r#" if self.rnd.random() < .3 else "") + name

    def docs(self): return self.rnd.choice(DOCS) if self.rnd.random() < .5 else []

    def add(self, mode, vs, par=None, attrs=""):
        """vs: [(kind, generator or None, field or None)]; returns the number of the lexer."""
        r, n, used = self.rnd, len(self.lx) + 1, set()
        vars_, body, arms, gens = [], [], [], []
        # generic parameters: of fields with the default conversion or one for any type, of variants that are no tokens
        gen = r.random() < .3
        df, use, inst, where = [], [], [], []
        if gen and r.random() < .5:
            x = r.choice(["life", "const", "both"])
            vs = list(vs)
            if x != "const": df.append("'x"); use.append("'x"); inst.append("'static"); vs.insert(r.randint(0, len(vs)), ("none", None, ("text", "&'x str", None)))
            if x != "life": vs.insert(r.randint(0, len(vs)), ("none", None, ("text", "[u8; N]", None)))
        for i, (kind, g, f) in enumerate(vs, 1):
            name, docs = self.name(used), self.docs()
            conv, ty, parser = f or ("unit", None, None)
            if gen and kind == "regex" and ty not in (None, "()") and parser is None and len(use) < 4:
                t = f"T{i}"
                use.append(t); inst.append(ty); ty = t
                b = r.choice(["FromStr", "std::str::FromStr + Val", "FromStr + Clone"])
                if r.random() < .5: df.append(f"{t}: {b}")
                else: df.append(t); where.append(f"{t}: {b}")
                if r.random() < .3: parser = "|s: &str| s.parse().ok()"
            vars_.append(dict(name=name, docs=docs, kind=kind, conv=conv))
            name = self.raw(name)
            at = ""
            if kind in ("regex", "skip"):
                g.r = r
                gens.append((i, kind, g, g.text()))
                at = f"#[{kind}({rstr(gens[-1][3])}" + (f", {parser}" if parser else "") + ")]\n"
            elif kind == "eof":
                at = "#[eof]\n"
            doc = "".join(f"#[doc = {rstr(d)}]\n" for d in docs)
            body.append(doc + at + name + ("()" if ty == "()" else f"({ty})" if ty else "") + ",\n")
            arms.append(f"Self::{name}{'()' if ty == '()' else '(v)' if ty else ''} => ({i}, {'v.ints()' if ty and ty != '()' else 'vec![]'}),\n")
        a = []
        if mode == "u8": a.append("#[char_type(u8)]")
        elif r.random() < .2: a.append("#[char_type(char)]")
        if par is not None: a.append(f"#[enable_par({'true' if par else 'false'})]")
        r.shuffle(a)
        if "N]" in "".join(body): df.append("const N: usize"); use.append("N"); inst.append("4")
        names = list(use)
        df, use, inst = ("<" + ", ".join(x) + ">" if x else "" for x in (df, use, inst))
        wh = " where " + ", ".join(where) if where else ""
        wv = wh + (", " if wh else " where ") + ", ".join(f"T{i}: Val" for i in range(len(vs) + 1) if f"T{i}" in names) if "T" in use else wh
        self.inst.append(f"L{n}{inst}")
        self.code.append("#[derive(Tokenize)]\n" + "\n".join(a) + f"\npub enum L{n}{df}{wh} {{\n{''.join(body)}}}\n"
                         f"impl{df} Lx for L{n}{use}{wv} {{ fn dump(&self) -> (i64, Vec<i64>) {{ match self {{\n{''.join(arms)}}} }} }}\n")
        self.lx.append(dict(mode=mode, vars=vars_, gens=gens))
        return n

    # ---------------------------------------------------------- random lexers
    def random(self, mode=None, nullables=.1):
        r = self.rnd
        mode = mode or r.choice(["char", "char", "u8"])
        alpha = r.choice([ASCII[:2], ASCII[:3], ASCII, ASCII, UNI[:6], UNI]) if mode == "char" else r.choice([ASCII[:3], [0x61, 0x62, 0x7f, 0x00]])
        if mode == "char" and r.random() < .3: alpha = alpha + [10, 32]
        vs = []
        for _ in range(r.choice([1, 2, 3, 3, 4, 5])):
            g = Gen(r, alpha, mode, r.choice([0, 1, 1, 2, 2, 3]))
            if vs and r.random() < .3:      # rules that share text
                o = r.choice(vs)[1]
                single = mode == "u8" and g.t[0] in ("lit", "cls") and o.t[0] in ("lit", "cls")       # they would become a Unicode class
                g.t = r.choice([("cat", [o.t, g.t]), ("cat" if single else "alt", [g.t, o.t]), ("rep", 1, 2, o.t), o.t])
            if r.random() < .25:            # back to the beginning: loops through the initial state
                g.t = ("cat", [("rep", 0, -1, g.t), ("lit", r.choice(alpha))])
            while nullable(g.t) and (r.random() >= nullables or not vs):
                g.t = ("cat", [("lit", r.choice(alpha)), g.t])
            vs.append(("regex", g, self.field(mode)))
        if r.random() < .6:
            g = Gen(r, alpha, mode, r.choice([0, 1, 2]))
            if nullable(g.t): g.t = ("cat", [("lit", r.choice(alpha)), g.t])
            vs.append(("skip", g, None))
        if r.random() < .7: vs.append(("eof", None, None if r.random() < .7 else ("unit", "()", None)))
        if r.random() < .3: vs.append(("none", None, r.choice([None, ("text", "String", None)])))
        first = vs[0]
        r.shuffle(vs)
        return self.add(mode, vs, r.choice([None, None, True, False]))

    def fixed(self):
        """Lexers every check has: a programming language, keywords, counting states."""
        F = Fixed
        out = [self.add("char", [("skip", F(r"\s+", " ", "\n", " \t\r\n"), None), ("skip", F(r"//[^\n]*\n", "// c\n", "//\n"), None),
            ("regex", F("if|else|while|return", "if", "else", "while", "return"), ("text", "String", None)),
            ("regex", F("[_a-zA-Z][_a-zA-Z0-9]*", "i", "iff", "whil", "x_1", "returns"), ("text", "String", None)),
            ("regex", F("[0-9]+", "0", "7", "255", "256", "32767", "32768", "99999"), ("i16", "i16", None)),
            ("regex", F("-[0-9]+", "-0", "-7", "-32768", "-32769"), ("i16", "i16", None)),
            ("regex", F(r'"([^\x00-\x1f"\\]|\\.)*"', '""', '"a b"', '"\\""', '"é"'), ("text", "String", None)),
            ("regex", F(r"\+|-|\*|/|=|==|<=|<<=|<", "+", "-", "==", "<<=", "<"), ("text", "String", None)),
            ("regex", F(r".", "$", "é", "😀"), ("char", "char", None)), ("eof", None, None)])]
        # the longest viable prefix may be no token at all
        out.append(self.add("char", [("regex", F("a", "a"), None), ("regex", F("abcd", "abcd"), None), ("regex", F(r"\.", "."), None), ("regex", F(r"\.\.\.", "..."), None), ("skip", F(" ", " "), None), ("eof", None, None)], True))
        # the same text by several rules; no end-of-file
        out.append(self.add("char", [("skip", F("x+", "x", "xx"), None), ("regex", F("[a-z]+", "abc", "xx", "xy"), ("text", "String", None)), ("regex", F("abc", "abc"), None), ("regex", F("[0-9]{2,3}", "12", "123"), ("u8", "u8", None))], False))
        out.append(self.add("u8", [("regex", F("(?-u:[a-z])+", "abc", "xx"), ("text", "Vec<u8>", "|s: &[u8]| Some(s.to_vec())")), ("regex", F("(?-u:[0-9])+", "12"), ("even", "Vec<u8>", "|s: &[u8]| (s.len() % 2 == 0).then(|| s.to_vec())")),
            ("regex", F("日本|日光", "日本".encode(), "日光".encode(), "日".encode()), ("utf8", "String", "|s: &[u8]| String::from_utf8(s.to_vec()).ok()")), ("skip", F("(?-u:[ \\n])", " ", "\n"), None), ("eof", None, ("unit", "()", None))]))
        # automata that come back to their initial state without a match
        out.append(self.add("char", [("regex", F("(ab)*c", "c", "abc", "ababc", "ab", "aba"), ("text", "String", None)), ("skip", F("(xy)*z", "z", "xyz", "xy"), None), ("eof", None, None)]))
        out.append(self.add("u8", [("regex", F("(ab)*c", "c", "abc", "ababc", "ab"), None), ("eof", None, ("unit", "()", None))]))
        out.append(self.add("char", [("regex", F("(a|b)*abb", "abb", "aabb", "ababb", "ab"), ("text", "String", None))]))
        return out

    def counted(self, sizes):
        """Lexers with a given number of states."""
        for i, n in enumerate(sizes):
            mode = "char" if i % 2 == 0 else "u8"
            if i % 3: k = n - 2; self.add(mode, [("regex", Fixed("a{%d}" % k, "a" * k), None), ("regex", Fixed("b", "b"), None), ("eof", None, None)])
            else: k = n - 1; self.add(mode, [("regex", Fixed("(?:b|a{%d})" % k if i % 2 == 0 else "(?:b|aa{%d})" % (k - 1), "a" * k, "b"), None), ("eof", None, None)])

    def keywords(self, n):
        r = self.rnd
        ks = []
        while len(ks) < n:
            k = "".join(r.choice("abcdefgh") for _ in range(r.randint(2, 7)))
            if k not in ks: ks.append(k)
        vs = [("regex", Fixed(k, k), None) for k in ks]
        vs.append(("regex", Fixed("[a-z]+", "zz", *[k[:-1] for k in ks[:5]]), ("text", "String", None)))
        vs += [("skip", Fixed(" +", " "), None), ("eof", None, None)]
        return self.add("char", vs)

    # ---------------------------------------------------------- token kinds (K01)
    PAY = [("i64", ["0", "-5", "42"]), ("u8", ["0", "255"]), ("char", ["'a'", "'\\u{e9}'", "'`'"]), ("String", ['"".to_string()', '"a b".to_string()', '"{}".to_string()']),
           ("bool", ["true", "false"]), ("f64", ["1.5", "0.0"]), ("&'static str", ['"str"', '""']), ("W1", ["W1(3)", "W1(-1)"]), ("i32", ["7", "-7"]), ("Box<str>", ['"boxed".into()'])]
    PLAIN = [("unit", "", "", ""), ("tuple0", "()", "()", "()"), ("tuple2", "(i64, String)", "(1, \"s\".into())", "(..)"), ("named", " { a: i64, b: char }", " { a: 1, b: 'x' }", " { .. }"),
             ("named1", " { only: u8 }", " { only: 9 }", " { .. }"), ("tuple3", "(u8, u8, u8)", "(1, 2, 3)", "(..)")]

    def kind(self, npay, nplain):
        r, used = self.rnd, set()
        n = len(self.enums) + 1
        vs = [("one", t, v) for t, v in r.sample(self.PAY, npay)] + [r.choice(self.PLAIN) for _ in range(nplain)]
        r.shuffle(vs)
        info, body, arms, vals = [], [], [], []
        for i, v in enumerate(vs, 1):
            name, docs = self.name(used), [d for d in self.docs() if "{" not in d]
            doc = "".join(f"#[doc = {rstr(d)}]\n" for d in docs)
            plain, name = name, self.raw(name)
            if v[0] == "one":
                body.append(f"{doc}{name}({v[1]}),\n"); arms.append(f"Self::{name}(..) => {i},\n")
                info.append(dict(name=plain, docs=docs, kind="one")); vals.append([(f"{x}", name, v[1]) for x in v[2]])
            else:
                body.append(f"{doc}{name}{v[1]},\n"); arms.append(f"Self::{name}{v[3]} => {i},\n")
                info.append(dict(name=plain, docs=docs, kind="plain")); vals.append([(v[2], name, None)])
        pays = [(i, v[1]) for i, v in enumerate(vs, 1) if v[0] == "one"]
        code = f"#[token_kind]\n#[derive(Debug)]\npub enum K{n} {{\n{''.join(body)}}}\nimpl Kx for K{n} {{ fn var(&self) -> i64 {{ match self {{\n{''.join(arms)}}} }} }}\n"
        code += f"pub fn kind{n}(o: &J) -> J {{\n  let (k, pd, from): (K{n}, String, J) = match (o.at(\"var\").int(), o.at(\"val\").int()) {{\n"
        count = []
        for i, vv in enumerate(vals, 1):
            count.append(len(vv))
            for j, (x, name, ty) in enumerate(vv):
                if ty:
                    code += f"    ({i}, {j}) => {{ let p: {ty} = {x}; (K{n}::{name}(p.clone()), p.to_string(), J::I(K{n}::from(p.clone()).var() * if K{n}::from(p.clone()) == K{n}::{name}(p.clone()) {{ 1 }} else {{ -1 }})) }}\n"
                else:
                    code += f"    ({i}, {j}) => (K{n}::{name}{x}, String::new(), J::I(0)),\n"
        code += "    _ => usage(\"value\"),\n  };\n"
        code += f"  let own = J::A(vec![{', '.join(f'opt::<{t}>(<{t}>::try_from(k.clone()))' for _, t in pays)}]);\n"
        code += f"  let by_ref = J::A(vec![{', '.join(f'opt::<&{t}>(<&{t}>::try_from(&k))' for _, t in pays)}]);\n"
        code += "  obj! {\"disp\": k.to_string(), \"pd\": pd, \"from\": from, \"own\": own, \"by_ref\": by_ref, \"var\": k.var(), \"eq\": k == k.clone()}\n}\n"
        self.ecode.append(code)
        self.enums.append(dict(vars=info, pays=[i for i, _ in pays], count=count))
        return n

    # ---------------------------------------------------------- the file
    def source(self):
        s = "".join(self.code) + "".join(self.ecode)
        s += "pub fn run_lexer(i: i64, s: &J) -> Vec<J> { match i {\n" + "".join(f"{i} => run_{x['mode']}::<{self.inst[i - 1]}>(s),\n" for i, x in enumerate(self.lx, 1)) + "_ => usage(\"lexer\") } }\n"
        s += "#[derive(Clone, PartialEq, Debug)] pub struct W1(i32);\nimpl std::fmt::Display for W1 { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, \"<{}>\", self.0) } }\n"
        s += "pub fn run_kind(i: i64, o: &J) -> J { match i {\n" + "".join(f"{i} => kind{i}(o),\n" for i in range(1, len(self.enums) + 1)) + "_ => usage(\"enum\") } }\n"
        return s
