"""M01: which declarations the macros accept."""
import json, os, random, subprocess, time
from vlib import *
import vlib

FROMSTR, OTHER = ["String", "i32", "char", "bool", "f64"], ["Vec<u8>", "Nothing"]


# ------------------------------------------------------------------ making declarations
# What is declared may have any name.
ITEMS = ["Kind", "Token"] * 4 + ["Tokens", "Lexer", "Error", "State", "TokenKind", "r#type", "r#Fn", "Émile", "_Private", "T", "U", "X", "C", "Table", "Tokenizer", "Parse"]
MEMBERS = ["r#type", "r#match", "r#fn", "tokens", "span", "f", "v", "_x", "kind", "buf", "input", "é", "r#in", "err", "t", "c", "state", "x1", "tag"]
CASES = ["Ok", "Err", "Some", "None", "Token", "Skip", "Unknown", "Kind", "String", "Vec", "Result", "Option", "r#type", "r#Fn", "Eof", "Span", "CharType", "T", "_A", "Émile"]


def names(r, pool, prefix, n, p=.15):
    """Names for n things: plain ones, in part peculiar ones."""
    pick = r.sample(pool, min(n, len(pool))) + [None] * n
    odd = r.random() < p
    return [pick[i] if odd and pick[i] and r.random() < .7 else f"{prefix}{i}" for i in range(n)]


def called(r, name, p=.12):
    return r.choice(ITEMS) if r.random() < p else name


OTHERS = ["/// Some text.", "#[allow(dead_code)]", "#[cfg(all())]", "/** more */", "#[doc = \"x\"]", "#[doc(hidden)]"]


def some(r, l):
    """One of the list; nothing is changed if it has none."""
    return r.choice(l) if l else {}


def tokenize(r):
    d = dict(item="enum", chars=r.choice([[], [], ["char"], ["u8"]]), pars=r.choice([[], ["true"], ["false"]]), vars=[])
    byte = d["chars"] == ["u8"]
    for _ in range(r.randint(1, 4)):
        x = r.random()
        v = dict(shape=r.choice(["unit", "utuple", "one"]), ty="fromstr", attrs=[])
        if x < .6:
            v["attrs"] = [dict(a="regex", re="ok", parser="none", junk=False)]
            if v["shape"] == "one":
                v["ty"] = r.choice(["fromstr", "fromstr", "other"])
                if byte or v["ty"] == "other" or r.random() < .4: v["attrs"][0]["parser"] = "fits"
        elif x < .75:
            v["shape"] = r.choice(["unit", "utuple"])
            v["attrs"] = [dict(a="skip", re="ok", parser="none", junk=False)]
        d["vars"].append(v)
    if not any(v["attrs"] for v in d["vars"]):
        d["vars"].append(dict(shape="unit", ty="fromstr", attrs=[dict(a="regex", re="ok", parser="none", junk=False)]))
    if r.random() < .6:
        d["vars"].insert(r.randint(0, len(d["vars"])), dict(shape=r.choice(["unit", "utuple"]), ty="fromstr", attrs=[dict(a="eof", re="ok", parser="none", junk=False)]))
    return d


def tokenize_break(r, d):
    v = r.choice(d["vars"])
    k = r.choice(["item", "chars", "chars2", "pars", "pars2", "shape", "two", "again", "eof", "re", "junk", "parser", "noparser", "field", "norules", "type", "bytes"])
    if k == "item": d["item"] = r.choice(["struct", "union"])
    elif k == "chars": d["chars"] = [r.choice(["u16", "str", "u8, u8", "char::X", "&char", "\"char\"", "[u8]"])]
    elif k == "chars2": d["chars"] = [r.choice(["char", "u8"]) for _ in range(2)]
    elif k == "pars": d["pars"] = [r.choice(["1", "yes", "\"true\"", "true, false", "!true", ""])]
    elif k == "pars2": d["pars"] = ["true", r.choice(["true", "false"])]
    elif k == "shape": v["shape"] = r.choice(["two", "named", "named0"])
    elif k == "two" or k == "again":
        a = some(r, [x for w in d["vars"] for x in w["attrs"]])
        if a: v["attrs"] = v["attrs"] + [dict(a)]
        if r.random() < .4 and v["attrs"]: v["attrs"].append(dict(v["attrs"][0]))
    elif k == "eof":
        for _ in range(r.randint(1, 2)):
            d["vars"].insert(r.randint(0, len(d["vars"])), dict(shape=r.choice(["unit", "utuple", "one"]), ty="fromstr", attrs=[dict(a="eof", re="ok", parser="none", junk=False)]))
    elif k in ("re", "junk", "parser", "noparser"):
        a = some(r, [x for w in d["vars"] for x in w["attrs"] if x["a"] != "eof"])
        if not a: pass
        elif k == "re": a["re"] = "bad"
        elif k == "junk": a["junk"] = True
        elif k == "parser": a["parser"] = r.choice(["fits", "misfit"]) if a["a"] == "regex" else "none"
        else: a["parser"] = "none"
    elif k == "field":
        v["shape"] = r.choice(["unit", "utuple", "one"])
    elif k == "norules":
        for w in d["vars"]: w["attrs"] = [a for a in w["attrs"] if a["a"] == "eof"]
    elif k == "type": v["ty"] = "other"
    else: d["chars"] = [r.choice(["u8", "char"])]


def tokenize_text(r, d, i):
    byte = d["chars"] == ["u8"]
    out = [f"#[char_type({c})]" for c in d["chars"]] + [f"#[enable_par({c})]" for c in d["pars"]]
    r.shuffle(out)
    if d["item"] != "enum":
        return "#[derive(Tokenize)]\n" + "\n".join(out) + (f"\npub struct L{i} {{ a: u8 }}" if d["item"] == "struct" else f"\npub union L{i} {{ a: u8, b: i8 }}")
    body = []
    cases = names(r, CASES, "V", len(d["vars"]))
    for n, v in enumerate(d["vars"]):
        ty = r.choice(FROMSTR if v["ty"] == "fromstr" else OTHER)
        at = ""
        for a in v["attrs"] + [None]:
            while r.random() < .15: at += r.choice(OTHERS) + "\n"
            if not a: continue
            if a["a"] == "eof": at += "#[eof]\n"; continue
            lit = r.choice(["abc", "ab+c?", "if|else", "x{2,3}", "(?:de)*f"]) if a["re"] == "ok" else r.choice(["(", "^a", "a*?", r"a\b", "a{2,1}", r"\pL" if byte else "$a", "*"])
            p = ""
            if a["parser"] == "fits":
                s = "&[u8]" if byte else "&str"
                conv = {"Vec<u8>": "Some(s.to_vec())" if byte else "Some(s.as_bytes().to_vec())", "Nothing": "Some(Nothing)"}.get(ty, "std::str::from_utf8(s).ok()?.parse().ok()" if byte else "s.parse().ok()")
                p = f", |s: {s}| {{ {conv} }}"
            elif a["parser"] == "misfit":
                p = r.choice([", |s: i32| None", ", 5", ", |s| true", ", |a, b| None", ", parse_nothing"])
            args = f'r"{lit}"{p}'
            if a["junk"]: args = r.choice([args + " 5", args + ", 5, 6", "abc", "", args + ' "x"', "5"]) if a["a"] == "regex" else r.choice([args + ", 5", "abc", "", args + " x"])
            at += f"#[{a['a']}({args})]\n"
        sh = {"unit": "", "utuple": "()", "one": f"({ty})", "two": f"({ty}, u8)", "named": f" {{ x: {ty} }}", "named0": " {}"}[v["shape"]]
        body.append(f"{at}{cases[n]}{sh}")
    if r.random() < .1: out.append("#[allow(dead_code)]")
    return "#[derive(Tokenize)]\n" + "\n".join(out) + f"\npub enum {called(r, f'L{i}')} {{\n" + ",\n".join(body) + "\n}"


def parse(r):
    item = r.choice(["struct", "enum"])
    toks = r.choice([0, 1, 1])
    f = lambda: [r.choice(["any", "tok"] if toks else ["any"]) for _ in range(r.randint(0, 3))]
    fs = [f() for _ in range(1 if item == "struct" else r.randint(1, 3))]
    return dict(item=item, toks=toks, sws=r.choice([[], [1], [2]]) if toks else [], fields=fs)


def parse_break(r, d):
    k = r.choice(["item", "toks", "sws", "field", "notok"])
    if k == "item": d["item"] = "union"
    elif k == "toks": d["toks"] = 2
    elif k == "sws": d["sws"] = r.choice([[0], [1, 1], [2, 1], [0, 1]])
    elif k == "field":
        v = r.choice(d["fields"]); v.insert(r.randint(0, len(v)), "bad")
    else: d["toks"] = 0


def fields(r, fs, named, f):
    if not fs: return r.choice(["", " {}", "()"])
    ns = names(r, MEMBERS, "f", len(fs))
    return (" { " + ", ".join(f"{f(x, ns[i] + ': ')}" for i, x in enumerate(fs)) + " }") if named else "(" + ", ".join(f(x, "") for x in fs) + ")"


def item(r, d, name, f):
    if d["item"] == "union": return f"pub union {name} {{ a: u8, b: i8 }}"
    if d["item"] == "struct":
        named = r.random() < .5
        b = fields(r, d["fields"][0], named, f)
        return f"pub struct {name}{b}" + ("" if b.endswith("}") else ";")
    cs = names(r, CASES, "V", len(d["fields"]))
    return f"pub enum {name} {{ " + ", ".join(cs[i] + fields(r, fs, r.random() < .5, f) for i, fs in enumerate(d["fields"])) + " }"


TOKS = ["Tok![num]", "Tok![+]", "Tok![word]"]


def parse_text(r, d, i):
    at = ["#[token(Token)]"] * d["toks"] + ["#[starts_with(" + ", ".join(r.choice(TOKS) for _ in range(n)) + ")]" for n in d["sws"]]
    r.shuffle(at)
    ty = lambda f: {"any": "Any", "tok": r.choice(TOKS + ["Option<Tok![num]>", "Vec<Tok![+]>", "(Tok![num], Tok![+])"]), "bad": r.choice(["Nothing", "i32"])}[f]
    return f"#[derive(Parse)]\n{' '.join(at)}\n" + item(r, d, called(r, f"P{i}").replace("Token", "Toks"), lambda f, nm: nm + ty(f))


def spanned(r):
    it = r.choice(["struct", "enum"])
    def fs():
        n = r.randint(1, 4)
        keep = r.randrange(n)
        return [dict(ty="span", ts=0) if j == keep else r.choice([dict(ty="opt", ts=1), dict(ty="span", ts=1), dict(ty="span", ts=0)]) for j in range(n)]
    d = dict(item=it, fields=[fs() for _ in range(1 if it == "struct" else r.randint(1, 3))])
    for v in d["fields"]:        # anything may be between two fields with spans
        k = [j for j, f in enumerate(v) if f["ts"] == 0]
        if len(k) > 1 and r.random() < .5: v.insert(r.randint(k[0] + 1, k[-1]), dict(ty=r.choice(["none", "opt"]), ts=0))
    return d


def spanned_break(r, d):
    k = r.choice(["item", "empty", "unit", "ts", "type", "all"])
    v = some(r, d["fields"])
    if k == "item": d["item"] = "union"
    elif k == "empty" and d["item"] == "enum": d["fields"] = []
    elif k in ("unit", "empty"): v.clear()
    elif k == "ts": some(r, v)["ts"] = r.choice([0, 1, 2])
    elif k == "type": some(r, v)["ty"] = r.choice(["opt", "none"])
    else:
        for f in v: f["ts"] = 1


def spanned_text(r, d, i):
    ty = {"span": TOKS + ["Box<Tok![num]>", "(Tok![num], Tok![+])"], "opt": ["Option<Tok![num]>", "Vec<Tok![+]>", "Option<Vec<Tok![word]>>"], "none": ["Nothing", "Any", "i32"]}
    def f(x, nm):
        return "".join("#[try_span] " for _ in range(x["ts"])) + nm + r.choice(ty[x["ty"]])
    return "#[derive(Spanned)]\n" + item(r, d, called(r, f"S{i}"), f)


CAN = ["i64", "u8", "String", "char", "bool", "f64", "&'static str", "Box<str>"]
CANNOT = ["Vec<u8>", "Nothing", "()", "Option<i64>"]


def token_kind(r):
    return dict(item="enum", args=False, pays=[dict(ty=t, can=True) for t in r.sample(CAN, r.randint(0, 4))])


def token_kind_break(r, d):
    k = r.choice(["item", "args", "dup", "cannot"])
    if k == "item": d["item"] = r.choice(["struct", "union", "fn"])
    elif k == "args": d["args"] = True
    elif k == "dup" and d["pays"]: d["pays"].insert(r.randint(0, len(d["pays"])), dict(r.choice(d["pays"])))
    else: d["pays"].insert(r.randint(0, len(d["pays"])), dict(ty=r.choice(CANNOT), can=False))


def token_kind_text(r, d, i):
    at = "#[token_kind]" if not d["args"] else r.choice(["#[token_kind(x)]", "#[token_kind(Clone, Debug)]", '#[token_kind("text")]'])
    if d["item"] != "enum":
        return at + {"struct": f"\npub struct K{i}(i64);", "union": f"\npub union K{i} {{ a: u8, b: i8 }}", "fn": f"\npub fn k{i}() {{}}"}[d["item"]]
    cs = names(r, CASES, "V", len(d["pays"]))
    vs = [f"{cs[n]}({p['ty']})" for n, p in enumerate(d["pays"])] + [f"W{n}{r.choice(['', '()', '(i64, u8)', ' { a: i64 }'])}" for n in range(r.randint(1, 2))]
    r.shuffle(vs)
    vs = ["".join(r.choice(OTHERS) + "\n" for _ in range(r.random() < .1)) + v for v in vs]
    return at + f"\npub enum {called(r, f'K{i}')} {{ " + ", ".join(vs) + " }"


def token_ast(r):
    arms = []
    for _ in range(r.randint(1, 4)):
        v = r.random() < .5
        p = r.choice(["none", "text"]) if v else "text"
        arms.append(dict(keys=True, pat=True, value=v, guard=p == "text" and r.random() < .3, prompt=p))
    return dict(vis=True, types=1, arms=arms)


def token_ast_break(r, d):
    a = r.choice(d["arms"])
    k = r.choice(["vis", "types", "keys", "pat", "guard", "prompt", "noprompt"])
    if k == "vis": d["vis"] = False
    elif k == "types": d["types"] = r.choice([0, 2])
    elif k == "keys": a["keys"] = False
    elif k == "pat": a["pat"] = False
    elif k == "guard": a["guard"], a["prompt"] = True, "none"
    elif k == "prompt": a["prompt"] = "other"
    else: a["prompt"] = "none"


def token_ast_text(r, d, i):
    # (exported macros share their names)
    odd = r.__dict__.setdefault("odd", ["r#try", "r#macro", "T", "kind", "r#type", "Kind", "r#Fn", "é", "r#in", "Token", "_a"])
    arms = []
    for n, a in enumerate(d["arms"]):
        val = ["Kind::Num(5)", "Kind::Sym('a')", "Kind::Plus", "Kind::EndOfFile"]
        pat = r.choice(val) if a["value"] else r.choice(["Kind::Num(_)", "Kind::Num(1..=4)", "Kind::Plus | Kind::EndOfFile", "Kind::Word(_)", "_"] + ["Kind::Num(1 | 2)"] * (a["prompt"] == "text"))
        if not a["pat"]: pat = r.choice(["Kind::Nope", "5", "Kind::Num(\"x\")", "", "Kind::Num(1 + 1)", "Kind::Num(1, 2)", "let"])
        g = r.choice([" if true", " if 1 < 2"]) if a["guard"] else ""
        p = {"none": "", "text": ', prompt: "some text"', "other": r.choice([", prompt: 5", ", prompt: some", ", prompt:", ', prompt: "a" "b"'])}[a["prompt"]]
        if a["prompt"] == "text" and r.random() < .3: p += ","
        kind = "kind"
        if not a["keys"]:
            x = r.choice(["kind", "prompt", "colon"]) if p else r.choice(["kind", "colon"])
            if x == "kind": kind = r.choice(["kin", "Kind", "prompt"])
            elif x == "prompt": p = p.replace("prompt", r.choice(["prompts", "message", "kind"]))
            else: kind = "kind kind"
        arms.append(f"    [t{n}] => {{ {kind}: {pat}{g}{p} }},")
    vis = r.choice(["", "", "pub(self) ", "pub(super) ", "pub(crate) ", "pub ", "pub(in crate::gen) "]) if d["vis"] else r.choice(["pub(in ::gen) ", "pub(in a<u8>::b) "])
    ty = {0: r.choice(["", "<>"]), 1: "<Kind>", 2: "<Kind, Kind>"}[d["types"]]
    return f"token_ast! {{\n  {vis}macro {odd.pop() if odd and r.random() < .15 else f"A{i}"}{ty} {{\n" + "\n".join(arms) + "\n  }\n}"


MACROS = dict(tokenize=(tokenize, tokenize_break, tokenize_text), parse=(parse, parse_break, parse_text), spanned=(spanned, spanned_break, spanned_text),
              token_kind=(token_kind, token_kind_break, token_kind_text), token_ast=(token_ast, token_ast_break, token_ast_text))

SOUP = ['"a"', '"("', 'r"x*"', "x", "kind", "prompt", "macro", "pub", "Kind", "Tok", "if", "true", "u8", "char", "_", "5", "1.5", "'c'", ",", ",", "|", "||", "::", ":", "=>", "=", "<", ">", "&", "*", "!", "#", "..=", "?", "$", "-", "+", "'l", "for", "fn", "match"]


def soup(r, depth=2):
    out = []
    for _ in range(r.randint(0, 6)):
        if depth and r.random() < .25:
            a, b = r.choice(["()", "[]", "{}"])
            out.append(a + soup(r, depth - 1) + b)
        else: out.append(r.choice(SOUP))
    return " ".join(out)


def wild(r, i):
    """Macros with arguments that make no sense; anything but a panic is fine."""
    k = r.choice(["ast", "ast", "arm", "pat", "regex", "regex2", "attr", "parse", "kind", "vis"])
    s = soup(r)
    if k == "ast": return f"token_ast! {{ {s} }}"
    if k == "arm": return f"token_ast! {{ macro W{i}<Kind> {{ {s} }} }}"
    if k == "pat": return f"token_ast! {{ macro W{i}<Kind> {{ [a] => {{ kind: {s} }}, [{soup(r)}] => {{ kind: _, prompt: {soup(r, 0)} }} }} }}"
    if k == "vis": return f"token_ast! {{ {soup(r, 1)} macro {soup(r, 0)} W{i}<{soup(r, 1)}> {{ [a] => {{ kind: Kind::Plus }} }} }}"
    if k == "regex": return f"#[derive(Tokenize)] enum W{i} {{ #[regex({s})] A, #[skip({soup(r)})] B, #[eof] C }}"
    if k == "regex2": return f"#[derive(Tokenize)] enum W{i} {{ #[regex(\"abc\", {s})] A(u8), #[skip(\"b\")] B }}"
    if k == "attr": return f"#[derive(Tokenize)] #[char_type({s})] #[enable_par({soup(r)})] enum W{i} {{ #[regex(\"a\")] A }}"
    if k == "parse": return f"#[derive(Parse)] #[token({s})] #[starts_with({soup(r)})] struct W{i}(Any);"
    return f"#[token_kind({s})] enum W{i} {{ A, B(u8) }}"


# ------------------------------------------------------------------ asking the compiler
def verdicts(decls, limit=12):
    """Compiles the declarations, leaving out those rejected so far, until nothing is rejected any more."""
    d = os.path.join(BUILD, "gen")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "M01.rs")
    crate = os.path.join(VERIF, "harness", "decl")
    open(path, "w").write("")
    vlib.build("decl", extra=dict(LAPS_GEN=path))
    env = cargo_env()
    env.update(CARGO_TARGET_DIR=os.path.join(BUILD, "decl"), LAPS_GEN=path)
    out = [None] * len(decls)
    for rnd in range(limit):
        left = [i for i, v in enumerate(out) if v is None]
        lines, where = [], []
        for i in left:
            ls = [f"mod m{i} {{ use super::*;"] + decls[i]["text"].split("\n") + ["}"]
            lines += ls
            where += [i] * len(ls)
        open(path, "w").write("\n".join(lines) + "\n")
        t = time.time()
        r = subprocess.run(["cargo", "build", "--offline", "--locked", "--message-format=json"], cwd=crate, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=600)
        found = 0
        for l in r.stdout.splitlines():
            m = json.loads(l)
            if m.get("reason") != "compiler-message" or m["message"]["level"] not in ("error", "error: internal compiler error"): continue
            m = m["message"]
            hit = set()
            def spans(s):
                while s:
                    if os.path.basename(s["file_name"]) == "M01.rs": hit.add(where[min(s["line_start"], len(where)) - 1])
                    s = s["expansion"]["span"] if s.get("expansion") else None
            for s in m["spans"]:
                if s["is_primary"]: spans(s)
            if not hit:
                for s in m["spans"]: spans(s)
            for i in hit:
                v = "panicked" if "panicked" in m["message"] or "internal compiler" in m["level"] else "rejected"
                if out[i] != "panicked": out[i] = v
                decls[i].setdefault("messages", []).append(m["message"][:300])
                found += 1
        log(f"[compile {len(left)} declarations] {time.time()-t:.1f}s rc={r.returncode} rejected={len(left) - out.count(None)}")
        if r.returncode == 0:
            return ["accepted" if v is None else v for v in out]
        if not found:
            if "panicked" in r.stderr or "SIG" in r.stderr: raise Violation("the compiler does not survive the macros", dict(kind="compile", output=r.stderr[-6000:]))
            raise ToolError("errors that belong to no declaration:\n" + r.stdout[-3000:] + r.stderr[-3000:])
    raise ToolError("the declarations never compile")


def m01(run, deep):
    rnd = random.Random(SEED * 1000 + 61)
    decls = []
    for m, (make, brk, text) in MACROS.items():
        for n in range((400 if deep else 130) * (2 if m == "tokenize" else 1)):
            d = make(rnd)
            for _ in range(rnd.choice([0, 0, 1, 1, 2])): brk(rnd, d)
            decls.append(dict(m=m, d=d, free=m == "parse" and d["item"] == "enum" and not d["fields"], text=text(rnd, d, len(decls))))
    for _ in range(1500 if deep else 250):
        decls.append(dict(m="wild", d=0, free=True, text=wild(rnd, len(decls))))
    rnd.shuffle(decls)
    for x, v in zip(decls, verdicts(decls)): x["verdict"] = v
    out = run.path("decls.ndjson")
    with open(out, "w") as f:
        for x in decls: f.write(json.dumps(x) + "\n")
    r = validate("TraceDecls", out, len(decls), min_states=2 * len(decls))
    run.add(r, traces=len(decls))
    n = [x["verdict"] for x in decls if not x["free"]]
    if min(n.count("accepted"), n.count("rejected")) < len(n) // 8: raise ToolError("hardly anything is accepted, or rejected")
    for x in decls[:2]: run.sample(x)


CHECKS = dict(M01=m01)
