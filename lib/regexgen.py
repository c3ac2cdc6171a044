"""Regular expressions with samples of their strings; scenarios for L01-L05."""
import random

# alphabets: the boundaries of the symbol types matter
ASCII = [0x61, 0x62, 0x63, 0x64]
UNI = [0x61, 0x7f, 0x80, 0xe9, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xffff, 0x10000, 0x10fffe, 0x10ffff, 0x00, 0x01]
BYTE = [0x00, 0x01, 0x61, 0x62, 0x7f, 0x80, 0xc3, 0xa9, 0xfe, 0xff]
META = set(map(ord, "\\.+*?()|[]{}^$#&-~ \t\n\r/"))


class Gen:
    """A random syntax tree; text() writes it as a regular expression, sample() draws a string."""
    def __init__(self, rnd, alpha, mode="char", depth=4, maxrep=3):
        self.r, self.alpha, self.mode, self.maxrep = rnd, alpha, mode, maxrep
        self.t = self.node(depth)

    def node(self, d):
        r = self.r
        x = r.random()
        if d <= 0 or x < .22:
            return ("lit", r.choice(self.alpha))
        if x < .36:
            return self.cls()
        if x < .58:
            return ("cat", [self.node(d - 1) for _ in range(r.randint(2, 3))])
        if x < .78:
            a = [self.node(d - 1) for _ in range(r.randint(2, 3))]
            if self.mode != "char" and all(y[0] in ("lit", "cls") for y in a):
                # regex-syntax turns alternations of single characters into Unicode classes
                a[0] = ("cat", [a[0], ("rep", 0, 1, self.cls())])
            return ("alt", a)
        if x < .81:
            return ("eps",)
        k = r.choice(["*", "+", "?", "*", "{}"])
        if k == "{}":
            a = r.randint(0, self.maxrep - 1)
            b = r.choice([a, a + 1, self.maxrep, -1])
            return ("rep", a, max(a, b) if b >= 0 else -1, self.node(d - 1))
        return ("rep", {"*": 0, "+": 1, "?": 0}[k], {"*": -1, "+": -1, "?": 1}[k], self.node(d - 1))

    def cls(self):
        r = self.r
        out = []
        for _ in range(r.randint(1, 3)):
            a, b = r.choice(self.alpha), r.choice(self.alpha)
            a, b = min(a, b), max(a, b)
            out.append((a, a) if r.random() < .4 else (a, b))
        return ("cls", out)

    # ------- text
    def ch(self, c):
        if self.mode == "bytes" and c >= 0x80:
            return "(?-u:\\x%02x)" % c
        if c in META or c < 0x20 or c == 0x7f:
            return "\\x{%x}" % c
        return chr(c)

    def cc(self, c):
        return "\\x%02x" % c if self.mode != "char" else "\\x{%x}" % c

    def text(self, t=None, prec=0):
        t = t or self.t
        if t[0] == "lit":
            return self.ch(t[1])
        if t[0] == "eps":
            return "(?:)"
        if t[0] == "cls":
            s = "[" + "".join(self.cc(a) if a == b else self.cc(a) + "-" + self.cc(b) for a, b in t[1]) + "]"
            return s if self.mode == "char" else "(?-u:%s)" % s
        if t[0] == "cat":
            s = "".join(self.text(x, 1) for x in t[1])
            return "(?:%s)" % s if prec > 1 else s
        if t[0] == "alt":
            s = "|".join(self.text(x, 0) for x in t[1])
            return ("(%s)" if self.r.random() < .3 else "(?:%s)") % s if prec > 0 else s
        _, a, b, x = t
        q = {(0, -1): "*", (1, -1): "+", (0, 1): "?"}.get((a, b)) or \
            ("{%d}" % a if a == b else "{%d,}" % a if b < 0 else "{%d,%d}" % (a, b))
        return "(?:%s)" % self.text(x, 0) + q

    # ------- strings
    def sample(self, t=None):
        t = t or self.t
        r = self.r
        if t[0] == "lit":
            if self.mode != "char" and self.mode == "bytes" and t[1] >= 0x80:
                return [t[1]]
            return self.enc(t[1])
        if t[0] == "eps":
            return []
        if t[0] == "cls":
            a, b = r.choice(t[1])
            c = r.choice([a, b, r.randint(a, b)])
            if 0xd800 <= c < 0xe000:
                c = a
            return [c]
        if t[0] == "cat":
            return [c for x in t[1] for c in self.sample(x)]
        if t[0] == "alt":
            return self.sample(r.choice(t[1]))
        _, a, b, x = t
        n = r.randint(a, b if b >= 0 else a + 2)
        return [c for _ in range(n) for c in self.sample(x)]

    def enc(self, c):
        return [c] if self.mode == "char" else list(chr(c).encode())


def mutate(rnd, s, alpha):
    s = list(s)
    for _ in range(rnd.randint(0, 2)):
        x = rnd.random()
        if s and x < .4:
            s[rnd.randrange(len(s))] = rnd.choice(alpha)
        elif s and x < .6:
            del s[rnd.randrange(len(s))]
        elif x < .8:
            s.insert(rnd.randint(0, len(s)), rnd.choice(alpha))
        elif s:
            s = s[:rnd.randint(0, len(s))]
    return s


def cps(s):
    return [ord(c) for c in s]


# expressions that use more of the syntax
SYNTAX = [r"\d+", r"[0-9]|[1-9][0-9]+", r"[_a-zA-Z][_a-zA-Z0-9]*", r"\s+", r".", r"(?s).", r"(?s).*x", r"[^a]", r"[^a-z]+", r"[[:alpha:]]+",
          r"(?i)abc", r"(?i)[k-s]", r"\x41|\u0042|\U00000043", r"\p{Greek}", r"\pL", r"a{2,4}b", r"(a|b)*abb", r"(?:ab|a)(?:c|bcd)(?:d*)", r"//.*",
          r"/\*([^*]|\*+[^*/])*\*+/", r'"([^"\\\r\n]|\\.)*"', r"0x[0-9a-fA-F]+", r"[a-c&&[b-d]]", r"[a-z--[aeiou]]", r"x*", r"x+", r"x?", r"()", r"", r"a|", r"|a",
          r"(a*)*", r"(a*)+", r"(a+)*", r"(a?)*", r"(a|b|ab)*", r"((a)(b)?)*c", r"if|else|while", r"for|foreach|fo", r"\+|\+\+|\+=", r"a{0}", r"a{0,0}b", r"(ab){3}",
          r"(a{1,2}){2,3}", r"[\x{0}-\x{10FFFF}]", r"[\x{d000}-\x{e100}]", r"\x{10ffff}", r"[^\x{10ffff}]", r"é+|ü", r"日本|日光", "(?x) a b # c\n c", r"\.|\.\.|\.\.\."]
BSYNTAX = [r"(?-u:[a-z]+)", r"(?-u:[0-9]+)", r"hello|hi", r"(?-u:[\x00-\xff])", r"(?-u:[^a])", r"(?s-u:.)", r"(?s-u:.)*x", r"(?-u:\xff)+", r"(?-u:[\x80-\xff])*", r"日本",
           r"é|(?-u:\xc3)", r"(?-u:[\xfe-\xff])", r"(?-u:[\x00-\x7f])+", r"(?-u:\w)+", r"(?-u:\s)+", r"(?-u:\d){2,3}", r"a|b", r"(?-u:[a-c])|(?-u:[b-d])x", r"(?-u:\x00)", r"", r"(?i-u)ab", r"(?-u).", r"(?-u)\W"]
USYNTAX = [r"(?-u:[a-z]+)", r"(?-u:[0-9]+)x?", r"hello|hi", r"日本", r"é+", r"(?-u:[\x00-\x7f])", r"a{2,3}", r"(ab|é)*", r"", r"(?-u:\w)+", r"(?-u:\d)"]
BROKEN = ["(", ")", "[", "a{2,1}", "*", "\\", "(?P<n", "[z-a]", "\\p{Nope}", "a**?(", "(?z)", "\\xZZ", "{1}", "(?-u:\\xff)", "a{99999999999}", "\\8"]
UNSUP = ["^a", "a$", r"\bx", r"\B", "a*?", "a+?b", "(a??)c", "a{1,2}?", r"\Aa", r"a\z", "(?m)^a", "(?U)a*", "a|b$", "(^)*a", r"(?-u:\b)"]
UCLASS = [r"\d", r".", r"\w+", r"[é-ü]", r"[^a]", r"\pL", r"[日本]", "a|[é]|b", "(?i)k"]
VOID = [r"[^\x{0}-\x{10FFFF}]", r"a[^\x{0}-\x{10FFFF}]", r"[a&&b]", r"[a--a]", r"([a&&b])+", r"\P{Any}", r"b|[a&&b]c"]
PARTVOID = [r"a|[a&&b]", r"([a&&b])*", r"x[a&&b]?", r"a|b[c&&d]|e", r"([a&&b])?c", r"[a&&b]*"]
