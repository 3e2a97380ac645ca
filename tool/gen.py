"""Case generators.  Everything random comes from one seeded source.

Cases carry texts or trees only; what they denote is decided by the
specification, never here."""
import base64, glob, json, os, random

REPO = os.environ.get("VERIF_REPO", "/repo")

UNOPS = ["+", "-", "!", "^", "&", "~", "<-"]
BINOPS = ["||", "&&", "==", "!=", "<", "<=", ">", ">=", "+", "-", "|", "^",
          "*", "/", "%", "<<", ">>", "&", "&^"]
LITS = ["0", "1", "42", "007", "0x1F", "0XaB", "0o17", "0b101", "1.", ".5", "1.5", "1e3", "1.5E-3", "0x1p-2",
        "3i", "1.5i", "9223372036854775807", "'a'", "'\\n'", "'\\''", "'\\\\'", "'\"'", '""', '"a b"', '"\\""',
        '"x\\ty"', '"//"', "`raw \\`", "`a\"b`", "'é'", '"日本"', "1_000", "0xFF_FF", "0x_1", "0B1_0", "0O7", "0_7", "0X1P+2", "0x1.8p1", "1E5",
        "00", "0i", "0xai", "01.5", "09i", "'\\x41'", "'\\101'", "'\\u00e9'", "'\\U0001F600'", '"\\u65e5\\a"', "' '", '"\'"', "``", "4294967296",
        "18446744073709551616", "1.50", "1.0e+00", "'\\u0041'", '"A\\x41"', "`A`", "0.0", "-1"[1:], "0x7FFFFFFFFFFFFFFF", "1e400"]
NAMES = ["a", "b", "c", "x", "y", "off", "sym", "ptr1", "val_2", "T", "Aux", "x_", "n0", "config", "v", "_x", "int32", "nil", "true", "iota", "__", "X", "aBcDeFgHiJkLmNoPqRsTuVwXyZ0123456789_"]
CALLN = ["f", "g", "isSame", "canMerge", "ntz64", "log2"]
FIELDS = ["Type", "Op", "Uses", "PtrSize", "x", "_", "n1"]
OPNAMES = ["A", "B", "Add32", "MOVWload", "Const64", "x86", "lower", "_und", "8bit", "Lsh8x16", "FCVT_X"]
TYPES = ["t", "typ.UInt32", "types.NewTuple(a, b)", "v.Type", "a b", "x.y()", "[]byte", "(", "//c", "<", "日", " t ", "a\nb", "&& x =", "=", "\"]\"", "}"]
BLOCKS = ["v.Block", "b", "x.Block", "@", "=", "(a)", "/x", "é", "a/b", "&&", "y.Args[0].Block"]


WORDCHARS = "_abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"


class G:
    def __init__(self, seed):
        self.r = random.Random(seed)

    def ch(self, xs):
        return xs[self.r.randrange(len(xs))]

    def p(self, x):
        return self.r.random() < x

    # ---- Go expressions, as trees
    def go(self, d):
        r = self.r.random()
        if d <= 0 or r < .2:
            return {"k": "id", "n": self.gname()} if self.p(.6) else {"k": "lit", "v": self.ch(LITS)}
        if r < .35:
            return {"k": "un", "op": self.ch(UNOPS), "x": self.go(d - 1)}
        if r < .65:
            return {"k": "bin", "op": self.ch(BINOPS), "x": self.go(d - 1), "y": self.go(d - 1)}
        if r < .75:
            return {"k": "par", "x": self.go(d - 1)}
        if r < .82:
            return {"k": "sel", "x": self.go(d - 1), "n": self.ch(FIELDS) if self.p(.8) else self.ident("abcXYZ_")}
        if r < .88:
            return {"k": "star", "x": self.go(d - 1)}
        n = self.ch([0, 1, 1, 2, 3])
        as_ = [self.go(d - 1) for _ in range(n)]
        return {"k": "call", "f": self.go(d - 2), "a": as_, "v": n > 0 and self.p(.3)}

    def call(self, d):
        """Calls as they may stand as arguments of rules."""
        as_ = []
        for _ in range(self.ch([1, 1, 2, 3])):
            if d > 0 and self.p(.3):
                as_.append(self.call(d - 1))
            else:
                as_.append({"k": "id", "n": self.ch(["a", "x", "y_1", "off", "_", "c2"]) if self.p(.8) else self.ident()})
        return {"k": "call", "f": {"k": "id", "n": self.ch(CALLN) if self.p(.8) else self.ident()}, "a": as_, "v": False}

    # ---- rules, as trees
    def ident(self, first="abcdefghijklmnopqrstuvwxyz"):
        """Some name that is no keyword."""
        s = self.ch(first) + "".join(self.ch("abcxyzABCXYZ_0189") for _ in range(self.ch([0, 1, 2, 5, 12])))
        return s if s not in ("go", "if") else s + "_"

    def gname(self):
        return self.ch(NAMES) if self.p(.8) else self.ident("abcxyzXYZ_")

    def name(self):
        if self.p(.15):
            return self.ident() if self.p(.8) else self.ch(["func", "if", "type", "nil", "true", "string", "x" * 40])
        return self.ch(["x", "y", "off", "ptr", "val", "c1", "a_b", "z9Z", "x___"])

    def word(self):
        if self.p(.7):
            return self.ch(OPNAMES)
        return "".join(self.ch("abXYzZ_0189" if self.p(.9) else WORDCHARS) for _ in range(self.ch([1, 2, 3, 4, 4, 12, 30])))

    def type(self):
        if self.p(.85):
            return self.ch(TYPES)
        return "".join(self.ch("ab.,()[]{}*&=|<: /\\\"'`@_0\t\n\ré日") for _ in range(self.ch([1, 2, 3, 6, 20])))

    def block(self):
        if self.p(.85):
            return self.ch(BLOCKS)
        s = "".join(self.ch("ab.,()[]{}*&=|<>:/\\\"'`@_0é日") for _ in range(self.ch([1, 2, 3, 6, 20])))
        return s.replace("//", "/") + "x"

    def op(self, palt, n=None):
        if not self.p(palt):
            return {"k": "o", "n": self.word()}
        ps = []
        for _ in range(self.ch([1, 2, 2, 3, 4]) if self.p(.95) else self.r.randrange(5, 14)):
            if self.p(.6):
                k = n or (self.ch([2, 2, 3, 4]) if self.p(.95) else self.r.randrange(5, 14))
                ps.append({"k": "a", "alts": [self.word() for _ in range(k)]})
            elif not ps or ps[-1]["k"] == "a":
                ps.append({"k": "o", "n": self.word()})
        if len(ps) == 1 and ps[0]["k"] == "o":
            return ps[0]
        return {"k": "p", "ps": ps}

    def value(self, d, palt=.25, n=None):
        r = self.r.random()
        if d <= 0 or r < .3:
            return {"k": "v", "n": "_" if self.p(.25) else self.name()}
        if r < .42:
            return {"k": "e", "e": self.call(1)}
        return self.sexpr(d, palt, n)

    def safe_go(self, d, bad):
        while True:
            e = shape(self.go(d))
            if not any(b in gotext(e) for b in bad):
                return e

    def sexpr(self, d, palt=.25, n=None, feat=.25):
        big = feat and self.p(.1)
        f = lambda: self.p(max(feat, .5) if big else feat)
        nargs = self.r.randrange(9) if big else self.ch([0, 1, 1, 2, 2, 3])
        return {"k": "s", "bind": self.name() if f() else "", "op": self.op(palt, n),
                "t": self.type() if f() else "",
                "ai": [self.safe_go(2, ["]"])] if f() else [],
                "ax": [self.safe_go(2, ["}"])] if f() else [],
                "a": [self.value(d - 1 if i < 3 else 0, palt, n) for i in range(nargs)],
                "el": self.p(.15), "tr": self.p(.15)}

    def rule(self, d=2, palt=.25, n=None, pc=.4, pb=.2):
        return {"m": self.sexpr(d, palt, n) if self.p(.9) else self.value(0),
                "c": [self.safe_go(3, ["=>"])] if self.p(pc) else [],
                "b": self.block() if self.p(pb) else "",
                "r": self.value(d, palt, n)}

    # ---- layout
    SKIPS = [" ", " ", "  ", "\t", "\n", "\r\n", "\r", "//\n", "// c\n", "\n// (A) => b && [x]\n", " // \"' `\n\t",
             "//// é 日 😀\n", "\n\n\n", "// x\r\n", "//=>\n"]
    PLAIN = [" ", " ", "  ", "\t", "\n", "\r\n", "\r", "\n\n", " \t "]

    def skip(self, wild):
        return "".join(self.ch(self.SKIPS) for _ in range(self.ch([1, 1, 2, 3]))) if self.p(wild) else " "

    def blank(self, wild):
        return self.ch(self.PLAIN) if self.p(wild) else " "

    def opt(self, wild):
        return self.skip(wild) if self.p(wild * .6) else ""

    def fill(self, items, wild):
        """items: [text, gap] with gap in "", o, r, n (condition, may be empty),
        c (condition, required)."""
        out = []
        for s, g in items:
            out.append(s)
            if g == "r":
                out.append(self.skip(wild))
            elif g == "o":
                out.append(self.opt(wild) or ("" if not self.p(.5) else " "))
            elif g == "n" or g == "c":
                out.append(self.blank(wild))
        return "".join(out)

    def value_items(self, v, shuffle=True):
        if v["k"] == "v":
            return [[v["n"], ""]]
        if v["k"] == "e":
            return call_items(v["e"])
        head = ([[v["bind"], ""], [":", ""]] if v["bind"] else []) + [["(", "o"], [optext(v["op"]), ""]]
        pre = []
        if v["t"]:
            pre.append([["<" + v["t"] + ">", ""]])
        if v["ai"]:
            pre.append([["[" + gotext(v["ai"][0]) + "]", ""]])
        if v["ax"]:
            pre.append([["{" + gotext(v["ax"][0]) + "}", ""]])
        args = [self.value_items(a, shuffle) for a in v["a"]]
        if shuffle and self.p(.5):
            for x in pre:
                args.insert(self.r.randrange(len(args) + 1), x)
            parts = args
        else:
            parts = pre + args
        parts = [head] + parts
        if v["el"]:
            parts.append([["...", ""]])
        if v["tr"]:
            parts.append([["___", ""]])
        out = []
        for i, p in enumerate(parts):
            p = [list(x) for x in p]
            p[-1][1] = "o" if i == len(parts) - 1 else "r"
            out += p
        return out + [[")", ""]]

    def rule_items(self, r, shuffle=True):
        m = self.value_items(r["m"], shuffle)
        m[-1][1] = "r" if r["c"] else "o"
        out = m
        if r["c"]:
            out = out + [["&&", "r"]] + cond_items(r["c"][0])
            out[-1][1] = "c"
        out = out + [["=>", "o"]]
        if r["b"]:
            out = out + [["@" + r["b"], "r"]]
        return out + self.value_items(r["r"], shuffle)

    def file_items(self, rs, shuffle=True):
        out = [["", "o"]]
        for r in rs:
            its = self.rule_items(r, shuffle)
            its[-1][1] = "r"
            out += its
        return out

    def file_text(self, rs, wild=.5, shuffle=True):
        return self.fill(self.file_items(rs, shuffle), wild)


def call_items(e):
    if e["k"] == "id":
        return [[e["n"], ""]]
    out = [[e["f"]["n"], ""], ["(", "o"]]
    for i, a in enumerate(e["a"]):
        its = call_items(a)
        its[-1][1] = "o"
        out += its + ([[",", "o"]] if i < len(e["a"]) - 1 else [])
    return out + [[")", ""]]


def cond_items(e):
    if e["k"] == "bin":
        x = cond_items(e["x"])
        x[-1][1] = "n"
        return x + [[e["op"], "n"]] + cond_items(e["y"])
    return [[gotext(e), ""]]


def optext(op):
    if op["k"] == "o":
        return op["n"]
    return "".join(p["n"] if p["k"] == "o" else "(" + "|".join(p["alts"]) + ")" for p in op["ps"])


PREC = {"||": 1, "&&": 2, "==": 3, "!=": 3, "<": 3, "<=": 3, ">": 3, ">=": 3, "+": 4, "-": 4, "|": 4, "^": 4,
        "*": 5, "/": 5, "%": 5, "<<": 5, ">>": 5, "&": 5, "&^": 5}


def shape(e):
    """Add the parentheses without which no text denotes the tree."""
    par = lambda x: {"k": "par", "x": x}
    k = e["k"]
    if k in ("id", "lit"):
        return e
    e = dict(e)
    for f in ("x", "y", "f"):
        if f in e:
            e[f] = shape(e[f])
    if "a" in e:
        e["a"] = [shape(a) for a in e["a"]]
    if k in ("un", "star") and e["x"]["k"] == "bin":
        e["x"] = par(e["x"])
    if k == "bin":
        if e["x"]["k"] == "bin" and PREC[e["x"]["op"]] < PREC[e["op"]]:
            e["x"] = par(e["x"])
        if e["y"]["k"] == "bin" and PREC[e["y"]["op"]] <= PREC[e["op"]]:
            e["y"] = par(e["y"])
    for f in ("x", "f"):
        if k in ("sel", "call") and f in e and e[f]["k"] in ("bin", "un", "star"):
            e[f] = par(e[f])
    return e


def gotoks(e):
    k = e["k"]
    if k == "id":
        return [e["n"]]
    if k == "lit":
        return [e["v"]]
    if k == "par":
        return ["("] + gotoks(e["x"]) + [")"]
    if k == "un":
        return [e["op"]] + gotoks(e["x"])
    if k == "star":
        return ["*"] + gotoks(e["x"])
    if k == "bin":
        return gotoks(e["x"]) + [e["op"]] + gotoks(e["y"])
    if k == "sel":
        return gotoks(e["x"]) + [".", e["n"]]
    out = gotoks(e["f"]) + ["("]
    for i, a in enumerate(e["a"]):
        out += ([","] if i else []) + gotoks(a)
    return out + (["..."] if e["v"] else []) + [")"]


def gotext(e):
    """Every token apart: always read as the same tokens."""
    return " ".join(gotoks(e))


def corpus():
    """The repository's rule files, cut at line ends outside parentheses."""
    out = []
    for fn in sorted(glob.glob(os.path.join(REPO, "internal/testdata/*.rules"))):
        with open(fn, encoding="utf-8") as f:
            lines = f.read().split("\n")
        cur, depth, open_ = [], 0, False
        for ln in lines:
            cur.append(ln)
            code = ln.split("//")[0]
            depth += code.count("(") - code.count(")")
            if "=>" in code:
                open_ = False
            elif code.strip():
                open_ = True
            if depth <= 0 and not open_ and not code.rstrip().endswith("=>") and len(cur) >= 12:
                out.append((os.path.basename(fn), "\n".join(cur) + "\n"))
                cur, depth = [], 0
        if cur:
            out.append((os.path.basename(fn), "\n".join(cur) + "\n"))
    return out


def text_case(t, src, **kw):
    c = {"t": t, "src": src, "badutf8": False}
    c.update(kw)
    return c


def bytes_case(t, b):
    try:
        s = b.decode("utf-8")
        if not any(0xd800 <= ord(x) < 0xe000 for x in s):
            return text_case(t, s)
    except UnicodeDecodeError:
        pass
    return {"t": t, "src": "", "b64": base64.b64encode(b).decode(), "badutf8": True}


def units(ch):
    """Positions a character takes in TLC's strings."""
    return 2 if ord(ch) > 0xffff else 1


def wide(s):
    """Characters of more bytes than positions, as [last position, further bytes]."""
    out, n = [], 0
    for ch in s:
        n += units(ch)
        if ord(ch) > 127:
            out.append([n, len(ch.encode()) - units(ch)])
    return out


def locate_case(b, name, api):
    """Of bytes: bytes that are no characters are represented by U+FFFD."""
    s, w, bad, i, pos = "", [], [], 0, 0
    while i < len(b):
        for n in (1, 2, 3, 4):
            try:
                ch = b[i:i + n].decode()
                break
            except UnicodeDecodeError:
                ch = None
        s += ch or "\ufffd"
        pos += units(ch or "\ufffd")
        if ch is None:
            bad.append(pos)
            n = 1
        if n > 1:
            w.append([pos, n - units(ch)])
        i += n
    c = {"t": "locate", "src": s, "wide": w, "bad": bad, "name": name, "api": api, "badutf8": bool(bad)}
    if bad:
        c["b64"] = base64.b64encode(b).decode()
    return c


# One rule with every construct; <> marks sites for single characters.
SITES = [
    "(A %s) => b", "(A %sx) => b", "(A x%s) => b", "(A x%sy) => b",          # argument
    "(A%s x) => b", "(%sA x) => b", "(A%sB x) => b", "(%s x) => b",           # opcode
    "(A(B%s|C) x) => b", "(A(%sB|C) x) => b", "(A(B|C%s) x) => b", "(A(B|%s) x) => b", "(A(B%sC) x) => b", "((A|B)%s(C|D)) => b",
    "x%s:(A) => b", "%sx:(A) => b", "%s:(A) => b", "x:%s(A) => b", "(A x%s:(B)) => b", "(A %s:(B)) => b", "(A x:%s(B)) => b",
    "(A <%s> x) => b", "(A <a%sb> x) => b", "(A <t>%s x) => b", "(A %s<t> x) => b",
    "(A [%s] x) => b", "(A [a%sb] x) => b", "(A [a]%s x) => b", "(A [a %s b]) => b", "(A [%sa]) => b", "(A [a%s]) => b",
    "(A {%s} x) => b", "(A {a%sb} x) => b", "(A {a}%s x) => b", "(A {\"%s\"}) => b", "(A ['%s']) => b", "(A [\"\\%s\"]) => b", "(A [`%s`]) => b",
    "(A x ...%s) => b", "(A x %s...) => b", "(A x ..%s.) => b", "(A x ... ___%s) => b", "(A x __%s_) => b", "(A %s___) => b", "(A _%s) => b", "(A _ %s) => b",
    "(A f(x%s) y) => b", "(A f(%sx) y) => b", "(A f%s(x) y) => b", "(A %sf(x) y) => b", "(A f(x%sy) y) => b", "(A f(x)%s y) => b", "(A f(x,%sy)) => b", "(A f(x%s,y)) => b",
    "(A x) %s => b", "(A x)%s=> b", "(A x) =%s> b", "(A x) =>%s b", "(A x) =>%sb", "%s(A x) => b", "(A x) => b%s", "(A x) => b %s", "(A x) => (B)%s", "(A x) => %sb", "(A x) => (B%s)", "(A x) => (B %s)",
    "(A x) %s& y => b", "(A x) &%s& y => b", "(A x) &&%sy => b", "(A x) && %sy => b", "(A x) && y%s => b", "(A x) && y%s=> b", "(A x) && y =%s> b", "(A x)%s&& y => b", "(A x) && y %s z => b", "(A x) && y%sz => b", "(A x) && %s => b",
    "(A x) => @%s b", "(A x) => @a%sc b", "(A x) => %s@a b", "(A x) => @a%sb", "(A x) => @%sa b", "(A x) => @a b%s",
    "(A x) => f(y)%s", "(A x) => f(%s)", "(A x) => _%s", "(A x) => %s", "%s", "(%s) => b", "a%s => b", "%s => b", "(A x)%s(B y) => b", "(A) => b %s (C) => d", "(A) => b%s(C) => d",
]
CHARS = [chr(i) for i in range(9, 14)] + [chr(i) for i in range(32, 127)] + ["\x01", "\x7f", "\x85", "\xa0", "\u00e9", "\u00df", "\u0660", "\u200b", "\u2028", "\u2192", "\u65e5", "\U0001F600", "\uFFFD", "\u0301", "\uff10", "\U0001d400", "\U0001d7d8", "\0", "\ufeff", "\ufffe", ""]

# Fillers for gaps: valid layout, and near layout.
LAYOUT = [" ", "\t", "\r", "\n", "  ", "\r\n", "\n\n", "//\n", "// c\n", " // c\n", "// c\n ", "//c\n//d\n", "\t//(B) => a\n\t", "// \xe9\u65e5\U0001F600\n", "///\n", "//\r\n", "\n//\n", "// && x => (y)\n", "//)\n", "// \"\n"]
NEARLAYOUT = ["", "\f", "\v", "\x85", "\xa0", "/* c */", "/", "/ /", "//", "// c", "#\n", ";", ",", "\u2028", "\\\n", "//c\r"]

TOKENS = ["(", ")", "[", "]", "{", "}", "<", ">", "=>", "&&", "@", ":", "|", ",", "...", "___", "_", "__", "x", "A", "b:", "f(x)", "(B)", "<t>", "[1]", "{s}", "//", "\n", " ", "=", ".", "1", "&", "@b", "->", "==>", "<=>", "a.b", "f(", "f()", "f(,)", "type", "(A|B)", "(A|)", "\"", "'", "`", "!"]


def mutate(g, s):
    """One or two random edits of a text."""
    for _ in range(g.ch([1, 1, 1, 2])):
        n = len(s)
        i, j = sorted((g.r.randrange(n + 1), g.r.randrange(n + 1)))
        k = g.r.randrange(9)
        if k == 0:
            s = s[:i] + g.ch(TOKENS) + s[i:]
        elif k == 1:
            s = s[:i] + s[i + 1:]
        elif k == 2:
            s = s[:i] + g.ch(CHARS) + s[i + 1:]
        elif k == 3 and j - i < 30:
            s = s[:i] + s[j:]
        elif k == 4 and j - i < 30:
            s = s[:i] + s[i:j] + s[i:j] + s[j:]
        elif k == 5:
            s = s[:i]
        elif k == 6:
            s = s[i:]
        elif k == 7 and n:
            i = g.r.randrange(n)
            m = g.r.randrange(n)
            s = s[:i] + s[m:m + 1] + s[i + 1:]
        else:
            s = s[:i] + g.ch(LAYOUT + NEARLAYOUT) + s[i:]
    return s


# ---------------------------------------------------------------- machine rules
WIDTHS = ["8", "16", "32", "64"]
BIN = ["Add", "Sub", "And", "Or", "Xor"]
UNARY = ["Neg", "Com"]
SMTNAMES = ["x", "y", "z", "w", "off", "c1"]
ODDNAMES = ["and", "or", "xor", "not", "true", "false", "distinct", "ite", "let", "as", "par", "match", "exists", "forall",
            "assert", "push", "pop", "exit", "echo", "reset", "concat", "extract", "repeat", "zero_extend", "sign_extend",
            "rotate_left", "rotate_right", "bvadd", "bvsub", "bvneg", "bvnot", "bvand", "bvor", "bvxor", "bvult", "bv", "bvx", "bv1",
            "x_", "x__", "x1", "a_b", "q0", "xX", "bV", "b", "t", "f", "v0", "e", "s", "set", "check", "info", "logic", "select", "store",
            "bool", "bitvec", "sat", "unsat", "min", "abs", "d_0", "sym", "declare", "const", "fun", "define", "get", "par0", "as_", "let1", "_"]


def smt_ops(sort):
    if sort == "B":
        return [("AndB", 2), ("OrB", 2), ("EqB", 2), ("NeqB", 2), ("Not", 1)]
    return [(f + sort, 2) for f in BIN] + [(f + sort, 1) for f in UNARY]


ALLOPS = [(o, n, s) for s in WIDTHS + ["B"] for o, n in smt_ops(s)]
NEAROPS = ["Mul8", "Add", "Add128", "Eq8", "Neq8", "AndBB", "Not8", "And", "add8", "Add8x", "Xor", "XorB", "NegB", "ComB", "SubB", "AddB", "Lsh8x8",
           "Const8", "Add32F", "AddPtr", "Or1", "NotB", "Neg", "Com", "A", "x", "8", "Eq", "Neq", "Sub32F"]


def S(op, *args, **kw):
    v = {"k": "s", "bind": "", "op": {"k": "o", "n": op}, "t": "", "ai": [], "ax": [], "a": list(args), "el": False, "tr": False}
    v.update(kw)
    return v


def V(n):
    return {"k": "v", "n": n}


def R(m, r, c=(), b=""):
    return {"m": m, "c": list(c), "b": b, "r": r}


def copyv(v):
    return json.loads(json.dumps(v))


# Names that are easily taken for one another.
LIKENAMES = [["xy", "xY"], ["xY", "xy", "_"], ["x", "x1", "x10"], ["x1", "x01"], ["x", "xx", "xxx"], ["x_", "x", "x__"], ["v" * 40 + "a", "v" * 40 + "b"], ["v" * 300 + "a", "v" * 300 + "b"],
             ["a", "b", "c", "d", "e"], ["x0", "x1", "x2", "x3"], ["x", "zz"], ["zz", "z"], ["l1", "lI", "ll"], ["o0", "oO"], ["ptr", "ptr0", "mem"], ["x2y", "x2Y", "x_2y"]]


class SmtGen:
    def __init__(self, g):
        self.g = g

    def term(self, sort, d, names, leaf=.3):
        g = self.g
        if d <= 0 or g.p(leaf):
            return V(g.ch(names))
        op, n = g.ch(smt_ops(sort))
        return S(op, *[self.term(sort, d - 1, names, leaf) for _ in range(n)])

    def root(self, sort, d, names):
        op, n = self.g.ch(smt_ops(sort))
        return S(op, *[self.term(sort, d - 1, names) for _ in range(n)])

    def rewrite(self, v, sort):
        """An equal term."""
        g = self.g
        if v["k"] != "s" or g.p(.2):
            k = g.r.randrange(3)
            if sort == "B":
                return S("Not", S("Not", v)) if k == 0 else S("AndB", v, v) if k == 1 else S("OrB", v, v)
            f = lambda n: n + sort
            return S(f("Neg"), S(f("Neg"), v)) if k == 0 else S(f("And"), v, v) if k == 1 else S(f("Sub"), v, S(f("Xor"), V("x"), V("x"))) if not has_placeholder(v) else v
        op = v["op"]["n"]
        a = [self.rewrite(x, sort) for x in v["a"]]
        if sort == "B":
            if op in ("AndB", "OrB") and g.p(.3):
                o2 = "OrB" if op == "AndB" else "AndB"
                return S("Not", S(o2, S("Not", a[0]), S("Not", a[1])))
            if op == "NeqB" and g.p(.5):
                return S("Not", S("EqB", a[0], a[1]))
            if op != "Not" and g.p(.5):
                a.reverse()
            return S(op, *a)
        f = op[:-len(sort)]
        if f == "Sub" and g.p(.5):
            return S("Add" + sort, a[0], S("Neg" + sort, a[1]))
        if f == "Neg" and g.p(.3):
            return S("Add" + sort, S("Com" + sort, a[0]), S("Sub" + sort, V("x"), S("Add" + sort, V("x"), S("Com" + sort, S("Xor" + sort, V("x"), V("x"))))))
        if f in ("Add", "And", "Or", "Xor") and g.p(.5):
            a.reverse()
        return S(op, *a)

    def rule(self, names=None, d=None):
        """A rule that can be translated."""
        g = self.g
        sort = g.ch(WIDTHS + ["B"])
        if names is None:
            names = g.ch([["x"], ["x", "y"], ["x", "y"], ["x", "y", "z"], ["x", "_"], ["_"], ["x", "y", "off", "c1"]])
            if g.p(.2):
                names = g.ch(LIKENAMES)
            elif g.p(.25):
                names = [g.ch(ODDNAMES) for _ in range(g.ch([1, 2, 2]))]
        d = d or g.ch([1, 2, 2, 3])
        m = self.root(sort, d, names)
        while count_placeholders(m) > 3:
            m = self.root(sort, 1, names)
        k = g.r.randrange(5)
        if k == 0:
            r = V("zz")
        elif k == 1 and sort != "B":
            m = S("Add" + sort, V("zz"), m)
            r = self.term(sort, 2, [n for n in names if n != "_"] or ["y"])
        elif k == 2 and not has_placeholder(m):
            r = self.rewrite(copyv(m), sort)
        elif k == 3:
            r = copyv(m) if not has_placeholder(m) else V("_")
        else:
            r = self.term(sort, g.ch([0, 1, 2]), [n for n in names if n != "_"] or ["y"])
        return R(m, r)

    def large(self):
        """A rule that can be translated, with many variables or deep."""
        g = self.g
        sort = g.ch(WIDTHS + ["B"])
        names = ["v%d" % i for i in range(g.ch([3, 4, 5] if sort == "B" else [3, 6, 10, 24]))]
        k = g.r.randrange(3)
        if k == 0:
            m = self.root(sort, g.ch([4, 5]), names)
        else:
            m = V(g.ch(names))
            for _ in range(g.ch([10, 30, 55])):
                op, n = g.ch(smt_ops(sort))
                a = [m] + [V(g.ch(names)) for _ in range(n - 1)]
                if g.p(.5):
                    a.reverse()
                m = S(op, *a)
            if k == 1 and m["k"] == "s" and g.p(.7):     # a placeholder deep inside
                v = m
                while True:
                    w = [a for a in v["a"] if a["k"] == "s"]
                    if not w:
                        v["a"][0] = V("_")
                        break
                    v = w[0]
        r = self.rewrite(copyv(m), sort) if k == 0 and g.p(.3) else self.term(sort, 5, names, .1) if g.p(.5) else V("zz") if g.p(.5) else V(g.ch(names))
        return R(m, r)

    def spoil(self, r):
        """A rule with one thing in it that cannot be translated (mostly)."""
        g = self.g
        r = copyv(r)
        ss = []
        sexprs(r["m"], ss)
        sexprs(r["r"], ss)
        v = g.ch(ss)
        k = g.r.randrange(16)
        if k == 0:
            v["bind"] = g.name()
        elif k == 1:
            v["t"] = g.ch(["t", "typ.UInt8", "int8"])
        elif k == 2:
            v["ai"] = [{"k": "lit", "v": "0"} if g.p(.5) else {"k": "id", "n": "c"}]
        elif k == 3:
            v["ax"] = [{"k": "id", "n": "s"}]
        elif k == 4:
            v["el"] = True
        elif k == 5:
            v["tr"] = True
        elif k == 6:
            v["op"] = {"k": "p", "ps": [{"k": "a", "alts": [v["op"]["n"], g.ch(ALLOPS)[0]]}]}
        elif k == 7:
            v["op"] = {"k": "o", "n": g.ch(NEAROPS)}
        elif k == 8:
            v["op"] = {"k": "o", "n": g.ch(ALLOPS)[0]}
        elif k == 9 and v["a"]:
            v["a"] = v["a"][:-1]
        elif k == 10:
            v["a"] = v["a"] + [copyv(g.ch(v["a"] or [V("x")]))]
        elif k == 11 and v["a"]:
            v["a"][g.r.randrange(len(v["a"]))] = {"k": "e", "e": g.call(0)}
        elif k == 12:
            r["c"] = [g.ch([{"k": "id", "n": "true"}, {"k": "id", "n": "x"}, {"k": "bin", "op": "==", "x": {"k": "id", "n": "x"}, "y": {"k": "lit", "v": "0"}}])]
        elif k == 13:
            r["b"] = "v.Block"
        elif k == 14:
            r["m"] = V(g.ch(["x", "_", "y"]))
        else:
            r["r"] = {"k": "e", "e": g.call(0)}
        return r


def sexprs(v, into):
    if v["k"] == "s":
        into.append(v)
        for a in v["a"]:
            sexprs(a, into)


def leaves(v):
    return [v["n"]] if v["k"] == "v" else [n for a in v.get("a", []) for n in leaves(a)]


def count_placeholders(v):
    return leaves(v).count("_")


def has_placeholder(v):
    return "_" in leaves(v)


def near_table():
    """Every operation with a character more, less or changed in its name."""
    out = []
    letters = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_"
    for op, n, s in ALLOPS:
        near = [op + c for c in letters] + [c + op for c in letters]
        near += [op[:i] + op[i + 1:] for i in range(len(op))] + [op[:i] + op[i].swapcase() + op[i + 1:] for i in range(len(op))]
        near += [op[:i] + c + op[i:] for i in range(1, len(op)) for c in "x8_" + op[i]] + [op.upper(), op.lower(), op + op, op + "Sat", op + "const", "Const" + op, op + "F", op + "x" + s, op + "to" + s]
        for o in near:
            a = [V(x) for x in "xy"[:n]]
            out.append(R(S(o, *a), V("x")) if len(out) % 2 else R(S(op, *a), S(o, *a)))
    return out


def smt_table():
    """Every operation alone, with every operand pattern, in match and result."""
    out = []
    for op, n, s in ALLOPS:
        other = ("Com" + s) if s != "B" else "Not"
        for args in ([["x"], ["_"]] if n == 1 else [["x", "y"], ["x", "x"], ["_", "x"], ["x", "_"], ["_", "_"]]):
            t = S(op, *[V(a) for a in args])
            out.append(R(t, V("z")))
            out.append(R(t, V("_")))
            out.append(R(S(other, V("z")), t))
            out.append(R(t, V("x")))
            if n == 2:
                out.append(R(S(op, t, V("y")), V("z")))
                out.append(R(S(op, V("y"), t), V("z")))
        for m in range(5):
            out.append(R(S(op, *[V("x")] * m), V("x")))
            out.append(R(S(other, V("x")), S(op, *[V("x")] * m)))
        for op2, n2, _ in ALLOPS:
            out.append(R(S(op, *([S(op2, *[V(x) for x in "xy"[:n2]])] + [V("z")] * (n - 1))), V("w")))
            out.append(R(S(op, *[V(x) for x in "xy"[:n]]), S(op2, *[V(x) for x in "yz"[:n2]])))
    for op in NEAROPS:
        for n in range(4):
            out.append(R(S(op, *[V("x")] * n), V("x")))
            out.append(R(S("Not", V("x")), S(op, *[V("x")] * n)))
            out.append(R(S("Add8", V("x"), S(op, *[V("x")] * n)), V("x")))
    for n in ODDNAMES:
        for s in ("B", "8"):
            a, o = ("AndB", "Not") if s == "B" else ("Add8", "Neg8")
            out.append(R(S(a, V(n), V("x")), V(n)))
            out.append(R(S(o, V("x")), V(n)))
            out.append(R(S(a, V(n), V("_")), S(o, V(n))))
    return out
