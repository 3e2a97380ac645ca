"""Reads a PEG file of the kind pigeon takes and writes Go that performs it on
the machine in harness/grammar/engine.go: its rules as data, its actions as
functions."""
import re


class Bad(Exception):
    """Not a grammar."""


class Reader:
    def __init__(self, s):
        self.s, self.i = s, 0
        self.init, self.rules, self.actions = "", [], []

    def fail(self, why):
        raise Bad("line %d: %s" % (self.s.count("\n", 0, self.i) + 1, why))

    def gap(self):
        m = re.compile(r"(?:\s|//[^\n]*|/\*.*?\*/)*", re.S).match(self.s, self.i)
        self.i = m.end()

    def eat(self, pat):
        m = re.compile(pat, re.S).match(self.s, self.i)
        if not m:
            return None
        self.i = m.end()
        return m

    def code(self):
        """A block of Go in braces."""
        j, depth = self.i, 0
        tok = re.compile(r"//[^\n]*|/\*.*?\*/|\"(?:\\.|[^\"\\\n])*\"|'(?:\\.|[^'\\\n])*'|`[^`]*`|[{}]|[^{}\"'`/]+|/", re.S)
        while True:
            m = tok.match(self.s, j)
            if not m:
                self.fail("code block does not end")
            j = m.end()
            depth += {"{": 1, "}": -1}.get(m.group(), 0)
            if depth == 0:
                break
        body = self.s[self.i + 1:j - 1]
        self.i = j
        return body

    def grammar(self):
        self.gap()
        if self.s.startswith("{", self.i):
            self.init = self.code()
            self.eat(r"\s*;")
        while True:
            self.gap()
            if self.i == len(self.s):
                return self
            m = self.eat(r"[^\W\d]\w*")
            if not m:
                self.fail("expect a rule")
            self.gap()
            self.eat(r"\"(?:\\.|[^\"\\\n])*\"|'(?:\\.|[^'\\\n])*'|`[^`]*`")
            self.gap()
            if not self.eat(r"<-|=|\u2190|\u27f5"):
                self.fail("expect an arrow")
            self.rules.append((m.group(), self.choice()))
            self.eat(r"[ \t]*;")

    def choice(self):
        es = [self.action()]
        while True:
            self.gap()
            if not self.eat(r"/(?![/*])"):
                break
            es.append(self.action())
        return es[0] if len(es) == 1 else ("choice", es)

    def action(self):
        es, seen = [], []
        self.seen = seen
        while True:
            at = self.i
            self.gap()
            e = self.labeled(seen)
            self.seen = seen
            if e is None:
                self.i = at
                break
            es.append(e)
        if not es:
            self.fail("expect an expression")
        e = es[0] if len(es) == 1 else ("seq", es)
        self.gap()
        if self.s.startswith("{", self.i):
            self.actions.append((seen, self.code(), "interface{}"))
            e = ("action", len(self.actions) - 1, e)
        return e

    def labeled(self, seen):
        at = self.i
        m = self.eat(r"([^\W\d]\w*)\s*:(?!=)")
        if m:
            self.gap()
            e = self.prefixed()
            if e is None:
                self.fail("expect an expression")
            seen.append(m.group(1))
            return ("label", m.group(1), e)
        self.i = at
        return self.prefixed()

    def prefixed(self):
        m = self.eat(r"[&!]")
        if m:
            self.gap()
            if self.s.startswith("{", self.i):
                self.actions.append((list(self.seen), self.code(), "bool"))
                return ({"&": "andCode", "!": "notCode"}[m.group()], len(self.actions) - 1)
            e = self.suffixed()
            if e is None:
                self.fail("expect an expression")
            return ({"&": "and", "!": "not"}[m.group()], e)
        return self.suffixed()

    def suffixed(self):
        e = self.primary()
        if e is None:
            return None
        at = self.i
        self.gap()
        m = self.eat(r"[?*+]")
        if not m:
            self.i = at
            return e
        return ({"?": "opt", "*": "star", "+": "plus"}[m.group()], e)

    def primary(self):
        s = self.s
        if self.i >= len(s):
            return None
        ch = s[self.i]
        if ch == "(":
            self.i += 1
            e = self.choice()
            self.gap()
            if not self.eat(r"\)"):
                self.fail("expect )")
            return e
        if ch == ".":
            self.i += 1
            return ("any",)
        m = self.eat(r"(\"(?:\\.|[^\"\\\n])*\"|'(?:\\.|[^'\\\n])*'|`[^`]*`)(i?)")
        if m:
            t = m.group(1)
            return ("lit", t[1:-1] if t[0] == "`" else self.unescape(t[1:-1]), m.group(2) == "i")
        m = self.eat(r"\[((?:\\.|[^\]\\\n])*)\](i?)")
        if m:
            return self.cls(m.group(1), m.group(2) == "i")
        if ch in "#%":
            self.fail("not supported: " + ch)
        at = self.i
        m = self.eat(r"[^\W\d]\w*")
        if m:
            # The name of the next rule?
            j = self.i
            self.gap()
            self.eat(r"\"(?:\\.|[^\"\\\n])*\"|'(?:\\.|[^'\\\n])*'|`[^`]*`")
            self.gap()
            nxt = self.eat(r"<-|=|\u2190|\u27f5")
            if nxt:
                self.i = at
                return None
            self.i = j
            return ("ref", m.group())
        return None

    ESC = {"n": "\n", "t": "\t", "r": "\r", "a": "\a", "b": "\b", "f": "\f", "v": "\v"}

    def chars(self, t):
        """Characters of an escaped text, and whether each was escaped."""
        out, i = [], 0
        while i < len(t):
            if t[i] != "\\":
                out.append((t[i], False))
                i += 1
                continue
            c = t[i + 1]
            for p in (r"x([0-9a-fA-F]{2})", r"u([0-9a-fA-F]{4})", r"U([0-9a-fA-F]{8})", r"([0-7]{3})"):
                m = re.compile(p).match(t, i + 1)
                if m:
                    out.append((chr(int(m.group(1), 8 if p[0] == "(" else 16)), True))
                    i = m.end()
                    break
            else:
                if c == "p":
                    self.fail("Unicode classes are not supported")
                out.append((self.ESC.get(c, c), True))
                i += 2
        return out

    def unescape(self, t):
        return "".join(c for c, _ in self.chars(t))

    def cls(self, t, fold):
        inv = t.startswith("^")
        cs = self.chars(t[1:] if inv else t)
        rs, i = [], 0
        while i < len(cs):
            if i + 2 < len(cs) and cs[i + 1] == ("-", False):
                rs.append((cs[i][0], cs[i + 2][0]))
                i += 3
            else:
                rs.append((cs[i][0], cs[i][0]))
                i += 1
        return ("class", inv, rs, fold)


def q(s):
    return '"' + "".join("\\U%08x" % ord(c) if ord(c) > 126 or ord(c) < 32 or c in '"\\' else c for c in s) + '"'


def expr(e):
    k = e[0]
    if k in ("seq", "choice"):
        return "%s{%s}" % (k, ", ".join(expr(x) for x in e[1]))
    if k == "action":
        return "action{%s, act%d}" % (expr(e[2]), e[1])
    if k == "label":
        return "label{%s, %s}" % (q(e[1]), expr(e[2]))
    if k in ("and", "not", "opt", "star", "plus"):
        return "%s{%s}" % (k, expr(e[1]))
    if k in ("andCode", "notCode"):
        return "predicate{%s, act%d}" % (str(k == "andCode").lower(), e[1])
    if k == "any":
        return "anything{}"
    if k == "lit":
        return "lit{%s, %s}" % (q(e[1]), str(e[2]).lower())
    if k == "class":
        return "class{%s, %s, [][2]rune{%s}}" % (str(e[1]).lower(), str(e[3]).lower(), ", ".join("{%d, %d}" % (ord(a), ord(b)) for a, b in e[2]))
    if k == "ref":
        return "ref(%s)" % q(e[1])
    raise AssertionError(k)


IMPORTS = {"goast": "go/ast", "goparser": "go/parser", "gotoken": "go/token", "token": "go/token", "regexp": "regexp", "strings": "strings", "errors": "errors", "fmt": "fmt",
           "bytes": "bytes", "strconv": "strconv", "sort": "sort", "unicode": "unicode", "utf8": "unicode/utf8", "math": "math", "io": "io", "sync": "sync", "slices": "slices", "maps": "maps", "os": "os", "reflect": "reflect", "bufio": "bufio", "unsafe": "unsafe", "filepath": "path/filepath", "path": "path"}


def generate(text, module, package):
    """Go source for the grammar."""
    g = Reader(text).grammar()
    if not g.rules:
        raise Bad("no rules")
    names = {n for n, _ in g.rules}
    code = re.sub(r"^\s*package\s+\w+", "", g.init.lstrip(), count=1)
    given = {}
    for m in re.finditer(r"\bimport\s*(\((.*?)\)|[^\n]*)", code, re.S):
        for im in re.finditer(r"(\w+\s+)?\"([^\"]+)\"", m.group()):
            given[(im.group(1) or im.group(2).split("/")[-1]).strip()] = im.group(2)
    code = re.sub(r"\bimport\s*(\(.*?\)|[^\n]*)", "", code, flags=re.S)
    for i, (labels, body, typ) in enumerate(g.actions):
        binds = "".join("\t%s := vals[%s]\n\t_ = %s\n" % (l, q(l), l) for l in dict.fromkeys(labels))
        code += "\nfunc act%d(c *current, vals map[string]interface{}) (%s, error) {\n%s%s\n}\n" % (i, typ, binds, body)
    table = "".join("\t\t%s: %s,\n" % (q(n), expr(e)) for n, e in g.rules)
    code += "\nfunc init() {\n\tstart = %s\n\trules = map[string]expr{\n%s\t}\n}\n" % (q(g.rules[0][0]), table)
    known = dict(IMPORTS, ast=module + "/ast", goexpr=module + "/parse/internal/goexpr", errutil=module + "/internal/errutil", **given)
    bare = re.sub(r"//[^\n]*|/\*.*?\*/|\"(?:\\.|[^\"\\\n])*\"|`[^`]*`", "", code, flags=re.S)
    used = [n for n in known if re.search(r"(?<![\w.])%s\.[A-Za-z]" % n, bare)]
    head = "package %s\n\nimport (\n%s)\n" % (package, "".join("\t%s %s\n" % (n, q(known[n])) for n in sorted(used)))

    def refs(e):
        if e[0] == "ref":
            yield e[1]
        for x in e[1:]:
            if isinstance(x, tuple):
                yield from refs(x)
            elif isinstance(x, list):
                for y in x:
                    if isinstance(y, tuple) and isinstance(y[0], str) and y[0] in ("seq", "choice", "action", "label", "and", "not", "opt", "star", "plus", "any", "lit", "class", "ref"):
                        yield from refs(y)
    for n, e in g.rules:
        for r in refs(e):
            if r not in names:
                raise Bad("no rule " + r)
    return head + code
