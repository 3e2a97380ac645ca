"""The checks, one per property.  Each one gathers cases (behaviours of the
specification's models, the repository's rule files, seeded random and swept
texts), replays them into the real code and has TLC judge the recorded trace."""
import json, os, time
import gen, vlib
from vlib import SEED, THOROUGH, Result

Q = lambda quick, thorough: thorough if THOROUGH else quick


def dedup(cases):
    seen, out = set(), []
    for c in cases:
        k = json.dumps(c, sort_keys=True)
        if k not in seen:
            seen.add(k)
            out.append(c)
    return out


# ---------------------------------------------------------------- text cases

KF_TEXTS = [
    "(A x) && a // c\n && b => x\n",
    "(A x) && a // c => d\n && b => x\n",
]


def kf_inputs(prop):
    return [i for d in vlib.known_findings(prop) for i in d.get("inputs", [])]


def corpus_texts():
    return [s for _, s in gen.corpus()]


def model_rules(res):
    return vlib.model(res, "MRule", {"BUDGET": Q(5, 6)}, timeout=800)


def corpus_files(res, every, at=0):
    """Some of the repository's rule files, cut into pieces: their texts, the
    rules these denote, and what these expand to."""
    fn = os.path.join(vlib.scratch(), "corpus.ndjson")
    with open(fn, "w") as f:
        for s in corpus_texts()[(SEED + at) % every::every]:
            f.write(json.dumps({"src": s}) + "\n")
    out = vlib.model(res, "MCorpus", {"TEXTS": fn})
    res.notes["models"][-1]["constants"] = {"TEXTS": "rule files, every %d. piece" % every}
    return out


def random_rules(g, n=None):
    rs = [g.rule(g.ch([1, 2, 2, 3])) for _ in range(n or g.ch([1, 1, 1, 2, 3]))]
    if g.p(.15):  # the same rule again, perhaps in a row
        rs.insert(g.r.randrange(len(rs) + 1), g.ch(rs))
    return rs


def random_texts(g, n, wild=.5):
    return [g.file_text(random_rules(g), wild) for _ in range(n)]


def long_texts(g):
    """Files of many rules, and rules of many parts."""
    out = [g.file_text(random_rules(g, n), w) for n, w in ((20, .3), (64, 0), (100, .3), (257, 0))]
    for n in (5, 9, 17, 33, 65):
        nm = lambda p: " ".join("%s%d" % (p, i) for i in range(n))
        out += ["(A %s) && p => (B %s)\n" % (nm("a"), nm("b")),
                "(A%s x) => b\n" % "".join("(P%d|Q%d)x%d" % (i, i, i) for i in range(n)),
                "(A(%s) x) => (B(%s) y)\n" % ("|".join("%d" % i for i in range(n)), "|".join("%d" % (i % 3) for i in range(n))),
                "(A x) => f(%s)\n" % nm("c").replace(" ", ", "), "(A x) && %s => b\n" % nm("d").replace(" ", " && "),
                "(A [%s] {%s} x) => b\n" % (nm("e").replace(" ", "+"), nm("g").replace(" ", " - ")),
                "(A <%s> x) => @%s b\n" % ("t" * n, "b" * n), "%s:(%s %s) => %s\n" % ("v" * n, "O" * n, "w" * n, "r" * n),
                "(A " * n + "x" + ")" * n + " => " + "z:(B " * n + "x" + ")" * n + "\n",
                "(A x) => " + "f(x, " * n + "y" + ")" * n + "\n"]
    return out


def sweep_texts():
    out = []
    for s in gen.SITES:
        for c in gen.CHARS:
            out.append(s % c)
    for s in gen.SITES:
        for c in gen.LAYOUT + gen.NEARLAYOUT:
            out.append(s % c)
    return out


def gap_texts(g, fillers, rules):
    """Every gap of every rule with every filler, including where no gap is allowed."""
    out = []
    for r in rules:
        items = g.file_items([r], shuffle=False)
        for i in range(len(items)):
            for f in fillers:
                t = ""
                for j, (s, gp) in enumerate(items):
                    t += s + (f if i == j else (" " if gp in "rnc" and gp else ""))
                out.append(t)
    return out


def near_texts(g, n, base):
    return [gen.mutate(g, g.ch(base)) for _ in range(n)]


def junk_texts(g, n):
    out = []
    for _ in range(n):
        out.append("".join(g.ch(gen.TOKENS + gen.TOKENS + gen.CHARS) for _ in range(g.r.randrange(0, 14))))
    return out


def bytes_cases(g, n, base, t="parse"):
    out = []
    frag = [b"\xff", b"\xc3", b"\x80", b"\xed\xa0\x80", b"\xf0\x9f\x98", b"\xc0\xaf", b"\xef\xbb\xbf", b"\xfe", b"\xf8\x88\x80\x80\x80", b"\xe2\x28\xa1"]
    fixed = ["(A x) => b // c%s\n", "// %s\n", "(A <%s> x) => b", "(A {\"%s\"}) => b", "(A%s x) => b", "(A x) => @%s b", "(A x) && \"%s\" == y => b", "%s", "(A x) => b%s", "(A [%s] x) => b"]
    for f in fixed:
        a, b = f.split("%s")
        for x in frag:
            out.append(gen.bytes_case(t, a.encode() + x + b.encode()))
    for _ in range(n):
        s = g.ch(base).encode()
        i = g.r.randrange(len(s) + 1)
        out.append(gen.bytes_case(t, s[:i] + g.ch(frag) + s[i + g.r.randrange(2):]))
    return out


def prefixes(g, texts, n):
    out = []
    for _ in range(n):
        s = g.ch(texts)
        out.append(s[:g.r.randrange(len(s) + 1)])
    return out


def rich_rules(g):
    return [
        {"m": {"k": "s", "bind": "z", "op": {"k": "p", "ps": [{"k": "o", "n": "A"}, {"k": "a", "alts": ["8", "16"]}, {"k": "o", "n": "y"}]},
               "t": "t", "ai": [{"k": "id", "n": "c"}], "ax": [{"k": "id", "n": "s"}],
               "a": [{"k": "v", "n": "x"}, {"k": "s", "bind": "w", "op": {"k": "o", "n": "B"}, "t": "", "ai": [], "ax": [], "a": [], "el": True, "tr": False}],
               "el": False, "tr": True},
         "c": [{"k": "bin", "op": "&&", "x": {"k": "id", "n": "p"}, "y": {"k": "un", "op": "!", "x": {"k": "id", "n": "q"}}}],
         "b": "v.B", "r": {"k": "e", "e": {"k": "call", "f": {"k": "id", "n": "f"}, "a": [{"k": "id", "n": "x"}, {"k": "id", "n": "_"}], "v": False}}},
        {"m": {"k": "s", "bind": "", "op": {"k": "o", "n": "A"}, "t": "", "ai": [], "ax": [], "a": [{"k": "e", "e": {"k": "call", "f": {"k": "id", "n": "f"}, "a": [
            {"k": "call", "f": {"k": "id", "n": "g"}, "a": [{"k": "id", "n": "y"}], "v": False}, {"k": "id", "n": "x"}], "v": False}}, {"k": "v", "n": "_"}], "el": True, "tr": True},
         "c": [], "b": "", "r": {"k": "s", "bind": "", "op": {"k": "o", "n": "D"}, "t": "", "ai": [], "ax": [], "a": [{"k": "v", "n": "x"}], "el": False, "tr": False}},
        {"m": {"k": "v", "n": "x"}, "c": [], "b": "", "r": {"k": "v", "n": "_"}},
    ]


def run(prop, res, cases, module=None, race=None, **kw):
    try:
        h = vlib.build(grammar=cases[0]["t"] in ("grammar", "bulkgrammar"))
    except vlib.NoGrammar as e:
        c = dict(cases[0], o={"panic": str(e), "hang": False})
        c.pop("b64", None)
        return vlib.judge(res, prop, [json.dumps(c)])
    if race is None:
        race = any(c.get("par") for c in cases)
    cases = dedup(cases)
    env = {"VERIF_TMP": vlib.scratch()}
    if any(c["t"] in ("cli", "bulkcli") for c in cases):
        env["VERIF_CMD"] = vlib.build_cmd()
    if race:
        env["VERIF_PLAIN"] = h
        h = vlib.build(race=True)
        env["GORACE"] = "halt_on_error=1 exitcode=66"
    module = module or MODULES.get(cases[0]["t"], "Judge")
    lines = vlib.replay(h, cases, env)
    vlib.judge(res, prop, lines, module=module, **kw)


MODULES = {"bulktree": "JudgeCensus", "bulklayout": "JudgeCensus", "bulkwalk": "JudgeCensus", "bulkquery": "JudgeCensus", "bulkdump": "JudgeCensus",
           "bulklocate": "JudgeCensus", "bulkgrammar": "JudgeCensus", "bulkhistory": "JudgeCensus", "walk": "TraceWalk", "session": "TraceSession", "fault": "TracePrinter", "read": "TraceReader"}


def T(t, texts):
    return [gen.text_case(t, s) for s in texts]


def c01(res):
    g = gen.G(SEED * 1000 + 1)
    cases = T("round", corpus_texts())
    cases += T("round", [m["src"] for m in model_rules(res)])
    cases += T("round", long_texts(g) + random_texts(g, Q(5000, 40000)))
    cases += T("round", near_texts(g, Q(3000, 30000), random_texts(g, 300)))
    cases += T("round", sweep_texts() + expr_texts(g, Q(2000, 30000)) + [t for _, t in expr_sweep(g, Q(.3, 1))])
    run("C01", res, cases)
    run("C01", res, bulk_cases())


def c02(res):
    g = gen.G(SEED * 1000 + 2)
    cases = T("parse", kf_inputs("C02") + corpus_texts())
    cases += T("parse", [m["src"] for m in model_rules(res)])
    cases += T("parse", long_texts(g) + random_texts(g, Q(8000, 60000)))
    cases += T("parse", sweep_texts())
    cases += T("parse", gap_texts(g, gen.LAYOUT, rich_rules(g)))
    cases += T("parse", near_texts(g, Q(3000, 30000), random_texts(g, 300)))
    cases += T("parse", grammar_texts(res, Q(1, 0)) + expr_texts(g, Q(1000, 20000)) + [t for _, t in expr_sweep(g, Q(.3, 1))])
    run("C02", res, cases)
    run("C02", res, [{"t": "bulktree", "p": p, "n": n} for p, n in bulk_sources()])


def c03(res):
    g = gen.G(SEED * 1000 + 3)
    cases = []
    L = lambda src, base: {"t": "layout", "src": src, "base": base}
    for d in kf_layout("C03"):
        cases.append(L(d[0], d[1]))
    for m in vlib.model(res, "MLayout", {"BUDGET": Q(1, 2)}, timeout=800):
        cases.append(L(m["src"], m["base"]))
    for _ in range(Q(5000, 50000)):
        rs = random_rules(g) if g.p(.9) else []
        items = g.file_items(rs)
        base = g.fill(items, 0)
        for _ in range(2):
            cases.append(L(g.fill(items, g.ch([.3, .6, .9])), base))
    for s in corpus_texts():
        cases.append(L(strip_comments(s), s))
        cases.append(L(respace(g, s), s))
    for _ in range(Q(200, 2000)):
        s = "".join(g.ch(gen.LAYOUT) for _ in range(g.r.randrange(6))) + g.ch(["", "//", "// x"])
        cases.append(L(s, ""))
    run("C03", res, cases)
    run("C03", res, bulk_layouts())


def kf_layout(prop):
    return [i for d in vlib.known_findings(prop) for i in d.get("layouts", [])]


def strip_comments(s):
    """Remove comments standing on lines of their own."""
    return "\n".join(ln for ln in s.split("\n") if not ln.lstrip().startswith("//"))


def respace(g, s):
    """Re-space lines outside strings, conditions and brackets: only line
    starts and ends, where any layout is neutral."""
    out = []
    for ln in s.split("\n"):
        if ln.strip() == "":
            out.append(g.ch(["", " ", "\t", "// c", "//"]) if not out or "&&" not in out[-1] else ln)
        else:
            out.append(g.ch(["", " ", "\t"]) + ln)
    return "\n".join(out)


def bulks(t, shapes):
    """A shape is (before, part, n, between, part, after), and what comes of it in the same form.
    A # in a part is its number."""
    cut = lambda x: [x[0], x[1], x[3], x[4], x[5]] if x else []
    return [{"t": t, "p": cut(x), "n": x[2], "w": cut(x[6] if len(x) > 6 else x if t == "bulk" else None)} for x in shapes]


def bulk_cases():
    """Many of everything: (before, part, n, between, part, after)."""
    N = lambda q: Q(q, 5 * q)
    return bulks("bulk", [
        ("", "(A# ", N(20000), "x", ")", " => b\n"), ("x => ", "y#:(A1 ", N(20000), "", ")", "\n"), ("(A x) => ", "f#(", Q(700, 2000), "x", ")", "\n"),
        ("(A ", "(B ", N(3000), "", "", " x) => b\n"), ("(A x) => b ", ")", N(20000), "", "", "\n"), ("", "(", N(100000), "", "", ""),
        ("(A", " x#", N(60000), "", "", ") => b\n"), ("(A", " (B# y)", N(30000), "", "", " ...) => b\n"), ("x => f(y", ", z#", N(20000), "", "", ")\n"),
        ("(A(8", "|#", N(40000), "", "", ") x) => b\n"), ("(A", "(#|16)", N(20000), "", "", " x) => b\n"), ("(A", "b", N(300000), "", "", ") => b\n"),
        ("", "(A x#) => b\n", N(20000), "", "", ""), ("", "(A x) =>\tb ", N(20000), "", "", ""), ("(A x) => b\n", "// c\n", N(100000), "", "", ""), ("", "\n", N(300000), "", "", ""),
        ("(A", " ", N(300000), "", "", "x) => b\n"), ("(A x) // ", "c", N(300000), "", "", "\n=> b\n"), ("(A <", "t#", N(50000), "", "", ">) => b\n"), ("v", "v", N(300000), "", "", " => b\n"),
        ("(A x) => @", "b#", N(50000), "", "", " y\n"), ("(A x) => @b ", " ", N(300000), "y", "", "\n"), ("(A x) && c", " && d#", N(5000), "", "", " => b\n"), ("(A x) && ", "!", N(3000), "c", "", " => b\n"),
        ("(A x) && ", "(", N(3000), "c", ")", " => b\n"), ("(A {", "f#(", N(1500), "c", ")", "}) => b\n"), ("(A [c", "+1#", N(5000), "", "", "]) => b\n"), ("(A [c", ".d#", N(5000), "", "", "]) => b\n"),
        ("(A {\"", "s", N(200000), "", "", "\"}) => b\n"), ("(A [", "9", N(50000), "", "", "]) => b\n"), ("(A x) && a", "-", N(2), "b", "", " => b\n"), ("(A x) &&", " ", N(200000), "c", " ", " => b\n"),
        ("(A x) => b\n", "(A x) => b\n", N(10000), "(A x) =>", "", ""), ("(A", " x", N(30000), "", "", " => b\n"), ("(A <t", "<", N(100000), "", "", "x) => b\n"),
        ("(A {f(c", ", d#", N(5000), "", "", ")}) => b\n"), ("", "v#:(A(x#|y) <t#> [1#+c] {d.e#} f(a#) _ ...) && u# == 0x# => @b# (C#)\n", N(2000), "", "", ""), ("(A f(x", ", f(y#)", N(1000), ") g(z", ", w", ") ...) => b\n")])


def bulk_sources(less=1):
    """The texts of bulk_cases, and how many parts they have."""
    return [(c["p"], max(4, c["n"] // less)) for c in bulk_cases()]


def bulk_layouts():
    """Two layouts of the same: one of gaps, the other without."""
    N = lambda q: Q(q, 5 * q)
    L = lambda p, q, n: {"t": "bulklayout", "p": list(p), "q": list(q), "n": N(n)}
    x = ["(A", "x)", "=>", "b", "&&", "c"]
    out = []
    for gap in (" ", "\n", "\t", "\r\n", "//\n", "// c# => b\n", " // (\n\t", "//) && d\n\n"):
        out += [L(("(A ", gap, "x) => b\n", "", ""), ("(A x) => b\n", "", "", "", ""), 20000), L(("(A x)", gap, "=> b\n", gap, "(B y) => c"), ("(A x) => b\n(B y) => c", "", "", "", ""), 10000),
                L(("", gap, "(A x) =>", gap, "b"), ("(A x) => b\n", "", "", "", ""), 10000), L((gap, "(A x) => b" + gap, "", "", gap), ("", "(A x) => b\n", "", "", ""), 5000),
                L(("(A", gap + "x#", gap, "", ") => b"), ("(A", " x#", "", "", ") => b"), 5000), L(("(A x) =>", gap, "f(x,", gap, "y)"), ("(A x) => f(x, y)", "", "", "", ""), 5000),
                L(("(A x) " + gap, "", "=> @b" + gap, gap, "(B y)"), ("(A x) => @b (B y)", "", "", "", ""), 5000), L(("", "(" + gap + "A ", gap + "x", gap + ")", " => b"), ("", "(A ", "x", ")", " => b"), 3000),
                L(("(A x) " + gap, "", "&& c " + gap, gap, "=> b") if "/" not in gap else ("(A x)" + gap, gap, "&& c => b", "", ""), ("(A x) && c => b", "", "", "", ""), 2000)]
    return out


def c04(res):
    g = gen.G(SEED * 1000 + 4)
    rnd = random_texts(g, 400)
    cases = T("accept", kf_inputs("C04") + sweep_texts())
    cases += T("accept", gap_texts(g, gen.LAYOUT + gen.NEARLAYOUT, rich_rules(g)))
    cases += T("accept", near_texts(g, Q(9000, 90000), rnd + [m["src"] for m in model_rules(res)][::37]))
    cases += T("accept", junk_texts(g, Q(4000, 40000)))
    cases += T("accept", near_texts(g, Q(300, 3000), [s for s in corpus_texts() if len(s) < 1500]))
    cases += T("accept", prefixes(g, rnd, Q(2000, 20000)))
    cases += T("accept", random_texts(g, Q(2000, 20000)))
    cases += T("accept", expr_texts(g, Q(2000, 20000), broken=.4))
    cases += bytes_cases(g, Q(1000, 10000), rnd, "accept")
    cases += T("accept", deep_texts() + grammar_texts(res) + [t for _, t in expr_sweep(g, Q(.3, 1))])
    run("C04", res, cases)
    run("C04", res, bulk_cases())
    run("C04", res, bulks("bulk", [("", "(A ", 1000000, "x", ")", " => b\n")]))


def deep_texts():
    out = []
    for n in (50, 300):
        out += ["(A " * n + ")" * n + " => b", "(A) => " + "f(" * n + "x" + ")" * n, "(A [" + "(" * n + "c" + ")" * n + "]) => b",
                "(A [" + "-" * 1 + " -" * n + "c]) => b", "(A [" + "c+" * n + "c]) => b", "(A) && " + "!" * n + "c => b", "(A " * n + " => b", "(" * n,
                "(A" + "(B|C)" * n + ") => b", "(A" + " x" * n + ") => b", "(A(" + "|".join(["B"] * n) + ")) => b", "(A) => b\n" * n, "// c\n" * n + "a => b"]
    return out


def literals(g, n):
    """Literals, and what is nearly one."""
    out = []
    first, rest = "0019.", "0178_9a.eExXbBoOpP+-iIfF "
    for a in "0123456789.":
        out += [a] + [a + b for b in rest] + [a + b + g.ch(rest) for b in rest]
    for _ in range(n):
        out.append(g.ch(["", "", "0x", "0X", "0b", "0o", "0O", "0", "1", "0_"]) + "".join(g.ch("0178__9aF.eEpP+-ix" if g.p(.3) else "01_1.") for _ in range(g.ch([1, 2, 3, 4, 6, 9]))))
    for q in "'\"":
        for e in ["\\" + c for c in gen.CHARS] + ["\\x4", "\\x41", "\\xfF", "\\xg1", "\\x414", "\\0", "\\00", "\\000", "\\377", "\\400", "\\378", "\\1234", "\\u00e9", "\\u00e", "\\ud7ff", "\\ud800", "\\uDFFF",
                  "\\ue000", "\\uFFFF", "\\U0001F600", "\\U0010FFFF", "\\U00110000", "\\U0000D800", "\\U0000d7ff", "\\U0000E000", "\\U00000041", "\\U01000000", "\\U0001F60", "\\U20000000", "\\U0001D800", "\U0001F600", "\U0001F600\U0001F600", "\u65e5"]:
            out += [q + e + q, q + e + e + q, q + "a" + e + q, q + e, q + e + " b" + q]
    for c in ["\r", "\n", "\r\n", "\\", "\0", "\ufeff", "\U0001F600", "\xe9", "]", "}"]:
        out += ["`%s`" % c, "`a%sb`" % c, "c + `%s%s`" % (c, c), "`%s" % c]
    for w in ["\xe9", "x\xe9", "\xe9x", "x\u0660", "\u0660", "\u65e5\u672c", "x\U0001d400", "\U0001d400", "x\U0001d7d8", "\U0001d7d8", "x\u0301", "\u0301", "\uff21", "_\xe9", "if\xe9", "\u01c5", "\u02b0", "\u2167", "\u2460", "x\xb2", "\xaa", "\U00020000", "\U0001F600", "\uff3f",
              "\ufeffx", "x\ufeff", "\ufeff", "\0x", "x\0"]:
        out += [w, "c+" + w, w + "(x)", "f." + w, "f(%s, %s)" % (w, w), w + ".F", w + "\xa0", "\xa0" + w, w + "\f", "1" + w, w + " // " + w]
    return [x for x in out if x and "=>" not in x]


def expr_slots(text):
    out = [("cond", "(A x) && %s => b" % text)] if "\n" not in text and "//" not in text and "=>" not in text else []
    if "]" not in text:
        out.append(("ai", "(A [%s] x) => b" % text))
    if "}" not in text:
        out.append(("ax", "(A {%s} x) => b" % text))
    return out


def expr_sweep(g, share):
    """Operators, literals and characters in contexts, as (slot, text)."""
    out = []
    # every pair of adjacent operators, in every slot
    for a in gen.BINOPS:
        for b in gen.UNOPS + ["*"]:
            for t in ("c %s %s d", "c%s%sd", "c%s %s d", "c %s%s%sd"):
                t = t % ((a, b) if t.count("%s") == 2 else (a, b, b))
                for s in expr_slots(t):
                    out.append(s)
    for a in gen.BINOPS:
        for b in gen.BINOPS:
            for t in ("c %s d %s e", "c%sd%se", "(c %s d) %s e", "c %s (d %s e)", "-c %s d %s -e"):
                out.append(g.ch(expr_slots(t % (a, b))))
    for a in gen.BINOPS:
        for b in gen.UNOPS + ["*"]:
            for d in gen.BINOPS:
                out.append(g.ch(expr_slots(g.ch(["c%s%sd%se", "c %s %s d %s e", "c%s %sd%se", "(c%s %sd%se)", "f(c%s %sd%se)"]) % (a, b, d))))
    for a in gen.UNOPS + ["*"]:
        for b in gen.UNOPS + ["*"]:
            for t in ("%s %s c", "%s%sc", "%s(%sc)", "%s %sc.F(x)", "d - %s %s c"):
                for s in expr_slots(t % (a, b)):
                    out.append(s)
    for l in gen.LITS:
        for t in ("%s", "-%s", "%s.F", "%s .F", "f(%s)", "f(x, %s...)", "f(%s ...)", "%s+%s", "x%s", "%s x", "%s(x)", "(%s).F", "-%s .F"):
            for s in expr_slots(t.replace("%s", l)):
                out.append(s)
    for c in gen.CHARS:
        for t in ("c%s", "%sc", "c %s d", "\"%s\"", "'%s'", "`%s`", "\"\\%s\"", "'\\%s'", "1%s", "1%s2", "0%s1", "f(%s)", "c.%s", "1.%s", "f(c%s)", "%s1"):
            for s in expr_slots(t.replace("%s", c)):
                out.append(s)
    for l in literals(g, Q(1500, 20000)):
        out.append(g.ch(expr_slots(l)))
    return [x for x in out if share == 1 or g.p(share)]


def expr_texts(g, n, broken=0):
    out = []
    for _ in range(n):
        t = gojoin(g, gen.gotoks(g.go(g.ch([1, 2, 3, 4])) if g.p(.7) else gen.shape(g.go(3))))
        if g.p(broken):
            t = gen.mutate(g, t)
        sl = expr_slots(t)
        if sl:
            out.append(g.ch(sl)[1])
    return out


def gojoin(g, toks):
    p = g.ch([0, .3, .7, 1])
    return "".join(t + (" " if g.p(p) or (t[-1].isalnum() or t[-1] == "_") and (u[:1].isalnum() or u[:1] == "_") else "") for t, u in zip(toks, toks[1:] + [""])).strip()


def c05(res):
    g = gen.G(SEED * 1000 + 5)
    cases = []
    E = lambda slot, src: {"t": "expr", "slot": slot, "src": src}
    trees = vlib.model(res, "MExpr", {"BUDGET": 4, "WIDE": 1})
    trees += vlib.model(res, "MExpr", {"BUDGET": Q(5, 6), "WIDE": 0})
    for i, m in enumerate(trees):
        if THOROUGH or i % 3 == SEED % 3:
            cases.append({"t": "gotree", "e": m["e"]})
        if not THOROUGH and i % 4 != SEED % 4:
            continue
        sl = expr_slots(gen.gotext(m["e"]))
        if sl:
            cases.append(E(*sl[i % len(sl)]))
    cases += [E(*x) for x in expr_sweep(g, 1)]
    for _ in range(Q(6000, 80000)):
        e = g.go(g.ch([1, 2, 3, 4, 5]))
        if g.p(.3):
            cases.append({"t": "gotree", "e": gen.shape(e)})
        t = gojoin(g, gen.gotoks(e if g.p(.5) else gen.shape(e)))
        sl = expr_slots(t)
        if sl:
            cases.append(E(*g.ch(sl)))
    for _ in range(Q(800, 8000)):
        c = "".join(s for s, _ in _filled(g, gen.call_items(g.call(3))))
        cases.append(E("arg", "(A %s y) => b" % c))
        cases.append(E("res", "(A x) => %s" % c))
    run("C05", res, cases)
    run("C05", res, [{"t": "bulktree", "p": p, "n": n} for p, n in bulk_expressions()])
    run("C05", res, [{"t": "bulk", "p": p, "n": n, "w": []} for p, n in bulk_expressions()])


def _filled(g, items):
    return [(s + (g.opt(.5) if gp == "o" else ""), gp) for s, gp in items]


EXPRESSIONS = [  # an expression of many parts
    ("a", "+b#", "", "", ""), ("", "a#*", "b", "", ""), ("", "f#(", "x", ")", ""), ("f(", "a#,", "b", "", ""), ("f(a", ",b#", "...", "", ")"), ("a", ".b#", "", "", ""), ("", "(", "a", ")", ""), ("", "!", "a", "", ""),
    ("", "- ", "a", "", ""), ("", "*", "a", "", ""), ("", "^", "a", "", ""), ("f", "(a#)", "", "", ""), ("f", "()", "", "", ""), ("a", " && b# == c", "", "", ""), ("a", " || b# && c", "", "", ""), ("a", "-b#/c", "", "", ""),
    ("a", "<<1#", "", "", ""), ("", "a#-(", "b", ")", ""), ("", "-(a#*", "b", ")", ""), ("x", "y#", "", "", ""), ("1", "#", "", "", ""), ("0x", "f#", "", "", ""), ("\"", "s#", "", "", "\""), ("\"", "\\n", "", "", "\""), ("1.", "0#", "e", "", "1"),
    ("`", "s#", "", "", "`"), ("f(", "-g(x#),", "*", "*", "y)"), ("a", "+ ", "b", "", ""), ("a", "&^b#|c", "", "", ""), ("a", "%b#^c&d", "", "", ""), ("a", "<b#", "", "", ""), ("", "&", "a", "", ""), ("", "f(x#)+", "!a", ".b#(c)", "")]


def bulk_expressions():
    out = []
    for i, (a, b, c, d, e) in enumerate(EXPRESSIONS):
        for j, (l, r) in enumerate([("(A x) && ", " => b\n"), ("(A [", "] x) => b\n"), ("(A {", "} x) => b\n")]):
            if (i + j + SEED) % Q(2, 1) == 0:
                out.append(([l + a, b, c, d, e + r], Q(1000, 5000)))
    return out


def c06(res):
    g = gen.G(SEED * 1000 + 6)
    cases = T("round", corpus_texts())
    mr = model_rules(res)
    cases += [{"t": "tree", "rs": m["rs"]} for m in mr[::Q(3, 1)]]
    cases += T("round", [m["src"] for m in mr[::Q(4, 1)]])
    for _ in range(Q(1500, 15000)):
        rs = [g.rule(g.ch([1, 2, 3])) for _ in range(g.ch([1, 1, 2]))]
        items = g.file_items(rs)
        cases += T("round", [g.fill(items, w) for w in (0, .5, .9)])
        cases += T("round", [g.file_text(rs, .3)])
        cases.append({"t": "tree", "rs": rs})
    cases += T("round", long_texts(g) + expr_texts(g, Q(2000, 30000)) + random_texts(g, Q(3000, 20000)) + [t for _, t in expr_sweep(g, Q(.3, 1))])
    run("C06", res, cases)
    run("C06", res, bulk_cases())


def ast_rules(g, n, palt, same=.7):
    """Rules whose groups mostly have the same number of choices."""
    out = []
    for _ in range(n):
        k = (g.ch([2, 2, 3, 4, 5]) if g.p(.93) else g.r.randrange(6, 18)) if g.p(same) else None
        out.append(g.rule(g.ch([1, 2, 3, 4]), palt, k))
    return out


def expand_cases(g, res):
    cases = []
    X = lambda rs, share=False: {"t": "expand", "rs": rs, "share": share}
    em = vlib.model(res, "MExpand", {"BUDGET": Q(4, 5)})
    cases += [X(m["rs"]) for m in em]
    for _ in range(Q(5000, 50000)):
        rs = ast_rules(g, g.ch([0, 1, 1, 2, 3, 4]), g.ch([.1, .3, .6]), g.ch([.5, .9, 1]))
        share = g.p(.3)
        if share and rs:
            rs = [g.ch(rs) for _ in range(len(rs) + 2)]
        cases.append(X(rs, share))
    # one mismatch somewhere in otherwise fine files
    for _ in range(Q(1500, 15000)):
        n = g.ch([2, 3, 4])
        rs = [g.rule(3, .5, n) for _ in range(g.ch([1, 2, 3]))]
        bad = g.ch(rs)
        ops = []
        collect_ops(bad["m"], ops)
        collect_ops(bad["r"], ops)
        if ops:
            v = g.ch(ops)
            v["op"] = {"k": "p", "ps": [{"k": "a", "alts": [g.word() for _ in range(g.ch([2, 3, 4, 5, 7]))]}]}
        cases.append(X(rs))
    return cases


def collect_ops(v, into):
    if v["k"] == "s":
        into.append(v)
        for a in v["a"]:
            collect_ops(a, into)


def bulk_expand_cases():
    N = lambda q: Q(q, 5 * q)
    return bulks("bulkexpand", [
        ("", "(A(8|16) x) => (B(8|16) x)\n", N(10000), "", "", "", ("", "(A8 x) => (B8 x)\n(A16 x) => (B16 x)\n", 0, "", "", "")),
        ("(A(0", "|#", N(20000), "", "", ") x) => b\n", ("(A0 x) => b\n", "(A# x) => b\n", 0, "", "", "")),
        ("(A(0", "|#", N(10000), ") x) => (B(1", "|x#z", ") y)\n", ("(A0 x) => (B1 y)\n", "(A# x) => (Bx#z y)\n", 0, "", "", "")),
        ("(A x (B(0", "|#", N(10000), ") z) w) && c => @b (C y (D(1", "|x#z", ")) v)\n",
         ("(A x (B0 z) w) && c => @b (C y (D1) v)\n", "(A x (B# z) w) && c => @b (C y (Dx#z) v)\n", 0, "", "", "")),
        ("(A", "(8|#)", N(5000), "", "", " x) => b\n"), ("(A", " (C(8|#) x)", N(5000), "", "", ") => b\n"), ("", "(A(1|#) ", N(3000), "x", ")", " => b\n"),
        ("(A(8|16) x) => (B", "(1|2)", N(5000), "", "", ")\n"), ("", "(A x) => b\n", N(10000), "(A(1|2) x) => b\n", "", ""), ("(A(1|2) x) => b\n", "(A x#) => b\n", N(10000), "", "", ""),
        ("", "(A(1|2) x) => b\n", N(10000), "(A(1|2) x) => (B(1|2|3))\n", "", ""), ("(A(1|2) ", "(B(1|2) ", N(3000), "(C(1|2|3))", ")", ") => b\n"),
        ("(A(0", "|#", N(20000), "", "", ") x) => (B(1|2) y)\n"),
        ("(A(1|2|3|4|5|6|7) x", " (B(1|2))", N(5000), "", "", ") => b\n"), ("(A(8|16) x) && c => @b (B(8|16)", " x#", N(20000), "", "", ")\n"), ("x => y\n", "// c\n", N(10000), "", "", "")])


def c07(res):
    cases = expand_cases(gen.G(SEED * 1000 + 7), res)
    cases += [{"t": "expand", "rs": m["rs"], "share": False} for m in corpus_files(res, Q(4, 1))]
    run("C07", res, cases)
    run("C07", res, bulk_expand_cases())


def c08(res):
    g = gen.G(SEED * 1000 + 8)
    cases = expand_cases(g, res)
    # one group of a real file gets another alternative
    for m in corpus_files(res, Q(4, 1)):
        ops = []
        for r in m["rs"]:
            collect_ops(r["m"], ops)
            collect_ops(r["r"], ops)
        ops = [p for v in ops if v["op"]["k"] == "p" for p in v["op"]["ps"] if p["k"] == "a"]
        if ops:
            g.ch(ops)["alts"].append("X")
        cases.append({"t": "expand", "rs": m["rs"], "share": False})
    run("C08", res, cases)
    run("C08", res, bulk_expand_cases())


def nodes_of(rs):
    out = [{"nk": "file", "rs": rs}]

    def val(v):
        if v["k"] == "v":
            return [{"nk": "var", "n": v["n"]}]
        if v["k"] == "e":
            return [{"nk": "expr", "e": v["e"]}]
        o = [{"nk": "sexpr", "v": v}]
        o.append({"nk": "opcode", "n": v["op"]["n"]} if v["op"]["k"] == "o" else {"nk": "parts", "op": v["op"]})
        for a in v["a"]:
            o += val(a)
        return o
    for r in rs:
        out += [{"nk": "rule", "r": r}] + val(r["m"]) + val(r["r"])
    return out


def walk_cases(g, res, apis, n):
    cases = []
    W = lambda root, api, sched: {"t": "walk", "root": root, "api": api, "sched": sched}
    for m in vlib.model(res, "MWalk", {}):
        for api in apis:
            cases.append(W({"nk": "file", "rs": m["rs"]}, api, [1 - min(d, 1) if api == "contains" else d for d in m["sched"]]))
    for _ in range(n):
        rs = [g.rule(g.ch([1, 2, 3, 4]), .4) for _ in range(g.ch([0, 1, 1, 2]))]
        root = g.ch(nodes_of(rs)) if g.p(.3) else {"nk": "file", "rs": rs}
        api = g.ch(apis)
        if api == "contains":
            sched = [0] * g.r.randrange(0, 60) + ([1] if g.p(.7) else []) + [g.ch([0, 1])] * 40
            sched += [0] * 400
        elif g.p(.2):
            sched = []
        else:
            pr = g.ch([0, .05, .2, .5])
            sched = [0 if g.p(pr) else g.ch([1, 2]) for _ in range(80)]
        cases.append(W(root, api, sched))
    return cases


FEATURES = [(list(x), 1000) for x in [
    ("", "(A ", "z:(B)", ")", " => b\n"), ("", "(A ", "(B <t>)", ")", " => b\n"), ("", "(A ", "(B {x})", ")", " => b\n"), ("", "(A ", "(B [1])", ")", " => b\n"), ("", "(A ", "(B ...)", ")", " => b\n"),
    ("", "(A ", "(B ___)", ")", " => b\n"), ("(A", " (B x#)", " z:(C)", "", ") => b\n"), ("(A", " (B x#)", " (C <t>)", " (D)", ") => b\n"), ("(A", " x#", ") => (B", " (C y)", " (D [1] {2} ...))\n"),
    ("(A x) => ", "(B ", "y", " (C ___))", "\n"), ("(A x) && c => @b ", "(B ", "", " z:(C <t>))", "\n"), ("", "(A x) => b\n", "(A x) => b:(B)\n", "", ""), ("(A <t>) => b\n", "(A x) && f(c...) => @d b\n", "", "", "")]]


def bulk_walks(apis):
    out = []
    for i, (p, n) in enumerate(bulk_sources() + FEATURES):
        for api in apis:
            for j, stop in enumerate(["none", "file", "rule", "sexpr", "expr", "var", "opcode", "parts", "alt"]):
                if j == 0 or (i + j + SEED) % Q(3, 1) == 0:
                    out.append({"t": "bulkwalk", "p": p, "n": n, "api": api, "stop": stop})
    return out


def c09(res):
    g = gen.G(SEED * 1000 + 9)
    cases = walk_cases(g, res, ["walk", "walk", "inspect"], Q(5000, 50000))
    for m in corpus_files(res, Q(16, 4)):
        cases += [{"t": "walk", "root": {"nk": "rule", "r": r}, "api": g.ch(["walk", "inspect"]), "sched": [0 if g.p(.1) else g.ch([1, 2]) for _ in range(80)]} for r in m["rs"]]
    run("C09", res, cases, module="TraceWalk")
    run("C09", res, bulk_walks(["walk", "inspect"]))


def c10(res):
    g = gen.G(SEED * 1000 + 10)
    cases = [{"t": "pred", "r": m["rs"][0]} for m in model_rules(res)]
    for _ in range(Q(6000, 60000)):
        f = g.ch([.02, .05, .2, .6])
        m, r = g.sexpr(g.ch([1, 3, 5]), .2, None, f), g.sexpr(g.ch([1, 3, 5]), .2, None, f)
        rule = {"m": m if g.p(.9) else g.value(0), "c": [gen.shape(g.go(2))] if g.p(.3) else [], "b": "v.B" if g.p(.3) else "", "r": r if g.p(.9) else g.value(1)}
        if g.p(.5):
            clear(g, rule["m"])
            clear(g, rule["r"])
        cases.append({"t": "pred", "r": rule})
    cases += [{"t": "pred", "r": r} for m in corpus_files(res, Q(8, 1)) for r in m["rs"]]
    run("C10", res, cases)
    run("C10", res, bulk_walks(["contains"]) + [{"t": "bulkquery", "p": p, "n": n} for p, n in bulk_sources() + FEATURES])
    run("C10", res, walk_cases(g, res, ["contains"], Q(3000, 30000)), module="TraceWalk")


def clear(g, v):
    """Drop features of most S-expressions, leaving lone ones deep inside."""
    if v["k"] == "s":
        for k, z in (("bind", ""), ("t", ""), ("ai", []), ("ax", []), ("el", False), ("tr", False)):
            if g.p(.9):
                v[k] = z
        for a in v["a"]:
            clear(g, a)


def smt_cases(g, res, n, spoiled, every=1, budget=(4, 5)):
    sg = gen.SmtGen(g)
    S = lambda r: {"t": "smt", "r": r}
    real = [r for m in corpus_files(res, Q(4, 1), n) for r in m["xs"]]
    # as they are, and without what is never supported
    real += [dict(gen.copyv(r), c=[], b="") for r in real]
    for r in real[len(real) // 2:]:
        bare(r["m"]), bare(r["r"])
    cases = [S(r) for r in real] + [S(m["rs"][0]) for m in vlib.model(res, "MSmt", {"BUDGET": Q(*budget)})]
    tab = gen.smt_table()
    cases += [S(r) for i, r in enumerate(tab) if THOROUGH or i % every == SEED % every]
    for _ in range(n):
        r = sg.rule()
        if g.p(spoiled):
            r = sg.spoil(r)
        cases.append(S(r))
    return cases + [S(sg.large()) for _ in range(n // 20)]


def bare(v):
    """Drop the types, which may stand on real rules."""
    if v["k"] == "s":
        v["t"] = ""
        for a in v["a"]:
            bare(a)


def c11(res):
    g = gen.G(SEED * 1000 + 11)
    run("C11", res, smt_cases(g, res, Q(3500, 40000), 0))


def c12(res):
    g = gen.G(SEED * 1000 + 12)
    run("C12", res, smt_cases(g, res, Q(6000, 60000), .05))


def c13(res):
    g = gen.G(SEED * 1000 + 13)
    cases = smt_cases(g, res, Q(12000, 120000), .8, budget=(5, 6))
    cases += [{"t": "smt", "r": m["rs"][0]} for m in model_rules(res)[::Q(5, 1)]]
    near = gen.near_table()
    g.r.shuffle(near)
    cases += [{"t": "smt", "r": r} for r in near[:Q(3000, len(near))]]
    for _ in range(Q(2000, 20000)):
        cases.append({"t": "smt", "r": g.rule(g.ch([1, 2]), g.ch([0, .2]))})
    run("C13", res, cases)
    run("C13", res, bulks("bulksmt", [
        ("", "(Neg8 ", Q(2000, 10000), "(Neg8 x)", ")", " => x\n"), ("(Add16 x x) => ", "(Add16 x ", Q(2000, 10000), "x", ")", "\n"), ("", "(Add32 ", Q(2000, 10000), "x", " y)", " => x\n"),
        ("", "(Add64 x y) => (Add64 y x)\n", Q(2000, 10000), "", "", ""), ("(Add8 x", " y", Q(2000, 10000), "", "", ") => x\n"), ("(Com8 v", "v", Q(20000, 100000), "", "", ") => x\n"),
        ("(Add64 x ", "(Add64 _ ", Q(2000, 10000), "y", ")", ") => x\n"), ("(Not x) => ", "(Not ", Q(2000, 10000), "(Neg8 x)", ")", "\n")]))


HOWS = ["rel", "eq", "slash", "odd", "abs", "cwd", "dashes", "twice", "names", "link", "same", "inlink", "stdin"]
BADTEXTS = ["(Add8 x y => x\n", "(Add8 x y) => \n", "x", "(Neg8 x) => y (", "(A [1 +] x) => b\n", "(Add8 x y) => x\n)\n", "// c\n=>\n", "(A x) && b=> c", "(A) => (B)\n(C) => (D", "(A [1] [2]) => b", "\f", "(A x) => b c => "]


def simple_rule(g, sg):
    """A rule, mostly simple, with or without groups, translatable or not."""
    k = g.r.randrange(10)
    if k < 4:
        return sg.rule(g.ch([["x", "y"], ["x", "y", "_"], ["a", "b"]]), g.ch([1, 2]))
    if k < 6:
        f, h = g.ch(gen.BIN), g.ch(gen.BIN)
        ws = g.ch([["8", "16"], ["8", "16", "32", "64"], ["8", "x"], ["32", "64", "128"], ["64", "B", "8"]])
        alt = {"k": "a", "alts": ws}
        grp = lambda n: {"k": "p", "ps": [{"k": "o", "n": n}, alt]}
        m, r = gen.S("", gen.V("x"), gen.V("y")), gen.S("", gen.V("y"), gen.V("x"))
        m["op"], r["op"] = grp(f), grp(h)
        return gen.R(m, r if g.p(.6) else gen.V("x"))
    if k < 7:
        return sg.spoil(sg.rule(["x", "y"], 1))
    if k < 8:
        return gen.R(g.sexpr(2, .1, 2, 0), g.value(1, .2, 2))
    r = g.rule(2, .2, 2)
    return r


def command_cases(g, res, n):
    sg = gen.SmtGen(g)
    cases = []
    for i, m in enumerate(vlib.model(res, "MCommand", {"INPUTS": Q(2, 2)})):
        cases.append(dict(m, t="cli", how=HOWS[i % len(HOWS)]))
    T = lambda s: {"k": "text", "src": s}
    for _ in range(n):
        ins = []
        for _ in range(g.ch([0, 1, 1, 2, 2, 3, 4])):
            ins.append(T(g.file_text([simple_rule(g, sg) for _ in range(g.ch([0, 1, 2, 3, 5, 8]))], g.ch([0, 0, .3]))))
        if g.p(.15) and ins:
            j = g.r.randrange(len(ins))
            ins.append(dict(ins[j], dup=j + 1))
        if g.p(.3):
            k = g.r.randrange(6)
            bad = (T(g.ch(BADTEXTS)) if k < 2 else {"k": "missing", "src": ""} if k == 2 else {"k": "dir", "src": ""} if k == 3 else
                   {"k": "bytes", "src": "", "b64": "KEFkZDggeCB5KSA9PiB4CgovLyD/Cg=="} if k == 4 else
                   T("(A(1|2) x) => (B(1|2|3) x)\n"))
            if g.p(.3) and ins and k < 2:
                j = g.r.randrange(len(ins))
                ins[j] = T(ins[j]["src"] + "\n" + bad["src"])
                for x in ins:
                    if x.get("dup") == j + 1:
                        x["src"] = ins[j]["src"]
            else:
                dups = any("dup" in x for x in ins)
                ins.insert(len(ins) if dups else g.r.randrange(len(ins) + 1), bad)
        pre = []
        if g.p(.4):
            for _ in range(g.ch([1, 1, 2, 3])):
                nm = g.ch(["%04d.smt2" % g.r.randrange(12), "%04d.smt2" % g.r.randrange(4), "0000.smt2", "x", "0.smt2", "1000.smt2", "0001.smt"])
                if all(q["n"] != nm for q in pre):
                    k = g.ch(["file", "file", "dir", "full", "dangling"])
                    pre.append({"n": nm, "k": k, "c": "old\n" * g.ch([0, 1, 400]) if k == "file" else ""})
        d = not g.p(.06)
        cases.append({"t": "cli", "ins": ins, "dir": d, "pre": pre if d else [], "how": g.ch(HOWS), "first": g.r.randrange(10), "prior": g.p(.25)})
    # many rules
    big = "(Neg(8|16|32|64) x) => (Com(8|16|32|64) x)\n(A x) => b\n" * Q(30, 260)
    cases.append({"t": "cli", "ins": [T(big)], "dir": True, "pre": [], "how": "rel"})
    cases.append({"t": "cli", "ins": [T(big)], "dir": True, "pre": [{"n": "0110.smt2", "k": "full", "c": ""}], "how": "rel"})
    return cases


def bulk_runs(faulty):
    """Many scripts, many files: (before, part, between, part, after), how often the file is given."""
    cases = []

    def R(n, ins, pre=(), how="rel"):
        cases.append({"t": "bulkcli", "n": n, "ins": [{"p": list(p), "copies": k} for *p, k in ins], "dir": True, "how": how, "fds": 100,
                      "pre": [{"n": nm, "k": k, "c": c} for nm, k, c in pre]})
    neg, swap, alt = "(Neg8 x) => (Com8 x)\n", "(Add8 x y) => (Add8 y x)\n", "(Add(8|16) x y) => (Add(8|16) y x)\n"
    odd, skip, bad, mism = "(A x) => b\n", "(Neg8 z:(Neg8 x)) => x\n(Neg8 x) && c => x\n", "(Neg8 x) =>\n(", "(A(1|2) x) => (B(1|2|3) x)\n"
    if not faulty:
        R(Q(1100, 4900), [(neg, swap, odd, odd, "// c\n", 1), ("", "", "", "", neg, 1)])
        R(Q(300, 1200), [("", alt + odd, "", skip, neg, 3)], how="eq")
        R(1, [(neg, odd, skip, swap, alt, 1), (odd, "", "", "", swap, Q(300, 800)), ("", "", "", "", alt, 1)], how="abs")
        R(Q(5000, 9000), [("", skip, neg, skip, swap, 1)])
        R(Q(1000, 9000), [("", odd, neg, odd, swap, 1)], [("9999.smt2", "file", "old\n"), ("1000.smt2", "file", "old\n"), ("10000.smt2", "dir", "")], how="cwd")
    for at, n in [("0256.smt2", 150), ("1023.smt2", 600), ("1024.smt2", 600)] if faulty else []:
        R(n, [(neg, swap, odd, alt, swap, 1)], [(at, "full", ""), ("0000.smt2", "file", "old\n")])
    if faulty:
        R(Q(1000, 4000), [("", swap, "", odd, mism, 1)])
        R(Q(1000, 4000), [("", swap, "", odd, "", 1), ("", "", "", "", swap, Q(200, 800)), ("", "", "", "", bad, 1)])
        R(Q(1000, 4000), [("", swap, "", odd, bad, 1)])
    return cases


def c14(res):
    run("C14", res, bulk_runs(False))
    g = gen.G(SEED * 1000 + 14)
    cases = command_cases(g, res, Q(1500, 12000))
    for s in corpus_texts()[SEED % Q(40, 5)::Q(40, 5)]:
        cases.append({"t": "cli", "ins": [{"k": "text", "src": s}], "dir": True, "pre": [], "how": g.ch(HOWS)})
    run("C14", res, cases)


def c15(res):
    run("C15", res, bulk_runs(True))
    run("C15", res, command_cases(gen.G(SEED * 1000 + 15), res, Q(1500, 12000)))


def session_texts(g, sg):
    """Texts to work on: mostly fine ones, some not."""
    if g.p(.03):     # larger than buffers to begin with
        return "".join(g.file_text([simple_rule(g, sg)], 0) for _ in range(g.ch([20, 60])))
    k = g.r.randrange(10)
    if k < 2:
        return g.file_text([simple_rule(g, sg) for _ in range(g.ch([1, 2, 3]))], 0)
    if k < 7:
        return g.file_text([g.rule(g.ch([1, 2, 3]), .3, g.ch([None, 2, 3])) for _ in range(g.ch([1, 1, 2, 3]))], g.ch([0, .3, .8]))
    if k < 8:
        return gen.mutate(g, g.file_text([g.rule(2)], .2))
    return g.ch(BADTEXTS + ["", "// c\n", "(A(1|2) x) => (B(1|2|3) x)\n", "(Add8 x _) => (Sub8 _ x)\n", "(And8 x y) => (And8 y x)\n"])


def sibling(g, t):
    """A text of the same length that differs in one letter or digit, or in the order of two."""
    at = [i for i, c in enumerate(t) if c.isascii() and c.isalnum()]
    if not at:
        return t
    i = g.ch(at)
    if g.p(.4):
        like = [j for j in at if t[j] != t[i] and (t[j].isdigit(), t[j].islower()) == (t[i].isdigit(), t[i].islower())]
        if like:
            i, j = sorted([i, g.ch(like[:3] + like[-3:] + [min(like, key=lambda j: abs(i - j))])])
            return t[:i] + t[j] + t[i + 1:j] + t[i] + t[j + 1:]
    c = t[i]
    return t[:i] + (g.ch("0123456789") if c.isdigit() else c.swapcase() if g.p(.3) else g.ch("abcxyz") if c.islower() else g.ch("ABCXYZ")) + t[i + 1:]


def oneofeach():
    """A history with every operation after every other one."""
    t = ["(Add(8|16) x y) => (Add(8|16) y x)\n(A <t> [1] {s} z:(B x ...) ___) && c == d => @b f(x)\n(Neg8 x) => x\n", "(A(1|2) x) => (B(1|2|3) x)\n", "(A x) => \n"]
    ops = []
    names = ["print", "prule", "badprint", "dump", "gen", "preds", "walk", "prune", "contains", "expand", "share",
             "nestprint", "panicprint", "nestwalk", "panicwalk", "spoilprint", "spoilgen"]
    P = lambda i, op="parse": {"op": op, "src": t[i], "slot": 0, "k": 0}
    for a in names:
        for b in names:
            for k in (0, 1):
                ops.append([P(0), P(1), {"op": a, "src": "", "slot": 0, "k": k}, {"op": b, "src": "", "slot": k, "k": 1 - k}, P(2), {"op": a, "src": "", "slot": 0, "k": k},
                            P(0, "badread"), {"op": b, "src": "", "slot": 1, "k": k}, P(0), {"op": "print", "src": "", "slot": 2, "k": 0}])
    reads = ["parse", "read", "badread", "file", "spoil", "spoilx", "nestread", "panicread"]
    for a in reads:
        for b in reads:
            for i in (0, 1, 2):
                ops.append([P(i, a), P(i, b), P(0, a), P(1, b), P(2, a), P(i, b), {"op": "print", "src": "", "slot": 1, "k": 0}])
    return [{"t": "session", "ops": o, "par": []} for o in ops]


def session_cases(g, res, n, par):
    sg = gen.SmtGen(g)
    queries = ["print", "print", "prule", "badprint", "dump", "gen", "gen", "preds", "walk", "prune", "contains",
               "nestprint", "panicprint", "nestwalk", "panicwalk", "spoilprint", "spoilgen"]
    texty = ["read", "badread", "spoil", "spoilx", "nestread", "panicread"]
    cases = []

    def op(texts, more=()):
        o = g.ch(queries + ["parse", "parse", "parse"] + texty + list(more))
        src = g.ch(texts) if o in texty + ["parse", "file"] else ""
        return {"op": o, "src": src, "slot": g.r.randrange(4), "k": g.r.randrange(4)}
    for _ in range(n):
        texts = [session_texts(g, sg) for _ in range(g.ch([1, 2, 3]))]
        if g.p(.3):
            texts = [texts[0], sibling(g, texts[0]), sibling(g, texts[0])]
        ops = [{"op": "parse", "src": t, "slot": 0, "k": 0} for t in texts[:2]]
        ops += [op(texts, ["expand", "expand", "share", "file", "file"]) for _ in range(g.r.randrange(2, 11))]
        cases.append({"t": "session", "ops": ops, "par": []})
    conc = []
    for _ in range(par):
        texts = [session_texts(g, sg) for _ in range(g.ch([1, 2, 3]))]
        if g.p(.3):
            texts = [texts[0], sibling(g, texts[0])]
        ops = [{"op": "parse", "src": t, "slot": 0, "k": 0} for t in texts]
        ops += [op(texts, ["expand", "share"]) for _ in range(g.r.randrange(0, 3))]
        same = g.p(.4)
        one = [op(texts, ["expand"]) for _ in range(g.ch([3, 6]))]
        ts = [one if same else [op(texts, ["expand"]) for _ in range(g.ch([3, 6]))] for _ in range(g.ch([2, 4, 8]))]
        conc.append({"t": "session", "ops": ops, "par": ts})
    return cases, conc


def bulk_histories(g, sg):
    out = []
    for s in ["(A x#) => b\n", "(Add8 x# y) => (Add8 y x#)\n", "(A(8|#) <t#> [1#] {c#} z#:(B y) ...) && d# => @e# (C(#|x))\n", "v#:(Add64 x y) => x\n", "(Op# x) => (Neg8 x)\n", "(A [# +]) => b", "(A%s) && %s f(x, #, y) && %s => b%s\n" % (" x1" * 40, "c1 + " * 30, "!d && " * 30 + "e", " // c" * 40), "(A [%s a# + %s]) => b\n" % ("f(x, y) | " * 10, "g() | " * 10 + "z"), "(A [0] {1#}) && f(0x#, \"#\") => b // #\n",
              "(Neg(8|16) x#) => (Com(8|16) x#)\n(A(1|2) x) => (B(1|#|3))\n"]:
        for few in (False, True):
            out.append({"t": "bulkhistory", "src": s, "n": Q(40 if few else 2500, 40 if few else 12000), "rounds": Q(60 if few else 2, 300 if few else 4), "often": [session_texts(g, sg)[:400] for _ in range(g.ch([1, 2, 3]))]})
    return out


def c16(res):
    g = gen.G(SEED * 1000 + 16)
    models = vlib.model(res, "MSession", {"OPS": Q(4, 5), "THREADS": 1})
    models += vlib.model(res, "MSession", {"OPS": Q(3, 4), "THREADS": 2})
    vlib.model(res, "MSession", {"OPS": Q(3, 4), "THREADS": 3})
    cases, conc = session_cases(g, res, Q(4000, 30000), Q(800, 6000))
    cases = [{"t": "session", "ops": m["ops"], "par": []} for m in models] + oneofeach() + cases
    run("C16", res, cases)
    run("C16", res, conc, race=True)
    run("C16", res, bulk_histories(g, gen.SmtGen(g)))


NIL = {"k": "nil"}


def slots(x, into):
    """Places of a tree where something without a text may stand."""
    if isinstance(x, dict):
        for k, v in x.items():
            if k in ("m", "r", "op", "x", "y", "f") or k == "e" and "k" in x:
                if isinstance(v, dict):
                    into.append((x, k, k in ("x", "y", "f", "e")))
            slots(v, into)
            if k in ("a", "c", "ai", "ax", "ps") and isinstance(v, list):
                into += [(v, i, k in ("c", "ai", "ax") or x.get("k") == "call") for i in range(len(v))]
    elif isinstance(x, list):
        for v in x:
            slots(v, into)


def broken(g, rs, n=1):
    rs = gen.copyv(rs)
    for _ in range(n):
        at = []
        slots(rs, at)
        if at:
            x, k, go = g.ch(at)
            x[k] = {"k": "unprintable"} if go and g.p(.5) else NIL
    return rs


def ascii_only(x):
    s = json.dumps(x, ensure_ascii=False)
    return json.loads("".join(ch if ord(ch) < 128 else "e" for ch in s))


def fault_cases(g, res):
    cases = []
    F = lambda root, api="fprint", **kw: dict({"t": "fault", "root": root, "api": api}, **kw)
    fl = lambda rs: {"nk": "file", "rs": rs}
    scheds = [(m["sched"], m["then"]) for m in vlib.model(res, "MPrinter", {"LENGTH": Q(6, 8)})]
    whole = {"m": {"k": "s", "bind": "z", "op": {"k": "p", "ps": [{"k": "o", "n": "A"}, {"k": "a", "alts": ["8", "16"]}]}, "t": "t",
                   "ai": [{"k": "un", "op": "-", "x": {"k": "id", "n": "c"}}], "ax": [{"k": "lit", "v": "\"s\""}],
                   "a": [{"k": "v", "n": "x"}, {"k": "e", "e": {"k": "call", "f": {"k": "id", "n": "f"}, "a": [{"k": "id", "n": "x"}, {"k": "id", "n": "y"}], "v": False}}], "el": True, "tr": True},
             "c": [{"k": "bin", "op": "&&", "x": {"k": "par", "x": {"k": "sel", "x": {"k": "id", "n": "p"}, "n": "F"}},
                    "y": {"k": "bin", "op": "+", "x": {"k": "star", "x": {"k": "id", "n": "q"}}, "y": {"k": "call", "f": {"k": "id", "n": "g"}, "a": [{"k": "lit", "v": "1"}, {"k": "id", "n": "r"}], "v": True}}}],
             "b": "v.B", "r": {"k": "s", "bind": "", "op": {"k": "o", "n": "B"}, "t": "", "ai": [], "ax": [], "a": [], "el": False, "tr": False}}
    # every construct, failing at every write, in every way
    two = [whole, {"m": {"k": "v", "n": "x"}, "c": [], "b": "", "r": {"k": "v", "n": "_"}}]
    for k in range(90):
        for d in (1, 2, 3):
            for then in (0, 1):
                cases.append(F(fl(two), fill=k, sched=[d], then=then))
    # every construct, with every node missing in turn
    at = []
    slots(two, at)
    for i in range(len(at)):
        for bad in ({"k": "unprintable"}, NIL):
            rs = gen.copyv(two)
            at = []
            slots(rs, at)
            x, k, go = at[i]
            if not go and bad is not NIL:
                continue
            x[k] = bad
            for api in ("fprint", "bytes"):
                cases.append(F(fl(rs), api, sched=[], then=0))
                cases.append(F({"nk": "rule", "r": rs[0]}, api, sched=[], then=0))
    for k in range(Q(3000, 30000)):
        rs = ascii_only([g.rule(g.ch([1, 2, 3])) for _ in range(g.ch([0, 1, 1, 2, 3]))])
        if g.p(.35):
            rs = broken(g, rs, g.ch([1, 1, 2]))
        root = fl(rs)
        if g.p(.3):
            root = g.ch(ascii_only(nodes_of(rs)) if not has_hole(rs) else [fl(rs)])
        api = g.ch(["fprint"] * 5 + ["bytes", "print"])
        kw = {"sched": [], "then": 0}
        if api == "fprint" and g.p(.85):
            sd, th = g.ch(scheds)
            kw = {"sched": sd, "then": th, "fill": g.ch([0, 1, 2, 5, 10, 20, 40, 80, 160]) + g.r.randrange(8) if g.p(.8) else 0, "rich": g.p(.3)}
        elif api == "print":
            kw = {"out": g.ch(["file", "closed", "full"])}
        cases.append(F(root, api, **kw))
    for sd, th in scheds:
        cases.append(F(fl(two), sched=sd, then=th))
    # long texts, failing late
    for n in (50, 300, Q(700, 3000)):
        root = {"nk": "many", "rs": two, "n": n}
        cases += [F(root, api, sched=[], then=0) for api in ("fprint", "bytes")]
        cases += [F(root, "print", out=out) for out in ("file", "full", "closed")]
        for _ in range(Q(4, 10)):
            sd, th = g.ch(scheds)
            cases.append(F(root, sched=sd + [g.ch([1, 2, 3])], then=th, fill=g.r.randrange(45 * n), rich=g.p(.5)))
    # what has no text of its own
    for root in ({"nk": "nil"}, {"nk": "alt", "p": {"k": "a", "alts": ["8", "16"]}}, {"nk": "alt", "p": {"k": "a", "alts": []}}):
        cases += [F(root, api, sched=[], then=t) for api in ("fprint", "bytes") for t in (0, 1)]
    return cases


def has_hole(x):
    s = json.dumps(x)
    return '"nil"' in s or '"unprintable"' in s


def c17(res):
    run("C17", res, fault_cases(gen.G(SEED * 1000 + 17), res))


ODDNAMES = ["a\nb", "\n", "a\n\nb", "t\n     9  }", "a b", "%d", "\"", "\\", "}", "nil", "a\tb", "*", "<", ".  .", "", "x ", " x", " ", "x\n", "x\t", "0", "%"]


def oddly_named(g, x, p):
    """Strings of a tree replaced by ones no text yields."""
    if isinstance(x, dict):
        return {k: g.ch(ODDNAMES) if k in ("bind", "t", "b") and g.p(p) or k == "n" and g.p(p / 4) else oddly_named(g, v, p) for k, v in x.items()}
    return [oddly_named(g, v, p) for v in x] if isinstance(x, list) else x


def dump_cases(g, res):
    cases = []
    F = lambda root, api="fdump", **kw: dict({"t": "fault", "root": root, "api": api, "sched": [], "then": 0}, **kw)
    for i, m in enumerate(vlib.model(res, "MDump", {"CHANGES": Q(2, 3)}, timeout=800)):
        if i % Q(2, 12) == SEED % Q(2, 12):
            cases.append(F({"nk": "rule", "r": m["r"]}, g.ch(["dump", "fdump"])))
    scheds = [(m["sched"], m["then"]) for m in vlib.model(res, "MPrinter", {"LENGTH": Q(6, 8)})]
    two = ascii_only(rich_rules(g)[:2])
    for k in range(Q(400, 700)):
        cases.append(F({"nk": "file", "rs": two}, fill=k, sched=[1 + k % 3], then=g.ch([0, 1])))
    for k in range(Q(2500, 25000)):
        rs = [g.rule(g.ch([1, 2, 3])) for _ in range(g.ch([0, 1, 1, 2]))]
        if g.p(.3):
            rs = oddly_named(g, rs, .5)
        if g.p(.2):
            rs = broken(g, rs)
        rs = ascii_only(rs)
        root = {"nk": "file", "rs": rs}
        if g.p(.4) and not has_hole(rs):
            root = g.ch(nodes_of(rs))
        api = g.ch(["fdump"] * 2 + ["dump", "dump", "pdump"])
        kw = {}
        if api == "fdump" and g.p(.8):
            sd, th = g.ch(scheds)
            kw = {"sched": sd, "then": th, "fill": g.r.randrange(g.ch([3, 30, 300])), "rich": g.p(.3)}
        elif api == "pdump":
            kw = {"out": g.ch(["file", "file", "closed", "full"])}
        cases.append(F(root, api, **kw))
    for n in ODDNAMES:
        for nk in ("var", "opcode"):
            cases += [F({"nk": nk, "n": n}, "dump"), F({"nk": nk, "n": n})]
        cases.append(F({"nk": "parts", "op": {"k": "p", "ps": [{"k": "o", "n": n}, {"k": "a", "alts": [n, "B", n]}]}}, "dump"))
    for n in (1, 11, 101, Q(300, 1200)):     # line numbers of several digits
        cases.append(F({"nk": "file", "rs": [{"m": {"k": "v", "n": "x"}, "c": [], "b": "", "r": {"k": "v", "n": "y"}}] * n}, "dump"))
    return cases


def c20(res):
    run("C20", res, dump_cases(gen.G(SEED * 1000 + 20), res))
    run("C20", res, [{"t": "bulkdump", "p": p, "n": n} for p, n in bulk_sources(5)])


VIAS = ["bufio", "limited", "multi", "tee", "pipe"]
HELD = ["strings", "bytes", "buffer", "section", "file"]
FAILS = ["custom", "unexpected", "wrapped", "progress", "closed", "short", "other"]


def read_cases(g, res):
    cases = []
    R = lambda c, **kw: dict(c, **dict({"t": "read", "api": "reader", "times": 0, "sizes": [], "again": False, "late": False, "goon": False, "fail": "", "failat": 0}, **kw))
    C = lambda s: gen.text_case("read", s)
    for i, m in enumerate(vlib.model(res, "MReader", {"PIECES": Q(5, 6)})):
        if THOROUGH or len(m["sizes"]) < 5 or i % 2 == SEED % 2:
            cases.append(R(C("a=>b c=>d"), sizes=m["sizes"], late=m["late"], failat=m["failat"], fail=FAILS[i % len(FAILS)] if m["failat"] < 10 else "", goon=i % 3 == 0))
    # one text with every construct: failing at every byte, cut at every byte
    t = g.file_text(rich_rules(g), 0) + "// \u00e9\u65e5\U0001F600\n(A <\u65e5> x) => b"
    n = len(t.encode())
    for p in range(n + 1):
        f = g.ch(FAILS)
        for late in (False, True):
            cases.append(R(C(t), fail=f, failat=p, late=late, goon=g.p(.5), sizes=g.ch([[], [1], [3, 0, 1]]), again=True))
            cases.append(R(C(t), sizes=[p] if p else [0, 0, 1], late=late))
            cases.append(R(C(t[:p]), late=late, sizes=[1], again=True))
    base = random_texts(g, 300) + corpus_texts()[::7]
    for k in range(Q(3000, 30000)):
        s = g.ch(base)
        if g.p(.3):
            s = gen.mutate(g, s)
        c = C(s) if g.p(.9) else bytes_cases(g, 1, [s], "read")[-1]
        kw = {"sizes": g.ch([[], [1], [2], [0, 1], [3, 1, 7], [64], [511], [512], [513], [4096], [g.r.randrange(1, 60)], [5, 0, 0, 1, 90]]), "again": g.p(.8), "late": g.p(.4)}
        if len(s) > 2000 and kw["again"] and max(kw["sizes"] + [0]) < 60:
            kw["sizes"] = [97]
        if g.p(.4):
            kw.update(fail=g.ch(FAILS), failat=g.ch([0, g.r.randrange(len(s) + 1), g.r.randrange(len(s) + 1), len(s.encode()) if not c["badutf8"] else 0]), goon=g.p(.5))
        via = g.ch([""] * 12 + VIAS + HELD)
        if via in HELD:
            kw = {}
        if via == "pipe":
            kw["fail"] = ""
        cases.append(R(c, via=via, **kw))
    for k in range(Q(700, 6000)):
        s = g.ch(base)
        if g.p(.3):
            s = gen.mutate(g, s)
        c = C(s) if g.p(.9) else bytes_cases(g, 1, [s], "read")[-1]
        cases.append(R(c, api="file", kind=g.ch(["file"] * 6 + ["link", "fifo", "fifo", "missing", "dangling", "dir", "below", "none"]),
                       before=g.p(.3), base=g.ch(["", "", "", ".gz", "~", " ", "%s", "*", "\u00e9", ".go", "?x=1#y", "-"])))
    # texts beyond buffer sizes
    for s in ["(A x) => b\n", "// c\n", "(A x)\t=>\r\n@b (B y ...)\n", "(A x) => b c\n"]:
        for times in Q((6, 9), (6, 9, 12)):
            for sz in ([], [512], [513], [4096], [1000, 0, 24], [32768]):
                for fail, at in (("", 0), ("custom", 512), ("unexpected", 4096), ("closed", len(s) << times), ("wrapped", len(s) * 3)):
                    if at <= len(s) << times:
                        cases.append(R(C(s), times=times, sizes=sz, again=True, fail=fail, failat=at, late=g.p(.5), goon=g.p(.5)))
            for kind in ("file", "fifo"):
                cases.append(R(C(s), times=times, api="file", kind=kind))
    # past a mebibyte
    s = "(AAAAAAAA xxxxxxxx) => yyyyyyyyyyyyyyyy // %s\n" % ("c" * 80)
    cases.append(R(C(s), times=14))
    cases.append(R(C(s), times=14, api="file", kind="fifo"))
    return cases


def c18(res):
    run("C18", res, read_cases(gen.G(SEED * 1000 + 18), res))


GRAMTOKENS = [("shape", 5, 7), ("operands", 4, 6), ("conds", 4, 6), ("ops", 6, 8), ("calls", 4, 6)]


def grammar_texts(res, less=0):
    """Texts token by token, as long as they may still become rules."""
    ms = vlib.models(res, [("MGram", {"TOKENS": t, "LENGTH": Q(q, th) - less}) for t, q, th in GRAMTOKENS], timeout=840)
    return [m["src"] for em in ms for m in em]


RNAMES = ["string", "", "a b.rules", "dir/f.rules", "x:1:2 (3)", "%d%s", "\u65e5", "f.rules: rule", "A.rules"]
FNAMES = ["f.rules", "a b", "x:1:2 (3)", "%d", "\u65e5.rules", "F"]
ELEMENTS = ["(A [%s] x)", "(A {%s} x)", "(A [1] [%s])", "(A {a} {%s} {b})", "(A <t> <%s> x)", "(A if(%s) x)", "f(if, %s)", "(A f(x, for(y), g(%s)) z)", "(B (C [%s]) (D {+}))",
            "z:(A [1] x [2] {%s})", "(A%s [c d])", "x && a b %s", "(A [a%s //\n])", "(A {%s\n})", "(A f(g(if(x), %s), type))"]


def locate_cases(g, res):
    def L(s, api=None):
        api = api or g.ch(["string", "reader", "reader", "file"])
        return gen.locate_case(s if isinstance(s, bytes) else s.encode(), g.ch(RNAMES if api == "reader" else FNAMES), api)
    texts = grammar_texts(res)
    if not THOROUGH:
        texts = texts[SEED % 2::2]
    texts += sweep_texts()
    texts += gap_texts(g, gen.NEARLAYOUT, rich_rules(g))
    rnd = random_texts(g, 300)
    short = [s for s in rnd if len(s) < 250]
    texts += near_texts(g, Q(5000, 50000), short) + junk_texts(g, Q(1500, 15000)) + prefixes(g, short, Q(1500, 15000))
    # good rules, then a wrong one, then anything
    good = ["(A x) => b\n", "// \u65e5\n", "(A <\u65e5\u00e9> x) && c ==\n d => @b (B\n x)\n", "\n", "x\t=>\ty\r\n", "(A {\"\u65e5\"}) => f(x,\n// c\ny) // c\n"]
    for _ in range(Q(2500, 25000)):
        pre = "".join(g.ch(good) for _ in range(g.r.randrange(6)))
        if g.p(.4):
            e = g.ch(ELEMENTS) % g.ch(["c", "", " ", "c d", "1 +", "+", "if", "\u65e5", "c\n", "(", "x.y"])
            bad = e + g.ch([" => b", " => b\n", "=>", " && c => b\n", " && c => " + g.ch(ELEMENTS) % "1 +"])
        else:
            bad = gen.mutate(g, g.ch(short))
        post = "".join(g.ch(good + ["(A [", "(A [+] x) => f(if)\n"]) for _ in range(g.r.randrange(3)))
        texts.append(pre + bad + post)
    cases = [L(s) for s in texts if len(s) < 700]
    for s in texts[::Q(40, 10)]:
        cases += [L(s, a) for a in ("string", "file")]
    frag = [b"\xff", b"\xc3", b"\x80", b"\xed\xa0\x80", b"\xf0\x9f\x98", b"\xc0\xaf", b"\xe2\x28\xa1", b"\xef\xbf\xbd"]
    for _ in range(Q(1500, 15000)):
        b = (g.ch(good) + g.ch(short) + g.ch(["", gen.mutate(g, g.ch(short))])).encode()
        for _ in range(g.ch([1, 1, 2])):
            i = g.r.randrange(len(b) + 1)
            b = b[:i] + g.ch(frag) + b[i + g.r.randrange(2):]
        cases.append(L(b))
    return cases


def bulk_places(g):
    N = lambda q: Q(q, 5 * q)
    out = []
    bad = [("(A", ""), ("(A [1 +] x) => b\n", ""), ("(A x) =>", ""), ("(A x) && => b", ""), ("f(if, ", "x)"), ("(A <t> x <t>) => b", ""), (")", ""), ("(A x) => (B (C [+", "]) y)"), ("A", "")]
    fills = [("(A x) => b\n", 5000), ("(A x#) =>\n\tb ", 5000), ("// c#\n", 20000), ("\n", 99999), (" ", 99999), ("\t\r\n", 30000), ("(A (B x) [1] <t#>) && c# => @b# (C)\n", 1000)]
    for l, r in bad:
        for f, n in fills:
            out.append(("", f, l, "", r))
            out.append(("(A x) => b\n", "", l, f, r))
    fs = dict(fills)
    out = [(p, fs.get(p[1] or p[3], 1000)) for p in out]
    deep = [("", "(A ", "x [+]", ")", " => b"), ("", "(A ", "x", "", " => b"), ("(A", " x#", " [+]", "", ") => b"), ("(A <t#", "t", "> <t>", "", ") => b"), ("(A(8", "|#", "", "", " x) => b"), ("(A x) && c", " && d#", "", "", " +/ e => b"),
            ("(A {\"", "s", "\" +", "", "} x) => b"), ("(A x) => f(", "x#, ", "if(y), ", "z, ", "w)"), ("(A x) => ", "f(", "if(y)", ")", ""), ("(A x) => @", "b#", "", "", "\n"), ("v", "v#", "", "", " b"), ("(A x) => b", ")", "", "", "\n"), ("(A x) => b ", "=> c#", "", "", "")]
    out += [(p, 800) for p in deep]
    return [{"t": "bulklocate", "p": list(p), "n": N(n), "name": g.ch(RNAMES)} for p, n in out]


def c19(res):
    g = gen.G(SEED * 1000 + 19)
    run("C19", res, locate_cases(g, res))
    run("C19", res, bulk_places(g))
    cli = []
    for c in command_cases(g, res, Q(400, 4000)):
        for x in c["ins"]:
            x["wide"] = gen.wide(x["src"])
            if g.p(.3) and x["k"] == "text" and "dup" not in x:
                x["src"] = gen.mutate(g, x["src"]) if x["src"] else "("
                x["wide"] = gen.wide(x["src"])
        for x in c["ins"]:
            if "dup" in x:
                x.update({k: c["ins"][x["dup"] - 1][k] for k in ("src", "wide", "k")})
        if sum(len(x["src"]) for x in c["ins"]) < 3000:
            cli.append(c)
    run("C19", res, cli)


def c21(res):
    g = gen.G(SEED * 1000 + 21)
    rnd = random_texts(g, 400)
    texts = kf_inputs("C21") + corpus_texts() + sweep_texts() + grammar_texts(res, Q(1, 0)) + long_texts(g)
    texts += gap_texts(g, gen.LAYOUT + gen.NEARLAYOUT, rich_rules(g))
    texts += random_texts(g, Q(3000, 30000)) + near_texts(g, Q(5000, 50000), rnd) + junk_texts(g, Q(2000, 20000))
    texts += prefixes(g, rnd, Q(1000, 10000)) + expr_texts(g, Q(1500, 15000), broken=.4) + [t for _, t in expr_sweep(g, Q(.2, 1))]
    run("C21", res, T("grammar", texts) + bytes_cases(g, Q(500, 5000), rnd, "grammar"))
    run("C21", res, [{"t": "bulkgrammar", "p": p, "n": n} for p, n in bulk_sources(Q(20, 5))])


CHECKS = {
    "C21": (c21, ("ok:bulk", "ok:accept", "ok:empty", "ok:reject", "ok:badutf8")),
    "C20": (c20, ("ok:bulk", "ok:complete", "ok:failed")),
    "C19": (c19, ("ok:bulk", "ok:reject", "ok:element", "ok:badutf8", "ok:command")),
    "C18": (c18, ("ok:rules", "ok:failed", "ok:rejected")),
    "C17": (c17, ("ok:complete", "ok:failed", "ok:hole")),
    "C16": (c16, ("ok:bulk", "ok:history", "ok:concurrent")),
    "C14": (c14, ("ok:bulk run", "ok:written", "ok:nothing")),
    "C15": (c15, ("ok:bulk run", "ok:rej", "ok:mismatch", "ok:unwritable")),
    "C11": (c11, ("ok:contingent", "ok:valid", "ok:unequal")),
    "C12": (c12, ("ok:script",)),
    "C13": (c13, ("ok:bulk", "ok:generated", "ok:refused")),
    "C07": (c07, ("ok:bulk", "ok:expanded", "ok:plain", "ok:mismatch", "ok:empty")),
    "C08": (c08, ("ok:bulk", "ok:expanded", "ok:mismatch")),
    "C09": (c09, ("ok:bulk", "ok:full", "ok:pruned")),
    "C10": (c10, ("ok:bulk", "ok:some", "ok:none", "ok:hit", "ok:miss")),
    # property: (function, verdicts that must occur)
    "C01": (c01, ("ok:bulk", "ok:accept", "ok:empty", "ok:reject")),
    "C02": (c02, ("ok:bulk", "ok:accept", "ok:empty", "ok:reject")),
    "C03": (c03, ("ok:bulk", "ok:accept", "ok:empty")),
    "C04": (c04, ("ok:bulk", "ok:accept", "ok:empty", "ok:reject", "ok:badutf8")),
    "C05": (c05, ("ok:bulk", "ok:accept", "ok:reject")),
    "C06": (c06, ("ok:bulk", "ok:accept", "ok:tree")),
}

ASSUME = {}


def replay_cases(prop, res, cases):
    run(prop, res, cases)
