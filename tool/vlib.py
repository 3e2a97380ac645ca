"""Running the pieces: build the harness from /repo's working tree, replay
cases into it, and let TLC judge the recorded traces against the specification."""
import json, os, re, shutil, subprocess, sys, tempfile, threading, time
import peg

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"


class Machinery(Exception):
    """The check itself failed: no verdict."""


class NoGrammar(Exception):
    """No parser comes of the grammar file."""


_scratch = None


def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="verif-")
    return _scratch


def cleanup():
    global _scratch
    if _scratch and os.path.isdir(_scratch) and os.path.basename(_scratch).startswith("verif-"):
        shutil.rmtree(_scratch, ignore_errors=True)
    _scratch = None


def goenv():
    env = dict(os.environ)
    p = "/opt/vp/env.sh"
    if os.path.exists(p):
        out = subprocess.run(["bash", "-c", ". %s >/dev/null 2>&1; env -0" % p], capture_output=True, text=True).stdout
        for kv in out.split("\0"):
            if "=" in kv:
                k, v = kv.split("=", 1)
                env[k] = v
    env["GOFLAGS"] = "-mod=mod"
    env["GOPROXY"] = "off"
    return env


def build(race=False, grammar=False):
    """Compile the harness and the command from the working tree.  With
    grammar, it can also read texts by the grammar file parse/rules.peg."""
    d = scratch()
    src = os.path.join(VERIF, "harness")
    ov = {os.path.join(REPO, "internal/verifharness", f): os.path.join(src, f) for f in os.listdir(src) if f.endswith(".go")}
    h = os.path.join(d, "harness-race" if race else "harness")
    if grammar:
        h = os.path.join(d, "harness-grammar")
        try:
            with open(os.path.join(REPO, "parse/rules.peg"), encoding="utf-8", newline="") as f:
                code = peg.generate(f.read(), "github.com/mmcloughlin/ssarules", "verifgrammar")
        except (OSError, ValueError, peg.Bad) as e:
            raise NoGrammar("parse/rules.peg: %s" % e)
        gen = os.path.join(d, "grammar.go")
        with open(gen, "w") as f:
            f.write(code)
        ov[os.path.join(REPO, "internal/verifharness/grammar.go")] = os.path.join(src, "grammar/handler.go")
        ov[os.path.join(REPO, "parse/verifgrammar/engine.go")] = os.path.join(src, "grammar/engine.go")
        ov[os.path.join(REPO, "parse/verifgrammar/rules.go")] = gen
    ovf = h + ".overlay.json"
    with open(ovf, "w") as f:
        json.dump({"Replace": ov}, f)
    cmd = ["go", "build", "-buildvcs=false", "-overlay", ovf] + (["-race"] if race else []) + ["-o", h, "./internal/verifharness"]
    r = subprocess.run(cmd, cwd=REPO, env=goenv(), capture_output=True, text=True)
    if r.returncode:
        if grammar:
            build()
            raise NoGrammar("parse/rules.peg does not build: " + r.stderr[-800:])
        raise Machinery("harness does not build:\n" + r.stderr)
    return h


def build_cmd():
    out = os.path.join(scratch(), "ssarules")
    r = subprocess.run(["go", "build", "-buildvcs=false", "-o", out, "./cmd/ssarules"], cwd=REPO, env=goenv(), capture_output=True, text=True)
    if r.returncode:
        raise Machinery("command does not build:\n" + r.stderr)
    return out


def replay(harness, cases, extra_env=None):
    """Feed cases to the harness; a list of recorded lines (JSON texts).
    A case that kills the process on its own is recorded as a crash."""
    env = dict(os.environ)
    env.update(extra_env or {})
    env.setdefault("GOMEMLIMIT", "4GiB")
    n = len(cases)
    if n == 0:
        return []
    parts = min(8, max(1, n // 50))
    chunks = [cases[i * n // parts:(i + 1) * n // parts] for i in range(parts)]
    results = [None] * parts
    errors = []
    deaths = []

    def work(k):
        try:
            results[k] = _replay(harness, chunks[k], env, deaths)
        except Exception as e:  # noqa
            errors.append(e)

    ts = [threading.Thread(target=work, args=(k,)) for k in range(parts)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    if errors:
        raise errors[0]
    return [x for r in results for x in r]


def _replay(harness, cases, env, deaths):
    r = _feed(harness, cases, env)
    if r[0] == 0 and len(r[1]) == len(cases):
        return r[1]
    if r[0] == 4:
        return r[1]  # hanging: the rest is left out
    if refused(r[0], r[2]):
        raise Machinery("harness: " + r[2])
    # The process died: replay one case at a time, flushing after each.
    e2 = dict(env, VERIF_FLUSH="1")
    feed = _feed
    if len(cases) == 1:
        feed = lambda *a: r  # known already
    out, i = [], 0
    while i < len(cases) and len(deaths) < 6:  # enough
        code, lines, err = feed(harness, cases[i:], e2)
        if refused(code, err):
            raise Machinery("harness: " + err)
        out += lines
        i += len(lines)
        if code == 4 or code == 0 and i == len(cases):
            break
        if i < len(cases):
            err1, code1 = err, code
            if not raced(err) and len(cases) > 1:
                code1, lines1, err1 = _feed(harness, [cases[i]], e2)
                if code1 == 0 and len(lines1) == 1:
                    # Died because of what ran before, or of timing.
                    if not crashed(err):
                        raise Machinery("the harness died, but not on case alone: " + err[-400:])
                    err1 = err
            if code1 == 4:
                return out + lines1
            if refused(code1, err1):
                raise Machinery("harness: " + err1)
            c = dict(cases[i])
            c.pop("b64", None)
            c["o"] = {"panic": "process died: " + first_line(err1), "hang": False}
            out.append(json.dumps(c))
            i += 1
            deaths.append(i)
    return out


def refused(code, err):
    return code == 3 and err.startswith("verifharness:")


def raced(err):
    return "DATA RACE" in err or "fatal error: concurrent map" in err


def crashed(err):
    """The code under test brought the process down."""
    return ("panic:" in err or "fatal error:" in err) and "github.com/mmcloughlin/ssarules" in err


def first_line(s):
    if "DATA RACE" in s:
        return "data race " + " ".join(re.findall(r"^\s+(github.com/mmcloughlin/ssarules\S*)\(", s, re.M)[:2])
    for ln in s.split("\n"):
        if ln.strip():
            return ln.strip()[:200]
    return "?"


def _feed(harness, cases, env):
    data = "".join(json.dumps(c, ensure_ascii=True) + "\n" for c in cases).encode()
    try:
        p = subprocess.run([harness], input=data, capture_output=True, env=env, timeout=3000 if THOROUGH else 600)
    except subprocess.TimeoutExpired:
        raise Machinery("harness timed out")
    lines = p.stdout.decode("utf-8", "replace").split("\n")
    full = [x for x in lines[:-1] if x]
    if p.returncode == 0 and lines[-1]:
        full.append(lines[-1])
    return p.returncode, full, p.stderr.decode("utf-8", "replace")


def tlc(module, cfg, env=None, workers=8, xmx="8g", xss="64m", timeout=800, extra=(), specdir=None):
    """Run TLC; returns (exit code, output)."""
    e = dict(os.environ)
    e.update({k: str(v) for k, v in (env or {}).items()})
    meta = tempfile.mkdtemp(prefix="tlc-", dir=scratch())
    d = specdir or SPEC
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + xmx, "-Xss" + xss, "-Djava.io.tmpdir=" + meta, "-cp", JARS, "tlc2.TLC",
           "-workers", str(workers), "-noGenerateSpecTE", "-metadir", meta, "-config", os.path.join(d, cfg)] + list(extra) + [os.path.join(d, module)]
    try:
        p = subprocess.run(cmd, cwd=d, env=e, capture_output=True, text=True, timeout=timeout * (5 if THOROUGH else 1))
    except subprocess.TimeoutExpired:
        raise Machinery("TLC timed out on " + module)
    shutil.rmtree(meta, ignore_errors=True)
    return p.returncode, p.stdout + p.stderr


RE_STATES = re.compile(r"(\d+) states generated, (\d+) distinct states found")
RE_V = re.compile(r'^"V (\d+) (.*)"$')


def states(out):
    m = None
    for m in RE_STATES.finditer(out):
        pass
    if not m:
        raise Machinery("no state count from TLC:\n" + out[-3000:])
    return int(m.group(1)), int(m.group(2))


class Result:
    def __init__(self):
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.verdicts = {}       # verdict -> count
        self.bad = []            # (verdict, line)
        self.kf = {}             # id -> [line]
        self.samples = []
        self.notes = {}

    def add_states(self, out):
        g, d = states(out)
        self.states += d
        self.transitions += g


def judge(res, prop, lines, module="Judge", sample=2, env=None):
    """Trace validation of recorded lines; fills res.  The trace is cut into
    parts that are validated by separate TLC processes."""
    if not lines:
        raise Machinery("empty trace")
    total = sum(map(len, lines))
    nproc = max(1, min(8, len(lines), 1 + total // 400000))
    rounds = 1 + total // (nproc * 12000000)
    parts, cur, size, lim = [], [], 0, total / (nproc * rounds) + 1
    for ln in lines:
        cur.append(ln)
        size += len(ln)
        if size >= lim:
            parts.append(cur)
            cur, size = [], 0
    if cur:
        parts.append(cur)
    done = [None] * len(parts)
    errs = []
    sem = threading.Semaphore(nproc)

    def work(k):
        with sem:
            if errs:
                return
            try:
                done[k] = _judge(prop, parts[k], module, k, max(1, 8 // nproc), env)
            except BaseException as e:  # noqa
                errs.append(e)

    ts = [threading.Thread(target=work, args=(k,)) for k in range(len(parts))]
    [t.start() for t in ts]
    [t.join() for t in ts]
    if errs and not any(v.startswith("bad:") for r in done if r for v in r[0].values()):
        raise errs[0]
    for part, (seen, g, d) in [(p, r) for p, r in zip(parts, done) if r]:
        res.states += d
        res.transitions += g
        res.traces += len(part)
        for i, v in sorted(seen.items()):
            res.verdicts[v] = res.verdicts.get(v, 0) + 1
            if v.startswith("bad:"):
                res.bad.append((v, part[i - 1]))
            elif v.startswith("gen:"):
                raise Machinery("the generator made a wrong case (%s): %s" % (v, part[i - 1][:2000]))
            elif v.startswith("kf:"):
                res.kf.setdefault(v[3:], []).append(part[i - 1])
            elif v.startswith("ok:") and v != "ok:reject" and len(res.samples) < sample and len(part[i - 1]) < 3000:
                res.samples.append({"verdict": v, "line": json.loads(part[i - 1])})


def _judge(prop, part, module, k, workers, env):
    """Verdicts of one part, by line number.  A line that TLC cannot evaluate
    (no outcome the specification knows of) is sought out and is bad."""
    code, seen, out = _run_judge(prop, part, module, k, workers, env)
    if code == 0:
        if set(seen) != set(range(1, len(part) + 1)):
            raise Machinery("trace not consumed: %d of %d lines" % (len(seen), len(part)))
        return (seen,) + states(out)
    bad = {i: v for i, v in seen.items() if v.startswith("bad:")}
    left = [i for i in range(1, len(part) + 1) if i not in seen]
    while not bad and len(left) > 1:
        half = left[:len(left) // 2]
        c, s, o = _run_judge(prop, [part[i - 1] for i in half], module, k, workers, env)
        bad = {half[j - 1]: v for j, v in s.items() if v.startswith("bad:")}
        left = half if c else left[len(left) // 2:]
    if not bad and left:
        c, s, o = _run_judge(prop, [part[left[0] - 1]], module, k, workers, env)
        if c and c > 0 and "OutOfMemory" not in o and "semantic analysis failed" not in o:
            bad = {left[0]: "bad:outside the specification"}
    if not bad:
        raise Machinery("TLC failed on the %s trace:\n%s" % (prop, out[-4000:]))
    return bad, 0, 0


def _run_judge(prop, part, module, k, workers, env):
    fn = os.path.join(scratch(), "trace%d.ndjson" % k)
    with open(fn, "w") as f:
        f.write("\n".join(part) + "\n")
    e = {"TRACE": fn, "PROP": prop}
    e.update(env or {})
    code, out = tlc(module + ".tla", module + ".cfg", e, workers=workers, xmx="3g")
    os.unlink(fn)
    seen = {}
    for ln in out.split("\n"):
        m = RE_V.match(ln)
        if m:
            seen[int(m.group(1))] = m.group(2)
    return code, seen, out


def model(res, module, env, keep=None, workers=8, timeout=800, xmx="8g"):
    """Exhaustive exploration of a specification model.  Its invariants must
    hold (they are facts about the specification); returns emitted behaviours."""
    code, out = tlc(module + ".tla", module + ".cfg", env, workers=workers, timeout=timeout, xmx=xmx)
    if code != 0 or "No error has been found" not in out:
        raise Machinery("model %s fails:\n%s" % (module, out[-4000:]))
    res.add_states(out)
    g, d = states(out)
    res.notes.setdefault("models", []).append({"module": module, "constants": {k: str(v) for k, v in env.items()}, "distinct_states": d})
    em = []
    for ln in out.split("\n"):
        if ln.startswith('"E '):
            em.append(json.loads(json.loads(ln)[2:]))
    em.sort(key=lambda x: json.dumps(x, sort_keys=True))
    return em


def models(res, jobs, workers=2, **kw):
    """Several models at a time: jobs are (module, constants); their behaviours."""
    out, errs, subs = [None] * len(jobs), [], [Result() for _ in jobs]

    def work(k):
        try:
            out[k] = model(subs[k], jobs[k][0], jobs[k][1], workers=workers, xmx="4g", **kw)
        except BaseException as e:  # noqa
            errs.append(e)

    ts = [threading.Thread(target=work, args=(k,)) for k in range(len(jobs))]
    [t.start() for t in ts]
    [t.join() for t in ts]
    if errs:
        raise errs[0]
    for s in subs:
        res.states += s.states
        res.transitions += s.transitions
        res.notes.setdefault("models", []).extend(s.notes.get("models", []))
    return out


def known_findings(prop):
    out = []
    with open(os.path.join(VERIF, "known_findings.jsonl")) as f:
        for ln in f:
            if ln.strip():
                d = json.loads(ln)
                if prop in d.get("properties", []) and d.get("status") == "known":
                    out.append(d)
    return out


def finish(prop, res, t0, level="model_checking", assumptions=(), need=(), replay_mode=False):
    """Write the evidence file and report.  need: verdict prefixes that must
    have occurred, lest the check be vacuous."""
    bad = res.bad
    wall = time.time() - t0
    if not replay_mode:
        cov = {
            "states": res.states, "transitions": res.transitions,
            "traces_validated_against_impl": res.traces,
            "verdicts": dict(sorted(res.verdicts.items())),
            "samples": res.samples or [{"note": "no accepting sample"}],
        }
        cov.update(res.notes)
        ev = {"property": prop, "tier": "thorough" if THOROUGH else "quick", "seed": SEED, "level": level,
              "coverage": cov, "assumptions": list(assumptions), "wall_s": round(wall, 2), "violations": len(bad)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
    print("%s: %d cases replayed, %d distinct states, %.1f s" % (prop, res.traces, res.states, wall))
    for v, n in sorted(res.verdicts.items()):
        print("  %-40s %d" % (v, n))
    listed = {d["id"]: d for d in known_findings(prop)}
    for k, lines in sorted(res.kf.items()):
        if k not in listed:
            bad = bad + [("bad:unlisted finding " + k, lines[0])]
    if bad:
        v, line = bad[0]
        path = os.path.join(VERIF, "evidence", prop + ".replay.json")
        with open(path, "w") as f:
            f.write(line + "\n")
        print("  %s" % v)
        print("  %s" % line[:1500])
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    for k, d in sorted(listed.items()):
        if k in res.kf:
            print("KNOWN-FINDING: property=%s %s: %s (%d inputs)" % (prop, k, d["what"], len(res.kf[k])))
    if not replay_mode:
        for n in need:
            if not any(v.startswith(n) for v in res.verdicts):
                raise Machinery("vacuous: no case with verdict " + n)
    return 0
