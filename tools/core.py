"""Shared machinery: TLC runs, rendering of specification behaviours into SQL,
expected trees, the conformance harness, and reporting."""
import gc, json, os, pickle, re, subprocess, sys, tempfile, time, shutil, threading, random

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
EVID = os.path.join(VERIF, "evidence")
TLA = "/opt/veriftools/tla/tla2tools.jar"
CM = "/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = os.cpu_count() or 4


class ToolError(Exception):
    pass


# ----------------------------------------------------------------- TLC
def tla_str(v):
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, str):
        return '"%s"' % v.replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n").replace("\t", "\\t").replace("\r", "\\r")
    if isinstance(v, (set, frozenset)):
        return "{" + ", ".join(tla_str(x) for x in sorted(v)) + "}"
    if isinstance(v, (list, tuple)):
        return "<<" + ", ".join(tla_str(x) for x in v) + ">>"
    return str(v)


class StopCheck(Exception):
    """the parser hangs or crashes too often for the check to go on"""


class Stuck(Exception):
    """args: what happened, the case it happened on"""


class TLCRun:
    def __init__(self):
        self.states = 0
        self.generated = 0
        self.records = []


def tlc(module, constants, invariants, view=None, simulate=None, depth=400, seed=1,
        spec="Spec", timeout=800, on_record=None, xmx="12g", workers=None, expect_ok=True,
        properties=(), extra_files=None):
    """Runs TLC; collects every line printed by the specification as JSON."""
    d = tempfile.mkdtemp(prefix="vf-tlc-")
    try:
        for f in os.listdir(SPEC):
            if f.endswith(".tla"):
                shutil.copy(os.path.join(SPEC, f), d)
        for name, text in (extra_files or {}).items():
            with open(os.path.join(d, name), "w") as f:
                f.write(text)
        # constants that TLC's configuration language cannot express go
        # through a generated module
        with open(os.path.join(d, "MC_.tla"), "w") as f:
            f.write("---- MODULE MC_ ----\nEXTENDS %s\n" % module)
            for k, v in constants.items():
                f.write("cc_%s == %s\n" % (k, tla_str(v)))
            f.write("====\n")
        with open(os.path.join(d, "MC_.cfg"), "w") as f:
            f.write("SPECIFICATION %s\n" % spec)
            if constants:
                f.write("CONSTANTS\n" + "".join(" %s <- cc_%s\n" % (k, k) for k in constants))
            if invariants:
                f.write("INVARIANTS " + " ".join(invariants) + "\n")
            if properties:
                f.write("PROPERTIES " + " ".join(properties) + "\n")
            if view:
                f.write("VIEW %s\n" % view)
            f.write("CHECK_DEADLOCK FALSE\n")
        cmd = ["java", "-Xss64m", "-Xmx" + xmx, "-XX:+UseParallelGC", "-cp", TLA + ":" + CM,
               "tlc2.TLC", "-workers", str(workers or NCPU), "-metadir", os.path.join(d, "meta"),
               "-config", "MC_.cfg"]
        if simulate:
            cmd += ["-simulate", "num=%d" % simulate, "-depth", str(depth), "-seed", str(seed)]
        cmd.append("MC_.tla")
        r = TLCRun()
        seen = set()
        log = []
        p = subprocess.Popen(cmd, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        killer = threading.Timer(timeout, p.kill)
        killer.start()
        r.truncated = False
        for line in p.stdout:
            if line.startswith('"{') or line.startswith('"['):
                if line in seen:
                    continue
                if simulate:
                    seen.add(line)
                rec = json.loads(json.loads(line))
                if on_record:
                    on_record(rec)
                else:
                    r.records.append(rec)
            else:
                log.append(line)
                m = re.match(r"(\d+) states generated, (\d+) distinct", line)
                if m:
                    r.generated, r.states = int(m.group(1)), int(m.group(2))
                m = re.match(r"The number of states generated: (\d+)", line)
                if m:
                    r.generated = r.states = int(m.group(1))
        p.wait()
        killer.cancel()
        r.log = "".join(log)
        r.ok = p.returncode == 0
        r.rc = p.returncode
        if expect_ok and not r.ok:
            raise ToolError("TLC failed (%d) on %s:\n%s" % (p.returncode, module, r.log[-6000:]))
        return r
    finally:
        shutil.rmtree(d, ignore_errors=True)


def tlc_walks(module, constants, invariants, walks, seed, **kw):
    """random behaviours: one single-threaded TLC per core, each with a seed of its own"""
    from concurrent.futures import ThreadPoolExecutor
    per = max(1, walks // NCPU)
    with ThreadPoolExecutor(NCPU) as ex:
        rs = list(ex.map(lambda i: tlc(module, dict(constants, Bias=constants["Bias"] + 5 * i), invariants, simulate=per, seed=seed * 1000 + i,
                                       workers=1, xmx="1g", **kw), range(NCPU)))
    r, seen = rs[0], set()
    for q in rs[1:]:
        r.records += q.records
        r.states += q.states
        r.generated += q.generated
    recs = []
    for x in r.records:
        k = (x["s"], x["d"], tuple(x["p"]))
        if k not in seen:
            seen.add(k)
            recs.append(x)
    r.records = recs
    return r


def gen(starts, dias="MPS", budget=2, gate=False, damage=0, mode="small", simulate=None, bias=0, seed=1,
        pump=0, period=0, **kw):
    consts = {"Pump": pump, "Period": period,
              "Starts": set(starts), "Dias": set(dias), "Budget": budget,
              "Gate": gate, "Damage": damage, "Mode": mode, "Bias": bias}
    inv = ["TypeOK", "EmitSentence"]
    if simulate:
        return tlc_walks("Gen", consts, inv, simulate, seed, **kw)
    return tlc("Gen", consts, inv, view="View", **kw)


# ----------------------------------------------------------- rendering
class Style:
    """How the tokens of a sentence are written down."""

    def __init__(self, sep="space", case="upper", quote="none", rng=None, prefix="", lits="plain",
                 arg="?", suffix="", names=None):
        self.sep, self.case, self.quote = sep, case, quote
        self.rng = rng or random.Random(1)
        self.prefix, self.lits, self.arg, self.suffix = prefix, lits, arg, suffix
        self.names = names      # words to use as names now and then


PLAIN = Style()
WORD = re.compile(r"[A-Za-z0-9_]")
COMMENTS = ["/**/", "/* x */", "-- c\n", "--\n", "// y;\n", "/*;'*/", "/* \u00e6\u00f8\u4e2d */",
            "-- \u20ac \"\n", "/* SELECT */", "/*\n*/", "// `\n", "-- ')\r"]


# literals and names that might be special to somebody; besides, the last one is
# often repeated
EDGE_INTS = ["0", "1", "2", "00", "007", "10", "255", "65535", "4294967295"]
EDGE_STRINGS = ["", " ", "a", "A", "0", "NULL", "select", "%", ",", "(", ")", ";", "--", "`", "s1", "\u00e6"]
EDGE_NAMES = ["a", "A", "c", "_", "_1", "t1", "T1", "nUll_", "SELECT_", "i0", "j_j_j", "veryLongNameIndeed_0123456789012345678901234567890123456789"]


def may_join(a, b, la, lb):
    """May token text b follow a without white space (la, lb: token kinds)?"""
    x, y = a[-1], b[0]
    if WORD.match(x) and WORD.match(y):
        return False
    if x in "'\"`" and y in "'\"`":
        return False
    if y in "'\"" and WORD.match(x):
        return la != "k" or len(a) > 1
    safe = "(),;"
    if x in safe or y in safe:
        return True
    ops = "=<>!|&*+"
    if (x in ops and (WORD.match(y) or y in "'\"`")) or (y in ops and (WORD.match(x) or x in "'\"`")):
        return True
    if x == "." or y == ".":
        return (not x.isdigit()) and (not y.isdigit()) and la in "idxp" and lb in "idxpk" and x + y not in ("..",)
    return False


def case_word(w, style, rng):
    if style == "upper":
        return w
    if style == "lower":
        return w.lower()
    if style == "title":
        return w[:1].upper() + w[1:].lower()
    return "".join(c.lower() if rng.random() < 0.5 else c.upper() for c in w)


class Text:
    __slots__ = ("sql", "spans", "vals", "toks", "keyword_names")


def render(toks, style=PLAIN, base=0, argstart=0):
    """token list -> Text with the byte range and the value of each token"""
    rng = style.rng
    out = [style.prefix]
    pos = base + len(style.prefix.encode())
    spans, vals = [], []
    prev = None
    texts = []
    nargs = argstart
    edge = style.lits == "edge"
    last = {}
    for n, t in enumerate(toks):
        k = t[0]
        val = None
        if k == "k":
            s = case_word(t[1], style.case, rng)
        elif k == "p":
            s = t[1] if not t[1].startswith("@@") else case_word(t[1], style.case if style.case != "upper" else "lower", rng)
        elif k in "idx":
            name = t[1] if len(t) > 1 else ["nm%d", "Nm%d", "nM_%d", "_NM%d"][n % 4] % (n + 1)
            if style.names and k != "x" and len(t) == 1 and rng.random() < 0.3:
                name = case_word(rng.choice(style.names), "mixed", rng)
            if edge and len(t) == 1:
                name = last.get("i") if "i" in last and rng.random() < 0.4 else rng.choice(EDGE_NAMES)
                last["i"] = name
            val = name
            q = style.quote
            if q == "mix":
                q = rng.choice(["none", "back"])
            if q == "double" and k != "d" or q == "pgmix":
                q = rng.choice(["none", "double"]) if k == "d" and q == "pgmix" else "none"
            s = name if q == "none" else "`%s`" % name if q == "back" else '"%s"' % name
        elif k == "n":
            val = t[1] if len(t) > 1 else 100 + n
            s = str(val)
            if edge and len(t) == 1:
                s = last.get("n") if "n" in last and rng.random() < 0.4 else rng.choice(EDGE_INTS)
                last["n"], val = s, int(s)
        elif k == "f":
            val = rng.choice(["0.5", "0.0", "1.0", "10.25"]) if edge else "%d.5" % (n + 1)
            s = val
            val = {"f": val}
        elif k == "s":
            val = t[1] if len(t) > 1 else "s%d" % (n + 1)
            if len(t) == 1 and style.lits != "plain":
                val = ["sT%d", "\u00e6\u00d8%d", "s ; %d", "s-- %d", "S\n%d", "/*%d"][rng.randrange(6)] % (n + 1)
            if edge and len(t) == 1:
                val = last.get("s") if "s" in last and rng.random() < 0.4 else rng.choice(EDGE_STRINGS + [last.get("i", "")])
                last["s"] = val
            q = "'" if style.lits == "plain" else rng.choice("'\"")
            s = q + val + q
        elif k == "a":
            val = nargs
            nargs += 1
            a = style.arg
            if a in ("mixl", "mixq"):
                a = rng.choice(["%" if a == "mixl" else "?", "l"])
            if a == "$r":
                val = rng.randrange(rng.choice([120, 120, 1000, 70000, 1 << 33, (1 << 64) - 1]))
                a = "$"
            s = {"?": "?", "%": "%s", "$": "$%d" % (val + 1), "l": case_word("_LIST_", style.case, rng)}[a]
        elif k == "t":      # literal text, given
            s = t[1]
            val = t[2] if len(t) > 2 else None
        else:
            raise ToolError("token %r" % (t,))
        if prev is not None:
            sp = style.sep
            j = may_join(prev, s, toks[n - 1][0], k)
            if sp == "space":
                g = " "
            elif sp == "compact":
                g = "" if j else " "
            elif sp == "newline":
                g = rng.choice(["\n", "\r\n", "\t", " ", "\n\n  ", "  "])
            elif sp == "comments":
                g = rng.choice(["", " ", "\n"]) + rng.choice(COMMENTS) + rng.choice(["", " "])
                if (prev[-1] in "-/" and g[0] in "-/*") or prev[-1] == "*" and g[0] == "/":
                    g = " " + g
                if prev in ("-", "/"):
                    g = " " + g
            else:
                r = rng.random()
                g = ("" if j else " ") if r < 0.4 else " " if r < 0.6 else rng.choice(["\n", "\t", "\r\n"]) \
                    if r < 0.8 else " " + rng.choice(COMMENTS)
            out.append(g)
            pos += len(g.encode())
        out.append(s)
        b = len(s.encode())
        spans.append((pos, pos + b))
        pos += b
        vals.append(val)
        texts.append(s)
        prev = s
    out.append((" " if prev and prev[-1] in "-/*" and style.suffix else "") + style.suffix)
    r = Text()
    r.sql, r.spans, r.vals, r.toks = "".join(out), spans, vals, texts
    return r


def expected(v, tx, off=0):
    """tree of the specification -> canonical tree of the harness"""
    t = v[0]
    if t == "S":
        return "@%d-%d" % (tx.spans[v[1] - 1][0] + off, tx.spans[v[2] - 1][1] + off)
    if t == "I":
        a, b = tx.spans[v[1] - 1]
        return {"_": "Identifier", "value": "'" + tx.vals[v[1] - 1], "span": "@%d-%d" % (a + off, b + off)}
    if t == "T":
        a, b = tx.spans[v[1] - 1]
        return {"_": "SString", "value": "'" + tx.vals[v[1] - 1], "span": "@%d-%d" % (a + off, b + off)}
    if t == "N":
        a, b = tx.spans[v[1] - 1]
        return [tx.vals[v[1] - 1], "@%d-%d" % (a + off, b + off)]
    if t == "V":
        return tx.vals[v[1] - 1]
    if t == "X":
        return "'" + str(tx.vals[v[1] - 1])
    if t == "W":
        return "'" + v[1]
    if t == "B":
        return v[1]
    if t == "#":
        return v[1]
    if t == "Z":
        return None
    if t == "L":
        return [expected(x, tx, off) for x in v[1]]
    if t in ("?", "?*"):
        return t
    if t == "O":
        o = {"_": v[1]}
        for l, x in zip(v[2], v[3]):
            e = expected(x, tx, off)
            if l in o:
                o[l] = o[l] + e
            else:
                o[l] = e
        return o
    raise ToolError("value %r" % (v,))


SPAN = re.compile(r"^@\d+-\d+$")


def erase(x):
    if isinstance(x, str):
        return "@" if SPAN.match(x) else x
    if isinstance(x, list):
        return [erase(y) for y in x]
    if isinstance(x, dict):
        return {k: erase(y) for k, y in x.items()}
    return x


def shift(x, d):
    if isinstance(x, str):
        if SPAN.match(x):
            a, b = x[1:].split("-")
            return "@%d-%d" % (int(a) + d, int(b) + d)
        return x
    if isinstance(x, list):
        return [shift(y, d) for y in x]
    if isinstance(x, dict):
        return {k: shift(y, d) for k, y in x.items()}
    return x


def diff(e, a, path="", spans=True):
    """first difference between expected and actual tree, or None"""
    if e == "?":
        return None
    if isinstance(e, dict) and isinstance(a, dict):
        if e.get("_") != a.get("_"):
            return "%s: expected %s, got %s" % (path, e.get("_"), a.get("_"))
        for k in e:
            if k not in a:
                return "%s.%s: missing" % (path, k)
            d = diff(e[k], a[k], path + "." + k, spans)
            if d:
                return d
        for k in a:
            if k not in e:
                return "%s.%s: unexpected" % (path, k)
        return None
    if isinstance(e, list) and isinstance(a, list):
        if "?*" in e:           # damaged element of a list that recovers as a whole
            i = e.index("?*")
            if len(a) < i:
                return "%s: expected at least %d elements, got %d" % (path, i, len(a))
            return diff(e[:i], a[:i], path, spans)
        if "?" in e and len(a) == len(e) - 1:       # damaged element left out
            e = list(e)
            e.remove("?")
        for i in range(min(len(e), len(a))):
            d = diff(e[i], a[i], path + "[%d]" % i, spans)
            if d:
                return d
        if len(e) != len(a):
            return "%s: expected %d elements, got %d" % (path, len(e), len(a))
        return None
    if isinstance(e, str) and isinstance(a, str) and SPAN.match(e) and SPAN.match(a):
        if spans and e != a:
            return "%s: expected span %s, got %s" % (path, e, a)
        return None
    if type(e) is type(a) and e == a:
        return None
    return "%s: expected %s, got %s" % (path, short(e), short(a))


def short(x, n=120):
    s = json.dumps(x, ensure_ascii=False)
    return s if len(s) <= n else s[:n] + "..."


# ------------------------------------------------------------- harness
def build():
    """builds the harness against /repo's current working tree"""
    p = subprocess.run(["cargo", "build", "--release", "--offline"], cwd=HARNESS,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise ToolError("harness does not build:\n" + p.stdout[-3000:])
    return os.path.join(HARNESS, "target", "release", "conform")


def esc(s):
    return s.replace("\\", "\\\\").replace("\n", "\\n").replace("\r", "\\r").replace("\t", "\\t").replace("\0", "\\0")


def _run_chunk(exe, cases, res, hang_ms, count):
    """cases: list of (id, dia, arg, flags, sql)"""
    i = 0
    hangs = deaths = 0
    while i < len(cases):
        p = subprocess.Popen([exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                             stderr=subprocess.DEVNULL,
                             env=dict(os.environ, CONFORM_HANG_MS=str(hang_ms)))
        chunk = cases[i:]
        data = "".join("%d\t%s\t%s\t%s\t%s\n" % (c[0], c[1], c[2], c[3], esc(c[4])) for c in chunk).encode()

        def feed():
            try:
                p.stdin.write(data)
                p.stdin.close()
            except (BrokenPipeError, OSError):
                pass
        th = threading.Thread(target=feed)
        th.start()
        n = 0
        hung = False
        for line in p.stdout:
            o = json.loads(line)
            res[o["id"]] = o
            n += 1
            if o.get("hang"):
                hung = True
        p.wait()
        th.join()
        count[0] += n
        if n < len(chunk) and not hung:
            # the process died on the next case (abort, stack overflow)
            res[chunk[n][0]] = {"id": chunk[n][0], "panic": "process died (status %s)" % p.returncode}
            n += 1
            deaths += 1
            if deaths >= 20:
                raise Stuck("the parser crashes", chunk[n - 1][1:])
        if hung:
            # one long wait is enough to be sure: do not spend the time on each
            hangs += 1
            hang_ms = min(hang_ms, 4000)
            if hangs >= 4:
                raise Stuck("parsing does not return", chunk[n - 1][1:])
        i += n


def run(exe, cases, hang_ms=20000, jobs=None):
    """cases: list of (dia, arg, flags, sql) -> list of outcomes"""
    jobs = jobs or NCPU
    cs = [(i,) + tuple(c) for i, c in enumerate(cases)]
    res = {}
    count = [0]
    step = max(1, (len(cs) + jobs - 1) // jobs)
    ths = []
    errs = []

    def go(ch):
        try:
            _run_chunk(exe, ch, res, hang_ms, count)
        except Exception as e:  # noqa
            errs.append(e)
    for j in range(0, len(cs), step):
        t = threading.Thread(target=go, args=(cs[j:j + step],))
        t.start()
        ths.append(t)
    for t in ths:
        t.join()
    for e in errs:
        if isinstance(e, Stuck):
            raise e
    if errs:
        raise ToolError("harness: %r" % errs[0])
    return [res[i] for i in range(len(cs))]


def errors(o):
    return [i for i in o["issues"] if i["l"] == "E"]


# ----------------------------------------------------------- reporting
class Check:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.quick = tier == "quick"
        self.t0 = time.time()
        self.rng = random.Random(seed * 7919 + sum(map(ord, pid)))
        self.viol = []
        self.known_hit = {}
        self.states = self.trans = self.traces = 0
        self.samples = []
        self.extra = {}
        self.jobs = None
        self.exe = build()
        self.known = load_known(pid)

    def tlc(self, *a, **k):
        r = tlc(*a, **k)
        self.states += r.states
        self.trans += r.generated
        return r

    def gen(self, *a, **k):
        k.setdefault("seed", self.seed)
        r = gen(*a, **k)
        self.states += r.states
        self.trans += r.generated
        r.records.sort(key=lambda r: (r["s"], r["d"], r["p"]))
        return r.records

    def walks(self, starts, n, budget=14, **k):
        """n random behaviours with many choices each"""
        k.setdefault("bias", 25)
        r = self.gen(starts, budget=budget, simulate=n, **k)
        self.count("random_sentences", len(r))
        return r

    def run(self, cases, **k):
        k.setdefault("jobs", self.jobs)
        try:
            r = run(self.exe, cases, **k)
        except Stuck as e:
            self.traces += 1
            self.fail(e.args[0], tuple(e.args[1]))
            raise StopCheck()
        self.traces += len(cases)
        return r

    def parallel(self, recs, f):
        """f(part of recs) in forked workers; merges what they report"""
        if len(recs) < 64:
            f(recs)
            return
        step = (len(recs) + NCPU - 1) // NCPU
        kids = []
        sys.stdout.flush()
        sys.stderr.flush()
        gc.collect()
        gc.freeze()             # a collection in a worker would copy every page it looks at
        part = 40000 if self.quick else 8000
        for w in range(0, len(recs), step):
            rfd, wfd = os.pipe()
            pid = os.fork()
            if pid == 0:
                code = 0
                gc.disable()
                try:
                    os.close(rfd)
                    self.viol, self.known_hit, self.samples, self.traces, self.extra = [], {}, [], 0, {}
                    self.jobs = 1
                    self.rng.seed(self.seed * 1000003 + w)
                    stop = False
                    try:
                        try:
                            for k in range(w, min(w + step, len(recs)), part):
                                f(recs[k:min(k + part, w + step)])
                        except StopCheck:
                            stop = True
                        d = (self.viol[-2000:], self.known_hit, self.samples, self.traces, self.extra, None, stop)
                    except BaseException as e:  # noqa
                        import traceback
                        d = ([], {}, [], 0, {}, traceback.format_exc(), False)
                    with os.fdopen(wfd, "wb") as o:
                        pickle.dump(d, o)
                except BaseException:  # noqa
                    code = 1
                finally:
                    os._exit(code)
            os.close(wfd)
            kids.append((pid, rfd))
        err = None
        halt = False
        for pid, rfd in kids:
            with os.fdopen(rfd, "rb") as i:
                b = i.read()
            os.waitpid(pid, 0)
            if not b:
                err = "worker died"
                continue
            v, kh, sm, tr, ex, e, stop = pickle.loads(b)
            halt = halt or stop
            err = err or e
            self.viol += v
            for k, n in kh.items():
                self.known_hit[k] = self.known_hit.get(k, 0) + n
            for s in sm[:2]:
                self.sample(s)
            self.traces += tr
            for k, n in ex.items():
                self.extra[k] = self.extra.get(k, 0) + n
        if err:
            raise ToolError(err)
        if halt:
            raise StopCheck()

    def count(self, k, n=1):
        self.extra[k] = self.extra.get(k, 0) + n

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(s)

    def fail(self, what, case, **info):
        """case = (dia, arg, flags, sql)"""
        for kf in self.known:
            if kf_matches(kf, what, case):
                self.known_hit[kf["text"]] = self.known_hit.get(kf["text"], 0) + 1
                return
        self.viol.append(dict(what=what, dialect=case[0], args=case[1], flags=case[2], sql=case[3], **info))

    def finish(self, level="model_checking"):
        os.makedirs(EVID, exist_ok=True)
        cov = {"states": self.states, "transitions": self.trans,
               "traces_validated_against_impl": self.traces, "samples": self.samples}
        cov.update(self.extra)
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": level,
              "coverage": cov, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.viol)}
        with open(os.path.join(EVID, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, ensure_ascii=False)
        for t in sorted(self.known_hit):
            print("KNOWN-FINDING: property=%s %s (%d inputs)" % (self.pid, t, self.known_hit[t]))
        print("%s %s: %d states, %d transitions, %d executions of the real parser, %.1f s"
              % (self.pid, self.tier, self.states, self.trans, self.traces, time.time() - self.t0))
        for k, v in self.extra.items():
            print("  %s: %s" % (k, short(v, 300)))
        if self.states == 0 or self.traces == 0:
            print("nothing was explored", file=sys.stderr)
            return 2
        if self.viol:
            rp = os.path.join(EVID, "replay-%s.json" % self.pid)
            with open(rp, "w") as f:
                json.dump({"property": self.pid, "violations": self.viol[:50], "total": len(self.viol)}, f,
                          indent=1, ensure_ascii=False)
            for v in self.viol[:int(os.environ.get("SHOW", "8"))]:
                print("  [%s] %s\n     %s" % (v["dialect"], v["what"], v["sql"].replace("\n", "\\n")[:400]))
            print("VIOLATION property=%s replay=%s" % (self.pid, rp))
            return 1
        return 0


def load_known(pid):
    """known_findings.txt: lines `KNOWN-FINDING: property=ID match=<regex> :: text`"""
    r = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"KNOWN-FINDING: property=(\w+) what=/(.*?)/ sql=/(.*?)/ :: (.*)$", l.rstrip("\n"))
            if m and m.group(1) == pid:
                r.append({"what": re.compile(m.group(2)), "sql": re.compile(m.group(3), re.S), "text": m.group(4)})
    return r


def kf_matches(kf, what, case):
    return kf["what"].search(what) is not None and kf["sql"].search(case[3]) is not None
