"""Checks on the outcome of arbitrary calls: C01, C02, C05."""
import re, tempfile
from core import *
from checks2 import *
from checks5 import swallowed

CONT = "[" + ",".join('"\\u%04x"' % i for i in range(0x80, 0xc0)) + "]\n"
LEADS = "0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_"


def latin(s):
    """one character per byte"""
    return s.encode().decode("latin-1")


# ------------------------------------------------------------ the inputs
class Inputs:
    """texts of every kind; an input is (sql, script, what) where what may be
    "left" (something follows a complete statement) or "blank" """

    def __init__(self, ck, budget=1):
        from checks import everything, ALL
        self.ck, self.rng = ck, ck.rng
        recs = everything(ck, budget, walks=6000 if ck.quick else 60000)
        recs += ck.gen(ALL, budget=1, gate=True) + ck.gen(ALL, budget=1, damage=1) + ck.gen(ALL, budget=1, mode="args")
        self.recs = recs
        self.by = {}
        for r in recs:
            self.by.setdefault(r["s"], []).append(r)
        self.starts = sorted(self.by)
        # every token there is
        v = {}
        for r in recs:
            for t in r["o"]:
                v[(t[0], t[1] if len(t) > 1 else None)] = t if len(t) < 3 else None
        words = ck.tlc("Names", {}, ["TypeOK", "QuotedIsName", "Emit"]).records
        for u in words:
            v.setdefault(("k", u["w"]), ["k", u["w"]])
        self.vocab = [v[k] for k in sorted(v, key=str) if v[k]]
        self.vocab += [["p", c] for c in ["?", ";", "\\", "[", "]", "^", "{", "}", "#", "~", "$$", ":", "::", "=>", "!!",
                                          "@", "%", "$", "<=>", "||", "@@session", "@@global"]]
        self.vocab += [["t", x] for x in ["'a", '"b', "`c", "x'12'", "$3", "%s", "_LIST_", "'\\", "/*", "-- z\n", "1.5", ".5",
                                          "1.", "18446744073709551616", "\u00e9", "\u4e2d", "\U0001f600", "`a`", '"q"',
                                          "'it''s'", "DELIMITER", "DELIMITER $$", "\\.", "\\.\n", "\0", "a.b.c", "'1:2'"]]

    def sentence(self):
        return self.rng.choice(self.by[self.rng.choice(self.starts)])

    def style(self):
        r = self.rng
        x = r.random()
        if x < 0.4:
            return Style(arg=r.choice("?%$l"))
        return Style(sep=r.choice(["mixed", "compact", "newline", "comments", "space"]), case=r.choice(["upper", "mixed"]),
                     quote=r.choice(["none", "mix", "double"]), rng=r, lits=r.choice(["plain", "mixed"]),
                     arg=r.choice("?%$l"), suffix=r.choice(["", "", "\n", " -- \u00e5", " ", "/*"]))

    def edited(self, toks, n):
        from checks import mutate
        for _ in range(n):
            if toks:
                toks = mutate(self.rng, toks, self.vocab)
        return toks

    def chars(self, s, n):
        r = self.rng
        for _ in range(n):
            j = r.randrange(len(s) + 1)
            m = r.randrange(4)
            c = r.choice(["'", '"', "`", "\\", "(", ")", ";", "$", "$$", "/", "*", "-", "@", "%", "\u00e9", "\u4e2d", "\U0001f600",
                          "\n", "\0", "\t", ".", "x'", "1", "a", "]", "?", "\u00a0", "\r", "\x7f", "\ufeff"])
            if m == 0:
                s = s[:j] + s[j + 1:]
            elif m == 1:
                s = s[:j]
            elif m == 2:
                s = s[:j] + c + s[j + 1:]
            else:
                s = s[:j] + c + s[j:]
        return s

    def one(self):
        r = self.rng
        x = r.random()
        if x < 0.10:                                    # random tokens
            toks = [r.choice(self.vocab) for _ in range(r.randrange(0, 12))]
        elif x < 0.40:                                  # any token after the beginning of a sentence
            o = self.sentence()["o"]
            j = r.randrange(len(o) + 1)
            toks = o[:j] + [r.choice(self.vocab)] + (o[j:] if r.random() < 0.3 else o[j + 1:] if r.random() < 0.5 else [])
        elif x < 0.55:                                  # the beginning or end of a sentence
            o = self.sentence()["o"]
            j = r.randrange(len(o) + 1)
            toks = o[:j] if r.random() < 0.6 else o[j:]
        else:
            toks = self.edited(self.sentence()["o"], r.choice([0, 1, 1, 1, 2, 2, 3, 5]))
        if not toks:
            return ""
        s = render(toks, self.style()).sql
        if r.random() < 0.15:
            s = self.chars(s, r.randrange(1, 4))
        return s

    def long(self):
        """something of a sentence or between its tokens many times"""
        r = self.rng
        k = r.choice([30, 130, 260, 260, 600, 2500])
        x = r.random()
        toks = list(self.sentence()["o"])
        script = False
        if x < 0.45:                                    # a part of the sentence, again and again
            i = r.randrange(len(toks))
            j = i + 1 + min(int(r.expovariate(0.4)), len(toks) - i - 1)
            if sum(1 for t in toks[i:j] if t[-1] in ("(", "[", "{", "CASE", "IF", "BEGIN", "THEN", "SELECT")) and r.random() < 0.8:
                k = 30
            toks = toks[:i] + toks[i:j] * k + toks[j:]
            s = render(toks, self.style()).sql
        elif x < 0.60:                                  # long tokens
            t = r.choice(["'%s'", '"%s"', "`%s`", "/*%s*/", "-- %s\n", "%s", "1%s", "1.%s", "x'%s", "$%s", "@%s", "'%s"])
            c = r.choice(["a", "0", "9", "_", "''", "\\\\", "\\n", "\u00e9", "\u4e2d", "\U0001f600", '""', " ", "*", "\n"])
            toks.insert(r.randrange(len(toks) + 1), ["t", t % (c * r.choice([k, 70000 // len(c)]))])
            s = render(toks, self.style()).sql
        elif x < 0.75:                                  # far down or far right
            s = r.choice(["\n", "\r\n", " ", "-- \u00e9\n", "\t"]) * r.choice([k, 70000])
            toks = self.edited(toks, r.choice([0, 1, 2]))
            s = s + render(toks, self.style()).sql
        else:                                           # many statements
            script = True
            s = "".join(render(self.edited(list(self.sentence()["o"]), r.choice([0, 0, 0, 1, 2])), self.style()).sql +
                        r.choice([";", ";\n", "\n;"]) for _ in range(min(k, 300)))
        return s, script

    def script(self):
        r = self.rng
        d = ";"
        out = []
        for _ in range(r.randrange(1, 5)):
            if r.random() < 0.12:
                d = r.choice([";", "$$", "//", "|", "x"])
                out.append(r.choice(["DELIMITER ", "delimiter\n", "DELIMITER"]) + d + "\n")
                continue
            out.append(self.one())
            if r.random() < 0.9:
                out.append(r.choice(["", " "]) + d)
            out.append(r.choice(["", "\n", " "]))
        s = "".join(out)
        return self.chars(s, r.randrange(1, 3)) if r.random() < 0.1 else s


NEST = [("(", "1", ")"), ("SELECT (", "1", ")"), ("(SELECT * FROM (", "SELECT 1", ") a)"), ("f(", "1", ")"), ("- ", "1", ""),
        ("NOT ", "a", ""), ("CASE WHEN ", "a", " THEN 1 END"), ("CAST(", "a", " AS CHAR)"), ("a IN (", "1", ")"), ("a + (", "b", ")"),
        ("EXISTS(SELECT ", "1", ")"), ("COUNT(", "a", ")"), ("a OR ", "b", ""), ("a = ", "b", ""), ("! ", "b", ""),
        ("BINARY ", "b", ""), ("EXTRACT(DAY FROM ", "a", ")"), ("TIMESTAMPADD(DAY, 1, ", "a", ")"), ("a IS NULL AND ", "b", ""),
        ("GROUP_CONCAT(", "a", ")"), ("[", "a", "]"), ("{", "a", "}"), ("((", "SELECT 1", ") UNION SELECT 2)"), ("a, ", "b", ""),
        ("(SELECT 1 UNION (", "SELECT 2", "))"), ("a -> ", "b", ""), ("a. ", "b", ""), ("INTERVAL (", "1", ") DAY")]
STMT_NEST = [("IF a THEN ", "SET b = 1;", " END IF;"), ("BEGIN ", "SET a = 1;", " END;"), ("CASE WHEN a THEN ", "SET b = 1;", " END;"),
             ("IF a THEN SELECT 1; ELSEIF b THEN ", "SET b = 1;", " END IF;"), ("IF a THEN SET c = 1; ELSE ", "SET b = 1;", " END IF;")]


def nesting(depths):
    out = []
    for n in depths:
        for a, b, c in NEST:
            for pre, post in (("SELECT ", ""), ("SET a = ", ""), ("INSERT INTO t VALUES (", ")"), ("", ""),
                              ("SELECT a FROM t JOIN u ON ", " WHERE b"), ("SELECT a FROM ", ""), ("SELECT 1 LIMIT ", "")):
                for close in (c * n, "", c * (n - 1), c * (n + 1)):
                    out.append(pre + a * n + b + close + post)
        for a, b, c in STMT_NEST:
            for pre, post in (("", ""), ("CREATE TRIGGER t AFTER INSERT ON u FOR EACH ROW ", ""), ("DO $$ BEGIN ", " END $$"),
                              ("CREATE FUNCTION f(a INT) RETURNS INT ", "")):
                for close in (c * n, "", c * (n - 1), c.strip(";") * n):
                    out.append(pre + a * n + b + close + post)
    return out


ARGS = ["N", "?", "%", "$"]


def options(rng, script, extra=""):
    return rng.choice("MPS"), rng.choice(ARGS), "a" + ("m" if script else "") + "".join(f for f in "ucl" if rng.random() < 0.5) + extra


TOKEN = re.compile(r"""--[^\r\n]*|//[^\r\n]*|/\*(?:.|\n)*?(?:\*/|$(?!\n))|[xX]'[^']*'?|'(?:\\(?:.|\n|$)|[^'\\]|'')*'?|"(?:\\(?:.|\n|$)|[^"\\]|"")*"?"""
                   r"""|`[A-Za-z0-9_-]*`?|[A-Za-z_][A-Za-z0-9_]*|[0-9]+(?:\.[0-9]*)?|\.[0-9]+|\$\$|\$[1-9][0-9]*|@@[A-Za-z]*|%s"""
                   r"""|<=>|<=|<>|<<|>=|>>|!=|!!|=>|\|\||&&|::|\S""", re.A)


def blank(s):
    """nothing but white space, comments, delimiters and DELIMITER commands"""
    d = ";"
    ts = iter([t for t in TOKEN.findall(s) if t[:2] not in ("--", "//", "/*")])
    for t in ts:
        if t.upper() == "DELIMITER":
            d = next(ts, None)
        elif t != d and {t, d} != {"!=", "<>"}:
            return False
    return True



def record(c, o, left=False):
    """the record Outcome.tla is about"""
    sql = c[3]
    r = {"text": latin(sql), "ret": "issues" in o, "script": "m" in c[2], "left": left,
         "blank": blank(sql), "n": 0, "inv": 0, "iss": [], "show": "", "isok": True}
    if r["ret"]:
        r["n"], r["inv"], r["isok"] = o["n"], o["inv"], o["isok"]
        r["show"] = latin(o["show"])
        r["iss"] = [{"l": i["l"], "a": i["a"], "b": i["b"], "m": latin(i["m"]), "s": latin(i["s"]),
                     "f": [{"a": f["a"], "b": f["b"], "m": latin(f["m"]), "s": latin(f["s"])} for f in i["f"]]}
                    for i in o["issues"]]
    return r


def show_of(r):
    """the printed form (Shown of Outcome.tla)"""
    if not r["iss"]:
        return "No issues\n"
    t = r["text"]

    def at(x):
        return "    At line %d, code %s\n" % (1 + t.count("\n", 0, x["a"]), x["s"])
    return "Issues:\n" + "".join(
        ("  Error " if x["l"] == "E" else "  Warning ") + x["m"] + "\n" + at(x)
        + "".join("  " + f["m"] + "\n" + at(f) for f in x["f"]) for x in r["iss"])


def phase_of(r):
    """where the record is stuck in Outcome.tla (the same machine, for the
    records that are too many for TLC; TLC judges the sample and what is
    found here)"""
    if not r["ret"]:
        return "called"
    ne = sum(1 for x in r["iss"] if x["l"] == "E")
    bl = r["script"] and r["blank"]
    if ne == 0 and not ((r["n"] >= 1 or bl) and r["inv"] == 0 and not r["left"]) or (not r["script"] and r["n"] > 1):
        return "returned"
    t = r["text"]

    def bound(a):
        return a == len(t) or not 0x80 <= ord(t[a]) < 0xc0
    for x in r["iss"]:
        for y in [x] + x["f"]:
            if not (y["a"] <= y["b"] <= len(t) and bound(y["a"]) and bound(y["b"]) and y["s"] == t[y["a"]:y["b"]]):
                return "believed"
    if r["show"] != show_of(r) or r["isok"] != (not r["iss"]):
        return "located"
    return "printed"


def validate(ck, recs):
    """the verdict of TLC on records: phase in which each one is stuck"""
    data = "".join(json.dumps(r) + "\n" for r in recs)
    out = ck.tlc("Outcome", {"File": "records.ndjson"}, ["TypeOK", "Believed", "Emit"],
                 extra_files={"records.ndjson": data, "continuation.ndjson": CONT}).records
    ph = ["printed"] * len(recs)
    for o in out:
        ph[o["i"] - 1] = o["phase"]
    return ph


def outcomes(ck, cases, phases, left=(), keep=2500, only=None):
    """runs the cases; every record is judged by phase_of, a sample and all
    that are stuck by TLC.  Returns the outcomes."""
    left = set(left)
    path = tempfile.mkdtemp(prefix="vf-out-")

    def part(idx):
        cs = [cases[i] for i in idx]
        outs = ck.run(cs)
        rs = [record(c, o, i in left) for i, c, o in zip(idx, cs, outs)]
        stuck, acc = [], []
        for i, r, o in zip(idx, rs, outs):
            p = phase_of(r)
            ck.count("records")
            ck.count("records_with_errors" if any(x["l"] == "E" for x in r["iss"]) else "records_without_errors")
            if p != "printed" and (p != "called" or only is None or only.search(str(o.get("panic")))):
                stuck.append((i, r, p))
            if not any(x["l"] == "E" for x in r["iss"]) and r["ret"]:
                acc.append(i)
        short_ = [k for k in range(len(rs)) if len(rs[k]["text"]) < 400 and len(rs[k]["iss"]) < 12]
        take = ck.rng.sample(short_, min(len(short_), max(1, keep // NCPU)))
        with open(os.path.join(path, "%d" % idx[0]), "wb") as f:
            pickle.dump((stuck[:200], [(idx[k], rs[k], phase_of(rs[k])) for k in take], acc), f)
    try:
        ck.parallel(list(range(len(cases))), part)
        stuck, sample, accs = [], [], []
        for f in sorted(os.listdir(path)):
            s, t, a = pickle.load(open(os.path.join(path, f), "rb"))
            stuck += s
            sample += t
            accs += a
    finally:
        shutil.rmtree(path, ignore_errors=True)
    stuck.sort(key=lambda x: (len(x[1]["text"]) > 3000, x[0]))
    stuck = stuck[:400]
    if stuck and len(stuck[0][1]["text"]) > 3000:
        stuck = stuck[:4]
    judged = sample + stuck
    ph = validate(ck, [j[1] for j in judged])
    ck.count("records_judged_by_TLC", len(judged))
    for (i, r, p), q in zip(judged, ph):
        if p != q:
            raise ToolError("verdicts differ (%s, %s) on %r" % (p, q, cases[i]))
    for i, r, p in stuck:
        if p in phases:
            ck.fail(phases[p] % dict(errors=sum(1 for x in r["iss"] if x["l"] == "E"), n=r["n"], inv=r["inv"]), cases[i])
    for i, r, p in sample[:6]:
        ck.sample({"sql": cases[i][3], "options": list(cases[i][:3]), "statements": r["n"], "diagnostics": len(r["iss"])})
    return accs


def long_cases(ck, inp, extra=""):
    texts = [inp.long() for _ in range(1200 if ck.quick else 6000)]
    ck.count("long_texts", len(texts))
    ck.count("long_texts_bytes", sum(len(t[0].encode()) for t in texts))
    return [options(ck.rng, s, extra) + (t,) for t, s in texts]


def C01(ck):
    q = ck.quick
    inp = Inputs(ck, 1 if q else 2)
    ph = {"called": "panic, hang or crash"}
    n = 250000 if q else 3000000
    step = 500000
    for k in range(0, n, step):
        texts = make_texts(ck, inp, min(step, n - k))
        cases = [options(ck.rng, s) + (t,) for t, s in texts]
        outcomes(ck, cases, ph, keep=8000)
    # long texts
    cases = long_cases(ck, inp)
    outcomes(ck, cases, ph, keep=400)
    # the deepest nesting that is assumed
    t = nesting([100] if q else [1, 2, 3, 50, 100])
    cases = [options(ck.rng, s) + (x + (";" if s else ""),) for x in t for s in (False, True)]
    outcomes(ck, cases, ph, keep=1000)
    # characters
    for pre, alpha, m in CHAR_INPUTS(q):
        recs = lexer(ck, pre, alpha, m)
        recs.sort(key=lambda r: r["t"])
        cases = [options(ck.rng, i % 2 == 0) + (p + text_of(r["t"]) + s,) for i, r in enumerate(recs)
                 for p, s in [("", ""), ck.rng.choice(WRAPS)]]
        outcomes(ck, cases, ph, keep=1000)


WRAPS = [("SELECT ", " FROM t"), ("SELECT a ", ""), ("INSERT INTO t VALUES (", ")"), ("\u00e9", ""), ("DELIMITER ", ";"), ("DELIMITER", " $$ "),
         ("CREATE TABLE t (a ", ")"), ("COPY t (a) FROM STDIN;\n", "\n\\.\n"), ("COPY t (a) FROM STDIN;", ""), ("SELECT 1; ", "; SELECT 2;"),
         ("SELECT INTERVAL ", " DAY"), ("SELECT f(", ")"), ("DO $$ BEGIN ", " END $$"), ("SELECT a\n\nFROM ", "\n WHERE b")]


def CHAR_INPUTS(q):
    every = [chr(c) for c in range(33, 127)] + ["\n", "\r", "\t", " ", "U2", "U3", "U4", "NUL", "BEL", "FF", "NBSP"]
    return [([""], every, 2 if q else 3),
            (["x'", "X'", "$", "$$", "@@", "@@g", "@@global", "`", "`a", "'", "'\\", "/*", "/* *", "--", "1.", ".", "1844674407370955161",
              "$1844674407370955161", "%", "||", "<="], every, 1 if q else 2)]


def make_texts(ck, inp, n):
    """n texts, a third of them scripts"""
    path = tempfile.mkdtemp(prefix="vf-in-")

    def part(idx):
        out = []
        for i in idx:
            s = i % 3 == 0
            out.append((inp.script() if s else inp.one(), s))
        with open(os.path.join(path, "%09d" % idx[0]), "wb") as f:
            pickle.dump(out, f)
    try:
        ck.parallel(list(range(n)), part)
        out = []
        for f in sorted(os.listdir(path)):
            out += pickle.load(open(os.path.join(path, f), "rb"))
        return out
    finally:
        shutil.rmtree(path, ignore_errors=True)


LEFT = [" )", " ]", " }", "\n)", " ) x", " ,)", " 1)", ")", " ) ;", " ~", " \u4e2d", " 'z", " 1 2 3 )"]


def C02(ck):
    q = ck.quick
    inp = Inputs(ck, 1 if q else 2)
    ph = {"returned": "%(errors)d errors with %(n)d statements, %(inv)d placeholders, and possibly something left over"}
    n = 200000 if q else 2500000
    step = 500000
    for k in range(0, n, step):
        texts = make_texts(ck, inp, min(step, n - k))
        cases = [options(ck.rng, s) + (t,) for t, s in texts]
        acc = outcomes(ck, cases, ph, keep=5000)
        followed(ck, [cases[i] for i in acc], ph)
    # every sentence with something after it
    cases = [(r["d"], "%", "a" + ck.rng.choice(["", "m"]), render(r["o"]).sql) for r in inp.recs]
    followed(ck, cases, ph)
    swallowed(ck)
    outcomes(ck, long_cases(ck, inp), ph, keep=400)
    # blank texts and lone tokens
    t = ["", ";", " ", "\n;;\n", "; ;"] + [render([v]).sql for v in inp.vocab]
    cases = [options(ck.rng, s) + (x + (";" if s and x.strip(" ;\n") else ""),) for x in t for s in (False, True)]
    outcomes(ck, cases, ph, keep=2000)


def followed(ck, cases, ph):
    """accepted texts with something after the statement"""
    cs = []
    for c in cases:
        sql = c[3].rstrip()
        if "m" in c[2]:
            sql = sql.rstrip(";").rstrip()
            cs.append(c[:3] + (sql + ck.rng.choice(LEFT) + ck.rng.choice([";", " ;\n", "; SELECT 1;"]),))
        else:
            cs.append(c[:3] + (sql + ck.rng.choice(LEFT),))
    cs = [c for c in cs if "--" not in c[3] and "//" not in c[3] and "STDIN" not in c[3].upper() and "DELIM" not in c[3].upper()
          and "/*" not in c[3]]
    ck.count("followed_by_something", len(cs))
    if cs:
        outcomes(ck, cs, ph, left=range(len(cs)), keep=2000)


def C05(ck):
    q = ck.quick
    inp = Inputs(ck, 1)
    ph = {"believed": "a diagnostic does not quote its range of the source", "located": "the printed form is not that of the diagnostics",
          "called": "panic on the range of a diagnostic"}
    n = 150000 if q else 2000000
    step = 500000
    for k in range(0, n, step):
        texts = make_texts(ck, inp, min(step, n - k))
        texts = [(ck.rng.choice(["", "", "\n", "\u00e9\n", "-- \u4e2d\n\n"]) * 1 + "".join(
            ("\n" if ck.rng.random() < 0.3 else x) if x == " " else x for x in t) if "-- " not in t and "'" not in t else t, s)
                 for t, s in texts]
        cases = [options(ck.rng, s, ck.rng.choice(["", "i"])) + (t,) for t, s in texts]
        outcomes(ck, cases, ph, keep=8000, only=TEXT_PANIC)
    outcomes(ck, long_cases(ck, inp, "i"), ph, keep=400, only=TEXT_PANIC)
    for pre, alpha, m in CHAR_INPUTS(True):
        recs = lexer(ck, pre, alpha, m)
        recs.sort(key=lambda r: r["t"])
        cases = [options(ck.rng, i % 2 == 0, ck.rng.choice(["", "i"])) + (p + text_of(r["t"]) + s,) for i, r in enumerate(recs)
                 for p, s in [("", ""), ck.rng.choice(WRAPS)]]
        outcomes(ck, cases, ph, keep=1500, only=TEXT_PANIC)


# a range that is none of the source makes recording the diagnostic panic
TEXT_PANIC = re.compile(r"byte index|char boundary|range (start|end) index|slice index|begin <= end|begin > end|out of bounds of")
