"""Checks on scripts and placeholders."""
import bisect
from core import *
from checks2 import *

DELIM_RISK = {"THEN", "ELSE", "BEGIN", "DO", "TRIGGER", "FUNCTION", "STDIN", "DELIMITER"}


def session(ck, n, kinds, args=0, noise=("mutant",), simulate=None):
    r = ck.tlc("Session", {"MaxItems": n, "Kinds": set(kinds), "MaxArgs": args, "NoiseKinds": set(noise)},
               ["InOrder", "Numbered", "LastDelim", "OnlyDamagedReported", "Emit"]).records
    r.sort(key=lambda r: json.dumps(r, sort_keys=True))
    return r


def long_session(ck, n, walks, kinds, args=0, noise=("mutant",)):
    """scripts of n items"""
    r = ck.tlc("Session", {"MaxItems": n, "Kinds": set(kinds), "MaxArgs": args, "NoiseKinds": set(noise)},
               ["Emit"], simulate=walks, depth=n + 2, seed=ck.seed, workers=1).records
    r = [x for x in r if len(x["i"]) == n]
    r.sort(key=lambda r: json.dumps(r, sort_keys=True))
    ck.count("long_scripts", len(r))
    return r


def nargs(r):
    return sum(1 for t in r["o"] if t[0] == "a")


class Pool:
    """the sentences scripts are made of, by dialect and number of placeholders"""

    def __init__(self, recs):
        self.by = {}
        self.copy = {}
        for r in recs:
            if r["s"] == "sCopy":
                self.copy.setdefault(r["d"], []).append(r)
            else:
                self.by.setdefault((r["d"], nargs(r)), []).append(r)
        # the same number of chances for every kind of statement
        self.kinds = {k: {} for k in self.by}
        for k, rs in self.by.items():
            for r in rs:
                self.kinds[k].setdefault(r["s"], []).append(r)

    def pick(self, rng, dia, n=0):
        ks = self.kinds[(dia, n)]
        return rng.choice(ks[rng.choice(sorted(ks))])


DATA = ["", "1\t2\n", "a;b\n", "SELECT 'x\n", "-- x\n\\N\n", "\\.x\n", "x\\.\n", "$$ ; DELIMITER $$\n", "\\\n.\n",
        "\n\n", "\"`'\n", "\u00e6\u4e2d\n", "/* \n", "\\..\n", " \\.\n", "?\n%s\n$1\n"]


def copy_data(rng):
    return "".join(rng.choice(DATA) for _ in range(rng.randrange(3)))


class Script:
    """text of a script with what parsing it has to return"""

    def __init__(self):
        self.sql = ""
        self.pos = 0
        self.parts = []     # (kind, expected tree, begin, end)

    def add(self, s):
        self.sql += s
        self.pos += len(s.encode())


GAPS = ["", "", " ", "\n", "\n\n", "\t", "\r\n", " -- c\n", "/* ; */", "-- $$ ;\n", "// ;\n", "/* \u00e6 */"]


def write_script(ck, rec, pool, dia, arg, bad=None):
    rng = ck.rng
    s = Script()
    for it in rec["i"]:
        k = it["k"]
        s.add(rng.choice(GAPS))
        a = s.pos
        if k in ("stmt", "open"):
            r = pool.pick(rng, dia, it["n"])
            t = render(r["o"], Style(sep=rng.choice(["space", "mixed", "compact"]), rng=rng, arg=arg,
                                      lits=rng.choice(["plain", "plain", "edge"])), base=s.pos,
                       argstart=it["c"])
            s.add(t.sql)
            s.parts.append(("stmt", expected(r["v"], t), a, s.pos, t, r))
            if k == "stmt":
                s.add(rng.choice(["", " ", "\n"]) + it["d"])
        elif k == "empty":
            s.add(it["d"])
        elif k == "delim":
            s.add(case_word("DELIMITER", rng.choice(["upper", "lower", "mixed"]), rng) +
                  rng.choice([" ", "\n", "\t"]) + it["d"] + rng.choice(["\n", " ", "\n\n"]))
        elif k == "copy":
            r = rng.choice(pool.copy[dia])
            t = render(r["o"], Style(sep=rng.choice(["space", "mixed"]), rng=rng, lits=rng.choice(["plain", "edge"])), base=s.pos)
            s.add(t.sql)
            s.parts.append(("stmt", expected(r["v"], t), a, s.pos, t, r))
            s.add(rng.choice(["", " "]) + it["d"] + rng.choice(["", " ", "  \t"]) + "\n")
            d = copy_data(rng)
            b = s.pos
            s.add(d)
            s.parts.append(("data", {"_": "Stdin", "0": "'" + d, "1": "@%d-%d" % (b, s.pos)}, b, s.pos, None, None))
            s.add("\\.\n")
        else:
            s.add(bad[it["x"]])
            s.add(rng.choice(["", " ", "\n"]) + it["d"])
            s.parts.append(("lost", None, a, s.pos, None, None))
        s.add(rng.choice(["", "", "\n"]))
    s.add(rng.choice(["", "\n", " -- end"]))
    return s


def first_pos(x):
    if isinstance(x, str):
        if not SPAN.match(x):
            return None
        a, b = x[1:].split("-")
        return int(a) if a != b else None       # empty ranges stand for what is lost
    ps = [first_pos(y) for y in (x if isinstance(x, list) else x.values() if isinstance(x, dict) else [])]
    ps = [p for p in ps if p is not None]
    return min(ps) if ps else None


def judge_script(ck, s, c, o, spans=True):
    """trees of a script without damaged statements"""
    a = o["ast"]
    e = [p[1] for p in s.parts]
    d = diff(e, a, spans=spans)
    if d:
        ck.fail("script: " + d, c, expected=e, actual=a)
        return False
    return True


def run_scripts(ck, recs, mk, judge):
    def part(recs):
        ss, cases = [], []
        for r in recs:
            m = mk(r)
            if m is None:
                continue
            s, c = m
            ss.append((r, s))
            cases.append(c)
        for (r, s), c, o in zip(ss, cases, ck.run(cases)):
            if "ast" not in o:
                ck.fail("panic or hang: %s" % o.get("panic"), c)
            else:
                judge(r, s, c, o)
        for c in cases[:: max(1, len(cases) // 2)]:
            ck.sample({"sql": c[3]})
    ck.rng.shuffle(recs)
    ck.parallel(recs, part)


def C14(ck):
    from checks import everything
    q = ck.quick
    pool = Pool([r for r in everything(ck, 1 if q else 2, walks=4000 if q else 40000) if r["s"][0] != "x" or ck.rng.random() < 0.2])
    recs = session(ck, 4 if q else 6, ["stmt", "empty", "delim", "copy", "open"])
    recs = [r for r in recs if r["i"]]
    recs = recs * (8 if q else 4)
    recs += long_session(ck, 120, 10 if q else 60, ["stmt", "empty", "delim", "copy"])

    def mk(r):
        dia = ck.rng.choice("MPS")
        s = write_script(ck, r, pool, dia, "?")
        return s, (dia, "?", "m", s.sql)

    def judge(r, s, c, o):
        er = errors(o)
        if er and not r["e"]:
            ck.fail("error in a script of valid statements: %s" % er[0]["m"], c)
            return
        if er and any(e["a"] < s.parts[-1][3] for e in er):
            ck.fail("error before the end of a script of valid statements: %s" % er[0]["m"], c)
            return
        ck.count("scripts")
        ck.count("statements", len(s.parts))
        judge_script(ck, s, c, o)
    run_scripts(ck, recs, mk, judge)

    # the data of COPY, character by character
    recs = ck.tlc("Stdin", {"Alphabet": {"\n", "\\", ".", "a", ";", " "}, "MaxLen": 6 if q else 7},
                  ["NoEarlierEnd", "BlanksOnly", "Emit"]).records
    recs += ck.tlc("Stdin", {"Alphabet": {"\n", "\\", "."}, "MaxLen": 9 if q else 11},
                   ["NoEarlierEnd", "BlanksOnly", "Emit"]).records
    recs.sort(key=lambda r: r["t"])

    def part(recs):
        cases = []
        for r in recs:
            x = "".join(r["t"])
            cases.append((ck.rng.choice("MPS"), "?", "m", "COPY t (a) FROM STDIN;" + x + ("COMMIT;" if r["over"] else "")))
        for r, c, o in zip(recs, cases, ck.run(cases)):
            if "ast" not in o:
                ck.fail("panic or hang: %s" % o.get("panic"), c)
                continue
            x = "".join(r["t"])
            a, b = 22 + r["a"] - 1, 22 + r["b"]
            ck.count("data_texts")
            e = [{"_": "Stdin", "0": "'" + x[r["a"] - 1:r["b"]], "1": "@%d-%d" % (a, b)}]
            if r["over"]:
                e.append({"_": "Commit", "0": "@%d-%d" % (22 + len(x), 28 + len(x))})
            er = errors(o)
            if er:
                ck.fail("error in a script with data: %s" % er[0]["m"], c)
            else:
                d = diff(e, o["ast"][1:])
                if d:
                    ck.fail("data: " + d, c)
    ck.parallel(recs, part)


def C15(ck):
    from checks import everything, mutate
    q = ck.quick
    recs = everything(ck, 1, walks=4000 if q else 40000)
    dam = ck.gen(["sSelect", "sInsert", "sUpdate", "sTable", "sDelete", "sFunction", "sTrigger", "sAlter", "sIf"], budget=1,
                 damage=1)
    dam = [r for r in dam if r["m"]]
    # a statement without any position (DO with an empty block) could not be
    # told from what is left of a damaged one
    pool = Pool([r for r in recs if r["h"][0] and (r["s"][0] != "x" or ck.rng.random() < 0.2)])
    soup = [t for r in ck.rng.sample(recs, 400) for t in r["o"]]
    flat = [r for k in sorted(pool.by) for r in pool.by[k]]

    def noise(kind, dia):
        rng = ck.rng
        if kind == "list":
            return rng.choice(dam)["o"]
        if kind == "soup":
            return [rng.choice(soup) for _ in range(rng.randrange(1, 9))]
        o = pool.pick(rng, dia)["o"] if rng.random() < 0.8 else rng.choice(flat)["o"]
        if kind == "cut":
            return o[:rng.randrange(1, len(o))] if len(o) > 1 else [["p", ")"]]
        if kind == "tail":
            return o[rng.randrange(1, len(o)):] if len(o) > 1 else [["p", ")"]]
        if kind == "brackets":
            o = list(o)
            for _ in range(rng.randrange(1, 3)):
                o.insert(rng.randrange(1, len(o) + 1), ["p", rng.choice("([{)]}")])
            return o
        for _ in range(rng.randrange(1, 3)):
            o = mutate(rng, o, soup)
        return o

    KINDS = ("mutant", "cut", "tail", "soup", "brackets", "list")
    # damaged statements, tried alone first
    stock = {}
    for dia in "MPS":
        for d in (";", "$$"):
            for kind in KINDS:
                n = 1500 if q else 12000
                cand = []
                for _ in range(n):
                    o = noise(kind, dia)
                    w = {t[1] for t in o if t[0] in "kp" and len(t) > 1}
                    if d in w or "STDIN" in w or "DELIMITER" in w or not o or o[0] == ["p", d]:
                        continue
                    if w & (DELIM_RISK if d == ";" else {"DO", "FUNCTION"}):
                        continue        # the delimiter might be a part of the statement
                    cand.append(render(o, Style(sep="space", rng=ck.rng)).sql)
                pre = "DELIMITER $$\n" if d == "$$" else ""
                cases = [(dia, "N", "m", pre + x + " " + d) for x in cand]
                good = []
                for x, c, r in zip(cand, cases, ck.run(cases)):
                    if "ast" not in r:
                        ck.count("panics")
                    elif errors(r):
                        good.append(x)
                stock[dia, d, kind] = good
                ck.count("damaged_" + kind, len(good))
    recs = session(ck, 3 if q else 4, ["stmt", "empty", "delim", "copy", "bad"], noise=KINDS)
    recs = [r for r in recs if r["e"] and len(r["i"]) > 1]
    if q:
        recs = recs * 6
    elif len(recs) > 400000:
        recs = ck.rng.sample(recs, 400000)
    recs += long_session(ck, 60, 10 if q else 60, ["stmt", "empty", "delim", "copy", "bad"], noise=KINDS)

    def mk(r):
        dia = ck.rng.choice("MPS")
        s = write_script_bad(ck, r, pool, dia, stock)
        return s, (dia, "N", "m", s.sql)

    def judge(r, s, c, o):
        er = errors(o)
        ck.count("scripts")
        lost = [p for p in s.parts if p[0] == "lost"]
        for e in o["issues"]:
            if not any(p[2] <= e["a"] and e["b"] <= p[3] for p in lost):
                ck.fail("diagnostic outside of the damaged statements: %s" % e["m"], c)
                return
        for p in lost:
            ck.count("damaged_statements")
            if not any(p[2] <= e["a"] and e["b"] <= p[3] for e in er):
                ck.fail("damaged statement not reported", c)
                return
        a = list(o["ast"])
        for p in s.parts:
            if p[0] == "lost":
                if a and (first_pos(a[0]) is None or p[2] <= first_pos(a[0]) < p[3]):
                    a.pop(0)
                continue
            if not a:
                ck.fail("statement missing after a damaged one", c)
                return
            ck.count("intact_statements")
            d = diff(p[1], a[0])
            if d:
                ck.fail("statement beside a damaged one: " + d, c, expected=p[1], actual=a[0])
                return
            a.pop(0)
        if a:
            ck.fail("%d additional statements" % len(a), c)
    run_scripts(ck, recs, mk, judge)


def write_script_bad(ck, rec, pool, dia, stock):
    """the delimiter in force decides which damaged texts may be used"""
    class Bad:
        def __getitem__(self, x):
            return ck.rng.choice(stock[dia, x[0], x[1]])
    its = [dict(it, x=(it["d"], it.get("x"))) for it in rec["i"]]
    return write_script(ck, dict(rec, i=its), pool, dia, "?", Bad())


def arg_nodes(x, out):
    if isinstance(x, dict):
        if x.get("_") in ("Arg", "ListHack"):
            out.append((int(x["0"][1][1:].split("-")[0]), x["_"], x["0"][0]))
        else:
            for y in x.values():
                arg_nodes(y, out)
    elif isinstance(x, list):
        for y in x:
            arg_nodes(y, out)
    return out


def C10(ck):
    from checks import ALL, big
    q = ck.quick
    recs = big(ck, ALL, n=800, small=0, mode="args") + ck.gen(ALL, budget=2, mode="args") + ck.gen(["xSpecial", "xOther", "xOperator", "xOver"], budget=1, mode="args")
    recs += ck.walks(ALL, 8000 if q else 80000, budget=12, mode="args")
    if not q:
        recs += ck.gen(ALL, budget=3, mode="args", dias="M")
    # the expression of an EXCEPTION clause is not part of the tree
    recs = [r for r in recs if nargs(r) and ["k", "EXCEPTION"] not in r["o"]]
    STYLES = [("?", "?", ""), ("%", "%", ""), ("$", "$", ""), ("mixl", "%", "l"), ("mixq", "?", "l"), ("$r", "$", "")]

    def want_args(t, toks, style):
        r = []
        for sp, v, tk, x in zip(t.spans, t.vals, toks, t.toks):
            if tk[0] == "a":
                r.append((sp[0], "ListHack" if x.upper() == "_LIST_" else "Arg", v))
        return r

    def numbered(want, c, o):
        er = errors(o)
        if er:
            ck.count("not_accepted")
            at = {x[0] for x in want}
            if any(e["a"] in at and e["b"] - e["a"] <= 6 for e in er):
                ck.fail("placeholder of the selected style is reported", c)
            return
        got = sorted(arg_nodes(o["ast"], []))
        ck.count("placeholders", len(want))
        if got != want:
            ck.fail("placeholders are numbered %s, expected %s" % (short([x[2] for x in got]),
                                                                   short([x[2] for x in want])), c)

    def part(recs):
        cases, ws = [], []
        for r in recs:
            st = ck.rng.choice(STYLES)
            t = render(r["o"], Style(sep=ck.rng.choice(["space", "mixed"]), rng=ck.rng, arg=st[0]))
            ws.append(want_args(t, r["o"], st))
            cases.append((r["d"], st[1], st[2], t.sql))
        for w, c, o in zip(ws, cases, ck.run(cases)):
            if "ast" not in o:
                ck.count("panics")
                continue
            numbered(w, c, o)
        for c in cases[:: max(1, len(cases) // 2)]:
            ck.sample({"args": c[1], "sql": c[3]})
    ck.rng.shuffle(recs)
    ck.parallel(recs, part)

    # a style that is not selected
    def part2(recs):
        cases = []
        for r in recs:
            a, sel = ck.rng.choice([(x, y) for x in "?%$" for y in "?%$N" if x != y])
            cases.append((r["d"], sel, ck.rng.choice(["", "l"]), render(r["o"], Style(arg=a)).sql))
        for c, o in zip(cases, ck.run(cases)):
            ck.count("not_selected")
            if "ast" in o and not errors(o):
                ck.fail("placeholder of a style that is not selected accepted", c)
    ck.parallel(recs if not q else ck.rng.sample(recs, min(len(recs), 12000)), part2)

    # scripts
    pool = Pool([r for r in ck.gen(ALL, budget=1, mode="args") if ["k", "EXCEPTION"] not in r["o"]])
    recs = session(ck, 3 if q else 4, ["stmt", "empty", "delim", "copy"], args=2)
    recs = [r for r in recs if any(i["n"] for i in r["i"])] * (6 if q else 2)
    recs += long_session(ck, 200, 8 if q else 60, ["stmt", "empty", "delim", "copy"], args=2)

    def mk(r):
        dia = ck.rng.choice("MPS")
        st = ck.rng.choice(STYLES[:5])
        s = write_script(ck, r, pool, dia, st[0])
        return s, (dia, st[1], "m" + st[2], s.sql)

    def judge(r, s, c, o):
        w = []
        for p in s.parts:
            if p[4]:
                w += want_args(p[4], p[5]["o"], None)
        ck.count("scripts")
        numbered(sorted(w), c, o)
    run_scripts(ck, recs, mk, judge)
