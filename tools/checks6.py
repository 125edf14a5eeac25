"""Checks on the value types of the interface: C23 to C26."""
from core import *

ALPHABETS = [["A", "a", "b"], ["Z", "_", "a"], ["-", "9", "A"], ["0", "B", "z"]]
TEXTS = ALPHABETS + [[" ", "Q", "\u00e9"], ["\u00ff", "\u4e2d", "\U0001f600"], ["'", "\\", "x"], ["\"", ";", "`"]]


class Raw:
    """a TLA+ expression"""
    def __init__(self, text):
        self.text = text

    def __str__(self):
        return self.text


def ask(ck, lines):
    """answers of the interface harness, in order"""
    exe = os.path.join(os.path.dirname(ck.exe), "api")
    parts = [lines[i::NCPU] for i in range(NCPU)]
    out = [None] * NCPU

    def go(k):
        p = subprocess.run([exe], input="".join(l + "\n" for l in parts[k]).encode(), stdout=subprocess.PIPE,
                           stderr=subprocess.DEVNULL, timeout=600)
        out[k] = [json.loads(l) for l in p.stdout.decode().split("\n") if l]
        out[k] += ["died"] * (len(parts[k]) - len(out[k]))
    ths = [threading.Thread(target=go, args=(k,)) for k in range(NCPU) if parts[k]]
    [t.start() for t in ths]
    [t.join() for t in ths]
    r = [None] * len(lines)
    for k in range(NCPU):
        if parts[k]:
            if out[k] is None:
                raise ToolError("the interface harness does not answer")
            r[k::NCPU] = out[k]
    ck.traces += len(lines)
    return r


def C24(ck):
    recs = ck.tlc("Options", {"MaxOps": 3 if ck.quick else 4}, ["TypeOK", "LastWins", "Emit"]).records
    recs.sort(key=lambda r: (r["start"], r["log"]))
    lines, want = [], []
    for r in recs:
        sets = ",".join("%s=%s" % tuple(x) for x in r["log"])
        for sql, e, w, l in r["probes"]:
            lines.append("opt\t%s\t%s\t%s" % (r["start"], sets, sql))
            want.append({"d": r["opt"]["dialect"], "r": [[int(e), w, l]] * 3})
    for l, w, a in zip(lines, want, ask(ck, lines)):
        if a != w:
            f = l.split("\t")
            ck.fail("options %s %s: expected %s, found %s" % (f[1], f[2], w, a), (w["d"], "", "", f[3]))
    ck.count("option_values", len(recs))
    ck.sample(lines[len(lines) // 2])


def plain(w):
    return re.fullmatch(r"[A-Za-z_][A-Za-z_]*", w) is not None and w.lower() not in ("_list_", "as", "ab", "ba")


def C23(ck):
    recs = ck.tlc("Order", {"NLetters": 3, "MaxLen": 2, "MaxOps": 3}, ["Sorted", "Content", "Emit"]).records
    if not ck.quick:
        recs += ck.tlc("Order", {"NLetters": 2, "MaxLen": 2, "MaxOps": 4}, ["Sorted", "Content", "Emit"]).records
        recs += ck.tlc("Order", {"NLetters": 2, "MaxLen": 4, "MaxOps": 2}, ["Sorted", "Content", "Emit"]).records
    recs += ck.tlc("Order", {"NLetters": 3, "MaxLen": 3, "MaxOps": 40}, ["Sorted", "Content", "Emit"],
                   simulate=100 if ck.quick else 250, depth=24, seed=ck.seed).records
    recs.sort(key=lambda r: (len(r["log"]), r["log"]))
    r, lines, want = ck.rng, [], []
    strs, swant = [], []
    for x in recs:
        for al in r.sample(ALPHABETS, 2 if ck.quick else 3):
            t = ["".join(al[k - 1] for k in w) for _, w in x["log"]]
            pick = [w if plain(w) and r.random() < 0.5 else "`%s`" % w for w in t]
            sep = r.choice([", ", ",", " ,  "])
            lines.append("tab\t%s\tSELECT %s" % ("".join(o for o, _ in x["log"]), sep.join(pick)))
            want.append({"ok": True, "ids": [[w] * 7 for w in t], "cmp": x["cmp"],
                         "tab": [["".join(al[k - 1] for k in w), n] for w, n in x["tab"]], "agree": True})
            if r.random() < 0.3:
                al = r.choice(TEXTS)
                t = ["".join(al[k - 1] for k in w) for _, w in x["log"]]
                q = [r.choice("'\"") for w in t]
                strs.append("str\tSELECT " + sep.join(
                    c + w.replace("\\", "\\\\").replace(c, r.choice([c + c, "\\" + c])) + c for c, w in zip(q, t)))
                swant.append({"ok": True, "s": [[w] * 5 for w in t]})
    for l, w, a in zip(lines + strs, want + swant, ask(ck, lines + strs)):
        if a != w:
            f = l.split("\t")
            if isinstance(a, dict):
                k = [k for k in w if a.get(k) != w[k]]
                ck.fail("%s expected %s, found %s" % (k[0], short(w[k[0]], 300), short(a.get(k[0]), 300)), ("M", "", "", f[-1]))
            else:
                ck.fail("no answer (%s)" % a, ("M", "", "", f[-1]))
    ck.count("tables", len(lines))
    ck.count("string_lists", len(strs))
    ck.sample(lines[len(lines) // 2])


def C25(ck):
    leaves = Raw("{<<1, 2>>, <<4, 7>>, <<5, 5>>}")
    recs = ck.tlc("Join", {"Leaves": leaves, "MaxOps": 3 if ck.quick else 4}, ["Smallest", "Emit"]).records
    # (a random walk reports every successor it did not take, too)
    more = Raw("{<<0, 0>>, <<0, 9>>, <<3, 4>>, <<2, 6>>, <<8, 12>>, <<11, 11>>}")
    recs += ck.tlc("Join", {"Leaves": more, "MaxOps": 40}, ["Smallest", "Emit"],
                   simulate=120 if ck.quick else 1500, depth=20, seed=ck.seed).records
    lines = ["join\t" + ",".join(r["log"]) for r in recs]
    for l, r, a in zip(lines, recs, ask(ck, lines)):
        if a != r["top"]:
            ck.fail("expected %s, found %s" % (r["top"], a), ("M", "", "", l.split("\t")[1]))
    ck.count("programs", len(lines))
    ck.sample(lines[len(lines) // 2])


# ------------------------------ C26: the log of diagnostics -----------------
MESSAGES = ["one", "", "tw\u00f6\nlines", "%s {} \\"]
CALLS = ["MNm", "P$muc", "S?", "M%uc", "PNm", "MN"]
# one character of the specification each
LETTERS = [{"a": "a", "b": "\u00e9", "\n": "\n"}, {"a": "SELECT", "b": " ", "\n": "\r\n"}, {"a": " drop ", "b": "\u4e2d;", "\n": "\n\n"},
           {"a": "select a, ", "b": "\U0001f600", "\n": "\n"}, {"a": ";", "b": " select \"x y\" b c;", "\n": "\n"},
           # one statement with something left over; a script without any report; lists and bodies that recover; a block left open
           {"a": "SELECT 1 ", "b": ") ", "\n": "\n"}, {"a": "/*\u00e9*/", "b": " SELECT 1;", "\n": "\n"},
           {"a": "INSERT INTO t VALUES (1 1), (2, =)", "b": ";", "\n": "\n"}, {"a": "", "b": "DROP TABLE `t` ", "\n": "\n"},
           {"a": "IF a THEN ", "b": "SET a = ; ", "\n": "\n"}, {"a": "`", "b": "'\u00e9", "\n": "\n"}]


def C26(ck):
    text = ["a", "b", "\n", "a", "\n", "\n", "b", "a"]
    tx = Raw("<<" + ", ".join('"%s"' % c.replace("\n", "\\n") for c in text) + ">>")
    recs = []
    for places, nm, calls, ops in (("{<<0, 0>>, <<1, 7>>, <<6, 7>>}", 2, 2, 3 if ck.quick else 4),
                                   ("{<<3, 8>>}", 1, 1, 5 if ck.quick else 7)):
        r = ck.tlc("Reports", {"Text": tx, "Places": Raw(places), "NMessages": nm, "Calls": calls, "MaxOps": ops},
                   ["TypeOK", "Ordered", "Emit"], properties=["Kept"])
        recs += r.records
    recs += ck.tlc("Reports", {"Text": tx, "Places": Raw("{<<0, 2>>, <<2, 3>>, <<4, 4>>, <<5, 8>>, <<8, 8>>}"), "NMessages": 4,
                               "Calls": len(CALLS), "MaxOps": 60}, ["TypeOK", "Ordered", "Emit"],
                   simulate=2 if ck.quick else 24, depth=40, seed=ck.seed).records
    recs.sort(key=lambda r: (len(r["log"]), json.dumps(r["log"])))
    lines, mine = [], []
    for r in recs:
        m = ck.rng.choice(LETTERS)
        t = [m[c] for c in text]
        off = [0]
        for c in t:
            off.append(off[-1] + len(c.encode()))
        calls = ck.rng.sample(CALLS, len(CALLS))
        ops = ",".join(o["op"] if o["op"] == "L" else "C %d" % o["m"] if o["op"] == "C" else
                       "%s %d %d-%d" % (o["op"], o["m"], off[o["p"][0]], off[o["p"][1]]) for o in r["log"])
        sql = "".join(t)
        lines.append("log\t%s\t%s\t%s" % (",".join(calls), sql.replace("\n", "\\n").replace("\r", "\\r"), ops))
        mine.append((r, t, off, sql))
    for l, (r, t, off, sql), a in zip(lines, mine, ask(ck, lines)):
        case = ("M", "", "", l)
        if not isinstance(a, dict):
            ck.fail("no answer (%s)" % a, case)
            continue

        def note(n):
            return [MESSAGES[n["m"] % 4], off[n["a"]], off[n["b"]], "".join(t[n["a"]:n["b"]])]
        want, sizes = [], []
        for i in r["items"]:
            if i["t"] == "C":
                want += a["fresh"][i["k"] - 1]
            else:
                want.append([i["t"]] + note(i["at"]) + [[note(f) for f in i["f"]]])
            sizes.append(len(want))
        k, looks = 0, []
        for o in r["log"]:
            if o["op"] in "EWC":
                k += 1
            elif o["op"] == "L":
                n = sizes[k - 1] if k else 0
                looks.append([n, n == 0, True])
        for what, x, y in (("kept", want, a["get"]), ("taken out", want, a["vec"]), ("ok", not want, a["ok"]), ("found on a look", looks, a["looks"]),
                           ("printed", printed(want, sql), a["show"])):
            if x != y:
                ck.fail("%s: expected %s, found %s" % (what, short(x, 300), short(y, 300)), case)
                break
    ck.count("histories", len(lines))
    ck.sample(lines[len(lines) // 2])


def printed(items, sql):
    """the printed form (Shown of Outcome.tla)"""
    if not items:
        return "No issues\n"
    b = sql.encode()

    def at(p, s):
        return "    At line %d, code %s\n" % (1 + b.count(b"\n", 0, p), s)
    return "Issues:\n" + "".join(("  Error " if l == "E" else "  Warning ") + m + "\n" + at(p, s)
                                 + "".join("  " + fm + "\n" + at(fa, fs) for fm, fa, fb, fs in f)
                                 for l, m, p, e, s, f in items)
