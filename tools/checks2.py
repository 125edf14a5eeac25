"""Checks on characters, operators and scripts."""
from core import *

CHARS = {"NUL": "\0", "BEL": "\a", "BS": "\b", "FF": "\f", "SUB": "\x1a", "U2": "\u00e9", "U3": "\u20ac",
         "U4": "\U0001f600", "NBSP": "\u00a0"}


def text_of(cs):
    return "".join(CHARS.get(c, c) for c in cs)


def byte_ends(cs):
    """byte offset of each character boundary"""
    r = [0]
    for c in cs:
        r.append(r[-1] + len(CHARS.get(c, c).encode()))
    return r


def lexer(ck, prefixes, alphabet, n, emit="Emit"):
    return ck.tlc("Lexer", {"Prefixes": {tuple(p) for p in prefixes}, "Alphabet": set(alphabet), "MaxLen": n},
                  ["Ordered", "Covered", "Decoded", "Stateless", "SplitJoins", emit]).records


def first_token(ck, recs, pick):
    """`COMMIT <text>`: the parser must complain exactly about the first token"""
    recs = [r for r in recs if pick(r)]
    recs.sort(key=lambda r: r["t"])

    def part(recs):
        cases = []
        for r in recs:
            cases.append((ck.rng.choice("MPS"), ck.rng.choice("N?%$"), "", "COMMIT " + text_of(r["t"])))
        for r, c, o in zip(recs, cases, ck.run(cases)):
            if "ast" not in o:
                ck.fail("panic: %s" % o.get("panic"), c)
                continue
            er = errors(o)
            if not r["k"]:
                ck.count("texts_without_token")
                if er:
                    ck.fail("white space and comments only, but reported: %s" % er[0]["m"], c)
                continue
            ck.count("first_tokens")
            be = byte_ends(r["t"])
            want = [7 + be[r["k"][0]["a"] - 1], 7 + be[r["k"][0]["b"]]]
            got = [er[0]["a"], er[0]["b"]] if er else None
            if got != want:
                ck.fail("first token is at %s, reported %s" % (want, got), c)
        for c in cases[:: max(1, len(cases) // 2)]:
            ck.sample({"sql": c[3]})
    ck.parallel(recs, part)


def find_all(x, pred, out):
    if pred(x):
        out.append(x)
    elif isinstance(x, list):
        for y in x:
            find_all(y, pred, out)
    elif isinstance(x, dict):
        for y in x.values():
            find_all(y, pred, out)
    return out


STRING_PLACES = [("SELECT ", "\n"), ("SELECT ", "\n, 1 FROM t"), ("SELECT a LIKE ", "\nFROM t"),
                 ("SELECT f(1, ", "\n)"), ("INSERT INTO t VALUES (", "\n, 2)"), ("SET a = ", "\n"),
                 ("CREATE TABLE t (c ENUM(", "\n))"), ("CREATE TABLE t (c SET(", "\n) NOT NULL)"),
                 ("CREATE TABLE t (c INT COMMENT ", "\n)"), ("SELECT a FROM t WHERE b IN (1, ", "\n)")]
INT_PLACES = [("SELECT ", "\n"), ("SELECT ", "\nFROM t"), ("SELECT f(", "\n, a)"), ("SELECT a FROM t LIMIT ", "\n"),
              ("SELECT a + ", "\n"), ("SET a = ", "\n"), ("CREATE TABLE t (c INT DEFAULT ", "\n)"),
              ("CREATE TABLE t (c VARCHAR(", "\n))"), ("SELECT INTERVAL ", "\nDAY")]
FLOAT_PLACES = INT_PLACES[:6]


def literal_values(ck, recs):
    """literals in the places that take them denote their value"""
    jobs = []
    for r in recs:
        ks = [t["k"] for t in r["k"]]
        if ks and all(k == "string" for k in ks):
            places = STRING_PLACES
            kind = "string"
        elif ks in (["int"], ["bigint"]):
            places, kind = INT_PLACES, ks[0]
        elif ks == ["float"]:
            places, kind = FLOAT_PLACES, "float"
        elif ks and ks[-1] == "invalid" and r["t"][r["k"][-1]["a"] - 1] in "'\"`" and \
                all(k in ("string", "int", "float", "invalid") for k in ks):
            places, kind = STRING_PLACES, "open"
            if ck.quick and ck.rng.random() < 0.7:
                continue
        else:
            continue
        pl = places[0:1] + [ck.rng.choice(places[1:])]
        for p in pl:
            jobs.append((r, kind, p))
    jobs.sort(key=lambda j: (j[0]["t"], j[2]))

    def part(jobs):
        cases = [(ck.rng.choice("MPS"), "?", "", p[0] + text_of(r["t"]) + p[1]) for r, kind, p in jobs]
        for (r, kind, p), c, o in zip(jobs, cases, ck.run(cases)):
            if "ast" not in o:
                ck.fail("panic: %s" % o.get("panic"), c)
                continue
            ck.count(kind + "_literals")
            er = errors(o)
            if kind in ("bigint", "open"):
                if not er:
                    ck.fail("%s accepted without error" % ("integer that does not fit 64 bits" if kind == "bigint"
                                                           else "unterminated literal"), c)
                continue
            if er and p[0] == "SELECT INTERVAL " and int(text_of(r["k"][0]["v"])) >= 1 << 63:
                continue        # quantities are signed
            if er:
                ck.fail("literal not accepted: %s" % er[0]["m"], c)
                continue
            be = byte_ends(r["t"])
            off = len(p[0].encode())
            span = "@%d-%d" % (off + be[r["k"][0]["a"] - 1], off + be[r["k"][-1]["b"]])
            if kind == "string":
                want = {"_": "SString", "value": "'" + "".join(text_of(t["v"]) for t in r["k"]), "span": span}
                got = find_all(o["ast"], lambda x: isinstance(x, dict) and x.get("_") == "SString", [])
                if got != [want]:
                    ck.fail("string is %s, expected %s" % (short(got), short(want)), c)
            else:
                v = text_of(r["k"][0]["v"])
                def isnum(x):
                    return isinstance(x, list) and len(x) == 2 and x[1] == span
                got = find_all(o["ast"], isnum, [])
                if kind == "int":
                    want = int(v)
                    if p[0] == "SELECT INTERVAL ":
                        want = [want]
                        if int(v) >= 1 << 63:
                            continue
                    if not got or got[0][0] != want:
                        ck.fail("integer is %s, expected %s" % (short(got), want), c)
                else:
                    want = float(v if v[0] != "." else "0" + v)
                    if not got or not isinstance(got[0][0], dict) or float(got[0][0]["f"]) != want:
                        ck.fail("float is %s, expected %s" % (short(got), want), c)
        for c in cases[:: max(1, len(cases) // 2)]:
            ck.sample({"sql": c[3]})
    ck.parallel(jobs, part)


def intervals(ck, recs):
    units = ["DAY", "SECOND", "HOUR_MINUTE", "YEAR_MONTH", "DAY_SECOND"]

    def part(recs):
        cases = [(ck.rng.choice("MPS"), "?", "", "SELECT INTERVAL " + text_of(r["t"]) + "\n" + ck.rng.choice(units))
                 for r in recs]
        for r, c, o in zip(recs, cases, ck.run(cases)):
            if "ast" not in o:
                ck.fail("panic: %s" % o.get("panic"), c)
                continue
            er = errors(o)
            if not r["p"]:
                ck.count("bad_interval_strings")
                if not er:
                    ck.fail("interval string without a quantity accepted", c)
                continue
            ck.count("interval_strings")
            if er:
                ck.fail("interval string not accepted: %s" % er[0]["m"], c)
                continue
            want = [int("".join(p)) for p in r["p"]]
            got = find_all(o["ast"], lambda x: isinstance(x, dict) and x.get("_") == "Interval", [])
            if len(got) != 1 or got[0]["time_interval"][0] != want:
                ck.fail("interval quantity is %s, expected %s" % (short(got), want), c)
    recs.sort(key=lambda r: r["t"])
    ck.parallel(recs, part)


BIG = ["1844674407370955161", "0001844674407370955161", "9223372036854775807", "922337203685477580", "9999999999999999999",
       "000000000000000000000", "42949672", "0.1844674407370955161", "1844674407370955161."]


def C09(ck):
    q = ck.quick
    strings = lexer(ck, ["'", '"'], ["'", '"', "\\", "n", "0", "b", "Z", "t", "r", "%", "_", "x", "\n", "U2", " "],
                    4 if q else 5)
    quotes = lexer(ck, ["'", '"'], ["'", '"', "\\", "a", " "], 6 if q else 8)
    wide = lexer(ck, ["'", '"', "'\\", '"\\', "'a", "''"],
                 [chr(c) for c in range(33, 127)] + ["\n", "\r", "\t", " ", "U2", "U3", "U4", "NUL", "BEL", "FF", "NBSP"],
                 1 if q else 2)
    numbers = lexer(ck, [""], ["0", "1", "9", ".", "-", " ", "a", ",", "e"], 5 if q else 6)
    big = lexer(ck, BIG, ["0", "5", "6", "7", ".", "9", "1"], 2 if q else 4)
    back = lexer(ck, ["`", "x'", "X'", "a`"], ["`", "a", "Z", "-", "0", "_", "U2", " ", "'"], 4 if q else 5)
    # long ones: the same character or pair again and again
    n = 70 if q else 300
    far = lexer(ck, [x for k in (n, n + 1) for x in
                     (["'"] + ["a"] * k, ["'"] + ["\\", "n"] * k, ['"'] + ['"', '"'] * k, ["'", "a", "'", " "] * k, ["'", "'"] * k,
                      ["'"] + ["U2"] * k, ["'"] + ["\\"] * k, ["0"] * k, ["1"] * k, ["0"] * k + ["7"], ["1", "."] + ["0"] * k, ["0"] * k + [".", "5"],
                      ["`"] + ["a"] * k, ["x", "'"] + ["1"] * k, ["a"] * k)],
                ["'", "a", "0", " "] + ([] if q else ["`", "\\", '"', "."]), 2)
    for recs in (strings, quotes, wide, numbers, big, back, far):
        literal_values(ck, recs)
    lit = ("string", "int", "bigint", "float", "invalid", "name")
    for recs in (strings[::1 if not q else 4], quotes, wide, numbers, big, back, far):
        first_token(ck, recs, lambda r: r["k"] and r["k"][0]["k"] in lit)
    iv = lexer(ck, ["'", '"'], ["1", "2", "0", ":", "!", ",", ".", "-", " ", "a", "'", '"'], 4 if q else 5, "EmitInterval")
    intervals(ck, iv)
    # TRUE, FALSE, NULL and plain quantities in every place of the grammar
    from checks import check_trees
    recs = ck.gen(["xAtom", "xSpecial", "xExpr"], budget=1 if q else 2) + \
        ck.gen(["xAtom", "xSpecial"], budget=2, mode="exprs")
    check_trees(ck, recs)


def layout_of_characters(ck):
    """white space and comments, character by character"""
    q = ck.quick
    recs = lexer(ck, [""], ["-", "/", "*", "\n", "\r", " ", "a", "'"], 5 if q else 6)
    recs += lexer(ck, ["/*", "--", "//", " ", "/* *", "- -"],
                  [chr(c) for c in range(33, 127)] + ["\n", "\r", "\t", " ", "U2", "U3", "U4", "NUL", "FF", "NBSP"],
                  1 if q else 2)
    first_token(ck, recs, lambda r: True)


# ------------------------------------------------------------ operators
# the spellings of every operator
SPELL = {"Or": ["OR", "||"], "Xor": ["XOR"], "And": ["AND", "&&"], "Eq": ["="], "NullSafeEq": ["<=>"],
         "GtEq": [">="], "Gt": [">"], "LtEq": ["<="], "Lt": ["<"], "Neq": ["!=", "<>"], "ShiftLeft": ["<<"],
         "ShiftRight": [">>"], "BitAnd": ["&"], "BitOr": ["|"], "Add": ["+"], "Subtract": ["-"], "Divide": ["/"],
         "Mult": ["*"], "Like": ["LIKE"], "NotLike": ["NOT LIKE"], "Not": ["NOT"], "Minus": ["-"],
         "LogicalNot": ["!"], "Binary": ["BINARY"], "Collate": ["COLLATE"]}
IS = {"IsNull": "Null", "IsTrue": "True", "IsFalse": "False", "IsUnknown": "Unknown", "IsNotNull": "NotNull",
      "IsNotTrue": "NotTrue", "IsNotFalse": "NotFalse", "IsNotUnknown": "NotUnknown"}
ALL_BINS = [k for k in SPELL if k not in ("Not", "Minus", "LogicalNot", "Binary", "Collate")]
ALL_PRES = ["Not", "Minus", "LogicalNot", "Binary", "Collate"]
ALL_POSTS = ["In", "NotIn"] + list(IS)
CLASS_BINS = ["Mult", "Add", "ShiftLeft", "BitAnd", "BitOr", "Eq", "And", "Xor", "Or"]
CLASS_PRES = ["Binary", "LogicalNot", "Minus", "Not"]
CLASS_POSTS = ["IsNull"]
SAME_LEVEL = {"Mult": ["Mult", "Divide"], "Add": ["Add", "Subtract"], "ShiftLeft": ["ShiftLeft", "ShiftRight"],
              "Eq": ["Eq", "NullSafeEq", "GtEq", "Gt", "LtEq", "Lt", "Neq", "Like", "NotLike"],
              "Binary": ["Binary", "Collate"], "IsNull": ALL_POSTS}

# places of an expression: text before and after, and the way to it in the tree
PLACES = [("SELECT ", "", lambda s: s["0"]["select_exprs"][0]["expr"]),
          ("SELECT 1, ", " AS c FROM t", lambda s: s["0"]["select_exprs"][1]["expr"]),
          ("SELECT a FROM t WHERE ", " GROUP BY b", lambda s: s["0"]["where_"][0]),
          ("SELECT a FROM t GROUP BY c HAVING ", " LIMIT 1", lambda s: s["0"]["having"][0]),
          ("SELECT a FROM t GROUP BY ", ", d", lambda s: s["0"]["group_by"][1][0]),
          ("SELECT a FROM t ORDER BY ", " DESC", lambda s: s["0"]["order_by"][1][0][0]),
          ("SELECT a FROM t JOIN u ON ", " WHERE a", lambda s: s["0"]["table_references"][0]["specification"]["0"]),
          ("SELECT f(1, ", ", 2)", lambda s: s["0"]["select_exprs"][0]["expr"]["1"][1]),
          ("SELECT CASE WHEN ", " THEN 1 ELSE 2 END", lambda s: s["0"]["select_exprs"][0]["expr"]["whens"][0]["when"]),
          ("SELECT CASE a WHEN 1 THEN 2 ELSE ", " END", lambda s: s["0"]["select_exprs"][0]["expr"]["else_"][1]),
          ("SELECT a IN (1, ", ")", lambda s: s["0"]["select_exprs"][0]["expr"]["rhs"][1]),
          ("SELECT CAST(", " AS CHAR)", lambda s: s["0"]["select_exprs"][0]["expr"]["expr"]),
          ("SELECT (((", ")))", lambda s: s["0"]["select_exprs"][0]["expr"]),
          ("SET a = ", "", lambda s: s["0"]["values"][0][1]),
          ("UPDATE t SET a = 1, b = ", " WHERE c", lambda s: s["0"]["set"][1][1]),
          ("DELETE FROM t WHERE ", "", lambda s: s["0"]["where_"][0]),
          ("INSERT INTO t VALUES (1, ", ")", lambda s: s["0"]["values"][1][0][1]),
          ("IF ", " THEN SET a = 1; END IF", lambda s: s["0"]["conditions"][0]["search_condition"]),
          ("RETURN ", "", lambda s: s["0"]["expr"])]


# operands that are more than a name; their own trees are the business of C13
OPERANDS = ["NULL", "TRUE", "1.5", "(SELECT 1)", "EXISTS (SELECT 1)", "CAST(a AS CHAR)", "COUNT(*)", "@@session.a",
            "CASE WHEN a OR b THEN c XOR d ELSE e END", "CASE a WHEN b = c THEN d END", "(SELECT a FROM t WHERE b AND c)",
            "EXTRACT(DAY FROM a + b)", "f(a AND b, NOT c)", "'a' 'b'", "((a))", "(a + b)", "(NOT a)", "a.b.c", "''", "0"]


def nowhere(x):
    if isinstance(x, str):
        return "@0-0" if SPAN.match(x) else x
    if isinstance(x, list):
        return [nowhere(y) for y in x]
    if isinstance(x, dict):
        return {k: nowhere(y) for k, y in x.items()}
    return x


def operand_trees(ck):
    r = {}
    for n, o in zip(OPERANDS, ck.run([("M", "N", "", "SELECT " + n) for n in OPERANDS])):
        if "ast" in o and not errors(o):
            r[n] = nowhere(o["ast"][0]["0"]["select_exprs"][0]["expr"])
    return r


def expr_text(ck, toks, others={}):
    """text, operator names and operand trees for a token sequence"""
    rng = ck.rng
    out, names, trees = [], {}, {}
    for i, (k, op) in enumerate(toks):
        if op in SAME_LEVEL:
            op = rng.choice(SAME_LEVEL[op])
        names[i + 1] = op
        if k == "x":
            n = "abcdefgh"[i % 8] if rng.random() < 0.7 else "a"
            r = rng.random()
            if others and rng.random() < 0.15:
                n = rng.choice(sorted(others))
                out.append(n)
                trees[i + 1] = others[n]
            elif r < 0.55:
                out.append(n)
                trees[i + 1] = {"_": "Identifier", "0": [{"_": "Name", "0": ident(n)}]}
            elif r < 0.75:
                out.append(str(i))
                trees[i + 1] = {"_": "Integer", "0": [i, "@0-0"]}
            elif r < 0.85:
                out.append("'%s'" % n)
                trees[i + 1] = {"_": "String", "0": {"_": "SString", "value": "'" + n, "span": "@0-0"}}
            elif r < 0.92:
                out.append("t.%s" % n)
                trees[i + 1] = {"_": "Identifier", "0": [{"_": "Name", "0": ident("t")}, {"_": "Name", "0": ident(n)}]}
            else:
                out.append("g%d(%s)" % (i, n))
                trees[i + 1] = {"_": "Function", "0": {"_": "Other", "0": "'g%d" % i},
                                "1": [{"_": "Identifier", "0": [{"_": "Name", "0": ident(n)}]}], "2": "@0-0"}
        elif k == "post":
            if op in ("In", "NotIn"):
                out.append("IN (1, 2)" if op == "In" else "NOT IN (1, 2)")
            else:
                out.append("IS " + IS[op].replace("Not", "NOT ").upper())
        elif k in ("bin", "pre"):
            out.append(rng.choice(SPELL[op]))
        else:
            out.append(k)
    return " ".join(out), names, trees


def ident(n):
    return {"_": "Identifier", "value": "'" + n, "span": "@0-0"}


def expr_tree(v, names, trees):
    if v[0] == "id":
        return trees[v[1]]
    if v[0] == "par":
        return expr_tree(v[1], names, trees)
    op = names[v[2]]
    if v[0] == "un":
        return {"_": "Unary", "op": {"_": op}, "op_span": "@0-0", "operand": expr_tree(v[3], names, trees)}
    if v[0] == "bin":
        return {"_": "Binary", "op": {"_": op}, "op_span": "@0-0", "lhs": expr_tree(v[3], names, trees),
                "rhs": expr_tree(v[4], names, trees)}
    lhs = expr_tree(v[3], names, trees)
    if op in IS:
        return {"_": "Is", "0": lhs, "1": {"_": IS[op]}, "2": "@0-0"}
    return {"_": "In", "lhs": lhs, "not_in": op == "NotIn", "in_span": "@0-0",
            "rhs": [{"_": "Integer", "0": [i, "@0-0"]} for i in (1, 2)]}


def C06(ck):
    def expr(bins, pres, posts, n, parens, inv=("ReadsText", "GroupsRight", "Unique", "Emit")):
        r = ck.tlc("Expr", {"Bins": set(bins), "Pres": set(pres), "Posts": set(posts), "MaxOps": n,
                            "MaxParens": parens}, list(inv)).records
        r.sort(key=lambda r: r["o"])
        return r
    q = ck.quick
    recs = expr(ALL_BINS, ALL_PRES, ALL_POSTS, 2, 0)
    recs += expr(CLASS_BINS, CLASS_PRES, CLASS_POSTS, 3 if q else 4, 0)
    recs += expr(["Mult", "Add", "Eq", "And", "Or"], ["Not", "Minus"], ["IsNull"], 2 if q else 3, 2 if q else 3)
    recs += expr(["Mult", "Add", "Eq", "And", "Xor", "Or"], ["Not", "Minus"], ["IsNull"], 4 if q else 5, 0,
                 ("ReadsText", "GroupsRight", "Emit"))
    # long ones, at random
    for k, (n, d) in enumerate([(12, 60), (30, 120)]):
        w = ck.tlc("Expr", {"Bins": set(CLASS_BINS), "Pres": set(CLASS_PRES), "Posts": set(CLASS_POSTS), "MaxOps": n, "MaxParens": 4},
                   ["ReadsText", "GroupsRight", "Emit"], simulate=(40 if q else 400), depth=d, seed=ck.seed + k).records
        w.sort(key=lambda r: r["o"])
        recs += w
        ck.count("long_expressions", len(w))
    others = operand_trees(ck)

    def part(recs):
        jobs, cases = [], []
        for r in recs:
            for rep in range(1 if q else 2):
                s, names, trees = expr_text(ck, r["o"], others)
                p = ck.rng.choice(PLACES)
                jobs.append((r, p, expr_tree(r["v"], names, trees)))
                cases.append((ck.rng.choice("MPS"), "?", "", p[0] + s + p[1]))
        for (r, p, e), c, o in zip(jobs, cases, ck.run(cases)):
            if "ast" not in o:
                ck.fail("panic: %s" % o.get("panic"), c)
                continue
            er = errors(o)
            if er:
                ck.fail("error in a valid expression: %s" % er[0]["m"], c)
                continue
            ck.count("expressions")
            try:
                a = p[2](o["ast"][0])
            except (KeyError, IndexError, TypeError):
                ck.fail("the expression is not where it was written", c)
                continue
            d = diff(e, a, spans=False)
            if d:
                ck.fail("grouping: " + d, c, expected=e, actual=a)
        for c in cases[:: max(1, len(cases) // 2)]:
            ck.sample({"sql": c[3]})
    ck.rng.shuffle(recs)
    ck.parallel(recs, part)

    # every sequence of operator characters between two operands: the
    # operator it spells, or an error
    table = {s: (k, s) for k in ALL_BINS for s in SPELL[k] if not s[0].isalpha()}
    recs = lexer(ck, [""], ["<", ">", "=", "!", "|", "&", "+", "-", "*", "/", "^", "%", "~", ":", "@", "#", "?", "\\"], 3)
    recs = [r for r in recs if len(r["k"]) == 1 and r["k"][0]["k"] == "op" and len(r["t"]) == r["k"][0]["b"]]

    def part2(recs):
        cases = [(ck.rng.choice("MPS"), "N", "", "SELECT a " + text_of(r["t"]) + " b FROM t") for r in recs]
        for r, c, o in zip(recs, cases, ck.run(cases)):
            t = text_of(r["t"])
            if "ast" not in o:
                ck.fail("panic: %s" % o.get("panic"), c)
                continue
            er = errors(o)
            ck.count("operator_spellings")
            if t in table:
                if er:
                    ck.fail("operator not accepted: %s" % er[0]["m"], c)
                    continue
                x = {"_": "Identifier", "0": [{"_": "Name", "0": ident("a")}]}
                y = {"_": "Identifier", "0": [{"_": "Name", "0": ident("b")}]}
                e = {"_": "Binary", "op": {"_": table[t][0]}, "op_span": "@0-0", "lhs": x, "rhs": y}
                d = diff(e, o["ast"][0]["0"]["select_exprs"][0]["expr"], spans=False)
                if d:
                    ck.fail("operator: " + d, c)
            elif not er:
                ck.fail("unknown operator accepted", c)
    ck.parallel(recs, part2)
