"""One function per property."""
import json, random, re
from core import *
from checks2 import *
from checks3 import C10, C14, C15
from checks4 import C01, C02, C05
from checks5 import C22
from checks6 import C23, C24, C25, C26

STMT_DML = ["sSelect", "sUnion", "sParen", "sInsert", "sUpdate", "sDelete", "sWith", "sSet", "sCopy",
            "sTruncate", "sTrans"]
STMT_DDL = ["sTable", "sView", "sIndex", "sType", "sAlter", "sDrop", "sRename"]
STMT_BLK = ["sIf", "sCase", "sDo", "sReturn", "sSignal", "sTrigger", "sFunction"]


def judge_tree(ck, r, t, c, o, spans=False):
    er = errors(o)
    if er:
        ck.fail("error on a valid sentence: %s" % er[0]["m"], c, start=r["s"])
        return
    e = expected(r["v"], t)
    a = o["ast"][0] if o["ast"] else None
    d = diff(e, a, spans=spans)
    if d:
        ck.fail("tree: " + d, c, start=r["s"], expected=e, actual=a)


def check_each(ck, recs, mkstyle=lambda r: PLAIN, flags="", judge=None, crash=True):
    """renders every sentence in a style of its own, runs the real parser on
    it and judges the outcome; by default: accepted with its own tree"""
    def part(recs):
        texts, cases = [], []
        for r in recs:
            st = mkstyle(r)
            t = render(r["o"], st)
            texts.append(t)
            cases.append((r["d"], st.arg if st.arg in "?%$N" else "%", flags, t.sql))
        outs = ck.run(cases)
        for r, t, c, o in zip(recs, texts, cases, outs):
            if "panic" in o or "hang" in o:
                ck.count("panics")
                if crash:
                    ck.fail("panic or hang: %s" % o.get("panic"), c, start=r["s"])
            elif judge:
                judge(r, t, c, o)
            else:
                judge_tree(ck, r, t, c, o)
        for r, c in list(zip(recs, cases))[:: max(1, len(recs) // 2)]:
            ck.sample({"start": r["s"], "dialect": r["d"], "sql": c[3]})
    ck.rng.shuffle(recs)
    ck.parallel(recs, part)


def check_trees(ck, recs):
    """with names and literals that are all different, and with repeated and special ones"""
    check_each(ck, recs)
    check_each(ck, recs, lambda r: Style(lits="edge", rng=ck.rng))


def plain_or_edge(ck):
    return Style(lits="edge", rng=ck.rng) if ck.rng.random() < 0.4 else PLAIN


def edged(rng, r):
    """the same sentence with repeated and special names and literals, the same ones in every style"""
    t = render(r["o"], Style(lits="edge", rng=rng))
    return dict(r, o=[[x[0], v] if x[0] in "idns" and len(x) == 1 else x for x, v in zip(r["o"], t.vals)])


def by_start(recs):
    n = {}
    for r in recs:
        n[r["s"]] = n.get(r["s"], 0) + 1
    return n


HEAVY = {"sUnion", "sWith", "sIf", "sCase"}     # long elements


def big(ck, starts, n=2000, small=5, **kw):
    """sentences with long lists (one choice repeats an element many times)
    and with deep nesting (one word of choices repeated over and over)"""
    light = [s for s in starts if s not in HEAVY]
    r = []
    for ss, k in ((light, 60 if ck.quick else 160), ([s for s in starts if s in HEAVY], 30 if ck.quick else 70)):
        if ss:
            r += ck.gen(ss, budget=1, pump=k, **kw)
    if small:
        r += ck.gen(starts, budget=2, pump=small if ck.quick else 8, **kw)
    if n:
        r += ck.gen(starts, budget=30, period=5, bias=1, simulate=n if ck.quick else 8 * n, **kw)
    ck.count("sentences_with_long_lists_or_deep_nesting", len(r))
    return r


def statements(ck, starts):
    recs = ck.gen(starts, budget=2 if ck.quick else 3)
    recs += ck.walks(starts, 16000 if ck.quick else 200000)
    recs += big(ck, starts)
    check_trees(ck, recs)
    ck.extra["sentences_by_start"] = by_start(recs)


def C11(ck):
    statements(ck, STMT_DML)


def C12(ck):
    statements(ck, STMT_DDL)


def C20(ck):
    statements(ck, STMT_BLK)


TYPE_STARTS = ["tColumn", "tAlter", "tFunction", "tCast"]
EXPR_STARTS = ["xFun", "xBare", "xOther", "xOver", "xSpecial", "xOperator", "xAtom", "xExpr"]


def C21(ck):
    recs = ck.gen(TYPE_STARTS, budget=2 if ck.quick else 3, mode="types")
    recs += ck.walks(TYPE_STARTS, 12000 if ck.quick else 150000, mode="types")
    recs += big(ck, TYPE_STARTS, mode="types")
    check_trees(ck, recs)
    ck.extra["sentences_by_start"] = by_start(recs)


def C13(ck):
    ops = ["xBare", "xOther", "xSpecial", "xOperator", "xAtom", "xExpr"]
    recs = ck.gen(["xFun", "xOver", "xOther"], budget=1 if ck.quick else 2)
    recs += ck.gen(ops, budget=1 if ck.quick else 2, mode="exprs")
    recs += ck.gen(ops, budget=2 if ck.quick else 3)
    recs += ck.walks(["xOther", "xSpecial", "xOperator", "xAtom", "xExpr"], 12000 if ck.quick else 150000, budget=10,
                     mode="exprs")
    recs += big(ck, ops, mode="exprs")
    check_trees(ck, recs)
    ck.extra["sentences_by_start"] = by_start(recs)


ALL = STMT_DML + STMT_DDL + STMT_BLK


def everything(ck, budget, walks=0, **kw):
    """sentences of every statement, type and expression form"""
    more = []
    if walks:
        more = (ck.walks(ALL, walks, **kw) + ck.walks(TYPE_STARTS, walks // 4, mode="types", **kw)
                + ck.walks(["xSpecial", "xOperator", "xAtom", "xExpr"], walks // 4, budget=8, mode="exprs", **kw))
    return (more + ck.gen(ALL, budget=budget, **kw)
            + ck.gen(TYPE_STARTS, budget=budget, mode="types", **kw)
            + ck.gen(["xBare", "xOther", "xSpecial", "xOperator", "xAtom", "xExpr"], budget=budget, mode="exprs", **kw)
            + ck.gen(["xFun", "xOver"], budget=0, **kw))


def layout_style(rng, dia="M", lits="mixed", case="upper"):
    """white space, comments, multi-byte characters, quoted names"""
    return Style(sep=rng.choice(["mixed", "mixed", "comments", "newline", "compact"]), case=case,
                 quote="mix" if dia != "P" else "none", rng=rng, lits=lits,
                 prefix=rng.choice(["", " ", "\n", "/* \u00e6 */", "-- \u4e2d\u6587\n  ", "\t"]),
                 suffix=rng.choice(["", " ", "\n", " -- \u00e5", "/**/", " // x\n"]))


def accepted(ck, r, t, o):
    """the sentence was accepted with the right structure (its expected tree) or None"""
    if errors(o) or not o["ast"]:
        ck.count("not_accepted")
        return None
    e = expected(r["v"], t)
    if diff(e, o["ast"][0], spans=False):
        ck.count("other_structure")
        return None
    return e


def C03(ck):
    """positions in accepted statements are exact, under any layout"""
    recs = everything(ck, 1 if ck.quick else 2, walks=12000 if ck.quick else 120000)
    recs += big(ck, ALL, n=1500, small=0)
    ck.extra["sentences_by_start"] = by_start(recs)

    def judge(r, t, c, o):
        e = accepted(ck, r, t, o)
        if e:
            ck.count("positions_compared")
            d = diff(e, o["ast"][0], spans=True)
            if d:
                ck.fail("position: " + d, c, start=r["s"], expected=e, actual=o["ast"][0])
    check_each(ck, recs, lambda r: layout_style(ck.rng, r["d"]), judge=judge, crash=False)
    check_each(ck, recs, lambda r: plain_or_edge(ck), judge=judge, crash=False)


def C04(ck):
    """the span of every node is the hull of the positions inside it"""
    recs = everything(ck, 1 if ck.quick else 2, walks=12000 if ck.quick else 120000)
    recs += big(ck, ALL, n=1500, small=0)
    if not ck.quick:
        recs += ck.gen(ALL, budget=3)
    else:
        recs += ck.gen([s for s in ALL if s not in ("sUnion", "sParen", "sAlter")], budget=2)
    ck.extra["sentences_by_start"] = by_start(recs)

    def judge(r, t, c, o):
        if errors(o) or not o["ast"]:
            ck.count("not_accepted")
            return
        ck.count("nodes_compared", o["nodes"])
        for b in o["bad"]:
            ck.fail("span of " + b, c, start=r["s"])
        a, b = r["h"]
        want = [t.spans[a - 1][0], t.spans[b - 1][1]]
        if o["span"] != want and o["span"] is not None:
            ck.fail("span of the statement: expected %s, got %s" % (want, o["span"]), c, start=r["s"])
    check_each(ck, recs, lambda r: plain_or_edge(ck), flags="v", judge=judge, crash=False)


def C17(ck):
    b = 2 if ck.quick else 3
    recs = ck.gen(ALL, budget=b, gate=True)
    recs += ck.gen(TYPE_STARTS, budget=1 if ck.quick else 2, gate=True, mode="types")
    recs += ck.walks(ALL, 8000 if ck.quick else 100000, budget=8, gate=True, bias=15)
    recs += ck.walks(TYPE_STARTS, 2000 if ck.quick else 30000, budget=5, gate=True, bias=15, mode="types")
    ck.extra["sentences_by_start"] = by_start(recs)

    def judge(r, t, c, o):
        if r["g"]:
            ck.count("gated_by_dialect")
            if not errors(o):
                ck.fail("construct of another dialect accepted without error", c, start=r["s"])
        else:
            judge_tree(ck, r, t, c, o)
    check_each(ck, recs, lambda r: plain_or_edge(ck), judge=judge)

    # "name": a name in PostgreSQL, an error elsewhere; one name at a time
    recs = [r for r in everything(ck, 1 if ck.quick else 2) if any(t[0] == "d" for t in r["o"])]

    def dq(r):
        js = [j for j, t in enumerate(r["o"]) if t[0] == "d"]
        j = ck.rng.choice(js)
        o = list(r["o"])
        o[j] = ["t", '"zQ %d"' % j, "zQ %d" % j]
        return dict(r, o=o)

    def judge2(r, t, c, o):
        ck.count("double_quoted_names")
        if r["d"] == "P":
            judge_tree(ck, r, t, c, o)
        elif not errors(o):
            ck.fail("double-quoted name accepted without error", c, start=r["s"])
    for _ in range(1 if ck.quick else 3):
        check_each(ck, [dq(r) for r in recs], judge=judge2)


# ------------------------------------------------- layout, case and style
def mutate(rng, toks, pool):
    """one token dropped, doubled, exchanged with its neighbour or replaced"""
    t = list(toks)
    j = rng.randrange(len(t))
    m = rng.randrange(5)
    if m == 0 and len(t) > 1:
        del t[j]
    elif m == 1:
        t.insert(j, t[j])
    elif m == 2 and j + 1 < len(t):
        t[j], t[j + 1] = t[j + 1], t[j]
    elif m == 3:
        t[j] = rng.choice(pool)
    else:
        t.insert(j, rng.choice(pool))
    return t


def error_sig(t, o, fold=False):
    """the errors of an outcome, located by token instead of by byte"""
    import bisect
    starts = [a for a, _ in t.spans]
    r = []
    for e in errors(o):
        i = bisect.bisect_right(starts, e["a"]) - 1
        j = bisect.bisect_left(starts, e["b"]) - 1
        if e["a"] >= t.spans[-1][1]:
            i = j = len(starts)
        r.append((e["m"].upper() if fold else e["m"], i, j))
    return r


def folded(x):
    """a tree without the letter case of its texts (a misplaced keyword may
    have been taken for a name)"""
    if isinstance(x, str):
        return x.upper()
    if isinstance(x, list):
        return [folded(y) for y in x]
    if isinstance(x, dict):
        return {k: folded(y) if k != "_" else y for k, y in x.items()}
    return x


def compare_styles(ck, recs, base, styles, what, fold=False):
    """the same token sequence written in different ways: same tree, same
    errors; and the tree of the specification where there is one"""
    def part(recs):
        cases, meta = [], []
        for r in recs:
            st = [base] + styles(r)
            ts = [render(r["o"], s) for s in st]
            meta.append((r, ts, len(cases)))
            for t in ts:
                cases.append((r["d"], "?", "", t.sql))
        outs = ck.run(cases)
        for r, ts, k in meta:
            o0 = outs[k]
            if "ast" not in o0:
                ck.count("panics")
                continue
            e0, a0 = error_sig(ts[0], o0, fold), [erase(a) for a in o0["ast"]]
            ck.count("with_errors" if e0 else "without_errors")
            known = not e0 and r.get("v") and a0 and not diff(erase(expected(r["v"], ts[0])), a0[0])
            for i in range(1, len(ts)):
                o = outs[k + i]
                c = cases[k + i]
                if "ast" not in o:
                    ck.fail("panic only in this %s: %s" % (what, o.get("panic")), c, plain=ts[0].sql)
                    continue
                e1 = error_sig(ts[i], o, fold)
                if e0 != e1:
                    ck.fail("errors depend on %s: %s became %s" % (what, short(e0), short(e1)), c, plain=ts[0].sql)
                    continue
                if known:
                    ck.count("with_the_tree_of_the_specification")
                    d = diff(erase(expected(r["v"], ts[i])), erase(o["ast"][0]))
                else:
                    a1 = [erase(a) for a in o["ast"]]
                    d = diff(folded(a0), folded(a1)) if fold else diff(a0, a1)
                if d:
                    ck.fail("tree depends on %s: %s" % (what, d), c, plain=ts[0].sql)
        for m in meta[:: max(1, len(meta) // 2)]:
            ck.sample({"plain": m[1][0].sql, what: m[1][-1].sql})
    ck.rng.shuffle(recs)
    ck.parallel(recs, part)


def with_faulty(ck, recs, n):
    """n times as many token sequences with something wrong in them"""
    pool = [t for r in ck.rng.sample(recs, min(300, len(recs))) for t in r["o"] if len(t) < 3]
    out = list(recs)
    for _ in range(n):
        for r in recs:
            out.append(dict(r, o=mutate(ck.rng, r["o"], pool), v=None))
    return out


def C07(ck):
    recs = everything(ck, 1 if ck.quick else 2, walks=10000 if ck.quick else 80000)
    if ck.quick:
        recs += ck.gen([s for s in ALL if s not in ("sUnion", "sParen", "sAlter")], budget=2, dias="M")
    recs += ck.gen(ALL, budget=1, gate=True) + ck.gen(ALL, budget=1, damage=1)
    ck.extra["sentences_by_start"] = by_start(recs)
    recs = with_faulty(ck, recs, 1 if ck.quick else 2)

    def styles(r):
        w = [("compact", "newline"), ("comments", "mixed")]
        r = [Style(sep=ck.rng.choice(x), rng=ck.rng, prefix=ck.rng.choice(["", "\n", "/* \u00e6 */", "-- x\n"]),
                   suffix=ck.rng.choice(["", " ", "\n", " -- \u00e5", "/**/", " // x\n"])) for x in w]
        return r
    recs += [edged(ck.rng, r) for r in ck.rng.sample(recs, len(recs) // 5)]
    compare_styles(ck, recs, PLAIN, styles, "layout")
    layout_of_characters(ck)


def C08(ck):
    recs = everything(ck, 1 if ck.quick else 2, walks=10000 if ck.quick else 80000)
    if ck.quick:
        recs += ck.gen([s for s in ALL if s not in ("sUnion", "sParen", "sAlter")], budget=2, dias="M")
    recs += ck.gen(ALL, budget=1, gate=True) + ck.gen(ALL, budget=1, damage=1)
    ck.extra["sentences_by_start"] = by_start(recs)
    recs = with_faulty(ck, recs, 1)

    def styles(r):
        return [Style(case="lower"), Style(case=ck.rng.choice(["title", "mixed"]), rng=ck.rng)]
    recs += [edged(ck.rng, r) for r in ck.rng.sample(recs, len(recs) // 5)]
    compare_styles(ck, recs, PLAIN, styles, "case", fold=True)


def C18(ck):
    recs = everything(ck, 1 if ck.quick else 2, walks=8000 if ck.quick else 80000)
    recs += ck.gen(ALL, budget=1, gate=True) + ck.gen(ALL, budget=1, damage=1)
    ck.extra["sentences_by_start"] = by_start(recs)
    recs = with_faulty(ck, recs, 1)
    NAME = re.compile(r"^identifiers should be quoted as")
    CAPS = re.compile(r"^keyword .* should be in ALL CAPS")
    flagsets = ["", "u", "c", "uc"]
    words = sorted({u["w"] for u in ck.tlc("Names", {}, ["TypeOK", "QuotedIsName", "Emit"]).records
                    if u["f"] == "bare" and u["r"] == "name"})

    def key(e):
        return (e["l"], e["m"], e["a"], e["b"], json.dumps(e["f"]))

    def part(recs):
        cases, ts = [], []
        for r in recs:
            q = "mix" if r["d"] != "P" else "pgmix"
            names = words if r["v"] and ck.rng.random() < 0.5 else None
            t = render(r["o"], Style(case="mixed" if ck.rng.random() < 0.7 else "upper", quote=q, rng=ck.rng,
                                     sep=ck.rng.choice(["space", "mixed"]), names=names))
            t.keyword_names = bool(names)
            ts.append(t)
            for f in flagsets:
                cases.append((r["d"], "?", f, t.sql))
        outs = ck.run(cases)
        for i, (r, t) in enumerate(zip(recs, ts)):
            os_ = outs[4 * i:4 * i + 4]
            cs = cases[4 * i:4 * i + 4]
            if "ast" not in os_[0]:
                ck.count("panics")
                continue
            at = {s: j for j, s in enumerate(t.spans)}
            base = [key(e) for e in os_[0]["issues"]]
            # a keyword used as a name may be taken for a keyword
            astray = t.keyword_names and (errors(os_[0]) or not os_[0]["ast"]
                                 or diff(expected(r["v"], t), os_[0]["ast"][0], spans=False))
            for f, o, c in zip(flagsets, os_, cs):
                if "ast" not in o:
                    ck.fail("panic only with the option: %s" % o.get("panic"), c)
                    continue
                style = [e for e in o["issues"] if e["l"] == "W" and (NAME.match(e["m"]) or CAPS.match(e["m"]))]
                other = [key(e) for e in o["issues"] if e not in style]
                if f == "" and style:
                    ck.fail("style warning although the options are off: %s" % style[0]["m"], c)
                if o["ast"] != os_[0]["ast"]:
                    ck.fail("the option changes the tree", c)
                if other != base:
                    ck.fail("the option changes the other diagnostics", c, without=base[:5], with_=other[:5])
                if astray:
                    ck.count("not_judged_by_token")
                    continue
                for e in style:
                    ck.count("style_warnings")
                    j = at.get((e["a"], e["b"]))
                    tok = r["o"][j] if j is not None else ["?"]
                    if NAME.match(e["m"]):
                        if "u" not in f:
                            ck.fail("warning of an option that is off: %s" % e["m"], c)
                        # a misplaced keyword may stand where a name is expected
                        valid = r["v"] and not errors(o)
                        if tok[0] not in ("i", "d", "x") and (valid or tok[0] != "k"):
                            ck.fail("unquoted-name warning about something that is no name: %s" % e["m"], c)
                        elif e["s"][:1] in "`\"'":
                            ck.fail("unquoted-name warning about a quoted name: %s" % e["m"], c)
                    else:
                        if "c" not in f:
                            ck.fail("warning of an option that is off: %s" % e["m"], c)
                        if tok[0] != "k":
                            ck.fail("capitals warning about something that is no keyword: %s" % e["m"], c)
                        elif not any(x.islower() for x in t.toks[j]):
                            ck.fail("capitals warning about a keyword in capitals: %s" % e["m"], c)
                if "u" in f and r["v"] and not errors(o) and o["ast"] \
                        and not diff(expected(r["v"], t), o["ast"][0], spans=False):
                    # every unquoted name of a valid sentence, once
                    warned = [at.get((e["a"], e["b"])) for e in style if NAME.match(e["m"])]
                    for j, tok in enumerate(r["o"]):
                        if tok[0] in "id" and t.toks[j][0] not in "`\"":
                            ck.count("names_to_warn_about")
                            if warned.count(j) != 1:
                                ck.fail("%d warnings about an unquoted name: %s" % (warned.count(j), t.toks[j]), c)
        for t in ts[:: max(1, len(ts) // 2)]:
            ck.sample({"sql": t.sql})
    ck.rng.shuffle(recs)
    ck.parallel(recs, part)


def C16(ck):
    call = ["xOther", "xOperator", "xSpecial"]
    narrow = ["sCopy", "sType", "sSelect", "sTable", "sUpdate", "sDelete"] + call
    b = 1 if ck.quick else 2
    recs = ck.gen(ALL + call, budget=b, damage=1) + ck.gen(["xFun"], budget=b - 1, damage=1) \
        + ck.gen(narrow, budget=b + 1, damage=1, dias="M" if ck.quick else "MPS") \
        + ck.walks(ALL + call, 16000 if ck.quick else 160000, budget=10, bias=15, damage=1)

    def damaged(r):
        if not r["m"]:
            return False
        a, b = r["m"][0]        # an empty list is no damage
        return a <= b or r["o"][a - 2] != ["p", "("] or r["o"][b] != ["p", ")"]
    recs = [r for r in recs if damaged(r)]
    ck.extra["sentences_by_start"] = by_start(recs)

    def judge(r, t, c, o):
        a, b = r["m"][0]
        er = errors(o)
        if not er:
            ck.fail("damaged element not reported", c, start=r["s"])
            return
        lo = t.spans[a - 1][0]
        hi = t.spans[min(b, len(t.spans) - 1)][1]
        for e in er:
            if not (lo <= e["a"] and e["b"] <= hi):
                ck.fail("error outside of the damaged element %s: %s" % (t.sql[lo:hi], e["m"]), c, start=r["s"])
                return
        d = diff(expected(r["v"], t), o["ast"][0] if o["ast"] else None, spans=False)
        if d:
            ck.fail("tree: " + d, c, start=r["s"])
    check_each(ck, recs, lambda r: plain_or_edge(ck), judge=judge)


SELECT_OPTIONS = {"SELECT", "DISTINCT", "ALL", "DISTINCTROW", "HIGH_PRIORITY", "STRAIGHT_JOIN", "SQL_SMALL_RESULT",
                  "SQL_BIG_RESULT", "SQL_BUFFER_RESULT", "SQL_NO_CACHE", "SQL_CALC_FOUND_ROWS", "DELETE", "LOW_PRIORITY", "IGNORE", "QUICK"}


def option_place(o, j):
    return j > 0 and o[j - 1][0] == "k" and o[j - 1][1] in SELECT_OPTIONS


def C19(ck):
    uses = ck.tlc("Names", {}, ["TypeOK", "QuotedIsName", "Emit"]).records
    uses.sort(key=lambda u: (u["w"], u["f"]))
    recs = everything(ck, 1)
    # the positions of names: one sentence for each surrounding
    ctx, col = {}, {}
    for r in recs:
        for j, t in enumerate(r["o"]):
            if len(t) == 1 and t[0] in "id":
                o = r["o"]
                w = lambda i: o[i][1] if 0 <= i < len(o) and len(o[i]) > 1 else o[i][0] if 0 <= i < len(o) else ""
                k = (r["s"], w(j - 2), w(j - 1), w(j + 1)) + (() if ck.quick else (r["d"], w(j - 3), w(j + 2)))
                (ctx if t[0] == "d" else col).setdefault(k, []).append((r, j))
    ck.extra["name_contexts"] = len(ctx)
    ck.extra["column_contexts"] = len(col)
    jobs = []
    for table, share in ((ctx, 1), (col, 1)):
        for k in sorted(table):
            for u in uses:
                r, j = ck.rng.choice(table[k])
                if u["f"] == "quoted" and r["d"] == "P":
                    continue
                if table is col and u["f"] == "bare" and u["r"] == "error":
                    continue        # may be an expression of its own
                if u["x"] and u["f"] == "bare" and option_place(r["o"], j):
                    continue
                jobs.append((r, j, u))
    n = 150000 if ck.quick else 3000000
    if len(jobs) > n:
        jobs = ck.rng.sample(jobs, n)

    def part(jobs):
        cases, ts = [], []
        for r, j, u in jobs:
            w = case_word(u["w"], ck.rng.choice(["upper", "lower", "mixed"]), ck.rng)
            o = list(r["o"])
            o[j] = ["t", "`%s`" % w if u["f"] == "quoted" else w, w]
            t = render(o)
            ts.append(t)
            cases.append((r["d"], "?", "", t.sql))
        for (r, j, u), t, c, o in zip(jobs, ts, cases, ck.run(cases)):
            if "ast" not in o:
                ck.fail("panic: %s" % o.get("panic"), c)
            elif u["r"] == "error":
                ck.count("reserved_bare")
                if not errors(o):
                    ck.fail("reserved word accepted as a name: %s" % u["w"], c)
            else:
                ck.count("quoted" if u["f"] == "quoted" else "unreserved_bare")
                er = errors(o)
                if er:
                    ck.fail("%s not accepted as a name: %s" % (t.toks[j], er[0]["m"]), c)
                    continue
                d = diff(expected(r["v"], t), o["ast"][0] if o["ast"] else None, spans=False)
                if d:
                    ck.fail("%s is not the name it is: %s" % (t.toks[j], d), c)
        for t in ts[:: max(1, len(ts) // 2)]:
            ck.sample({"sql": t.sql})
    ck.parallel(jobs, part)
