"""C22: what the real parser accepts is derivable (Rec.tla)."""
import json, os, subprocess, tempfile, threading
import core
from core import ToolError, NCPU

PUNCT = ["&", "@", "\\", "^", ":", ",", "/", "::", "!!", "||", "&&", "=", "!", ">", ">=", "{", "[", "(", "<",
         "<=", "-", "%", "*", "!=", "<>", ".", "|", "+", "->", "}", "]", ")", ";", "#x\n", "<<", ">>", "<=>", "~",
         "@@global", "@@session", "$$", "%s", "$1"]
TEXT = {"i": "nm", "d": "nm", "x": "nm", "n": "7", "f": "1.5", "s": "'s'", "a": "?"}


def token_text(t):
    if t[0] in "kp":
        return t[1]
    if len(t) > 1:
        return {"s": "'%s'"}.get(t[0], "%s") % t[1]
    return TEXT[t[0]]


def canon(t):
    if t[0] in "dix":
        return ("i",)
    return tuple(t)


class Near:
    """the sentences near the grammar that the parser accepts"""

    def __init__(self, ck):
        self.ck = ck
        words = ck.tlc("Names", {}, ["TypeOK", "Emit"]).records
        self.free = {r["w"] for r in words if r["f"] == "bare" and r["r"] == "name"}
        self.bare = {r["w"] for r in words}
        self.exe = os.path.join(core.HARNESS, "target", "release", "mutate")

    def vocabulary(self, recs):
        kws = sorted({t[1] for r in recs for t in r["o"] if t[0] == "k"})
        v = [("u" if w in self.free else "k", w, ("k", w)) for w in kws]
        extra = sorted(w for w in self.bare if w not in set(kws))
        # the words the grammar has no use for: a sample
        for w in self.ck.rng.sample(extra, min(len(extra), 25 if self.ck.quick else 120)):
            v.append(("u" if w in self.free else "k", w, ("k", w)))
        v += [("p", c, ("p", c)) for c in PUNCT if "\n" not in c]
        v += [(k, TEXT[k], (k,)) for k in "infsa"]
        return v

    def pairs(self, recs):
        seen = {}
        for r in recs:
            for a, b in zip(r["o"], r["o"][1:]):
                k = (canon(a), canon(b))
                if k[0][0] == "k" or k[1][0] == "k":
                    seen[k] = seen.get(k, 0) + 1
        return sorted(seen)

    def drive(self, jobs, vocab, pairs, ends=()):
        """jobs: (dialect, ops, tokens, positions) -> answers of the mutator"""
        head = "\x1f".join(v[0] + v[1] for v in vocab) + "\n" + \
            "\x1f".join("%s %s" % (token_text(a), token_text(b)) for a, b in pairs) + "\n" + \
            "\x1f".join(" ".join(map(token_text, e)) for e in ends) + "\n"
        res = [None] * len(jobs)
        errs = []

        def go(ids):
            try:
                k = hangs = 0
                while k < len(ids) and hangs < 4:     # what does not return is the matter of C01
                    p = subprocess.Popen([self.exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
                    data = head + "".join("%d\t%s\t%s\t%s\t%s\n" % (i, jobs[i][0], jobs[i][1], ",".join(map(str, jobs[i][3])), "\x1f".join(map(token_text, jobs[i][2])))
                                          for i in ids[k:])

                    def feed():
                        try:
                            p.stdin.write(data.encode())
                            p.stdin.close()
                        except (BrokenPipeError, OSError):
                            pass
                    th = threading.Thread(target=feed)
                    th.start()
                    n = 0
                    for line in p.stdout:
                        o = json.loads(line)
                        n += 1
                        if o.get("hang"):
                            hangs += 1
                        else:
                            res[o["id"]] = o
                    p.wait()
                    th.join()
                    k += n
                    if k < len(ids) and n == 0:
                        k += 1          # the process died on this one: not the matter of this check
            except Exception as e:  # noqa
                errs.append(e)
        # neighbours are alike: deal them out in turn
        ths = [threading.Thread(target=go, args=(list(range(w, len(jobs), NCPU)),)) for w in range(NCPU)]
        for t in ths:
            t.start()
        for t in ths:
            t.join()
        if errs:
            raise ToolError("mutator: %r" % errs[0])
        return res

    def apply(self, toks, e, vocab, pairs):
        op, p, v, _ = e
        t = [canon(x) for x in toks]
        if op == "d":
            return t[:p] + t[p + 1:]
        if op == "D":
            return t[:p] + t[p + 2:]
        if op == "s":
            return t[:p] + [t[p + 1], t[p]] + t[p + 2:]
        if op == "i":
            return t[:p] + [vocab[v][2]] + t[p:]
        if op == "r":
            return t[:p] + [vocab[v][2]] + t[p + 1:]
        return t[:p] + list(pairs[v]) + t[p:]


def derivable(ck, seqs, chunk=None):
    """the indices of the records (tokens, dialect) that Rec.tla does not derive"""
    if not seqs:
        return []
    chunk = chunk or max(20, len(seqs) // 128)
    with tempfile.TemporaryDirectory(prefix="vf-rec-") as d:
        f = os.path.join(d, "records.ndjson")
        with open(f, "w") as o:
            for toks, dia in seqs:
                o.write(json.dumps({"o": [list(t) for t in toks], "d": dia}) + "\n")
        r = ck.tlc("Rec", {"File": f, "Chunk": chunk}, ["Judge"], view="View")
    if r.states != len(seqs):
        raise ToolError("Rec.tla judged %d of %d records" % (r.states, len(seqs)))
    return sorted(x["bad"] - 1 for x in r.records)


def grams(toks, n):
    t = (("^",),) * (n - 1) + tuple(toks) + (("$",),)
    return [t[i:i + n] for i in range(len(t) - n + 1)]


# what may follow an operand
TAILS = [(("p", o), x) for o in ["+", "-", "*", "/", "%", "=", "<", ">", "<=", ">=", "!=", "<=>", "<<", ">>", "&", "|", "^",
                                 "||", "&&", ".", ","] for x in [("i",), ("n",)]] + \
    [(("k", o), x) for o in ["AND", "OR", "XOR", "LIKE", "NOT", "COLLATE", "DIV", "MOD", "IN", "BINARY"]
     for x in [("i",), ("s",)]] + [(("k", "IS"), ("k", "NULL")), (("p", "!"), ("i",)), (("s",), ("s",))]


def near(ck, recs, ops, pair_limit=0, before=2, after=2, per=1):
    """Every sentence is edited at the places where it has words side by side (`before` of
    them before the place, `after` behind it) that no earlier sentence of its kind has, or
    that no earlier one of its kind and dialect has (one before, one behind)."""
    nr = Near(ck)
    vocab = nr.vocabulary(recs)
    pairs = nr.pairs(recs)
    if pair_limit and len(pairs) > pair_limit:
        pairs = ck.rng.sample(pairs, pair_limit)
    if pair_limit:
        pairs = sorted(set(pairs) | set(TAILS))
    base, jobs, places = set(), [], set()
    for r in sorted(recs, key=lambda r: len(r["o"])):
        if any(t[0] == "t" for t in r["o"]):
            continue
        k = (r["d"], tuple(canon(t) for t in r["o"]))
        if k not in base:
            base.add(k)
            at = []
            t = (("^",),) * before + k[1] + (("$",),) * after
            for p in range(len(k[1]) + 1):
                s = r["s"] if r["s"][0] == "s" else "x"
                c = s, t[p:p + before + after]
                e = r["d"], s, t[p + before - 1:p + before + 1]
                if c not in places or e not in places:
                    places.add(c)
                    places.add(e)
                    at.append(p)
            if at:
                jobs.append((r["d"], ops, r["o"], at))
    out = {}
    tried = 0
    seen = {}
    for d, t in base:
        for g in grams(t, 3):
            seen[g] = per
        for g in grams(t, 2):
            seen[d, g] = per
    for j, a in zip(jobs, nr.drive(jobs, vocab, pairs)):
        if a is None:
            ck.count("skipped")
            continue
        tried += a["count"]
        if a["base"] == 0:
            ck.count("base_rejected")
            continue
        for e in a["acc"]:
            if e[3] == 2:
                continue
            t = nr.apply(j[2], e, vocab, pairs)
            k = (j[0], tuple(t))
            if k not in base and k not in out:
                out[k] = e[3]
    ck.count("edits_accepted", len(out))
    # of the accepted ones, those that put three words together in a new way
    order = sorted(out, key=lambda k: (len(k[1]), k))
    keep = {}
    for k in order:
        new = [g for g in grams(k[1], 3) + [(k[0], g) for g in grams(k[1], 2)] if seen.get(g, 0) < per]
        if new or out[k] in (3, 4):
            keep[k] = out[k]
            for g in new:
                seen[g] = seen.get(g, 0) + 1
    ck.count("sentences_edited", len(jobs))
    ck.count("places", len(places))
    ck.count("edits_tried", tried)
    ck.traces += tried
    return [(list(t), d, r) for (d, t), r in keep.items()]


def words(toks):
    return frozenset(t[1] for t in toks if t[0] == "k")


def cross(ck, recs, cap, limit):
    """Beginnings of sentences with endings of other sentences of the same kind; of those
    that are accepted, the ones that have, at the seam, words side by side that no sentence
    with such a beginning or with such an ending has."""
    r = ck.rng
    kinds = {}
    for x in recs:
        if not any(t[0] == "t" for t in x["o"]):
            kinds.setdefault((x["s"], x["d"]), set()).add(tuple(canon(t) for t in x["o"]))
    jobs, ends, no, seen = [], [], {}, set()
    for k in sorted(kinds):
        pre, suf = {}, {}
        for t in sorted(kinds[k], key=lambda t: (len(t), t)):
            for p in range(1, len(t) + 1):
                a, b, j = words(t[:p]), words(t[p:]), t[p - 1:p + 1]
                seen.add((k[1], j, a, 0))
                seen.add((k[1], j, b, 1))
                pre.setdefault((t[p - 1], a), t[:p])
                suf.setdefault((t[p] if p < len(t) else (), b), t[p:])
        pre, suf = list(pre.values()), list(suf.values())
        if len(pre) > cap:
            pre = pre[:cap // 2] + r.sample(pre[cap // 2:], cap - cap // 2)
        if len(suf) > cap:
            suf = suf[:cap // 2] + r.sample(suf[cap // 2:], cap - cap // 2)
        for e in suf:
            if e not in no:
                no[e] = len(ends)
                ends.append(e)
        at = sorted(no[e] for e in suf)
        jobs += [(k, "x", t, at) for t in pre]
    nr = Near(ck)
    out, tried = {}, 0
    todo = [(k[1], o, t, at) for k, o, t, at in jobs]
    for (k, _, t, _), a in zip(jobs, nr.drive(todo, [("i", "nm", ("i",))], [], ends)):
        if a is None:
            ck.count("skipped")
            continue
        tried += a["count"]
        for e in a["acc"]:
            if e[3] == 2:
                continue
            s = t + ends[e[1]]
            if s in kinds[k]:
                continue
            b, j = ends[e[1]], (t + ends[e[1]])[len(t) - 1:len(t) + 1]
            m = {(k[1], j, words(t), 0), (k[1], j, words(b), 1)}
            if not m <= seen or e[3] in (3, 4):
                if len(s) < len(out.get((k[1], tuple(sorted(map(repr, m)))), ((None,) * 999,))[0]):
                    out[k[1], tuple(sorted(map(repr, m)))] = (s, k[1], e[3], k)
    ck.count("crossings_tried", tried)
    ck.count("crossings_accepted_and_new", len(out))
    ck.traces += tried
    # of every kind the shortest and some others, up to the same number
    groups = {}
    for k, v in out.items():
        groups.setdefault(v[3], []).append(v[:3])
    left, keep = len(groups), []
    for g in sorted(groups.values(), key=len):
        n = min(len(g), (limit - len(keep)) // left)
        g = sorted(g, key=lambda v: (len(v[0]), v))
        keep += g[:n // 2] + r.sample(g[n // 2:], n - n // 2)
        left -= 1
    return keep


def text(toks):
    return " ".join(map(token_text, toks))


def judge(ck, accepted, base):
    # the recogniser accepts what the generator writes
    own = [([canon(t) for t in r["o"]], r["d"]) for r in base if not any(t[0] == "t" for t in r["o"])]
    bad = derivable(ck, own)
    for i in bad[:5]:
        raise ToolError("Rec.tla does not derive a sentence of Gen.tla: %s | %s" % (own[i][1], text(own[i][0])))
    seqs = [(t, d) for t, d, r in accepted if r not in (3, 4)]
    for i in derivable(ck, seqs):
        t, d = seqs[i]
        ck.fail("accepted without an error but not derivable", (d, "?", "", text(t)))
    for t, d, r in accepted:
        if r in (3, 4):
            ck.fail("as a statement %s, as a script of one statement %s" %
                    (("accepted", "rejected") if r == 4 else ("rejected", "accepted")), (d, "?", "m", text(t) + " ;"))
    ck.count("judged", len(seqs))


ALL = ["sSelect", "sUnion", "sParen", "sInsert", "sUpdate", "sDelete", "sWith", "sSet", "sCopy", "sTruncate", "sRename",
       "sTrans", "sTable", "sView", "sIndex", "sType", "sAlter", "sDrop", "sFunction", "sTrigger", "sIf", "sCase", "sDo",
       "sReturn", "sSignal"]
EXPR = ["xOther", "xOver", "xSpecial", "xOperator", "xAtom", "xBare"]


def expressions(ck, budget):
    """expressions; of the functions, which are all alike, a few"""
    r = ck.gen([x for x in EXPR if x != "xOver"], budget=budget)
    o = ck.gen(["xOver"], budget=1)
    return r + ck.rng.sample(o, 60)


TYPES = ["tColumn", "tAlter", "tFunction", "tCast"]


def no_tokens(ck):
    from checks2 import lexer, text_of, errors
    """what Lexer.tla takes for no token at all is reported wherever it stands"""
    w = ["@@session", "@@global", "@@SESSION", "@@GLOBAL"]
    recs = lexer(ck, [x[:i] for x in w for i in range(1, len(x) + 1)], list("abeglnosixGLOBASEIN_1.@ ") + ["U2"], 1 if ck.quick else 3)
    recs += lexer(ck, ["", "`a", "x'1", "X'", "1.", "$"], [chr(c) for c in range(33, 127)] + ["\n", " ", "U2", "U3", "U4", "NUL", "BEL", "FF", "NBSP"], 1)
    recs = [r for r in recs if any(t["k"] == "invalid" for t in r["k"])]
    recs.sort(key=lambda r: r["t"])

    def part(recs):
        cases = []
        for r in recs:
            x = text_of(r["t"])
            for pre, post in (("SELECT ", ""), ("SELECT ", ".a"), ("SELECT a ", " FROM t"), ("SET ", " = 1"), ("SELECT f(", ")"),
                              ("UPDATE t SET a = ", " WHERE b"), ("CREATE TABLE t (a INT ", ")"),
                              ("\n", "\n"), ("DELIMITER ", ""), ("DELIMITER ", " SELECT 1"), ("SELECT 1;", ";SELECT 2")):
                cases.append((ck.rng.choice("MPS"), ck.rng.choice("N?%$"), "m" if "DELIM" in pre or ";" in pre else "", pre + x + post))
        for c, o in zip(cases, ck.run(cases)):
            ck.count("texts_with_no_token")
            if "ast" in o and not errors(o):
                ck.fail("text that is no token is accepted", c)
    ck.parallel(recs, part)


def C22(ck):
    q = ck.quick
    no_tokens(ck)
    recs = ck.gen(ALL, budget=2) + expressions(ck, 1) + ck.gen(TYPES, mode="types", budget=1) + \
        ck.walks(ALL, 12000 if q else 100000, budget=12)
    acc = near(ck, recs, "dsir")
    judge(ck, acc, ck.rng.sample(recs, 3000 if q else 20000))
    # two words at once, around fewer words
    acc = near(ck, recs, "Dp", pair_limit=150 if q else 900, before=1 if q else 2, after=1 if q else 2)
    judge(ck, acc, [])
    # one sentence's beginning with another's ending
    judge(ck, cross(ck, recs, 400 if q else 2000, 25000 if q else 150000), [])
    ck.sample("a text is judged derivable or not by Rec.tla")


def swallowed(ck):
    """C02: no token of an accepted statement is passed over"""
    recs = ck.gen(ALL, budget=2)
    judge(ck, near(ck, recs, "dsir", before=1, after=1), ck.rng.sample(recs, 1000))
