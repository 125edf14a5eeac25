"""Writes MANIFEST.json.  CLAIMED: property -> (technique, level note)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
GEN = "TLA+ grammar automaton (Gen.tla) checked with TLC; every behaviour replayed into the parser"
NOTE = ("Bounded model checking of the specification (all sentences within the choice budget) and replay of "
        "every behaviour into the real parser; trusts TLC, the renderer/comparator in tools/core.py and the "
        "Debug rendering of the tree.")
OUT = "TLA+ state machine of a parser call (Outcome.tla); records of real calls checked against it with TLC"
NOTE_OUT = ("Trace validation: real calls on generated, mutated and arbitrary texts are recorded and checked against the "
            "specification; every record is judged by a mirror of the specification and a sample plus everything "
            "suspicious by TLC; trusts TLC, the mirror and the harness.")
NOTE_REC = ("Trace validation: the token sequences for which the real parser reports no error are checked against the specification, "
            "those near its sentences exhaustively up to one edit at every place with a new neighbourhood; trusts TLC, the edit driver and "
            "the renderer.")
NOTE_API = ("Bounded model checking of the specification (all operation sequences up to a length, longer ones at random) and replay of "
            "every behaviour on the real types; trusts TLC and the harness.")
CLAIMED = {
    "C11": (GEN, NOTE), "C12": (GEN, NOTE), "C20": (GEN, NOTE), "C21": (GEN, NOTE), "C13": (GEN, NOTE),
    "C03": (GEN, NOTE), "C04": (GEN, NOTE), "C07": (GEN, NOTE), "C08": (GEN, NOTE), "C16": (GEN, NOTE),
    "C06": ("TLA+ shift-reduce automaton (Expr.tla): TLC shows it equals the declarative grouping and that the grouping "
            "is unique; every operator sequence replayed into the parser", NOTE),
    "C09": ("TLA+ character automaton of the lexer (Lexer.tla) checked with TLC; every enumerated text replayed into "
            "the parser", NOTE),
    "C10": (GEN, NOTE),
    "C14": ("TLA+ state machine of a script (Session.tla) and of COPY data (Stdin.tla) checked with TLC; every behaviour "
            "replayed into the parser", NOTE),
    "C15": ("TLA+ state machine of a script with damaged statements (Session.tla over Gen.tla) checked with TLC; every "
            "behaviour replayed into the parser", NOTE),
    "C01": (OUT, NOTE_OUT), "C02": (OUT, NOTE_OUT), "C05": (OUT, NOTE_OUT),
    "C22": ("TLA+ recogniser of the grammar (Rec.tla): every single edit of the sentences of Gen.tla is tried on the parser and what it accepts is validated with TLC", NOTE_REC),
    "C23": ("TLA+ state machine of an ordered table of names (Order.tla) checked with TLC; every behaviour replayed on the real identifiers", NOTE_API),
    "C24": ("TLA+ state machine of the option setters (Options.tla) checked with TLC; every behaviour replayed into the real options and parser", NOTE_API),
    "C25": ("TLA+ stack machine of joining positions (Join.tla) checked with TLC; every behaviour replayed on the real types", NOTE_API),
    "C26": ("TLA+ specification of a collection of diagnostics as a log (Reports.tla) checked with TLC; every history replayed on the real collection and parser", NOTE_API),
    "C17": (GEN, NOTE), "C18": (GEN, NOTE), "C19": (GEN, NOTE),
}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "cd /verif/harness && cargo build --release --offline",
     "checks": [], "not_applicable": [],
     "notes": "Specification in TLA+ (spec/), harness in harness/ (public API only, no hooks in /repo)."}
try:
    from claims import CLAIMED as C2
    CLAIMED.update(C2)
except ImportError:
    pass
for p in props:
    i = p["id"]
    if i in CLAIMED:
        t, n = CLAIMED[i]
        m["checks"].append({"property": i, "quick_cmd": "bin/check %s quick" % i,
                            "thorough_cmd": "bin/check %s thorough" % i, "evidence_file": "evidence/%s.json" % i,
                            "technique": t, "level": "model_checking", "level_note": n})
    else:
        m["not_applicable"].append({"property": i, "reason": "check under construction"})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
