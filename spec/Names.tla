------------------------------- MODULE Names -------------------------------
(* Which words may be names.  A state is one use of a word where the         *)
(* language requires a name: as written (bare) or in quotes; `outcome` is    *)
(* what has to happen.  The contexts a use is put in are the sentences of    *)
(* Gen.tla.                                                                  *)
EXTENDS Words, Naturals, Json, TLC

VARIABLES word, form, outcome
vars == <<word, form, outcome>>

Range(s) == {s[i] : i \in 1..Len(s)}
ReservedSet   == TLCEval(Range(Reserved))
UnreservedSet == TLCEval(Range(Unreserved))

ASSUME ReservedSet \cap UnreservedSet = {}
ASSUME Range(ReservedExprNames) \subseteq ReservedSet

(* Words that are options right after SELECT, DELETE or another option. *)
OptionWords == {"SQL_NO_CACHE", "SQL_BUFFER_RESULT", "QUICK"}

Outcome(w, f) == IF w \in ReservedSet /\ f = "bare" THEN "error" ELSE "name"

Init == /\ word \in ReservedSet \cup UnreservedSet
        /\ form = "none" /\ outcome = "none"
Use(f) == form = "none" /\ form' = f /\ outcome' = Outcome(word, f) /\ UNCHANGED word
Next == \E f \in {"bare", "quoted"} : Use(f)
Spec == Init /\ [][Next]_vars

TypeOK == outcome \in {"none", "error", "name"}
(* quoting never turns a usable word into an error *)
QuotedIsName == form = "quoted" => outcome = "name"
Emit == form # "none" => PrintT(ToJson([w |-> word, f |-> form, r |-> outcome,
                                        x |-> word \in OptionWords]))
=============================================================================
