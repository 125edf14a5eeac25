------------------------------ MODULE Outcome ------------------------------
(* What a call of the library may come to.  A session hands over a text and  *)
(* options, gets back statements and diagnostics, and prints the             *)
(* diagnostics.  The records of real calls (File) are validated against      *)
(* this machine: a record that cannot take a step is a violation, and the    *)
(* phase it is stuck in says of what.                                        *)
(*                                                                           *)
(* A record holds                                                            *)
(*   text   the source, one character per byte                               *)
(*   ret    TRUE if the call came back                                       *)
(*   script TRUE if the entry point was the one for scripts                  *)
(*   blank  TRUE if the text holds no more than delimiters, DELIMITER        *)
(*          commands, comments and white space                               *)
(*   left   TRUE if something follows a complete statement                   *)
(*   n, inv number of statements and of placeholders within them             *)
(*   iss    the diagnostics: l level, a..b range, m message, s quoted text,  *)
(*          f fragments (a, b, m, s)                                         *)
(*   show   the printed form, isok what is_ok answers                        *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANT File

ASSUME TLCSet(1, ndJsonDeserialize(File))
Records == TLCGet(1)

VARIABLES i, phase
vars == <<i, phase>>

(* the bytes that continue a character *)
ASSUME TLCSet(2, LET c == ndJsonDeserialize("continuation.ndjson")[1] IN {c[j] : j \in 1..64})
Continuation == TLCGet(2)

Byte(t, j) == SubSeq(t, j, j)
Lines(t, a) == 1 + Cardinality({j \in 1..a : Byte(t, j) = "\n"})

(* a range a..b of the text (a bytes before it, b bytes up to its end) *)
Boundary(t, a) == IF a = Len(t) THEN TRUE ELSE Byte(t, a + 1) \notin Continuation
Range(t, a, b) == /\ a <= b /\ b <= Len(t)
                  /\ Boundary(t, a) /\ Boundary(t, b)
Quotes(t, x) == /\ Range(t, x.a, x.b)
                /\ x.s = IF x.a = x.b THEN "" ELSE SubSeq(t, x.a + 1, x.b)

NErrors(r) == Cardinality({j \in 1..Len(r.iss) : r.iss[j].l = "E"})

(* C02 *)
Honest(r) ==
    /\ NErrors(r) = 0 => /\ r.n >= 1 \/ (r.script /\ r.blank)
                         /\ r.inv = 0
                         /\ ~r.left
    /\ ~r.script => r.n <= 1

(* C05 *)
Located(r) == \A j \in 1..Len(r.iss) :
    /\ r.iss[j].l \in {"E", "W"}
    /\ Quotes(r.text, r.iss[j])
    /\ \A k \in 1..Len(r.iss[j].f) : Quotes(r.text, r.iss[j].f[k])

At(t, x) == "    At line " \o ToString(Lines(t, x.a)) \o ", code " \o x.s \o "\n"
Level(x) == IF x.l = "E" THEN "  Error " ELSE "  Warning "
RECURSIVE Frags(_, _)
Frags(t, fs) == IF fs = <<>> THEN "" ELSE "  " \o fs[1].m \o "\n" \o At(t, fs[1]) \o Frags(t, Tail(fs))
RECURSIVE Listing(_, _)
Listing(t, is) == IF is = <<>> THEN ""
                ELSE Level(is[1]) \o is[1].m \o "\n" \o At(t, is[1]) \o Frags(t, is[1].f) \o Listing(t, Tail(is))
Shown(r) == IF r.iss = <<>> THEN "No issues\n" ELSE "Issues:\n" \o Listing(r.text, r.iss)

Init == i \in 1..Len(Records) /\ phase = "called"

Return == phase = "called" /\ Records[i].ret /\ phase' = "returned"
Believe == phase = "returned" /\ Honest(Records[i]) /\ phase' = "believed"
Locate == phase = "believed" /\ Located(Records[i]) /\ phase' = "located"
Show  == /\ phase = "located"
         /\ Records[i].show = Shown(Records[i])
         /\ Records[i].isok = (Records[i].iss = <<>>)
         /\ phase' = "printed"
Next == (Return \/ Believe \/ Locate \/ Show) /\ UNCHANGED i
Spec == Init /\ [][Next]_vars

TypeOK == phase \in {"called", "returned", "believed", "located", "printed"}
(* a call that cannot go on is reported *)
Emit == (phase # "printed" /\ ~ ENABLED Next) => PrintT(ToJson([i |-> i, phase |-> phase]))
(* a call that does go on can be believed: no silent placeholder and no      *)
(* silence about what was not parsed                                         *)
Believed == phase \in {"believed", "located", "printed"} =>
    ((Records[i].inv > 0 \/ Records[i].left \/ (Records[i].n = 0 /\ ~Records[i].blank)) => NErrors(Records[i]) > 0)
=============================================================================
