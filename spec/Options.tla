------------------------------ MODULE Options ------------------------------
(* The options of a call.  A state is a ParseOptions value together with the *)
(* setters that made it; a step is one more setter.  `Report` is what a call *)
(* with these options has to report for texts that each depend on one of     *)
(* them.                                                                     *)
EXTENDS Naturals, Sequences, Json, TLC
CONSTANT MaxOps

VARIABLES start, log, opt
vars == <<start, log, opt>>

Fields == <<"dialect", "arguments", "unquoted", "caps", "list">>
Values == [dialect |-> {"M", "P", "S"}, arguments |-> {"N", "%", "?", "$"},
           unquoted |-> {"0", "1"}, caps |-> {"0", "1"}, list |-> {"0", "1"}]
Default == [dialect |-> "M", arguments |-> "N", unquoted |-> "0", caps |-> "0", list |-> "0"]

Init == start \in {"new", "default"} /\ log = <<>> /\ opt = Default
Set(f, v) == /\ Len(log) < MaxOps
             /\ log' = Append(log, <<f, v>>)
             /\ opt' = [opt EXCEPT ![f] = v]
             /\ UNCHANGED start
Next == \E f \in DOMAIN Values : \E v \in Values[f] : Set(f, v)
Spec == Init /\ [][Next]_vars

TypeOK == \A f \in DOMAIN Values : opt[f] \in Values[f]
(* the last setter of a field counts, an option nobody set is the default,   *)
(* and nothing else matters                                                  *)
LastWins == \A f \in DOMAIN Values :
    LET I == {i \in 1..Len(log) : log[i][1] = f}
    IN opt[f] = IF I = {} THEN Default[f] ELSE log[CHOOSE i \in I : \A j \in I : j <= i][2]

B(b) == IF b THEN 1 ELSE 0
(* text, errors, warnings, does the tree have the special list               *)
Probes == <<
    <<"SELECT 1", 0, 0, 0>>,
    <<"SELECT x", 0, B(opt.unquoted = "1"), 0>>,
    <<"SELECT `x`", 0, 0, 0>>,
    <<"select 1", 0, B(opt.caps = "1"), 0>>,
    <<"select x from y", 0, 2 * B(opt.caps = "1") + 2 * B(opt.unquoted = "1"), 0>>,
    <<"SELECT 1 IN (_LIST_)", 0, B(opt.unquoted = "1" /\ opt.list = "0"), B(opt.list = "1")>>,
    <<"SELECT ?", B(opt.arguments # "?"), 0, 0>>,
    <<"SELECT %s", B(opt.arguments # "%"), 0, 0>>,
    <<"SELECT $1", B(opt.arguments # "$"), 0, 0>>,
    <<"INSERT INTO x VALUES (1) ON DUPLICATE KEY UPDATE y = 2", B(opt.dialect # "M"), 2 * B(opt.unquoted = "1"), 0>>,
    <<"INSERT INTO x VALUES (1) ON CONFLICT DO NOTHING", B(opt.dialect # "P"), B(opt.unquoted = "1"), 0>>,
    <<"SELECT x FROM y FOR NO KEY UPDATE", B(opt.dialect # "P"), 2 * B(opt.unquoted = "1"), 0>>
  >>
Emit == PrintT(ToJson([start |-> start, log |-> log, opt |-> opt, probes |-> Probes]))
=============================================================================
