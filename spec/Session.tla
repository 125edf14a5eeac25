------------------------------ MODULE Session ------------------------------
(* Scripts.  The environment writes a script item by item; the state holds   *)
(* what the parser has to know between items: the delimiter in force and the *)
(* number of placeholders read so far.  `returned` is what parsing the       *)
(* script has to return: the statements with the index of their first        *)
(* placeholder, the data of COPY, and nothing for a damaged item; `reported` *)
(* are the items for which there has to be an error.                         *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxItems,
          Kinds,        \* of items: subset of {"stmt","empty","delim","copy","bad","open"}
          MaxArgs,      \* placeholders in one statement
          NoiseKinds    \* kinds of damage

VARIABLES items, delim, count, returned, reported, ended
vars == <<items, delim, count, returned, reported, ended>>

Delimiters == {";", "$$"}

Init == /\ items = <<>> /\ delim = ";" /\ count = 0 /\ returned = <<>> /\ reported = {} /\ ended = FALSE

Here == Len(items) + 1
Write(i) == items' = Append(items, i)

(* a valid statement and its delimiter *)
Stmt(n) ==
    /\ Write([k |-> "stmt", d |-> delim, n |-> n, c |-> count])
    /\ returned' = Append(returned, <<"stmt", Here>>)
    /\ count' = count + n
    /\ UNCHANGED <<delim, reported, ended>>
(* a valid statement without delimiter ends the script *)
OpenEnd ==
    /\ Write([k |-> "open", d |-> delim, n |-> 0, c |-> count])
    /\ returned' = Append(returned, <<"stmt", Here>>)
    /\ reported' = reported \cup {Here}
    /\ ended' = TRUE
    /\ UNCHANGED <<delim, count>>
(* nothing but a delimiter *)
Empty ==
    /\ Write([k |-> "empty", d |-> delim, n |-> 0, c |-> count])
    /\ UNCHANGED <<delim, count, returned, reported, ended>>
(* DELIMITER d *)
Delim(d) ==
    /\ Write([k |-> "delim", d |-> d, n |-> 0, c |-> count])
    /\ delim' = d
    /\ UNCHANGED <<count, returned, reported, ended>>
(* COPY ... FROM STDIN, its delimiter, and data up to \. *)
Copy ==
    /\ Write([k |-> "copy", d |-> delim, n |-> 0, c |-> count])
    /\ returned' = returned \o <<<<"stmt", Here>>, <<"data", Here>>>>
    /\ UNCHANGED <<delim, count, reported, ended>>
(* a damaged statement and its delimiter: returned in part or not at all *)
Bad(kind) ==
    /\ Write([k |-> "bad", d |-> delim, n |-> 0, c |-> count, x |-> kind])
    /\ returned' = Append(returned, <<"lost", Here>>)
    /\ reported' = reported \cup {Here}
    /\ UNCHANGED <<delim, count, ended>>

Next == /\ ~ended /\ Len(items) < MaxItems
        /\ \/ "stmt" \in Kinds /\ \E n \in 0..MaxArgs : Stmt(n)
           \/ "open" \in Kinds /\ OpenEnd
           \/ "empty" \in Kinds /\ Empty
           \/ "delim" \in Kinds /\ \E d \in Delimiters : Delim(d)
           \/ "copy" \in Kinds /\ Copy
           \/ "bad" \in Kinds /\ \E x \in NoiseKinds : Bad(x)
Spec == Init /\ [][Next]_vars

(* every statement is returned once, in the order of the script *)
StmtItems == SelectSeq([i \in 1..Len(items) |-> IF items[i].k \in {"stmt", "open", "copy"} THEN i ELSE 0],
                       LAMBDA x : x # 0)
InOrder == LET r == SelectSeq(returned, LAMBDA x : x[1] = "stmt")
           IN Len(r) = Len(StmtItems) /\ \A i \in 1..Len(r) : r[i][2] = StmtItems[i]
(* the placeholders of all statements are numbered through without gaps *)
RECURSIVE Sum(_)
Sum(n) == IF n = 0 THEN 0 ELSE items[n].n + Sum(n - 1)
Numbered == \A i \in 1..Len(items) : items[i].c = Sum(i - 1)
(* the delimiter in force is the one set last *)
LastDelim == LET ds == {i \in 1..Len(items) : items[i].k = "delim"}
             IN delim = IF ds = {} THEN ";" ELSE items[CHOOSE i \in ds : \A j \in ds : j <= i].d
OnlyDamagedReported == \A i \in reported : items[i].k \in {"bad", "open"}

Emit == PrintT(ToJson([i |-> items, r |-> returned, e |-> reported, ended |-> ended]))
=============================================================================
