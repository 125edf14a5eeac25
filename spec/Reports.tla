------------------------------ MODULE Reports ------------------------------
(* A collection of diagnostics as a log.  The user of the crate and the      *)
(* parser write to it in turn, it is read and printed in between, and in the *)
(* end it is taken apart.  What the parser writes in a call (a "call") is    *)
(* what the same call writes to an empty collection: <<"C", k>>.             *)
(*                                                                           *)
(* Text is a sequence of characters; a place is a pair of gaps between them. *)
EXTENDS Naturals, Sequences, FiniteSets, Json, TLC
CONSTANTS Text, Places, NMessages, Calls, MaxOps

VARIABLES items,   \* what the collection holds
          open,    \* TRUE while the last report can be given fragments
          log
vars == <<items, open, log>>

Line(g) == 1 + Cardinality({j \in 1..g : Text[j] = "\n"})
Note(m, p) == [m |-> m, a |-> p[1], b |-> p[2], s |-> SubSeq(Text, p[1] + 1, p[2]), line |-> Line(p[1])]

Init == items = <<>> /\ open = FALSE /\ log = <<>>
Report(l, m, p) ==
    /\ items' = Append(items, [t |-> l, at |-> Note(m, p), f |-> <<>>, k |-> 0])
    /\ open' = TRUE
    /\ log' = Append(log, [op |-> l, m |-> m, p |-> p])
Fragment(m, p) ==
    /\ open
    /\ items' = [items EXCEPT ![Len(items)].f = Append(@, Note(m, p))]
    /\ UNCHANGED open
    /\ log' = Append(log, [op |-> "F", m |-> m, p |-> p])
Call(k) ==
    /\ items' = Append(items, [t |-> "C", at |-> Note(0, <<0, 0>>), f |-> <<>>, k |-> k])
    /\ open' = FALSE
    /\ log' = Append(log, [op |-> "C", m |-> k, p |-> <<0, 0>>])
(* reading, printing, asking for a part of the text *)
Look == /\ open' = FALSE
        /\ log' = Append(log, [op |-> "L", m |-> 0, p |-> <<0, 0>>])
        /\ UNCHANGED items
Next == /\ Len(log) < MaxOps
        /\ \/ \E m \in 1..NMessages, p \in Places : Report("E", m, p) \/ Report("W", m, p) \/ Fragment(m, p)
           \/ \E k \in 1..Calls : Call(k)
           \/ Look
Spec == Init /\ [][Next]_vars

TypeOK == /\ Len(items) <= Len(log)
          /\ \A i \in 1..Len(items) : Len(items[i].at.s) = items[i].at.b - items[i].at.a
          /\ open => items # <<>> /\ items[Len(items)].t # "C"
(* Nothing that was written is ever taken back, moved or altered; only the   *)
(* last report grows, and only in fragments.                                 *)
Prefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Kept == [][ /\ Len(items') >= Len(items)
            /\ \A i \in 1..Len(items) :
                 /\ items'[i].at = items[i].at /\ items'[i].t = items[i].t
                 /\ Prefix(items[i].f, items'[i].f)
                 /\ i < Len(items) => items'[i] = items[i] ]_vars
(* every operation that writes is found once, in the order of the log        *)
Writes == SelectSeq(log, LAMBDA o : o.op \in {"E", "W", "C"})
Ordered == /\ Len(Writes) = Len(items)
           /\ \A i \in 1..Len(items) : items[i].t = Writes[i].op
Emit == log # <<>> => PrintT(ToJson([log |-> log, items |-> items]))
=============================================================================
