------------------------------- MODULE Order -------------------------------
(* Names compare as their text, wherever in the statement they stand and     *)
(* however they are written.  A word is a sequence of letters; a state is a  *)
(* table of names, kept in order, and the operations that made it: enter a   *)
(* name (an equal one stays) and remove the one with a given text.           *)
EXTENDS Naturals, Sequences, Json, TLC
CONSTANTS NLetters, MaxLen, MaxOps

VARIABLES log, tab
vars == <<log, tab>>

Words == UNION {[1..k -> 1..NLetters] : k \in 0..MaxLen}

(* the order of texts: the first difference decides, a beginning is smaller  *)
RECURSIVE Cmp(_, _, _)
Cmp(a, b, i) == IF i > Len(a) THEN (IF i > Len(b) THEN "=" ELSE "<")
                ELSE IF i > Len(b) THEN ">"
                ELSE IF a[i] < b[i] THEN "<" ELSE IF a[i] > b[i] THEN ">" ELSE Cmp(a, b, i + 1)
C(a, b) == Cmp(a, b, 1)

ASSUME \A a, b \in Words : (C(a, b) = "=") = (a = b)
ASSUME \A a, b \in Words : (C(a, b) = "<") = (C(b, a) = ">")
ASSUME \A a, b, c \in Words : C(a, b) = "<" /\ C(b, c) = "<" => C(a, c) = "<"

(* entries are <<word, operation that entered it>> *)
RECURSIVE Enter(_, _, _), Remove(_, _)
Enter(t, w, n) == IF t = <<>> THEN <<<<w, n>>>>
                  ELSE CASE C(w, t[1][1]) = "<" -> <<<<w, n>>>> \o t
                         [] C(w, t[1][1]) = "=" -> t
                         [] OTHER -> <<t[1]>> \o Enter(Tail(t), w, n)
Remove(t, w) == IF t = <<>> THEN <<>>
                ELSE IF t[1][1] = w THEN Tail(t) ELSE <<t[1]>> \o Remove(Tail(t), w)

Init == log = <<>> /\ tab = <<>>
Do(o, w) == /\ Len(log) < MaxOps
            /\ log' = Append(log, <<o, w>>)
            /\ tab' = IF o = "+" THEN Enter(tab, w, Len(log)) ELSE Remove(tab, w)
Next == \E o \in {"+", "-"} : \E w \in Words : Do(o, w)
Spec == Init /\ [][Next]_vars

Sorted == \A i \in 1..Len(tab) - 1 : C(tab[i][1], tab[i + 1][1]) = "<"
(* a word is in the table iff the last operation on it entered it            *)
Content == \A w \in Words :
    (\E i \in 1..Len(tab) : tab[i][1] = w) =
    (\E i \in 1..Len(log) : log[i] = <<"+", w>> /\ \A j \in i + 1..Len(log) : log[j] # <<"-", w>>)
Emit == log # <<>> => PrintT(ToJson([log |-> log, tab |-> tab,
    cmp |-> [i \in 1..Len(log) |-> [j \in 1..Len(log) |-> C(log[i][2], log[j][2])]]]))
=============================================================================
