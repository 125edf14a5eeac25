------------------------------- MODULE Stdin -------------------------------
(* The data after COPY ... FROM STDIN.  The environment writes the text that *)
(* follows the delimiter, character by character; the automaton decides      *)
(* which of it is data and where the statements go on.                       *)
EXTENDS Naturals, Sequences, TLC, Json

CONSTANTS Alphabet, MaxLen

VARIABLES text, mode, first, over
vars == <<text, mode, first, over>>
(* first: position of the first character of the data, 0 when not yet known; *)
(* over: position of the last character of the data once it is over, else 0  *)

Init == text = <<>> /\ mode = "blank" /\ first = 0 /\ over = 0
Blank == {" ", "\t", "\r"}

Read(c) ==
    LET n == Len(text) + 1
        begin == [f |-> IF c = "\n" THEN n + 1 ELSE n,
                  m |-> IF c = "\n" THEN "nl" ELSE "data"]
    IN /\ mode # "over" /\ n <= MaxLen
       /\ text' = Append(text, c)
       /\ CASE mode = "blank" -> IF c \in Blank THEN UNCHANGED <<mode, first, over>>
                                 ELSE first' = begin.f /\ mode' = begin.m /\ UNCHANGED over
            [] mode = "data"  -> mode' = (IF c = "\n" THEN "nl" ELSE "data") /\ UNCHANGED <<first, over>>
            [] mode = "nl"    -> mode' = (IF c = "\\" THEN "nl\\" ELSE IF c = "\n" THEN "nl" ELSE "data")
                                 /\ UNCHANGED <<first, over>>
            [] mode = "nl\\"  -> mode' = (IF c = "." THEN "nl\\." ELSE IF c = "\n" THEN "nl" ELSE "data")
                                 /\ UNCHANGED <<first, over>>
            [] mode = "nl\\." -> IF c = "\n" THEN mode' = "over" /\ over' = n - 3 /\ UNCHANGED first
                                 ELSE mode' = "data" /\ UNCHANGED <<first, over>>
Next == \E c \in Alphabet : Read(c)
Spec == Init /\ [][Next]_vars

(* the data if the text ends here *)
Last  == CASE mode = "over" -> over [] mode = "nl\\." -> Len(text) - 2 [] OTHER -> Len(text)
First == IF first = 0 THEN Len(text) + 1 ELSE first
Data  == SubSeq(text, First, Last)

(* Said without the automaton: the data begins after the blanks and at most  *)
(* one line break, and ends before the first line that consists of \. only.  *)
Starts(i) == i >= 1 /\ i <= Len(text) /\ text[i] = "\\" /\ i > 1 /\ text[i - 1] = "\n"
             /\ i + 1 <= Len(text) /\ text[i + 1] = "." /\ (i + 1 = Len(text) \/ text[i + 2] = "\n")
NoEarlierEnd == LET ends == {i \in 1..Len(text) : Starts(i) /\ i >= First}
                IN IF ends = {} THEN Last = Len(text)
                   ELSE Last = (CHOOSE i \in ends : \A j \in ends : i <= j) - 1
BlanksOnly == \A i \in 1..(First - 1) : text[i] \in Blank \/ (text[i] = "\n" /\ i = First - 1)

Emit == PrintT(ToJson([t |-> text, a |-> First, b |-> Last, over |-> mode = "over"]))
=============================================================================
