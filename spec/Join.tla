-------------------------------- MODULE Join --------------------------------
(* Joining positions.  A stack machine: leaves are spans or nothing; they    *)
(* are wrapped and joined in every way the interface offers.  A value is     *)
(* [s |-> its span, <<>> when it has none, must |-> it always has one,       *)
(* l |-> the leaves below it].                                               *)
EXTENDS Naturals, Sequences, FiniteSets, Json, TLC
CONSTANTS Leaves, MaxOps

VARIABLES stack, log
vars == <<stack, log>>

Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
J(a, b) == IF a = <<>> THEN b ELSE IF b = <<>> THEN a ELSE <<Min(a[1], b[1]), Max(a[2], b[2])>>
RECURSIVE Fold(_, _)
Fold(xs, i) == IF i > Len(xs) THEN <<>> ELSE J(xs[i].s, Fold(xs, i + 1))
Under(xs) == UNION {xs[i].l : i \in 1..Len(xs)}

Top(k) == SubSeq(stack, Len(stack) - k + 1, Len(stack))
Put(op, k, must) ==
    /\ Len(stack) >= k
    /\ \E xs \in {Top(k)} :
        stack' = Append(SubSeq(stack, 1, Len(stack) - k), [s |-> Fold(xs, 1), must |-> must, l |-> Under(xs)])
    /\ log' = Append(log, op)

Init == stack = <<>> /\ log = <<>>
Leaf(a, b) == stack' = Append(stack, [s |-> <<a, b>>, must |-> TRUE, l |-> {<<a, b>>}])
              /\ log' = Append(log, "s" \o ToString(a) \o "-" \o ToString(b))
None == stack' = Append(stack, [s |-> <<>>, must |-> FALSE, l |-> {}]) /\ log' = Append(log, "n")
First(k) == Len(stack) >= k /\ stack[Len(stack) - k + 1].must
Tagged == {"usize", "usize2", "u32", "u64", "f64", "bool", "str", "cow"}
Step == \/ \E p \in Leaves : Leaf(p[1], p[2])
        \/ None
        \/ Put("some", 1, FALSE)
        \/ \E k \in 0..3 : Put("vec" \o ToString(k), k, FALSE) \/ Put("slice" \o ToString(k), k, FALSE)
        \/ First(1) /\ (Put("box", 1, TRUE) \/ \E t \in Tagged : Put(t, 1, TRUE))
        \/ First(2) /\ (Put("pair", 2, TRUE) \/ Put("join", 2, TRUE))
        \/ First(3) /\ Put("triple", 3, TRUE)
        \/ Put("optjoin", 2, FALSE)
Next == Len(log) < MaxOps /\ Step
Spec == Init /\ [][Next]_vars

(* the smallest span around everything below, none only without leaves       *)
Smallest == \A i \in 1..Len(stack) : \A v \in {stack[i]} :
    /\ (v.s = <<>>) = (v.l = {})
    /\ v.must => v.s # <<>>
    /\ v.s # <<>> => /\ \A p \in v.l : v.s[1] <= p[1] /\ p[2] <= v.s[2]
                     /\ \E p \in v.l : p[1] = v.s[1]
                     /\ \E p \in v.l : p[2] = v.s[2]
Emit == log # <<>> /\ stack # <<>> => PrintT(ToJson([log |-> log, top |-> stack[Len(stack)].s]))
=============================================================================
