-------------------------------- MODULE Expr --------------------------------
(* Operators: a shift-reduce automaton reads an expression token by token    *)
(* and the invariants compare what it builds with a declarative definition   *)
(* of "grouped as the MySQL priorities say".  Every finished expression is   *)
(* replayed into the implementation.                                         *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Bins, Pres, Posts,    \* operators used
          MaxOps,               \* number of operators
          MaxParens             \* number of parentheses

(* priority of every operator; a smaller number binds tighter *)
Level == [op \in {"Binary", "Collate"} |-> 1]
      @@ [op \in {"LogicalNot"} |-> 2]
      @@ [op \in {"Minus"} |-> 3]
      @@ [op \in {"Mult", "Divide"} |-> 4]
      @@ [op \in {"Add", "Subtract"} |-> 5]
      @@ [op \in {"ShiftLeft", "ShiftRight"} |-> 6]
      @@ [op \in {"BitAnd"} |-> 7]
      @@ [op \in {"BitOr"} |-> 8]
      @@ [op \in {"Eq", "NullSafeEq", "GtEq", "Gt", "LtEq", "Lt", "Neq", "Like", "NotLike"} |-> 9]
      @@ [op \in {"In", "NotIn", "IsNull", "IsNotNull", "IsTrue", "IsNotTrue", "IsFalse", "IsNotFalse",
                  "IsUnknown", "IsNotUnknown"} |-> 9]
      @@ [op \in {"Not"} |-> 10]
      @@ [op \in {"And"} |-> 11]
      @@ [op \in {"Xor"} |-> 12]
      @@ [op \in {"Or"} |-> 13]

VARIABLES toks,     \* the tokens read
          stack,    \* of the automaton
          want,     \* "operand" or "operator"
          ops, pars, depth
vars == <<toks, stack, want, ops, pars, depth>>

Init == toks = <<>> /\ stack = <<>> /\ want = "operand" /\ ops = 0 /\ pars = 0 /\ depth = 0

Last(s)  == s[Len(s)]
Front(s) == SubSeq(s, 1, Len(s) - 1)

(* groups everything on top of the stack that binds at least as tight as l;  *)
(* stops at an opening parenthesis                                           *)
RECURSIVE Reduce(_, _)
Reduce(st, l) ==
    IF Len(st) < 2 THEN st
    ELSE LET e == Last(st)
             o == st[Len(st) - 1]
         IN CASE o[1] = "(" -> st
              [] o[1] = "un" -> IF Level[o[2]] > l THEN st
                                ELSE Reduce(SubSeq(st, 1, Len(st) - 2) \o <<<<"un", o[2], o[3], e>>>>, l)
              [] o[1] = "bin" -> IF Level[o[2]] > l THEN st
                                 ELSE Reduce(SubSeq(st, 1, Len(st) - 3) \o
                                             <<<<"bin", o[2], o[3], st[Len(st) - 2], e>>>>, l)

Pos == Len(toks) + 1
Operand == /\ want = "operand"
           /\ toks' = Append(toks, <<"x", "">>)
           /\ stack' = Append(stack, <<"id", Pos>>)
           /\ want' = "operator"
           /\ UNCHANGED <<ops, pars, depth>>
Prefix(op) == /\ want = "operand" /\ ops < MaxOps
              /\ toks' = Append(toks, <<"pre", op>>)
              /\ stack' = Append(stack, <<"un", op, Pos>>)
              /\ ops' = ops + 1
              /\ UNCHANGED <<want, pars, depth>>
Infix(op) == /\ want = "operator" /\ ops < MaxOps
             /\ toks' = Append(toks, <<"bin", op>>)
             /\ stack' = Append(Reduce(stack, Level[op]), <<"bin", op, Pos>>)
             /\ want' = "operand" /\ ops' = ops + 1
             /\ UNCHANGED <<pars, depth>>
Postfix(op) == /\ want = "operator" /\ ops < MaxOps
               /\ toks' = Append(toks, <<"post", op>>)
               /\ LET s == Reduce(stack, Level[op])
                  IN stack' = Append(Front(s), <<"post", op, Pos, Last(s)>>)
               /\ ops' = ops + 1
               /\ UNCHANGED <<want, pars, depth>>
Open == /\ want = "operand" /\ pars < MaxParens
        /\ toks' = Append(toks, <<"(", "">>)
        /\ stack' = Append(stack, <<"(">>)
        /\ pars' = pars + 1 /\ depth' = depth + 1
        /\ UNCHANGED <<want, ops>>
Close == /\ want = "operator" /\ depth > 0
         /\ toks' = Append(toks, <<")", "">>)
         /\ LET s == Reduce(stack, 99)
            IN stack' = Append(SubSeq(s, 1, Len(s) - 2), <<"par", Last(s)>>)
         /\ depth' = depth - 1
         /\ UNCHANGED <<want, ops, pars>>

Next == \/ Operand \/ Open \/ Close
        \/ \E op \in Pres : Prefix(op)
        \/ \E op \in Bins : Infix(op)
        \/ \E op \in Posts : Postfix(op)
Spec == Init /\ [][Next]_vars

Done == want = "operator" /\ depth = 0
Tree == Reduce(stack, 99)[1]

(* --------------------- the declarative definition ---------------------- *)
(* the text of a tree *)
RECURSIVE Text(_)
Text(t) == CASE t[1] = "id" -> <<<<"x", "">>>>
             [] t[1] = "par" -> <<<<"(", "">>>> \o Text(t[2]) \o <<<<")", "">>>>
             [] t[1] = "un" -> <<<<"pre", t[2]>>>> \o Text(t[4])
             [] t[1] = "bin" -> Text(t[4]) \o <<<<"bin", t[2]>>>> \o Text(t[5])
             [] t[1] = "post" -> Text(t[4]) \o <<<<"post", t[2]>>>>
(* operators of t that could still take something on their right (left) *)
RECURSIVE RightOpen(_), LeftOpen(_)
RightOpen(t) == CASE t[1] = "un" -> {t[2]} \cup RightOpen(t[4])
                  [] t[1] = "bin" -> {t[2]} \cup RightOpen(t[5])
                  [] OTHER -> {}
LeftOpen(t) == CASE t[1] = "bin" -> {t[2]} \cup LeftOpen(t[4])
                 [] t[1] = "post" -> {t[2]} \cup LeftOpen(t[4])
                 [] OTHER -> {}
(* nothing to the left of an operator binds looser than it, nothing to the   *)
(* right as loose: equal levels group to the left                            *)
RECURSIVE Grouped(_)
Grouped(t) == CASE t[1] = "id" -> TRUE
    [] t[1] = "par" -> Grouped(t[2])
    [] t[1] = "un" -> /\ Grouped(t[4])
                      /\ \A o \in LeftOpen(t[4]) : Level[o] < Level[t[2]]
    [] t[1] = "bin" -> /\ Grouped(t[4]) /\ Grouped(t[5])
                       /\ \A o \in RightOpen(t[4]) : Level[o] <= Level[t[2]]
                       /\ \A o \in LeftOpen(t[5]) : Level[o] < Level[t[2]]
    [] t[1] = "post" -> /\ Grouped(t[4])
                        /\ \A o \in RightOpen(t[4]) : Level[o] <= Level[t[2]]
(* all trees of a token sequence without parentheses *)
RECURSIVE Trees(_, _)
Trees(a, b) ==      \* toks[a..b]
    IF a > b THEN {}
    ELSE (IF a = b /\ toks[a][1] = "x" THEN {<<"id", a>>} ELSE {})
         \cup (IF toks[a][1] = "pre" THEN {<<"un", toks[a][2], a, t>> : t \in Trees(a + 1, b)} ELSE {})
         \cup (IF toks[b][1] = "post" THEN {<<"post", toks[b][2], b, t>> : t \in Trees(a, b - 1)} ELSE {})
         \cup UNION {{<<"bin", toks[i][2], i, l, r>> : l \in Trees(a, i - 1), r \in Trees(i + 1, b)}
                      : i \in {j \in a..b : toks[j][1] = "bin"}}

ReadsText  == Done => Len(Reduce(stack, 99)) = 1 /\ Text(Tree) = toks
GroupsRight == Done => Grouped(Tree)
(* there is exactly one well-grouped tree *)
Unique == (Done /\ pars = 0) => {t \in Trees(1, Len(toks)) : Grouped(t)} = {Tree}

Emit == Done => PrintT(ToJson([o |-> toks, v |-> Tree]))
=============================================================================
