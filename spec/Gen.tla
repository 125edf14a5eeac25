-------------------------------- MODULE Gen --------------------------------
(* Generating automaton.  A behaviour expands the start symbol, emitting     *)
(* tokens, and ends with a sentence of the supported grammar together with   *)
(* the syntax tree it denotes.  Every non-default choice costs one unit of   *)
(* the budget K, so that TLC's breadth-first search visits every sentence    *)
(* that differs from the default one in at most K places; -simulate walks    *)
(* at random under a larger budget.                                          *)
EXTENDS Grammar, Integers, Json, SequencesExt

CONSTANTS Starts,   \* set of non-terminals
          Dias,     \* subset of {"M","P","S"}
          Budget,   \* number of non-default choices
          Gate,     \* TRUE: constructs of other dialects are generated too
          Damage,   \* number of damaged list elements
          Bias,     \* 0: every alternative of every choice; else: one, taken at random,
                    \* which is not the default in Bias per cent (for -simulate)
          Pump,     \* 0, or the number of plain elements by which a list can be
                    \* lengthened in one choice (only such sentences are emitted)
          Period,   \* 0, or the greatest length of the word of choices that a
                    \* walk repeats: deep nesting and long chains
          Mode      \* "small", "types" (full data types), "exprs" (full
                    \* expressions) or "args" (placeholders) in the positions that take one

VARIABLES todo, out, vals, k, dia, start, gated, dmg, dloc, comp, dead, path, word, pumped

vars == <<todo, out, vals, k, dia, start, gated, dmg, dloc, comp, dead, path, word, pumped>>

(* The grammar, evaluated once: RuleOf = Rule. *)
ASSUME TLCSet(1, Rule)
RuleOf == TLCGet(1)

Body(nt) == CASE Mode = "types" /\ nt = "DT"  -> RuleOf["DTFull"]
              [] Mode = "types" /\ nt = "DTR" -> RuleOf["DTRFull"]
              [] Mode = "exprs" /\ nt \in {"E", "EO"} -> RuleOf["EFull"]
              [] Mode = "args" /\ nt \in {"E", "Atom"} -> RuleOf["EArgs"]
              [] Mode = "args" /\ nt \in {"EC", "EM"} -> RuleOf["EArg"]
              [] Mode = "args" /\ nt = "EI" -> RuleOf["EIArgs"]
              [] Mode = "args" /\ nt = "EO" -> RuleOf["EOArgs"]
              [] OTHER -> RuleOf[nt]

Tokens(ws) == TLCEval([i \in 1..Len(ws) |-> <<"k", ws[i]>>])

ResolveHull(vs, a, b) ==
    TLCEval([i \in 1..Len(vs) |-> IF vs[i][1] = "h" THEN <<"S", a, b>> ELSE vs[i]])

Pop(s, n)  == SubSeq(s, 1, Len(s) - n)
Top(s, n)  == SubSeq(s, Len(s) - n + 1, Len(s))

(* One deterministic step of the configuration s on the head symbol h. *)
IsChoice(h, s) ==
    \/ h[1] \in {"O", "O0", "C"} /\ (s.k > 0 \/ (h[3] = 0 /\ s.k = 0))
    \/ h[1] \in {"LT", "L0"} /\ s.k > 0
    \/ h[1] = "DM" /\ s.dmg > 0 /\ s.k >= 0

Emit(s, r, toks, v) == [s EXCEPT !.todo = r, !.out = @ \o toks, !.vals = @ \o v]
Push(s, r, v) == [s EXCEPT !.todo = r, !.vals = Append(@, v)]
Go(s, r) == [s EXCEPT !.todo = r]

(* The bindings are written as set comprehensions over singletons because     *)
(* TLC evaluates those once, whereas LET and operator arguments are lazy.    *)
Step1(s0) ==
    CHOOSE s2 \in { CHOOSE s3 \in { CASE t = "K"   -> Emit(s, r, Tokens(h[2]), <<>>)
         [] t = "KS"  -> Emit(s, r, Tokens(h[2]), <<<<"S", p, p + Len(h[2]) - 1>>>>)
         [] t = "P"   -> Emit(s, r, <<<<"p", h[2]>>>>, <<>>)
         [] t = "PS"  -> Emit(s, r, <<<<"p", h[2]>>>>, <<<<"S", p, p>>>>)
         [] t = "I"   -> Emit(s, r, <<<<h[2]>>>>, <<<<"I", p>>>>)
         [] t = "IS"  -> Emit(s, r, <<<<"x">>>>, <<<<"S", p, p>>>>)
         [] t = "INT" -> Emit(s, r, <<<<"n">>>>, <<<<"N", p>>>>)
         [] t = "FLT" -> Emit(s, r, <<<<"f">>>>, <<<<"N", p>>>>)
         [] t = "STR" -> Emit(s, r, <<<<"s">>>>, <<<<"T", p>>>>)
         [] t = "ARG" -> Emit(s, r, <<<<"a">>>>, <<<<"N", p>>>>)
         [] t = "INTN" -> Emit(s, r, <<<<"n">>>>, <<<<"V", p>>>>)
         [] t = "INTL" -> Emit(s, r, <<<<"n">>>>, <<<<"L", <<<<"V", p>>>>>>>>)
         [] t = "IX"  -> Emit(s, r, <<<<"x">>>>, <<<<"X", p>>>>)
         [] t = "IG"  -> Emit(s, r, <<<<"x">>>>, <<>>)
         [] t = "PREV" -> Push(s, r, <<"S", p - 1, p - 1>>)
         [] t = "DROP" -> [s EXCEPT !.todo = r, !.vals = Pop(@, 1)]
         [] t = "PERMIT" -> [s EXCEPT !.todo = <<h[2], <<"SETC", s.comp>>>> \o r, !.comp = TRUE]
         [] t = "REP" -> Go(s, IF h[3] = 0 THEN r ELSE h[2] \o <<<<"REP", h[2], h[3] - 1>>>> \o r)
         [] t = "SETK" -> [s EXCEPT !.todo = r, !.k = h[2]]
         [] t = "SETC" -> [s EXCEPT !.todo = r, !.comp = h[2]]
         [] t = "IFC" -> Go(s, <<IF s.comp THEN h[2] ELSE h[3]>> \o r)
         [] t = "RAW" -> Emit(s, r, <<h[2]>>, <<>>)
         [] t = "CST" -> Push(s, r, h[2])
         [] t = "N"   -> Go(s, <<Body(h[2])>> \o r)
         [] t = "SQ"  -> Go(s, h[2] \o r)
         [] t = "ND"  -> Go(s, h[4] \o <<<<"B", h[2], h[3], p>>>> \o r)
         [] t = "B"   -> LET n == Len(h[3])
                         IN [s EXCEPT !.todo = r,
                               !.vals = Append(Pop(@, n), <<"O", h[2], h[3],
                                  ResolveHull(Top(@, n), h[4], Len(s.out))>>)]
         [] t = "T"   -> Go(s, h[3] \o <<<<"TB", h[2]>>>> \o r)
         [] t = "TB"  -> [s EXCEPT !.todo = r,
                               !.vals = LET n == Len(h[2])
                                            tp == Top(@, n)
                                        IN Append(Pop(@, n), <<"L", TLCEval([i \in 1..n |-> tp[h[2][i]]])>>)]
         [] t = "JS"  -> Go(s, h[2] \o <<<<"JB", p, Len(s.vals)>>>> \o r)
         [] t = "JB"  -> [s EXCEPT !.todo = r,
                               !.vals = Append(SubSeq(@, 1, h[3]),
                                               <<"S", h[2], Len(s.out)>>)]
         [] t = "L"   -> Go(s, <<h[2], <<"LT", h[2], h[3], 1>>>> \o r)
         [] t = "L2"  -> Go(s, <<h[2]>> \o h[3] \o
                               <<h[2], <<"LT", h[2], h[3], 2>>>> \o r)
         [] t = "R"   -> IF s.dia \in h[2] THEN Go(s, r) ELSE [s EXCEPT !.dead = TRUE]
         [] t = "G"   -> IF s.dia \in h[2] THEN Go(s, r)
                         ELSE IF Gate THEN [s EXCEPT !.todo = r, !.gated = TRUE]
                         ELSE [s EXCEPT !.dead = TRUE]
         [] t = "D"   -> Go(s, <<IF s.dia \in h[2] THEN h[3] ELSE h[4]>> \o r)
         [] t = "DE"  -> [s EXCEPT !.todo = r, !.dloc = Append(@, <<h[2], Len(s.out)>>)]
         [] t = "DM"  -> Go(s, <<h[2]>> \o r)
         (* choices without budget: the default *)
         [] t = "O"   -> Push(s, r, <<"Z">>)
         [] t = "O0"  -> Go(s, r)
         [] t = "C"   -> Go(s, <<h[2][1]>> \o r)
         [] t = "L0"  -> Push(s, r, <<"L", <<>>>>)
         [] t = "LT"  -> [s EXCEPT !.todo = r,
                               !.vals = Append(Pop(@, h[4]), <<"L", Top(@, h[4])>>)]
        : h \in {Head(s.todo)}, r \in {Tail(s.todo)}, p \in {Len(s.out) + 1},
          t \in {Head(s.todo)[1]} } : TRUE
        : s \in {s0} } : TRUE

RECURSIVE Settle(_)
Settle(s0) ==
    CHOOSE s1 \in { IF s.todo = <<>> \/ s.dead THEN s
                    ELSE IF IsChoice(Head(s.todo), s) THEN s
                    ELSE Settle(Step1(s)) : s \in {s0} } : TRUE

Cost(s, c) == [s EXCEPT !.k = @ - c]

(* Successor configurations of a choice, by number of the alternative. *)
NAlts(s) == LET h == Head(s.todo)
            IN IF h[1] = "C" THEN Len(h[2])
               ELSE IF h[1] = "DM" THEN 1 + Len(h[3])
               ELSE IF h[1] \in {"LT", "L0"} /\ Pump > 0 THEN 3 ELSE 2
(* n plain elements, without any choice inside (k = -1)                      *)
Pumped(s, r, x, sep, n) ==
    [s EXCEPT !.k = -1, !.pumped = TRUE,
              !.todo = (IF n = 0 THEN <<x, <<"REP", sep \o <<x>>, Pump - 1>>>> ELSE <<<<"REP", sep \o <<x>>, Pump>>>>)
                       \o <<<<"SETK", s.k - 1>>, <<"LT", x, sep, n + Pump>>>> \o r]
Alt(s, a) ==
    LET h == Head(s.todo)
        r == Tail(s.todo)
        t == h[1]
    IN CASE t = "O"  -> IF a = 1 THEN Push(s, r, <<"Z">>)
                        ELSE Cost(Go(s, <<h[2]>> \o r), h[3])
         [] t = "O0" -> IF a = 1 THEN Go(s, r)
                        ELSE Cost(Go(s, <<h[2]>> \o r), h[3])
         [] t = "C"  -> Cost(Go(s, <<h[2][a]>> \o r), IF a = 1 THEN 0 ELSE h[3])
         [] t \in {"L0", "LT"} /\ a = 3 ->
                Pumped(s, r, h[2], IF t = "L0" THEN <<>> ELSE h[3], IF t = "L0" THEN 0 ELSE h[4])
         [] t = "L0" -> IF a = 1 THEN Push(s, r, <<"L", <<>>>>)
                        ELSE Cost(Go(s, <<h[2], <<"LT", h[2], <<>>, 1>>>> \o r), 1)
         [] t = "LT" -> IF a = 1 THEN Step1(s)
                        ELSE Cost(Go(s, h[3] \o <<h[2], <<"LT", h[2], h[3], h[4] + 1>>>> \o r), 1)
         [] t = "DM" -> IF a = 1 THEN Go(s, <<h[2]>> \o r)
                        ELSE [s EXCEPT !.todo = h[3][a - 1] \o <<<<"DE", Len(s.out) + 1>>, <<"CST", h[4]>>>> \o r,
                                       !.dmg = @ - 1]

Conf == [todo |-> todo, out |-> out, vals |-> vals, k |-> k, dia |-> dia,
         gated |-> gated, dmg |-> dmg, dloc |-> dloc, comp |-> comp, dead |-> dead, pumped |-> pumped]

SetConf(s) ==
    /\ todo' = s.todo /\ out' = s.out /\ vals' = s.vals /\ k' = s.k
    /\ dia' = s.dia /\ dloc' = s.dloc /\ comp' = s.comp /\ gated' = s.gated /\ dmg' = s.dmg /\ dead' = s.dead
    /\ pumped' = s.pumped

(* a few words, different in every run of TLC *)
RandomWord == {TLCEval([i \in 1..RandomElement(1..Period) |-> RandomElement(0..5)]) : j \in 1..60}

Init ==
    /\ start \in Starts
    /\ dia \in Dias
    /\ path = <<>>
    /\ word \in IF Period = 0 THEN {<<>>} ELSE RandomWord
    /\ LET s == Settle([todo |-> <<RuleOf[start]>>, out |-> <<>>, vals |-> <<>>,
                        k |-> Budget, dia |-> dia, gated |-> FALSE,
                        dmg |-> Damage, dloc |-> <<>>, comp |-> FALSE, dead |-> FALSE, pumped |-> FALSE])
       IN /\ todo = s.todo /\ out = s.out /\ vals = s.vals /\ k = s.k
          /\ dloc = s.dloc /\ comp = s.comp /\ gated = s.gated /\ dmg = s.dmg /\ dead = s.dead /\ pumped = s.pumped

Offered(h, n) ==
    IF Period > 0 THEN {1 + (word[1 + (Len(path) % Len(word))] % n)}
    ELSE IF Bias = 0 THEN 1..n
    ELSE {IF h[1] = "C" /\ h[3] = 0 THEN RandomElement(1..n)
          ELSE IF RandomElement(1..100) <= Bias THEN RandomElement(2..n) ELSE 1}

Choose ==
    /\ todo # <<>> /\ ~dead
    /\ \E a \in Offered(Head(todo), NAlts(Conf)) :
         LET s == Alt(Conf, a)
         IN /\ s.k >= 0 \/ (s.pumped /\ s.k = -1 /\ k > 0)
            /\ SetConf(Settle(s))
            /\ path' = Append(path, a)
    /\ UNCHANGED <<start, word>>

Next == Choose
Spec == Init /\ [][Next]_vars

Done == todo = <<>> /\ ~dead

(* Well-formedness of the specification itself: a finished derivation has    *)
(* consumed no more than its budget and leaves exactly one value, without    *)
(* unresolved hulls, whose spans lie within the sentence.                    *)
RECURSIVE WellFormed(_, _)
WellFormed(v, n) ==
    CASE v[1] = "S" -> 1 <= v[2] /\ v[2] <= v[3] /\ v[3] <= n
      [] v[1] \in {"I", "N", "T", "V", "X"} -> 1 <= v[2] /\ v[2] <= n
      [] v[1] = "O" -> /\ Len(v[3]) = Len(v[4])
                       /\ \A i \in 1..Len(v[4]) : WellFormed(v[4][i], n)
      [] v[1] = "L" -> \A i \in 1..Len(v[2]) : WellFormed(v[2][i], n)
      [] v[1] \in {"Z", "W", "B", "?", "?*", "#"} -> TRUE
      [] OTHER -> FALSE
TypeOK == Done => /\ Len(vals) = 1 /\ k >= 0 /\ WellFormed(vals[1], Len(out))

(* The hull of the positions recorded in a tree: the span its root answers.  *)
RECURSIVE Hull(_)
HullOf(hs) == LET Least(a, b) == IF a = 0 THEN b ELSE IF b = 0 \/ a < b THEN a ELSE b
                  Most(a, b) == IF a < b THEN b ELSE a
              IN FoldLeft(LAMBDA a, b : <<Least(a[1], b[1]), Most(a[2], b[2])>>, <<0, 0>>, hs)
Hull(v) ==
    CASE v[1] = "S" -> <<v[2], v[3]>>
      [] v[1] \in {"I", "N", "T"} -> <<v[2], v[2]>>
      [] v[1] = "O" -> HullOf(TLCEval([i \in 1..Len(v[4]) |-> Hull(v[4][i])]))
      [] v[1] = "L" -> HullOf(TLCEval([i \in 1..Len(v[2]) |-> Hull(v[2][i])]))
      [] OTHER -> <<0, 0>>

EmitSentence ==
    (Done /\ (Pump > 0 => pumped)) => PrintT(ToJson([s |-> start, d |-> dia, o |-> out, v |-> vals[1], h |-> Hull(vals[1]),
                           g |-> gated, m |-> dloc, p |-> path]))
View == <<start, dia, path, k, word>>
=============================================================================
