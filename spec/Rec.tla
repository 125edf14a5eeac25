-------------------------------- MODULE Rec --------------------------------
(* Recognising automaton: the same grammar as Gen.tla, read the other way.   *)
(* Gen walks the grammar and writes sentences; Rec is given the token        *)
(* sequences for which the real parser reported no error (File) and decides  *)
(* for each whether the grammar derives it.  The positions that Gen fills    *)
(* with small representatives (expressions, inner queries, types, bodies)    *)
(* take their full language here.                                            *)
(*                                                                           *)
(* Ends(h, p, c) is the set of positions at which a derivation of the symbol *)
(* h that starts at position p may end; c says whether BEGIN ... END blocks  *)
(* are permitted.                                                            *)
EXTENDS Grammar, Words, FiniteSets, Json

CONSTANTS File,     \* ndjson: [o |-> tokens, d |-> dialect]
          Chunk     \* records per behaviour

ASSUME TLCSet(1, ndJsonDeserialize(File))
Records == TLCGet(1)

VARIABLES i, toks, dia
vars == <<i, toks, dia>>

Elems(s) == {s[j] : j \in 1..Len(s)}
(* words that may be names, and those that may also begin an operand *)
ASSUME TLCSet(3, Elems(Unreserved))
ASSUME TLCSet(4, Elems(Unreserved) \cup Elems(ReservedExprNames))
(* words that may be called as functions *)
ASSUME TLCSet(5, Elems(Unreserved) \cup Elems(ReservedExprNames)
                 \cup {FunctionTable[j][1] : j \in 1..Len(FunctionTable)})
NameWords == TLCGet(3)
OperandWords == TLCGet(4)
CallWords == TLCGet(5)

(* ------------------- the full language of the small holes -------------- *)
NameOf(s) == <<"WORD", s>>   \* a name or a word of the set numbered s
Operand == C(<<
    NameOf(4),
    SQ(<<NameOf(4), L(SQ(<<P("."), C(<<I, P("*"), K("TIME_ZONE")>>)>>), NOSEP)>>),
    INT, FLT, STR, ARG, P("*"), K("NULL"), K("TRUE"), K("FALSE"),
    SQ(<<NameOf(5), LP, C(<<SQ(<<>>), L(N("EO"), COMMA)>>), RP,
         O0(SQ(<<K("OVER"), LP, OrderBy, RP>>))>>),
    SQ(<<LP, C(<<N("E"), N("SelQuery")>>), RP>>)
    >> \o Special)
UnaryOp == C(<<K("NOT"), P("-"), P("!"), K("BINARY"), K("COLLATE")>>)
BinaryOp == C(TLCEval([j \in 1..Len(BinOps) |-> BinOps[j][2]]))
Postfix == C(<<
    SQ(<<O0(K("NOT")), K("IN"), LP, C(<<L(C(<<N("E"), N("SelQuery")>>), COMMA)>>), RP>>),
    SQ(<<K("IS"), O0(K("NOT")), C(<<K("NULL"), K("TRUE"), K("FALSE"), K("UNKNOWN")>>)>>)>>)
Operation == SQ(<<L0(UnaryOp), Operand>>)
FullE == SQ(<<Operation, L0(C(<<Postfix, SQ(<<BinaryOp, Operation>>)>>))>>)
InnerOperation == SQ(<<L0(C(<<K("NOT"), P("-")>>)), Operand>>)
InnerE == L(InnerOperation, <<P("&")>>)
(* a query that begins with SELECT *)
SelectAny == C(<<SelectFull, SelectNoFrom>>)
SelQuery == SQ(<<SelectAny, L0(UnionWith(SelectAny)), O0(OrderBy), O0(Limit)>>)
AnyQuery == C(<<SelQuery, SQ(<<LP, N("Query"), RP>>),
                SQ(<<LP, N("Query"), RP, L(UnionWith(SelectAny), NOSEP), O0(OrderBy), O0(Limit)>>)>>)
(* a list of statements: any number of delimiters before and between *)
Statements == SQ(<<L0(P(";")), C(<<SQ(<<>>), SQ(<<L(N("BStmt"), <<L(P(";"), NOSEP)>>), L0(P(";"))>>)>>)>>)
Starts0 == <<"sInsert", "sUpdate", "sDelete", "sWith", "sSet", "sTruncate", "sRename",
    "sTable", "sView", "sIndex", "sType", "sAlter", "sDrop", "sFunction", "sTrigger", "sIf", "sCase",
    "sDo", "sReturn", "sSignal", "Query", "sCopy">>
AnyStatement == C(TLCEval([j \in 1..Len(Starts0) |-> N(Starts0[j])])
    \o <<K("COMMIT"), KK(<<"START", "TRANSACTION">>),
         IFC(N("Block"), C(<<K("BEGIN"), K("END")>>))>>)
BlockX == SQ(<<K("BEGIN"), N("Body"), O0(SQ(<<K("EXCEPTION"),
    L0(SQ(<<K("WHEN"), I, K("THEN"), N("EI"), P(";")>>))>>)), K("END")>>)

Body(nt) ==
    CASE nt \in {"E", "EC", "EM", "X", "Atom"} -> FullE
      [] nt = "EO" -> C(<<FullE, SelectAny>>)
      [] nt = "EI" -> InnerE
      [] nt \in {"SelectMin", "SelectSmall", "Select"} -> SelectAny
      [] nt = "Query" -> AnyQuery
      [] nt = "SelQuery" -> SelQuery
      [] nt = "InsertSmall" -> InsertAll
      [] nt = "UpdateSmall" -> Update
      [] nt = "DeleteSmall" -> Delete
      [] nt = "DT" -> DTFull
      [] nt = "DTR" -> DTRetFull
      [] nt = "Body" -> <<"PERMIT", Statements>>
      [] nt \in {"BStmt", "TrigBody", "Start"} -> AnyStatement
      [] nt = "Block" -> BlockX
      [] nt = "SqlState" -> FullE
      [] nt = "TableRefs" -> L(SQ(<<TableRef1, L0(Join(C(<<JoinOn, JoinUsing, NIL>>)))>>), COMMA)
      (* the parentheses of a derived table may be left out *)
      [] nt = "Derived" -> C(<<SQ(<<LP, N("Query"), RP>>), SelQuery>>)
      [] nt \in {"TypeName", "VarName"} -> <<"ANY", {"k", "i", "d", "x"}>>
      [] nt = "Opaque" -> L0(<<"NOT", "p", "$$">>)
      [] OTHER -> Rule[nt]

NonTerminals == (DOMAIN Rule) \cup {"SelQuery", "Start"}
ASSUME TLCSet(2, TLCEval([nt \in NonTerminals |-> Body(nt)]))

(* ------------------- what a derivation may begin with ------------------ *)
(* First(h, ft) = <<classes of the first token, may be empty>>, given these  *)
(* of the non-terminals.  A filter only: dialects and blocks are ignored.    *)
TokenClass(t) == IF t[1] = "k" THEN <<"k", t[2]>> ELSE IF t[1] = "p" THEN <<"p", t[2]>>
                 ELSE IF t[1] \in {"i", "d", "x"} THEN <<"w", 3>> ELSE <<t[1]>>
RECURSIVE First(_, _), FirstSeq(_, _, _)
FirstSeq(xs, j, ft) ==
    IF j > Len(xs) THEN <<{}, TRUE>>
    ELSE CHOOSE r \in {IF a[2] THEN CHOOSE r2 \in {<<a[1] \cup b[1], b[2]>> : b \in {FirstSeq(xs, j + 1, ft)}} : TRUE
                       ELSE a : a \in {First(xs[j], ft)}} : TRUE
First(h, ft) ==
    CASE h[1] \in {"K", "KS"} -> <<{<<"k", h[2][1]>>}, FALSE>>
      [] h[1] \in {"P", "PS"} -> <<{<<"p", h[2]>>}, FALSE>>
      [] h[1] \in {"I", "IS", "IX", "IG"} -> <<{<<"w", 3>>}, FALSE>>
      [] h[1] = "WORD" -> <<{<<"w", h[2]>>}, FALSE>>
      [] h[1] \in {"INT", "INTN", "INTL"} -> <<{<<"n">>}, FALSE>>
      [] h[1] = "FLT"  -> <<{<<"f">>}, FALSE>>
      [] h[1] = "STR"  -> <<{<<"s">>}, FALSE>>
      [] h[1] = "ARG"  -> <<{<<"a">>}, FALSE>>
      [] h[1] = "RAW"  -> <<{TokenClass(h[2])}, FALSE>>
      [] h[1] \in {"ANY", "NOT"} -> <<{<<"any">>}, FALSE>>
      [] h[1] \in {"PREV", "CST", "DROP", "R", "G"} -> <<{}, TRUE>>
      [] h[1] = "N"    -> ft[h[2]]
      [] h[1] \in {"SQ", "JS"} -> FirstSeq(h[2], 1, ft)
      [] h[1] = "ND"   -> FirstSeq(h[4], 1, ft)
      [] h[1] = "T"    -> FirstSeq(h[3], 1, ft)
      [] h[1] \in {"O", "O0", "L0"} -> <<First(h[2], ft)[1], TRUE>>
      [] h[1] = "C"    -> CHOOSE r \in {<<UNION {f[j][1] : j \in DOMAIN f}, \E j \in DOMAIN f : f[j][2]>>
                              : f \in {[j \in 1..Len(h[2]) |-> First(h[2][j], ft)]}} : TRUE
      [] h[1] = "L"    -> First(h[2], ft)
      [] h[1] = "L2"   -> First(h[2], ft)
      [] h[1] = "D"    -> FirstSeq(<<<<"C", <<h[3], h[4]>>, 1>>>>, 1, ft)
      [] h[1] \in {"DM", "PERMIT"} -> First(h[2], ft)
      [] h[1] = "IFC"  -> FirstSeq(<<<<"C", <<h[2], h[3]>>, 1>>>>, 1, ft)
RECURSIVE Fixpoint(_)
Fixpoint(ft) == CHOOSE r \in {IF n = ft THEN ft ELSE Fixpoint(n)
                    : n \in {TLCEval([nt \in NonTerminals |-> First(TLCGet(2)[nt], ft)])}} : TRUE
ASSUME TLCSet(6, Fixpoint([nt \in NonTerminals |-> <<{}, FALSE>>]))

(* The grammar with these sets written at every choice: "C" becomes "CX".    *)
RECURSIVE Compile(_)
CompileSeq(xs) == TLCEval([j \in 1..Len(xs) |-> Compile(xs[j])])
Compile(h) ==
    CASE h[1] = "C"  -> <<"CX", CompileSeq(h[2]),
                          TLCEval([j \in 1..Len(h[2]) |-> First(h[2][j], TLCGet(6))])>>
      [] h[1] \in {"SQ", "JS"} -> <<"SQ", CompileSeq(h[2])>>
      [] h[1] = "ND" -> <<"SQ", CompileSeq(h[4])>>
      [] h[1] = "T"  -> <<"SQ", CompileSeq(h[3])>>
      [] h[1] \in {"O", "O0", "L0", "PERMIT"} -> <<h[1], Compile(h[2])>>
      [] h[1] = "DM" -> Compile(h[2])
      [] h[1] \in {"L", "L2"} -> <<h[1], Compile(h[2]), CompileSeq(h[3])>>
      [] h[1] = "D"  -> <<"D", h[2], Compile(h[3]), Compile(h[4])>>
      [] h[1] = "IFC" -> <<"IFC", Compile(h[2]), Compile(h[3])>>
      [] OTHER -> h
ASSUME TLCSet(7, TLCEval([nt \in NonTerminals |-> Compile(TLCGet(2)[nt])]))
RuleOf == TLCGet(7)

(* ------------------------------ recognition ---------------------------- *)
Kind(p) == IF p > Len(toks) THEN "end" ELSE toks[p][1]
Is(p, k, w) == IF p > Len(toks) THEN FALSE ELSE IF toks[p][1] # k THEN FALSE ELSE toks[p][2] = w
IsWord(p, s) == IF p > Len(toks) THEN FALSE
                ELSE IF toks[p][1] \in {"i", "d", "x"} THEN TRUE
                ELSE IF toks[p][1] = "k" THEN toks[p][2] \in TLCGet(s) ELSE FALSE
(* the classes of the token at p *)
Classes(p) == IF p > Len(toks) THEN {}
              ELSE {TokenClass(toks[p]), <<"any">>} \cup {<<"w", s>> : s \in {x \in 3..5 : IsWord(p, x)}}
One(b, p) == IF b THEN {p + 1} ELSE {}

RECURSIVE Words_(_, _, _)
Words_(ws, j, p) == IF j > Len(ws) THEN {p}
                    ELSE IF Is(p, "k", ws[j]) THEN Words_(ws, j + 1, p + 1) ELSE {}
RECURSIVE Strings(_)
Strings(p) == IF Kind(p) = "s" THEN {p + 1} \cup Strings(p + 1) ELSE {}

RECURSIVE Ends(_, _, _), SeqEnds(_, _, _, _), StarEnds(_, _, _, _)
SeqEnds(xs, j, ps, c) ==
    IF j > Len(xs) \/ ps = {} THEN ps
    ELSE CHOOSE r \in {SeqEnds(xs, j + 1, qs, c) : qs \in {UNION {Ends(xs[j], p, c) : p \in ps}}} : TRUE
StarEnds(xs, new, acc, c) ==
    IF new = {} THEN acc
    ELSE CHOOSE r \in {StarEnds(xs, ns \ acc, acc \cup ns, c) : ns \in {SeqEnds(xs, 1, new, c)}} : TRUE

Ends(h, p, c) ==
    CASE h[1] \in {"K", "KS"} -> Words_(h[2], 1, p)
      [] h[1] \in {"P", "PS"} -> One(Is(p, "p", h[2]), p)
      [] h[1] = "I"    -> IF h[2] = "q" THEN {} ELSE One(IsWord(p, 3), p)
      [] h[1] \in {"IS", "IX", "IG"} -> One(IsWord(p, 3), p)
      [] h[1] = "WORD" -> One(IsWord(p, h[2]), p)
      [] h[1] \in {"INT", "INTN", "INTL"} -> One(Kind(p) = "n", p)
      [] h[1] = "FLT"  -> One(Kind(p) = "f", p)
      [] h[1] = "STR"  -> Strings(p)
      [] h[1] = "ARG"  -> One(Kind(p) = "a", p)
      [] h[1] = "RAW"  -> IF h[2][1] = "s" THEN Strings(p)   \* whatever the text
                         ELSE One(IF p > Len(toks) THEN FALSE ELSE toks[p] = h[2], p)
      [] h[1] = "ANY"  -> One(Kind(p) \in h[2], p)
      [] h[1] = "NOT"  -> One(p <= Len(toks) /\ ~Is(p, h[2], h[3]), p)
      [] h[1] \in {"PREV", "CST", "DROP"} -> {p}
      [] h[1] = "N"    -> Ends(RuleOf[h[2]], p, c)
      [] h[1] = "SQ"   -> SeqEnds(h[2], 1, {p}, c)
      [] h[1] \in {"O", "O0"} -> {p} \cup Ends(h[2], p, c)
      [] h[1] = "CX"   -> UNION {UNION {Ends(h[2][j], p, c) : j \in {x \in 1..Len(h[2]) :
                              IF h[3][x][2] THEN TRUE ELSE \E y \in k : y \in h[3][x][1]}} : k \in {Classes(p)}}
      [] h[1] = "L"    -> CHOOSE r \in {StarEnds(h[3] \o <<h[2]>>, f, f, c) : f \in {Ends(h[2], p, c)}} : TRUE
      [] h[1] = "L2"   -> CHOOSE r \in {StarEnds(h[3] \o <<h[2]>>, f, f, c) :
                              f \in {SeqEnds(<<h[2]>> \o h[3] \o <<h[2]>>, 1, {p}, c)}} : TRUE
      [] h[1] = "L0"   -> StarEnds(<<h[2]>>, {p}, {p}, c)
      [] h[1] \in {"R", "G"} -> IF dia \in h[2] THEN {p} ELSE {}
      [] h[1] = "D"    -> Ends(IF dia \in h[2] THEN h[3] ELSE h[4], p, c)
      [] h[1] = "PERMIT" -> Ends(h[2], p, TRUE)
      [] h[1] = "IFC"  -> Ends(IF c THEN h[2] ELSE h[3], p, c)

Derivable == Len(toks) + 1 \in Ends(N("Start"), 1, FALSE)

(* ------------------------- the records, in chunks ---------------------- *)
Load(j) == i' = j /\ toks' = Records[j].o /\ dia' = Records[j].d
Init == \E j \in 1..Len(Records) :
          /\ j % Chunk = 1 /\ i = j /\ toks = Records[j].o /\ dia = Records[j].d
Next == /\ i % Chunk # 0 /\ i < Len(Records) /\ Load(i + 1)
Spec == Init /\ [][Next]_vars

(* printed, not asserted, so that all the records are judged in one run *)
Judge == IF Derivable THEN TRUE ELSE PrintT(ToJson([bad |-> i]))
View == i
=============================================================================
