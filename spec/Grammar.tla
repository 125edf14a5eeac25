------------------------------ MODULE Grammar ------------------------------
(* The supported language of antialize/sql-parse, for the three dialects     *)
(* "M" (MariaDB), "P" (PostgreSQL) and "S" (Sqlite), together with the       *)
(* syntax tree every sentence denotes.  One grammar serves the generating    *)
(* automaton (Gen.tla) and the recognising automaton (Rec.tla).              *)
EXTENDS Symbols, Words

M == {"M"}  PG == {"P"}  SL == {"S"}  MS == {"M", "S"}  PS_ == {"P", "S"}

COMMA == <<P(",")>>
NOSEP == <<>>
EQ    == P("=")
LP    == P("(")
RP    == P(")")

(* ------------------------------ names ---------------------------------- *)
IPrefix == T(<<X(I), X(PS("."))>>)
(* qualified name: [[a.]b.]c *)
QNof(i) == C(<< ND("QualifiedName", <<F("prefix", EL), F("identifier", i)>>),
           ND("QualifiedName", <<F("prefix", T(<<X(T(<<X(i), X(PS("."))>>))>>)), F("identifier", I)>>),
           ND("QualifiedName", <<F("prefix", T(<<X(T(<<X(i), X(PS("."))>>)), X(IPrefix)>>)), F("identifier", I)>>) >>)
QN  == QNof(I)
QNU == QNof(IU)
Ids   == L(I, COMMA)
PIds  == SQ(<<LP, Ids, RP>>)

(* --------------------- expressions (small hole) ------------------------ *)
Name1(x)   == V1("Identifier", T(<<X(V1("Name", x))>>))
Col        == Name1(IU)
QCol       == V1("Identifier", T(<<X(V1("Name", IU)), P("."), X(V1("Name", IU))>>))
QCol3      == V1("Identifier", T(<<X(V1("Name", IU)), P("."), X(V1("Name", IU)), P("."), X(V1("Name", IU))>>))
Star       == V1("Identifier", T(<<X(V1("Star", PS("*")))>>))
QStar      == V1("Identifier", T(<<X(V1("Name", IU)), P("."), X(V1("Star", PS("*")))>>))
IntLit     == V1("Integer", INT)
FloatLit   == V1("Float", FLT)
StrLit     == V1("String", STR)
ArgLit     == V1("Arg", ARG)
NullLit    == V1("Null", S("NULL"))
BoolLit    == C(<<ND("Bool", <<F("0", BV(TRUE)), F("1", S("TRUE"))>>),
                  ND("Bool", <<F("0", BV(FALSE)), F("1", S("FALSE"))>>)>>)
Bin(l, op, tok, r) == SQ(<<l, NX("Binary", <<"lhs">>,
                           <<F("op", UV(op)), F("op_span", tok), F("rhs", r)>>)>>)
Un(op, tok, x) == ND("Unary", <<F("op", UV(op)), F("op_span", tok), F("operand", x)>>)
FunOther(args) == ND("Function", <<F("0", V1("Other", ITXT)), F("2", PREV), LP, F("1", args), RP>>)
OrE   == Bin(Col, "Or", S("OR"), Un("Not", S("NOT"), Col))
SubQ  == SQ(<<LP, V1("Subquery", V1("Select", N("SelectMin"))), RP>>)
CallE == FunOther(L(N("EC"), COMMA))

(* E: position of an arbitrary expression.  EI: position of a restricted     *)
(* ("inner") expression.  EO: argument position.  The full expression        *)
(* language is X below; the small holes keep statement sentences small while *)
(* telling apart the expression parsers an implementation may call.          *)
ESmall  == C(<<Col, IntLit, QCol, OrE, CallE, SubQ>>)
EISmall == C(<<IntLit, Col, Un("Minus", PS("-"), IntLit),
               Bin(Col, "BitAnd", PS("&"), IntLit), SQ(<<LP, OrE, RP>>)>>)
EOSmall == C(<<Col, IntLit, OrE, V1("Subquery", V1("Select", N("SelectMin")))>>)

(* the same positions filled with placeholders *)
SubQA == SQ(<<LP, V1("Subquery", V1("Select", N("SelectSmall"))), RP>>)
EArgs  == C(<<ArgLit, Bin(ArgLit, "Or", S("OR"), ArgLit), FunOther(L(N("EC"), COMMA)), SubQA,
              Bin(Col, "Eq", PS("="), ArgLit), SQ(<<LP, ArgLit, RP>>)>>)
EIArgs == C(<<ArgLit, Un("Minus", PS("-"), ArgLit), Bin(ArgLit, "BitAnd", PS("&"), ArgLit)>>)
EOArgs == C(<<ArgLit, Bin(ArgLit, "Or", S("OR"), ArgLit), V1("Subquery", V1("Select", N("SelectMin")))>>)

(* ------------------------------ SELECT --------------------------------- *)
SelExpr == ND("SelectExpr", <<F("expr", N("E")), F("as_", O(SQ(<<K("AS"), I>>)))>>)
SelExprS == ND("SelectExpr", <<F("expr", C(<<N("E"), Star, QStar>>)),
                               F("as_", O(SQ(<<K("AS"), I>>)))>>)
SelectFlag == CF(<<V1("Distinct", S("DISTINCT")), V1("All", S("ALL")),
    V1("DistinctRow", S("DISTINCTROW")), V1("HighPriority", S("HIGH_PRIORITY")),
    V1("StraightJoin", S("STRAIGHT_JOIN")), V1("SqlSmallResult", S("SQL_SMALL_RESULT")),
    V1("SqlBigResult", S("SQL_BIG_RESULT")), V1("SqlBufferResult", S("SQL_BUFFER_RESULT")),
    V1("SqlNoCache", S("SQL_NO_CACHE")), V1("SqlCalcFoundRows", S("SQL_CALC_FOUND_ROWS"))>>)

(* WHERE and HAVING store (expression, span): the span is recorded first     *)
(* and the pair swapped.                                                     *)
ExprThenSpan(kw) == TPERM(<<X(S(kw)), X(N("E"))>>, <<2, 1>>)
OrderFlag == C(<<NIL, V1("Asc", S("ASC")), V1("Desc", S("DESC"))>>)
OrderItems == L(T(<<X(N("E")), X(OrderFlag)>>), COMMA)
OrderBy == T(<<X(SS(<<"ORDER", "BY">>)), X(OrderItems)>>)
Limit == C(<< T(<<X(S("LIMIT")), X(NIL), X(N("EI"))>>),
              T(<<X(S("LIMIT")), X(N("EI")), P(","), X(N("EI"))>>),
              TPERM(<<X(S("LIMIT")), X(N("EI")), K("OFFSET"), X(N("EI"))>>, <<1, 3, 2>>) >>)
LockStrength == C(<<V1("Update", S("UPDATE")), V1("Share", S("SHARE")),
    SQ(<<G(PG), V1("NoKeyUpdate", SS(<<"NO", "KEY", "UPDATE">>))>>),
    SQ(<<G(PG), V1("KeyShare", SS(<<"KEY", "SHARE">>))>>)>>)
Locking == ND("Locking", <<F("for_span", S("FOR")), F("strength", LockStrength),
    F("of", O(T(<<X(S("OF")), X(Ids)>>))),
    F("wait", C(<<UV("Default"), V1("NoWait", S("NOWAIT")),
                  V1("SkipLocket", SS(<<"SKIP", "LOCKED">>))>>))>>)

(* ------------------- damaged elements (recovery) ----------------------- *)
(* Token sequences that are no element of the list they are put in, but are  *)
(* balanced and contain neither the separator nor the closing bracket.       *)
(* brackets of all kinds in one another, with the separator of the list in   *)
(* all of them                                                               *)
RECURSIVE Nest(_)
Nest(n) == LET l == <<"(", "[", "{", "(">>[(n % 4) + 1]
               r == <<")", "]", "}", ")">>[(n % 4) + 1]
           IN IF n = 0 THEN <<RAW(<<"n">>)>>
              ELSE <<P(l)>> \o Nest(n - 1) \o <<P(","), RAW(<<"i">>), P(r), P(","), RAW(<<"n">>)>>
InOne(xs) == <<P("(")>> \o xs \o <<P(")")>>
Deep == TLCEval(InOne(Nest(9)))
Deeper == TLCEval(InOne(Nest(70)))
BadName == << <<RAW(<<"n">>)>>, <<RAW(<<"i">>)>> \o Deep, <<P("=")>> \o Deeper, <<P("=")>>, <<RAW(<<"i">>), RAW(<<"i">>)>>,
              <<RAW(<<"i">>), P("="), RAW(<<"n">>)>>, <<K("WHERE")>>,
              <<P("("), RAW(<<"i">>), P(","), RAW(<<"i">>), P(")")>>,
              <<RAW(<<"i">>), P("["), RAW(<<"n">>), P(","), RAW(<<"n">>), P("]")>>,
              <<RAW(<<"n">>), P("{"), RAW(<<"i">>), P(","), RAW(<<"n">>), P("}")>>,
              <<P("."), RAW(<<"i">>)>>, <<>> >>

IndexHint == ND("IndexHint", <<
    F("use_", C(<<V1("Use", S("USE")), V1("Ignore", S("IGNORE")), V1("Force", S("FORCE"))>>)),
    F("type_", C(<<V1("Index", S("INDEX")), V1("Key", S("KEY"))>>)),
    F("for_", O(T(<<X(S("FOR")), X(C(<<V1("Join", S("JOIN")),
        V1("OrderBy", SS(<<"ORDER", "BY">>)), V1("GroupBy", SS(<<"GROUP", "BY">>))>>))>>))),
    F("lparen", PS("(")), F("index_list", LR(I, COMMA, BadName)), F("rparen", PS(")"))>>)
Alias == <<F("as_span", NIL), F("as_", NIL)>>
IndexHints == C(<<EL, SQ(<<G(M), L(IndexHint, NOSEP)>>)>>)
(* [AS alias | alias] pushes as_span and as_ *)
TableRefTable == LET n == <<F("identifier", QNU)>>
                     h == <<F("index_hints", IndexHints)>>
  IN C(<< ND("Table", n \o Alias \o h),
          ND("Table", n \o <<F("as_span", S("AS")), F("as_", I)>> \o h),
          ND("Table", n \o <<F("as_span", NIL), F("as_", IU)>> \o h) >>)
TableRefQuery == LET q == <<F("query", N("Derived"))>>
  IN C(<< ND("Query", q \o <<F("as_span", S("AS")), F("as_", I)>>),
          ND("Query", q \o Alias),
          ND("Query", q \o <<F("as_span", NIL), F("as_", IU)>>) >>)
TableRef1 == C(<<TableRefTable, TableRefQuery>>)

JoinOp == C(<<
    V1("Left", SS(<<"LEFT", "JOIN">>)), V1("Normal", S("JOIN")),
    V1("Inner", SS(<<"INNER", "JOIN">>)), V1("Cross", SS(<<"CROSS", "JOIN">>)),
    V1("Straight", S("STRAIGHT_JOIN")), V1("Right", SS(<<"RIGHT", "JOIN">>)),
    V1("Left", SS(<<"LEFT", "OUTER", "JOIN">>)), V1("Right", SS(<<"RIGHT", "OUTER", "JOIN">>)),
    V1("Natural", SS(<<"NATURAL", "JOIN">>)), V1("NaturalInner", SS(<<"NATURAL", "INNER", "JOIN">>)),
    V1("NaturalLeft", SS(<<"NATURAL", "LEFT", "JOIN">>)),
    V1("NaturalLeft", SS(<<"NATURAL", "LEFT", "OUTER", "JOIN">>)),
    V1("NaturalRight", SS(<<"NATURAL", "RIGHT", "JOIN">>)),
    V1("NaturalRight", SS(<<"NATURAL", "RIGHT", "OUTER", "JOIN">>)) >>)
JoinOn == ND("On", <<F("1", S("ON")), F("0", N("E"))>>)
JoinUsing == ND("Using", <<F("1", S("USING")), F("0", Ids)>>)
Join(spec) == NX("Join", <<"left">>, <<F("join", JoinOp), F("right", TableRef1),
                                       F("specification", spec)>>)
(* a table reference that may be followed by a comma: no USING at its end    *)
JoinTail  == C(<<SQ(<<>>), SQ(<<Join(C(<<JoinOn, NIL>>)), N("JoinTail")>>)>>)
TableRefs == C(<< L(SQ(<<TableRef1, N("JoinTail")>>), COMMA),
                  T(<<X(SQ(<<TableRef1, N("JoinTail"), Join(JoinUsing), N("JoinTail")>>))>>) >>)

FromPart == <<F("from_span", S("FROM")), F("table_references", N("TableRefs")),
    F("where_", O(ExprThenSpan("WHERE"))),
    F("group_by", O(T(<<X(SS(<<"GROUP", "BY">>)), X(L(N("E"), COMMA))>>))),
    F("having", O(ExprThenSpan("HAVING")))>>
NoFrom == <<F("from_span", NIL), F("table_references", NIL), F("where_", NIL),
    F("group_by", NIL), F("having", NIL), F("window_span", NIL),
    F("order_by", NIL), F("limit", NIL), F("locking", NIL)>>
SelHead(e) == <<F("select_span", S("SELECT")), F("flags", L0(SelectFlag)),
                F("select_exprs", L(e, COMMA))>>
SelectFull == ND("Select", SelHead(SelExprS) \o FromPart \o
    <<F("window_span", O(S("WINDOW"))), F("order_by", O(OrderBy)), F("limit", O(Limit)),
      F("locking", O(Locking))>>)
SelectNoFrom == ND("Select", SelHead(SelExprS) \o NoFrom)
(* a member of a UNION that is not parenthesised: ORDER BY, LIMIT and row    *)
(* locks belong to the whole                                                 *)
SelectMember == C(<<
    ND("Select", SelHead(SelExprS) \o FromPart \o <<F("window_span", NIL),
       F("order_by", NIL), F("limit", NIL), F("locking", NIL)>>), SelectNoFrom>>)
SelectMin == ND("Select", <<F("select_span", S("SELECT")), F("flags", EL),
    F("select_exprs", T(<<X(ND("SelectExpr", <<F("expr", N("EM")), F("as_", NIL)>>))>>))>>
    \o NoFrom)
SelectSmall == C(<<SelectMin, ND("Select", <<F("select_span", S("SELECT")), F("flags", EL),
    F("select_exprs", L(ND("SelectExpr", <<F("expr", N("EC")), F("as_", NIL)>>), COMMA)),
    F("from_span", S("FROM")),
    F("table_references", T(<<X(ND("Table", <<F("identifier", QNU)>> \o Alias \o
                                    <<F("index_hints", EL)>>))>>)),
    F("where_", O(ExprThenSpan("WHERE"))), F("group_by", NIL), F("having", NIL),
    F("window_span", NIL), F("order_by", O(OrderBy)), F("limit", O(Limit)), F("locking", NIL)>>)>>)

(* ------------------------------ UNION ---------------------------------- *)
UnionType == C(<<V1("All", S("ALL")), UV("Default"), V1("Distinct", S("DISTINCT"))>>)
Member(s) == C(<<V1("Select", s), SQ(<<LP, N("Query"), RP>>)>>)
UnionWith(s) == ND("UnionWith", <<F("union_span", S("UNION")), F("union_type", UnionType),
                               F("union_statement", Member(s))>>)
UnionOf(l, s) == ND("Union", <<F("left", l), F("with", L(UnionWith(s), NOSEP)),
                       F("order_by", O(OrderBy)), F("limit", O(Limit))>>)
Union(s) == UnionOf(Member(s), s)
(* a parenthesised query denotes the query itself *)
Query == C(<<V1("Select", N("SelectSmall")), V1("Union", Union(N("SelectMin"))),
             SQ(<<LP, N("Query"), RP>>)>>)
QueryFull == C(<<V1("Select", N("Select")), V1("Union", Union(SelectMember)),
                 SQ(<<LP, N("Query"), RP>>)>>)

(* ------------------------ INSERT and REPLACE --------------------------- *)
Assign == ND("InsertReplaceSetPair", <<F("column", I), F("equal_span", PS("=")),
                                       F("value", N("E"))>>)
OnDup == SQ(<<G(M), ND("InsertReplaceOnDuplicateKeyUpdate", <<
    F("on_duplicate_key_update_span", SS(<<"ON", "DUPLICATE", "KEY", "UPDATE">>)),
    F("pairs", L(Assign, COMMA))>>)>>)
OnConflict == SQ(<<G(PG), ND("OnConflict", <<
    F("on_conflict_span", SS(<<"ON", "CONFLICT">>)),
    F("target", C(<<ND("Columns", <<F("names", PIds)>>), NIL,
        ND("OnConstraint", <<F("on_constraint_span", SS(<<"ON", "CONSTRAINT">>)), F("name", I)>>)>>)),
    F("action", C(<<ND("DoUpdateSet", <<
            F("do_update_set_span", SS(<<"DO", "UPDATE", "SET">>)),
            F("sets", L(T(<<X(I), EQ, X(N("E"))>>), COMMA)),
            F("where_", O(T(<<X(S("WHERE")), X(N("E"))>>)))>>),
        V1("DoNothing", SS(<<"DO", "NOTHING">>))>>))>>)>>)
Returning(x) == O(SQ(<<x, T(<<X(S("RETURNING")), X(L(SelExprS, COMMA))>>)>>))
AnyDia == R({"M", "P", "S"})
InsCols == C(<<SQ(<<LP, LRR(I, COMMA, BadName), RP>>), EL>>)
BadExpr == << <<RAW(<<"n">>), RAW(<<"n">>)>>, <<RAW(<<"n">>), RAW(<<"n">>)>> \o Deep,
              <<RAW(<<"i">>), P("=")>> \o Deeper, <<P("=")>>, <<RAW(<<"i">>), P("+")>>,
              <<RAW(<<"i">>), K("WHERE"), RAW(<<"i">>)>>,
              <<RAW(<<"i">>), RAW(<<"i">>)>>, <<RAW(<<"n">>), P("("), RAW(<<"i">>), P(","), RAW(<<"i">>), P(")")>>,
              <<P("("), RAW(<<"n">>), RAW(<<"n">>), P(")")>>,
              <<K("CAST"), P("("), RAW(<<"i">>), P(",") , RAW(<<"i">>), P(")")>>,
              <<RAW(<<"i">>), P("["), RAW(<<"n">>), P(","), RAW(<<"n">>), P("]")>>,
              <<RAW(<<"n">>), P("{"), RAW(<<"i">>), P(","), RAW(<<"n">>), P("}")>>,
              <<RAW(<<"i">>), K("LIKE")>>, <<K("IS"), K("NULL")>>, <<K("NULL"), K("NULL")>>,
              <<RAW(<<"s">>), RAW(<<"n">>)>>, <<RAW(<<"i">>), P("="), P("=")>>,
              <<K("EXTRACT"), P("("), RAW(<<"n">>), P(")")>>,
              <<K("COUNT"), P("("), RAW(<<"n">>), RAW(<<"i">>), P(")")>>, <<>> >>
Rows == L(SQ(<<LP, LRR(N("E"), COMMA, BadExpr), RP>>), COMMA)
InsVals == <<
    F("columns", InsCols),
    F("values", C(<<T(<<X(S("VALUES")), X(Rows)>>), T(<<X(S("VALUE")), X(Rows)>>)>>)),
    F("select", NIL), F("set", NIL)>>
InsSel == <<F("columns", InsCols), F("values", NIL), F("select", N("SelectSmall")), F("set", NIL)>>
InsSet == <<F("columns", EL), F("values", NIL), F("select", NIL),
    F("set", ND("InsertReplaceSet", <<F("set_span", S("SET")), F("pairs", L(Assign, COMMA))>>))>>
InsFlag == CF(<<V1("Ignore", S("IGNORE")), V1("LowPriority", S("LOW_PRIORITY")),
               V1("HighPriority", S("HIGH_PRIORITY")), V1("Delayed", S("DELAYED"))>>)
RepFlag == CF(<<V1("LowPriority", S("LOW_PRIORITY")), V1("Delayed", S("DELAYED"))>>)
InsHead == <<F("type_", V1("Insert", S("INSERT"))), F("flags", L0(InsFlag)),
             F("into_span", OF(S("INTO"))), F("table", QN)>>
RepHead == <<F("type_", V1("Replace", S("REPLACE"))), F("flags", L0(RepFlag)),
             F("into_span", OF(S("INTO"))), F("table", QN)>>
(* ON DUPLICATE KEY UPDATE and ON CONFLICT exclude each other *)
InsTailNone == <<F("on_duplicate_key_update", NIL), F("on_conflict", NIL)>>
InsTailDup  == <<F("on_duplicate_key_update", OnDup), F("on_conflict", NIL)>>
InsTailConf == <<F("on_duplicate_key_update", NIL), F("on_conflict", OnConflict)>>
Ins(head, body, tail) == ND("InsertReplace", head \o body \o tail \o
                            <<F("returning", Returning(AnyDia))>>)
InsertAll == CF(<<Ins(InsHead, InsVals, InsTailNone), Ins(InsHead, InsVals, InsTailDup),
    Ins(InsHead, InsVals, InsTailConf), Ins(InsHead, InsSel, InsTailNone),
    Ins(InsHead, InsSel, InsTailDup), Ins(InsHead, InsSel, InsTailConf),
    Ins(InsHead, InsSet, InsTailNone),
    Ins(InsHead, InsSet, InsTailDup), Ins(InsHead, InsSet, InsTailConf), Ins(RepHead, InsVals, InsTailNone),
    Ins(RepHead, InsSel, InsTailNone), Ins(RepHead, InsSet, InsTailNone)>>)
InsertSmall == Ins(InsHead, InsVals, InsTailNone)

(* --------------------------- UPDATE, DELETE ---------------------------- *)
UpdFlag == CF(<<V1("LowPriority", S("LOW_PRIORITY")), V1("Ignore", S("IGNORE"))>>)
UpdCol == C(<<T(<<X(I)>>), T(<<X(I), P("."), X(I)>>), T(<<X(I), P("."), X(I), P("."), X(I)>>)>>)
Update == ND("Update", <<F("update_span", S("UPDATE")), F("flags", L0(UpdFlag)),
    F("tables", N("TableRefs")), F("set_span", S("SET")),
    F("set", L(T(<<X(UpdCol), EQ, X(N("E"))>>), COMMA)),
    F("where_", O(ExprThenSpan("WHERE"))), F("returning", Returning(G(PG)))>>)
DelFlag == CF(<<V1("Quick", S("QUICK")), V1("LowPriority", S("LOW_PRIORITY")), V1("Ignore", S("IGNORE"))>>)
QNs == L(QN, COMMA)
Delete == CF(<<
    ND("Delete", <<F("delete_span", S("DELETE")), F("flags", L0(DelFlag)),
      F("from_span", S("FROM")), F("tables", QNs),
      F("using", C(<<EL, SQ(<<K("USING"), N("TableRefs")>>)>>)),
      F("where_", O(ExprThenSpan("WHERE"))), F("returning", Returning(AnyDia))>>),
    ND("Delete", <<F("delete_span", S("DELETE")), F("flags", L0(DelFlag)),
      F("tables", L(QNU, COMMA)), F("from_span", S("FROM")), F("using", N("TableRefs")),
      F("where_", O(ExprThenSpan("WHERE"))), F("returning", Returning(AnyDia))>>)>>)

(* --------------------- WITH, SET, COPY, transactions -------------------- *)
WithInner == C(<<V1("Select", N("SelectSmall")), V1("InsertReplace", N("InsertSmall")),
                 V1("Update", N("UpdateSmall")), V1("Delete", N("DeleteSmall"))>>)
UpdateSmall == ND("Update", <<F("update_span", S("UPDATE")), F("flags", EL),
    F("tables", T(<<X(ND("Table", <<F("identifier", QNU)>> \o Alias \o <<F("index_hints", EL)>>))>>)),
    F("set_span", S("SET")), F("set", L(T(<<X(T(<<X(I)>>)), EQ, X(N("E"))>>), COMMA)),
    F("where_", O(ExprThenSpan("WHERE"))), F("returning", NIL)>>)
DeleteSmall == ND("Delete", <<F("delete_span", S("DELETE")), F("flags", EL),
      F("from_span", S("FROM")), F("tables", T(<<X(QN)>>)), F("using", EL),
      F("where_", O(ExprThenSpan("WHERE"))), F("returning", Returning(AnyDia))>>)
With == SQ(<<G(PG), ND("WithQuery", <<F("with_span", S("WITH")),
    F("with_blocks", L(ND("WithBlock", <<F("identifier", I), F("as_span", S("AS")),
        F("lparen_span", PS("(")), F("statement", WithInner), F("rparen_span", PS(")"))>>), COMMA)),
    F("statement", WithInner)>>)>>)
Set == ND("Set", <<F("set_span", S("SET")), F("values", L(T(<<X(I), EQ, X(N("E"))>>), COMMA))>>)
Copy == ND("Copy", <<F("copy_span", S("COPY")), F("table", I),
    F("columns", SQ(<<LP, C(<<LR(I, COMMA, BadName), EL>>), RP>>)),
    F("from_span", S("FROM")), F("stdin_span", S("STDIN"))>>)
Truncate == ND("TruncateTable", <<F("truncate_span", S("TRUNCATE")),
    F("table_span", OF(S("TABLE"))), F("table_name", QN)>>)
Rename == ND("RenameTable", <<F("rename_span", S("RENAME")), F("table_span", OF(S("TABLE"))),
    F("table_to_tables", L(ND("TableToTable", <<F("table", QN), F("to_span", S("TO")),
                                                F("new_table", QN)>>), COMMA))>>)
Trans == CF(<<V1("Begin", S("BEGIN")), V1("End", S("END")), V1("Commit", S("COMMIT")),
              V1("StartTransaction", SS(<<"START", "TRANSACTION">>))>>)

(* ------------------------------ types ---------------------------------- *)
Width  == O(SQ(<<LP, INT, RP>>))
WidthR == SQ(<<LP, INT, RP>>)
DT(kws, ty, props) == ND("DataType", <<F("identifier", SS(kws)), F("type_", ty),
                                       F("properties", props)>>)
TW(k, n, ps) == DT(<<k>>, V1(n, Width), ps)       \* optional width
TN(k, n, ps) == DT(<<k>>, V1(n, NIL), ps)         \* never a width
TP(k, n, ps) == DT(<<k>>, UV(n), ps)              \* plain
Strs == L(STR, COMMA)
WidthTypes == << <<"TINYINT", "TinyInt">>, <<"SMALLINT", "SmallInt">>,
    <<"INTEGER", "Integer">>, <<"BIGINT", "BigInt">>, <<"TINYTEXT", "TinyText">>,
    <<"CHAR", "Char">>, <<"TEXT", "Text">>, <<"MEDIUMTEXT", "MediumText">>,
    <<"LONGTEXT", "LongText">>, <<"VARCHAR", "VarChar">>, <<"TINYBLOB", "TinyBlob">>,
    <<"BLOB", "Blob">>, <<"MEDIUMBLOB", "MediumBlob">>, <<"LONGBLOB", "LongBlob">>,
    <<"BINARY", "Binary">>, <<"DATETIME", "DateTime">>, <<"TIME", "Time">> >>
PlainTypes == << <<"BOOLEAN", "Boolean">>, <<"INET4", "Inet4">>, <<"INET6", "Inet6">>,
    <<"FLOAT8", "Float8">>, <<"TIMESTAMPTZ", "Timestamptz">>, <<"DATE", "Date">>,
    <<"JSON", "Json">>, <<"BYTEA", "Bytea">> >>
DataTypes(ps) ==
    << TW("INT", "Int", ps) >>
    \o TLCEval([i \in 1..Len(WidthTypes) |-> TW(WidthTypes[i][1], WidthTypes[i][2], ps)])
    \o TLCEval([i \in 1..Len(PlainTypes) |-> TP(PlainTypes[i][1], PlainTypes[i][2], ps)])
    \o << DT(<<"VARBINARY">>, V1("VarBinary", WidthR), ps)
        , DT(<<"BIT">>, ND("Bit", <<LP, F("0", INTN), F("1", PREV), RP>>), ps)
        , TN("FLOAT", "Float", ps)
        , SQ(<<R({"M", "P"}), TN("REAL", "Float", ps)>>)
        , SQ(<<R(SL), TN("REAL", "Double", ps)>>)
        , SQ(<<R(MS), TN("DOUBLE", "Double", ps)>>)
        , SQ(<<R(PG), DT(<<"DOUBLE", "PRECISION">>, V1("Double", NIL), ps)>>)
        , ND("DataType", <<F("identifier", S("NUMERIC")),
             F("type_", ND("Numeric", <<LP, F("0", INTN), P(","), F("1", INTN), RP, F("2", HULL)>>)), F("properties", ps)>>)
        , ND("DataType", <<F("identifier", S("TIMESTAMP")),
             F("type_", V1("Timestamp", ND("Timestamp", <<F("width", Width),
                 F("with_time_zone", O(SS(<<"WITH", "TIME", "ZONE">>)))>>))),
             F("properties", ps)>>)
        , ND("DataType", <<F("identifier", S("ENUM")),
             F("type_", SQ(<<LP, V1("Enum", Strs), RP>>)), F("properties", ps)>>)
        , ND("DataType", <<F("identifier", S("SET")),
             F("type_", SQ(<<LP, V1("Set", Strs), RP>>)), F("properties", ps)>>)
        , SQ(<<G(PG), ND("DataType", <<F("identifier", N("TypeName")), F("type_", V1("Named", PREV)),
             F("properties", ps)>>)>>) >>
Props(as) == <<
    V1("NotNull", SS(<<"NOT", "NULL">>)), V1("Null", S("NULL")),
    SQ(<<K("DEFAULT"), V1("Default", N("EI"))>>),
    V1("AutoIncrement", S("AUTO_INCREMENT")), V1("Signed", S("SIGNED")),
    V1("Unsigned", S("UNSIGNED")), V1("Zerofill", S("ZEROFILL")),
    SQ(<<KK(<<"CHARACTER", "SET">>), V1("Charset", I)>>),
    SQ(<<K("COLLATE"), V1("Collate", I)>>),
    V1("Virtual", S("VIRTUAL")), V1("Persistent", S("PERSISTENT")), V1("Stored", S("STORED")),
    V1("Unique", S("UNIQUE")), V1("UniqueKey", SS(<<"UNIQUE", "KEY">>)),
    V1("PrimaryKey", SS(<<"PRIMARY", "KEY">>)),
    SQ(<<R(MS), V1("GeneratedAlways", SS(<<"GENERATED", "ALWAYS">>))>>),
    SQ(<<R(PG), V1("GeneratedAlways", SS(<<"GENERATED", "ALWAYS", "AS", "IDENTITY">>))>>),
    V1("Check", T(<<X(S("CHECK")), LP, X(N("E")), RP>>))>>
    \o as
AsProp == <<V1("As", T(<<X(S("AS")), LP, X(N("E")), RP>>)),
            SQ(<<K("COMMENT"), V1("Comment", STR)>>)>>
PropList(as) == L0(CF(Props(as)))
(* DTFull: every type and property; DTSmall: what other statements use.       *)
DTFull  == C(DataTypes(PropList(AsProp)))
DTSmall == C(<<TW("INT", "Int", L0(C(<<V1("NotNull", SS(<<"NOT", "NULL">>)),
                  SQ(<<K("DEFAULT"), V1("Default", N("EI"))>>),
                  SQ(<<K("COMMENT"), V1("Comment", STR)>>)>>))),
               TP("DATE", "Date", EL), TW("VARCHAR", "VarChar", EL)>>)
(* the result type of a function does not take AS or COMMENT *)
DTRetFull  == C(DataTypes(PropList(<<>>)))
DTRetSmall == C(<<TW("INT", "Int", EL), TP("DATE", "Date", EL)>>)

(* ------------------------------ CREATE --------------------------------- *)
CreateOpt == CF(<<V1("OrReplace", SS(<<"OR", "REPLACE">>)), V1("Temporary", S("TEMPORARY")),
    V1("Unique", S("UNIQUE")),
    ND("Algorithm", <<F("0", S("ALGORITHM")), EQ, F("1", C(<<V1("Merge", S("MERGE")),
        V1("Undefined", S("UNDEFINED")), V1("TempTable", S("TEMPTABLE"))>>))>>),
    ND("Definer", <<F("definer_span", S("DEFINER")), EQ, F("user", I), P("@"), F("host", I)>>),
    ND("SqlSecurityDefiner", <<F("0", SS(<<"SQL", "SECURITY">>)), F("1", S("DEFINER"))>>),
    ND("SqlSecurityUser", <<F("0", SS(<<"SQL", "SECURITY">>)), F("1", S("USER"))>>)>>)
CreateHead == <<F("create_span", S("CREATE")), F("create_options", L0(CreateOpt))>>
IfNotExists == F("if_not_exists", O(SS(<<"IF", "NOT", "EXISTS">>)))
IfExists    == F("if_exists", O(SS(<<"IF", "EXISTS">>)))

IgnIds == SQ(<<IGN, O0(SQ(<<P(","), IGN>>))>>)
FkAction == C(<<KK(<<"CASCADE">>), K("RESTRICT"), KK(<<"SET", "NULL">>), K("DELETE")>>)
ConstraintDef == ND("ConstraintDefinition", <<F("span", S("CONSTRAINT")), F("identifier", I),
    KK(<<"FOREIGN", "KEY">>), LP, IgnIds, RP, K("REFERENCES"), IGN, LP, IgnIds, RP,
    O0(SQ(<<KK(<<"ON", "DELETE">>), FkAction>>))>>)
ColumnDef == ND("ColumnDefinition", <<F("identifier", IU), F("data_type", N("DT"))>>)
OEq == OF0(EQ)
TOpt(n, kw, v) == ND(n, <<F("identifier", S(kw)), OEq, F("value", v)>>)
TableOpt == CF(<<TOpt("Engine", "ENGINE", I),
    ND("DefaultCharSet", <<F("identifier", S("DEFAULT")), K("CHARSET"), OEq, F("value", I)>>),
    ND("DefaultCollate", <<F("identifier", S("DEFAULT")), K("COLLATE"), OEq, F("value", I)>>),
    TOpt("CharSet", "CHARSET", I), TOpt("Collate", "COLLATE", I),
    TOpt("RowFormat", "ROW_FORMAT", I), TOpt("Comment", "COMMENT", STR),
    ND("Strict", <<F("identifier", S("STRICT"))>>)>>)
BadDef == << <<RAW(<<"i">>)>>, <<RAW(<<"i">>), K("INT"), RAW(<<"n">>)>> \o Deep, <<P("=")>> \o Deeper, <<P("=")>>, <<RAW(<<"i">>), K("INT"), RAW(<<"n">>)>>,
             <<RAW(<<"n">>), K("INT")>>, <<RAW(<<"i">>), K("INT"), K("DEFAULT")>>,
             <<RAW(<<"i">>), K("INT"), P("("), RAW(<<"s">>), P(")")>>,
             <<K("CONSTRAINT"), RAW(<<"i">>), K("FOREIGN")>>,
             <<RAW(<<"i">>), K("INT"), K("CHECK"), P("("), RAW(<<"n">>), P(","), RAW(<<"n">>), P(")")>>,
             <<RAW(<<"i">>), K("ENUM"), P("("), RAW(<<"n">>), P(","), RAW(<<"n">>), P(")")>>,
             <<RAW(<<"i">>), K("INT"), K("COMMENT")>>, <<>> >>
CreateTable == ND("CreateTable", CreateHead \o <<F("table_span", S("TABLE")),
    IfNotExists, F("identifier", QN), LP,
    F("create_definitions", C(<<LR(C(<<ColumnDef, ConstraintDef>>), COMMA, BadDef), EL>>)), RP,
    F("options", L0(TableOpt))>>)
CreateView == ND("CreateView", CreateHead \o <<F("view_span", S("VIEW")), IfNotExists,
    F("name", QN), F("as_span", S("AS")), F("select", N("Query"))>>)

Param == T(<<X(C(<<NIL, V1("In", S("IN")), V1("Out", S("OUT")), V1("InOut", S("INOUT")),
                   V1("InOut", SS(<<"IN", "OUT">>))>>)), X(I), X(N("DT"))>>)
Charac == CF(<<V1("Deterministic", S("DETERMINISTIC")),
    V1("NotDeterministic", SS(<<"NOT", "DETERMINISTIC">>)),
    V1("LanguageSql", SS(<<"LANGUAGE", "SQL">>)), V1("LanguagePlpgsql", SS(<<"LANGUAGE", "PLPGSQL">>)),
    V1("ContainsSql", SS(<<"CONTAINS", "SQL">>)), V1("NoSql", SS(<<"NO", "SQL">>)),
    V1("ReadsSqlData", SS(<<"READS", "SQL", "DATA">>)),
    V1("ModifiesSqlData", SS(<<"MODIFIES", "SQL", "DATA">>)),
    V1("SqlSecurityDefiner", SS(<<"SQL", "SECURITY", "DEFINER">>)),
    V1("SqlSecurityUser", SS(<<"SQL", "SECURITY", "USER">>)),
    SQ(<<K("COMMENT"), V1("Comment", STR)>>)>>)
CreateFunction == ND("CreateFunction", CreateHead \o <<F("function_span", S("FUNCTION")),
    IfNotExists, F("name", I), LP, F("params", L(Param, COMMA)), RP,
    F("returns_span", S("RETURNS")), F("return_type", N("DTR")),
    D(PG, OF0(SQ(<<K("AS"), P("$$"), N("Opaque"), P("$$")>>))),
    F("characteristics", L0(Charac)),
    F("return_", DIA(M, PERMIT(N("TrigBody")), NIL))>>)
CreateTrigger == ND("CreateTrigger", CreateHead \o <<F("trigger_span", S("TRIGGER")),
    IfNotExists, F("name", I),
    F("trigger_time", C(<<V1("Before", S("BEFORE")), V1("After", S("AFTER"))>>)),
    F("trigger_event", C(<<V1("Update", S("UPDATE")), V1("Insert", S("INSERT")),
                           V1("Delete", S("DELETE"))>>)),
    F("on_span", S("ON")), F("table", I),
    F("for_each_row_span", SS(<<"FOR", "EACH", "ROW">>)),
    F("statement", PERMIT(N("TrigBody")))>>)
CreateType == SQ(<<G(PG), ND("CreateTypeEnum", CreateHead \o <<F("type_span", S("TYPE")),
    F("name", I), F("as_enum_span", SS(<<"AS", "ENUM">>)), LP,
    F("values", LR(STR, COMMA, BadName)), RP>>)>>)
OpClass == C(<<K("TEXT_PATTERN_OPS"), K("VARCHAR_PATTERN_OPS"), K("BPCHAR_PATTERN_OPS"),
               K("INT8_OPS"), K("INT4_OPS"), K("INT2_OPS")>>)
CreateIndex == ND("CreateIndex", CreateHead \o <<F("index_span", S("INDEX")),
    IfNotExists, F("index_name", I), F("on_span", S("ON")), F("table_name", QN),
    F("index_options", C(<<EL, T(<<X(V1("UsingGist", SS(<<"USING", "GIST">>)))>>)>>)),
    F("l_paren_span", PS("(")),
    F("column_names", L(SQ(<<I, O0(SQ(<<G(PG), OpClass>>))>>), COMMA)),
    F("r_paren_span", PS(")")),
    F("where_", O(SQ(<<G(PS_), T(<<X(S("WHERE")), X(N("E"))>>)>>)))>>)

(* ------------------------------- ALTER --------------------------------- *)
ConstrName == O(T(<<X(S("CONSTRAINT")), X(OF(IU))>>))
IndexCol == ND("IndexCol", <<F("name", I), F("size", Width)>>)
IndexCols == SQ(<<LP, LRR(IndexCol, COMMA, BadName), RP>>)
IndexType == C(<<V1("Index", S("INDEX")), V1("Index", S("KEY")),
    V1("Primary", SS(<<"PRIMARY", "KEY">>)), V1("Unique", SS(<<"UNIQUE", "INDEX">>)),
    V1("Unique", SS(<<"UNIQUE", "KEY">>)), V1("FullText", SS(<<"FULLTEXT", "INDEX">>)),
    V1("FullText", SS(<<"FULLTEXT", "KEY">>)), V1("Spatial", SS(<<"SPATIAL", "INDEX">>)),
    V1("Spatial", SS(<<"SPATIAL", "KEY">>))>>)
IdxUsing == SQ(<<K("USING"), C(<<V1("IndexTypeBTree", S("BTREE")), V1("IndexTypeHash", S("HASH")),
                                 V1("IndexTypeRTree", S("RTREE"))>>)>>)
IdxOpt == CF(<<IdxUsing, SQ(<<K("COMMENT"), V1("Comment", STR)>>)>>)
(* the index type may be written before the columns; it comes first *)
AddIndexHead == <<F("add_span", S("ADD")), F("constraint", ConstrName),
    F("index_type", IndexType), IfNotExists, F("name", OF(IU))>>
AddIndex == C(<<ND("AddIndex", AddIndexHead \o <<F("cols", IndexCols), F("index_options", L0(IdxOpt))>>),
                ND("AddIndex", AddIndexHead \o <<F("index_options", T(<<X(IdxUsing)>>)),
                    F("cols", IndexCols), F("index_options", L0(IdxOpt))>>)>>)
FkOn == ND("ForeignKeyOn", <<
    F("type_", C(<<V1("Update", SS(<<"ON", "UPDATE">>)), V1("Delete", SS(<<"ON", "DELETE">>))>>)),
    F("action", C(<<V1("Cascade", S("CASCADE")), V1("Restrict", S("RESTRICT")),
        V1("SetNull", SS(<<"SET", "NULL">>)), V1("SetDefault", SS(<<"SET", "DEFAULT">>)),
        V1("NoAction", SS(<<"NO", "ACTION">>))>>))>>)
AddFk == ND("AddForeignKey", <<F("add_span", S("ADD")), F("constraint", ConstrName),
    F("foreign_key_span", SS(<<"FOREIGN", "KEY">>)), IfNotExists, F("name", OF(IU)),
    F("cols", IndexCols), F("references_span", S("REFERENCES")), F("references_table", I),
    F("references_cols", PIds), F("ons", L0(FkOn))>>)
AddColumn == ND("AddColumn", <<F("add_span", S("ADD")), K("COLUMN"),
    F("if_not_exists_span", O(SQ(<<G(PS_), SS(<<"IF", "NOT", "EXISTS">>)>>))),
    F("identifier", I), F("data_type", N("DT"))>>)
Modify == ND("Modify", <<F("modify_span", C(<<S("MODIFY"), SS(<<"MODIFY", "COLUMN">>)>>)),
    IfExists, F("col", I), F("definition", N("DT"))>>)
AlterCol == ND("AlterColumn", <<F("alter_column_span", SS(<<"ALTER", "COLUMN">>)), F("column", I),
    F("alter_column_action", C(<<
        ND("SetDefault", <<F("set_default_span", SS(<<"SET", "DEFAULT">>)), F("value", N("E"))>>),
        ND("DropDefault", <<F("drop_default_span", SS(<<"DROP", "DEFAULT">>))>>),
        ND("Type", <<F("type_span", S("TYPE")), F("type_", N("DT"))>>),
        ND("SetNotNull", <<F("set_not_null_span", SS(<<"SET", "NOT", "NULL">>))>>),
        ND("DropNotNull", <<F("drop_not_null_span", SS(<<"DROP", "NOT", "NULL">>))>>)>>))>>)
AlterSpec == CF(<<AddColumn, AddIndex, AddFk, Modify, AlterCol,
    ND("DropColumn", <<F("drop_column_span", SS(<<"DROP", "COLUMN">>)), F("column", I),
                       F("cascade", O(S("CASCADE")))>>),
    ND("OwnerTo", <<F("span", SS(<<"OWNER", "TO">>)), F("owner", I)>>)>>)
AlterTable == ND("AlterTable", <<F("alter_span", S("ALTER")), F("online", O(S("ONLINE"))),
    F("ignore", O(S("IGNORE"))), F("table_span", S("TABLE")), IfExists, F("table", QN),
    F("alter_specifications", L(AlterSpec, COMMA))>>)

(* -------------------------------- DROP --------------------------------- *)
Temp == F("temporary", O(S("TEMPORARY")))
Drop1(st, kwlab, kws, lab, x) == V1(st, ND(st, <<F("drop_span", S("DROP")), F(kwlab, S(kws)),
                                    IfExists, F(lab, x)>>))
DropAll == CF(<<
    V1("DropTable", ND("DropTable", <<F("drop_span", S("DROP")), Temp, F("table_span", S("TABLE")),
        IfExists, F("tables", QNs), F("cascade", O(SQ(<<G(PG), S("CASCADE")>>)))>>)),
    V1("DropView", ND("DropView", <<F("drop_span", S("DROP")), Temp, F("view_span", S("VIEW")),
        IfExists, F("views", QNs)>>)),
    Drop1("DropDatabase", "database_span", "DATABASE", "database", I),
    Drop1("DropDatabase", "database_span", "SCHEMA", "database", I),
    Drop1("DropEvent", "event_span", "EVENT", "event", QN),
    Drop1("DropFunction", "function_span", "FUNCTION", "function", QN),
    Drop1("DropProcedure", "procedure_span", "PROCEDURE", "procedure", QN),
    Drop1("DropServer", "server_span", "SERVER", "server", I),
    Drop1("DropTrigger", "trigger_span", "TRIGGER", "identifier", QN),
    V1("DropIndex", ND("DropIndex", <<F("drop_span", S("DROP")), F("index_span", S("INDEX")),
        IfExists, F("index_name", I), F("on", NIL), G(PS_)>>)),
    V1("DropIndex", ND("DropIndex", <<F("drop_span", S("DROP")), F("index_span", S("INDEX")),
        IfExists, F("index_name", I), F("on", SQ(<<G(MS), T(<<X(S("ON")), X(QN)>>)>>))>>))>>)

(* ------------------- routines, blocks and branches --------------------- *)
SEMI == <<P(";")>>
(* a statement list inside IF, CASE or BEGIN: statements separated by ;      *)
(* with an optional ; at the end                                             *)
Body0 == C(<<SQ(<<L(N("BStmt"), SEMI), P(";")>>), SQ(<<L(N("BStmt"), SEMI)>>),
            SQ(<<L(N("BStmt"), <<P(";"), P(";")>>), P(";")>>), EL>>)
IfSt == ND("If", <<F("if_span", S("IF")),
    F("conditions", T(<<X(ND("IfCondition", <<F("elseif_span", NIL),
        F("search_condition", N("E")), F("then_span", S("THEN")), F("then", N("Body"))>>))>>)),
    F("conditions", L0(ND("IfCondition", <<F("elseif_span", S("ELSEIF")),
        F("search_condition", N("E")), F("then_span", S("THEN")), F("then", N("Body"))>>))),
    F("else_", O(T(<<X(S("ELSE")), X(N("Body"))>>))),
    F("endif_span", SS(<<"END", "IF">>))>>)
CaseSt == ND("CaseStatement", <<F("case_span", S("CASE")), F("value", O(N("E"))),
    F("whens", L(ND("WhenStatement", <<F("when_span", S("WHEN")), F("when", N("E")),
        F("then_span", S("THEN")), F("then", N("Body"))>>), NOSEP)),
    F("else_", O(T(<<X(S("ELSE")), X(N("Body"))>>))), F("end_span", S("END"))>>)
Exc == SQ(<<K("EXCEPTION"), L(SQ(<<K("WHEN"), IGN, K("THEN"), N("EI"), P(";")>>), NOSEP), DROP>>)
Block == C(<<SQ(<<K("BEGIN"), N("Body"), K("END")>>),
    SQ(<<K("BEGIN"), L(N("BStmt"), SEMI), P(";"), Exc, K("END")>>)>>)
Return == ND("Return", <<F("return_span", S("RETURN")), F("expr", N("E"))>>)
SigName(kw, n) == V1(n, S(kw))
SigNames == C(<<SigName("MESSAGE_TEXT", "MessageText"), SigName("CLASS_ORIGIN", "ClassOrigin"),
    SigName("SUBCLASS_ORIGIN", "SubclassOrigin"), SigName("MYSQL_ERRNO", "MysqlErrno"),
    SigName("CONSTRAINT_CATALOG", "ConstraintCatalog"), SigName("CONSTRAINT_SCHEMA", "ConstraintSchema"),
    SigName("CONSTRAINT_NAME", "ConstraintName"), SigName("CATALOG_NAME", "CatalogName"),
    SigName("SCHEMA_NAME", "SchemaName"), SigName("TABLE_NAME", "TableName"),
    SigName("COLUMN_NAME", "ColumnName"), SigName("CURSOR_NAME", "CursorName")>>)
SignalHead == <<F("signal_span", S("SIGNAL")), F("sqlstate_span", S("SQLSTATE")),
    F("value_span", O(S("VALUE"))), F("sql_state", N("SqlState"))>>
Signal == C(<<
    ND("Signal", SignalHead \o <<F("set_span", S("SET")),
       F("sets", L(T(<<X(SigNames), X(PS("=")), X(N("E"))>>), COMMA))>>),
    ND("Signal", SignalHead \o <<F("set_span", NIL), F("sets", EL)>>)>>)
SetSmall == ND("Set", <<F("set_span", S("SET")), F("values", T(<<X(T(<<X(I), EQ, X(N("E"))>>))>>))>>)
(* BEGIN opens a block where blocks are permitted and starts a transaction   *)
(* elsewhere; END, as a statement, exists only where they are not.           *)
BStmt == C(<<V1("Set", SetSmall), V1("Select", N("SelectMin")), V1("If", N("IfSt")),
    V1("Block", N("Block")), V1("Case", N("CaseSt")), V1("Return", Return),
    V1("InsertReplace", N("InsertSmall")), V1("Update", N("UpdateSmall")),
    V1("Delete", N("DeleteSmall")), V1("Signal", Signal), V1("Commit", S("COMMIT")),
    V1("StartTransaction", SS(<<"START", "TRANSACTION">>)), V1("TruncateTable", Truncate),
    V1("Union", UnionOf(V1("Select", N("SelectMin")), N("SelectMin")))>>)
TrigBody == C(<<V1("Block", N("Block")), N("BStmt")>>)
Do == SQ(<<K("DO"), P("$$"), V1("Do", N("Block")), P("$$")>>)

(* ------------------------ the full expressions ------------------------- *)
Units == << <<"DAY", "Day">>, <<"MICROSECOND", "Microsecond">>, <<"SECOND", "Second">>,
    <<"MINUTE", "Minute">>, <<"HOUR", "Hour">>, <<"WEEK", "Week">>, <<"MONTH", "Month">>,
    <<"QUARTER", "Quarter">>, <<"YEAR", "Year">>, <<"SECOND_MICROSECOND", "SecondMicrosecond">>,
    <<"MINUTE_MICROSECOND", "MinuteMicrosecond">>, <<"MINUTE_SECOND", "MinuteSecond">>,
    <<"HOUR_MICROSECOND", "HourMicrosecond">>, <<"HOUR_SECOND", "HourSecond">>,
    <<"HOUR_MINUTE", "HourMinute">>, <<"DAY_MICROSECOND", "DayMicrosecond">>,
    <<"DAY_SECOND", "DaySecond">>, <<"DAY_MINUTE", "DayMinute">>, <<"DAY_HOUR", "DayHour">>,
    <<"YEAR_MONTH", "YearMonth">> >>
TimeUnit == C(TLCEval([i \in 1..Len(Units) |-> T(<<X(UV(Units[i][2])), X(S(Units[i][1]))>>)]))
NUM(n) == <<"CST", <<"#", n>>>>
IntervalQ == C(<< T(<<X(INTL), X(PREV)>>),
    T(<<RAW(<<"s", "12">>), X(T(<<X(NUM(12))>>)), X(PREV)>>),
    T(<<RAW(<<"s", "12:34">>), X(T(<<X(NUM(12)), X(NUM(34))>>)), X(PREV)>>),
    T(<<RAW(<<"s", "1 2:3.4">>), X(T(<<X(NUM(1)), X(NUM(2)), X(NUM(3)), X(NUM(4))>>)), X(PREV)>>),
    T(<<RAW(<<"s", "5-6,7!8">>), X(T(<<X(NUM(5)), X(NUM(6)), X(NUM(7)), X(NUM(8))>>)), X(PREV)>>),
    \* neighbouring strings are one string
    T(<<X(T(<<X(NUM(1)), X(NUM(23)), X(NUM(4))>>)), X(JS(<<RAW(<<"s", "1 2">>), RAW(<<"s", "3:4">>)>>))>>)>>)
Interval == ND("Interval", <<F("interval_span", S("INTERVAL")), F("time_interval", IntervalQ),
                             F("time_unit", TimeUnit)>>)
(* a query without parentheses may be the only argument *)
LoneQuery == T(<<X(V1("Subquery", V1("Select", N("SelectMin"))))>>)
ArgList == C(<<LR(N("E"), COMMA, BadExpr), EL, LoneQuery>>)
Args == SQ(<<LP, ArgList, RP>>)
FunWord(w, f) == ND("Function", <<F("0", UV(f)), F("2", S(w)), F("1", Args)>>)
FunTable == TLCEval([i \in 1..Len(FunctionTable) |-> FunWord(FunctionTable[i][1], FunctionTable[i][2])])
FunNoArg == << <<"CURRENT_TIMESTAMP", "CurrentTimestamp">>, <<"LOCALTIME", "Now">>,
    <<"LOCALTIMESTAMP", "Now">>, <<"UTC_TIMESTAMP", "UtcTimeStamp">>, <<"UTC_DATE", "UtcDate">>,
    <<"UTC_TIME", "UtcTime">>, <<"CURRENT_DATE", "CurDate">>, <<"CURRENT_TIME", "CurTime">> >>
FunBare == TLCEval([i \in 1..Len(FunNoArg) |->
    ND("Function", <<F("0", UV(FunNoArg[i][2])), F("1", EL), F("2", S(FunNoArg[i][1]))>>)])
Window(f) == ND("WindowFunction", f \o <<F("over_span", S("OVER")),
    LP, F("window_spec", ND("WindowSpec", <<F("order_by", OrderBy)>>)), RP>>)
FunOver == TLCEval([i \in 1..Len(FunctionTable) |->
    Window(<<F("function", UV(FunctionTable[i][2])), F("function_span", S(FunctionTable[i][1])),
             F("args", Args)>>)])
WindowCall == C(<<
    Window(<<F("function", UV("Lead")), F("function_span", S("LEAD")), F("args", Args)>>),
    Window(<<F("function", UV("Lag")), F("function_span", S("LAG")), F("args", Args)>>),
    Window(<<F("function", UV("Sum")), F("function_span", S("SUM")), F("args", Args)>>),
    Window(<<F("function", V1("Other", ITXT)), F("function_span", PREV), F("args", Args)>>)>>)
InList == SQ(<<LP, C(<<LR(N("E"), COMMA, BadExpr), LoneQuery>>), RP>>)
InX(x) == SQ(<<x, C(<<
    NX("In", <<"lhs">>, <<F("not_in", BV(FALSE)), F("in_span", S("IN")), F("rhs", InList)>>),
    NX("In", <<"lhs">>, <<F("not_in", BV(TRUE)), F("in_span", SS(<<"NOT", "IN">>)), F("rhs", InList)>>)>>)>>)
IsWords == << <<"NULL", "Null">>, <<"TRUE", "True">>, <<"FALSE", "False">>, <<"UNKNOWN", "Unknown">> >>
IsAlts == TLCEval([i \in 1..8 |-> IF i <= 4
    THEN NX("Is", <<"0">>, <<F("1", UV(IsWords[i][2])), F("2", SS(<<"IS", IsWords[i][1]>>))>>)
    ELSE NX("Is", <<"0">>, <<F("1", UV("Not" \o IsWords[i - 4][2])),
                             F("2", SS(<<"IS", "NOT", IsWords[i - 4][1]>>))>>)])
IsX(x) == SQ(<<x, C(IsAlts)>>)
CaseX == ND("Case", <<F("case_span", S("CASE")), F("value", O(N("E"))),
    F("whens", L(ND("When", <<F("when_span", S("WHEN")), F("when", N("E")),
        F("then_span", S("THEN")), F("then", N("E"))>>), NOSEP)),
    F("else_", O(T(<<X(S("ELSE")), X(N("E"))>>))), F("end_span", S("END"))>>)
Cast == ND("Cast", <<F("cast_span", S("CAST")), LP, F("expr", N("E")), F("as_span", S("AS")),
                     F("type_", N("DT")), RP>>)
Count == ND("Count", <<F("count_span", S("COUNT")), LP, F("distinct_span", O(S("DISTINCT"))),
                       F("expr", C(<<Star, N("EO")>>)), RP>>)
GroupConcat == ND("GroupConcat", <<F("group_concat_span", S("GROUP_CONCAT")), LP,
                       F("distinct_span", O(S("DISTINCT"))), F("expr", N("EO")), RP>>)
Extract == ND("Extract", <<F("extract_span", S("EXTRACT")), LP, F("time_unit", TimeUnit),
                       F("from_span", S("FROM")), F("date", N("EO")), RP>>)
TsAdd == ND("TimestampAdd", <<F("timestamp_add_span", S("TIMESTAMPADD")), LP, F("unit", TimeUnit),
                       P(","), F("interval", N("E")), P(","), F("datetime", N("EO")), RP>>)
TsDiff == ND("TimestampDiff", <<F("timestamp_diff_span", S("TIMESTAMPDIFF")), LP, F("unit", TimeUnit),
                       P(","), F("e1", N("E")), P(","), F("e2", N("EO")), RP>>)
Exists == SQ(<<K("EXISTS"), LP, V1("Exists", N("Query")), RP>>)
Variable == ND("Variable", <<
    <<"F", "global", PS("@@global")>>, F("session", NIL), F("dot", PS(".")),
    F("variable", C(<<V1("Other", N("VarName")), SQ(<<K("TIME_ZONE"), UV("TimeZone")>>)>>)),
    F("variable_span", PREV)>>)
VariableS == ND("Variable", <<
    F("global", NIL), F("session", PS("@@session")), F("dot", PS(".")),
    F("variable", C(<<V1("Other", N("VarName")), SQ(<<K("TIME_ZONE"), UV("TimeZone")>>)>>)),
    F("variable_span", PREV)>>)
(* a query inside an expression begins with SELECT, not with a parenthesis *)
SubqueryX == SQ(<<LP, C(<<V1("Subquery", V1("Select", N("SelectSmall"))),
                          V1("Subquery", V1("Union", UnionOf(V1("Select", N("SelectMin")), N("SelectMin"))))>>), RP>>)
BinOps == << <<"Or", S("OR")>>, <<"Or", PS("||")>>, <<"Xor", S("XOR")>>, <<"And", S("AND")>>,
    <<"And", PS("&&")>>, <<"Eq", PS("=")>>, <<"NullSafeEq", PS("<=>")>>, <<"GtEq", PS(">=")>>,
    <<"Gt", PS(">")>>, <<"LtEq", PS("<=")>>, <<"Lt", PS("<")>>, <<"Neq", PS("!=")>>,
    <<"Neq", PS("<>")>>, <<"ShiftLeft", PS("<<")>>, <<"ShiftRight", PS(">>")>>,
    <<"BitAnd", PS("&")>>, <<"BitOr", PS("|")>>, <<"Add", PS("+")>>, <<"Subtract", PS("-")>>,
    <<"Divide", PS("/")>>, <<"Mult", PS("*")>>, <<"Like", S("LIKE")>>,
    <<"NotLike", SS(<<"NOT", "LIKE">>)>> >>
UnOps == << <<"Not", S("NOT")>>, <<"Minus", PS("-")>>, <<"LogicalNot", PS("!")>>,
            <<"Binary", S("BINARY")>>, <<"Collate", S("COLLATE")>> >>
BinAlts == TLCEval([i \in 1..Len(BinOps) |->
    NX("Binary", <<"lhs">>, <<F("op", UV(BinOps[i][1])), F("op_span", BinOps[i][2]), F("rhs", N("Atom"))>>)])
BinX == SQ(<<N("Atom"), CF(BinAlts)>>)
UnX == CF(TLCEval([i \in 1..Len(UnOps) |-> Un(UnOps[i][1], UnOps[i][2], N("Atom"))]))
(* an operand: anything that may stand beside an operator *)
Special == <<Cast, Count, GroupConcat, Extract, Interval, TsAdd, TsDiff, CaseX, Exists,
    WindowCall, Variable, VariableS>>
Atom == C(<<Col, IntLit, StrLit, NullLit, BoolLit, FloatLit, QCol, QCol3,
            FunOther(ArgList), SQ(<<LP, N("X"), RP>>), SubqueryX>>)
Operators == <<BinX, UnX, InX(N("Atom")), IsX(N("Atom"))>>
XX == C(<<N("Atom"), BinX, UnX, InX(N("Atom")), IsX(N("Atom"))>> \o Special)

(* ------------------- minimal statements for one hole ------------------- *)
SelOf(x) == V1("Select", ND("Select", <<F("select_span", S("SELECT")), F("flags", EL),
    F("select_exprs", T(<<X(ND("SelectExpr", <<F("expr", x), F("as_", NIL)>>))>>))>> \o NoFrom))
QN1 == ND("QualifiedName", <<F("prefix", EL), F("identifier", I)>>)
(* one data type in each of the contexts that take one *)
TColumn == V1("CreateTable", ND("CreateTable", <<F("create_span", S("CREATE")), F("create_options", EL),
    F("table_span", S("TABLE")), F("if_not_exists", NIL), F("identifier", QN1), LP,
    F("create_definitions", L(ColumnDef, COMMA)), RP, F("options", EL)>>))
TAlter == V1("AlterTable", ND("AlterTable", <<F("alter_span", S("ALTER")), F("online", NIL),
    F("ignore", NIL), F("table_span", S("TABLE")), F("if_exists", NIL), F("table", QN1),
    F("alter_specifications", L(CF(<<
      ND("AddColumn", <<F("add_span", S("ADD")), K("COLUMN"), F("if_not_exists_span", NIL),
         F("identifier", I), F("data_type", N("DT"))>>),
      ND("Modify", <<F("modify_span", S("MODIFY")), F("if_exists", NIL), F("col", I),
         F("definition", N("DT"))>>),
      ND("AlterColumn", <<F("alter_column_span", SS(<<"ALTER", "COLUMN">>)), F("column", I),
         F("alter_column_action", ND("Type", <<F("type_span", S("TYPE")), F("type_", N("DT"))>>))>>)>>),
      COMMA))>>))
TFunction == V1("CreateFunction", ND("CreateFunction", <<F("create_span", S("CREATE")),
    F("create_options", EL), F("function_span", S("FUNCTION")), F("if_not_exists", NIL),
    F("name", I), LP, F("params", L(T(<<X(NIL), X(I), X(N("DT"))>>), COMMA)), RP,
    F("returns_span", S("RETURNS")), F("return_type", N("DTR")), F("characteristics", EL),
    F("return_", DIA(M, V1("Return", Return), NIL))>>))
TCast == SelOf(Cast)

(* ------------------------------ the table ------------------------------ *)
Rule == [
    E |-> ESmall, EC |-> Col, EM |-> C(<<Col, IntLit>>), EArgs |-> EArgs, EIArgs |-> EIArgs,
    EOArgs |-> EOArgs, EArg |-> ArgLit, EI |-> EISmall, EO |-> EOSmall,
    Atom |-> Atom, X |-> XX,
    SelectMin |-> SelectMin, SelectSmall |-> SelectSmall, Select |-> SelectFull,
    Query |-> Query, TableRefs |-> TableRefs, JoinTail |-> JoinTail,
    InsertSmall |-> InsertSmall, UpdateSmall |-> UpdateSmall, DeleteSmall |-> DeleteSmall,
    DT |-> DTSmall, DTR |-> DTRetSmall,
    Body |-> Body0, BStmt |-> BStmt, TrigBody |-> TrigBody, Block |-> Block,
    IfSt |-> IfSt, CaseSt |-> CaseSt,
    Derived |-> SQ(<<LP, N("Query"), RP>>), SqlState |-> C(<<StrLit, Col>>), TypeName |-> ISPAN, VarName |-> ITXT,
    Opaque |-> SQ(<<K("BEGIN"), IGN, P(";"), K("END"), P(";")>>),
    DTFull |-> DTFull, DTRFull |-> DTRetFull, EFull |-> XX,
    (* statements *)
    sSelect |-> CF(<<V1("Select", SelectFull), V1("Select", SelectNoFrom)>>),
    sUnion |-> V1("Union", Union(SelectMember)),
    sParen |-> SQ(<<LP, QueryFull, RP>>),
    sInsert |-> V1("InsertReplace", InsertAll),
    sUpdate |-> V1("Update", Update), sDelete |-> V1("Delete", Delete),
    sWith |-> V1("WithQuery", With), sSet |-> V1("Set", Set),
    sCopy |-> V1("Copy", Copy), sTruncate |-> V1("TruncateTable", Truncate),
    sRename |-> V1("RenameTable", Rename), sTrans |-> Trans,
    sTable |-> V1("CreateTable", CreateTable), sView |-> V1("CreateView", CreateView),
    sIndex |-> V1("CreateIndex", CreateIndex), sType |-> V1("CreateTypeEnum", CreateType),
    sAlter |-> V1("AlterTable", AlterTable), sDrop |-> DropAll,
    sFunction |-> V1("CreateFunction", CreateFunction),
    sTrigger |-> V1("CreateTrigger", CreateTrigger),
    sIf |-> V1("If", IfSt), sCase |-> V1("Case", CaseSt), sDo |-> Do,
    sReturn |-> V1("Return", Return), sSignal |-> V1("Signal", Signal),
    tColumn |-> TColumn, tAlter |-> TAlter, tFunction |-> TFunction, tCast |-> TCast,
    xFun |-> SelOf(CF(FunTable)), xBare |-> SelOf(CF(FunBare)), xOther |-> SelOf(FunOther(ArgList)),
    xOver |-> SelOf(CF(FunOver)), xSpecial |-> SelOf(CF(Special)), xOperator |-> SelOf(CF(Operators)),
    xAtom |-> SelOf(N("Atom")), xExpr |-> SelOf(XX)
]
=============================================================================
