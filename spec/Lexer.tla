------------------------------- MODULE Lexer -------------------------------
(* Characters to tokens.  The environment writes a text character by         *)
(* character; the automaton reads each character as it comes, keeps the      *)
(* token under construction and its value, and finishes a token when a       *)
(* character cannot extend it.  Every reachable state is one text; its       *)
(* tokens and their values are replayed into the implementation.             *)
(*                                                                           *)
(* Characters are strings of length one, or names (NUL, BEL, FF, U2, U3, U4, *)
(* NBSP) for characters that are none of the language's.                     *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Prefixes,     \* set of texts (sequences of characters) to start with
          Alphabet,     \* characters appended to them
          MaxLen        \* number of characters appended

VARIABLES text, left, mode, from, val, toks
vars == <<text, left, mode, from, val, toks>>

Digits  == {"0","1","2","3","4","5","6","7","8","9"}
Lower   == {"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z"}
Upper   == {"A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z"}
Letters == Lower \cup Upper \cup {"_"}
Blank   == {" ", "\t", "\n", "\r"}
Single  == {"?", ";", "\\", "[", "]", "^", "{", "}", "(", ")", ",", "+", "*", "#", "~"}

(* multi-character operators: what may extend what *)
Extends == [m \in {"&", "%", ":", "=", "!", "<", "<=", ">", "|", "$", "@"} |->
    CASE m = "&"  -> {"&"} [] m = "%" -> {"s"} [] m = ":" -> {":"} [] m = "=" -> {">"}
      [] m = "!"  -> {"=", "!"} [] m = "<" -> {"=", ">", "<"} [] m = "<=" -> {">"}
      [] m = ">"  -> {"=", ">"} [] m = "|" -> {"|"} [] m = "$" -> {"$"} [] m = "@" -> {"@"}]
(* @@global, @@session: the letters still expected *)
Global == <<"g","l","o","b","a","l">>
Session == <<"s","e","s","s","i","o","n">>
Same(c, w) == (c = w) \/ \E p \in {<<"a","A">>,<<"b","B">>,<<"e","E">>,<<"g","G">>,<<"i","I">>,<<"l","L">>,
                                 <<"n","N">>,<<"o","O">>,<<"s","S">>} : w = p[1] /\ c = p[2]

(* ------------------------------ numbers ------------------------------- *)
Ord(c) == CHOOSE i \in 0..9 : c = <<"0","1","2","3","4","5","6","7","8","9">>[i + 1]
RECURSIVE Strip(_)
Strip(ds) == IF Len(ds) > 1 /\ ds[1] = "0" THEN Strip(Tail(ds)) ELSE ds
RECURSIVE Leq(_, _)
Leq(x, y) == \/ x = <<>>
             \/ Ord(x[1]) < Ord(y[1])
             \/ x[1] = y[1] /\ Leq(Tail(x), Tail(y))
MaxU64 == <<"1","8","4","4","6","7","4","4","0","7","3","7","0","9","5","5","1","6","1","5">>
Fits(ds) == LET s == Strip(ds) IN (Len(s) < 20) \/ (Len(s) = 20 /\ Leq(s, MaxU64))

(* ------------------------------ escapes ------------------------------- *)
Escaped(c) == CASE c = "0" -> <<"NUL">> [] c = "b" -> <<"BS">> [] c = "n" -> <<"\n">>
                [] c = "r" -> <<"\r">> [] c = "t" -> <<"\t">> [] c = "Z" -> <<"SUB">>
                [] c \in {"%", "_"} -> <<"\\", c>> [] OTHER -> <<c>>

(* ------------------------------ the automaton ------------------------- *)
(* state s: mode, from (first character of the token), val, toks; n is the   *)
(* number of characters read before                                          *)
Tok(kind, a, b, v) == [k |-> kind, a |-> a, b |-> b, v |-> v]
Fin(s, kind, b) == [mode |-> "ws", from |-> 0, val |-> <<>>, toks |-> Append(s.toks, Tok(kind, s.from, b, s.val))]
Cont(s, m) == [s EXCEPT !.mode = m]
Add(s, m, v) == [s EXCEPT !.mode = m, !.val = @ \o v]

(* the token that ends because nothing extends it, b its last character      *)
Flush(s, b) ==
    CASE s.mode = "ws"   -> s
      [] s.mode = "id"   -> Fin(s, "word", b)
      [] s.mode = "x"    -> Fin(s, "word", b)
      [] s.mode = "hex"  -> Fin(s, "invalid", b)
      [] s.mode = "bt"   -> Fin(s, "invalid", b)
      [] s.mode \in {"s'", "s\"", "e'", "e\""} -> Fin(s, "invalid", b)
      [] s.mode \in {"q'", "q\""} -> Fin(s, "string", b)
      [] s.mode = "int"  -> Fin(s, IF Fits(s.val) THEN "int" ELSE "bigint", b)
      [] s.mode = "flt"  -> Fin(s, "float", b)
      [] s.mode = "."    -> Fin(s, "op", b)
      [] s.mode = "-"    -> Fin(s, "op", b)
      [] s.mode = "/"    -> Fin(s, "op", b)
      [] s.mode \in {"$", "@@", "var"} -> Fin(s, "invalid", b)
      [] s.mode = "arg"  -> Fin(s, IF Fits(s.val) THEN "arg" ELSE "invalid", b)
      [] s.mode = "lc"   -> [s EXCEPT !.mode = "ws"]
      [] s.mode \in {"bc", "bc*"} -> Fin(s, "invalid", b)
      [] OTHER           -> Fin(s, "op", b)

(* a new token *)
Open(s0, c, n) ==
    LET s == [s0 EXCEPT !.from = n, !.val = <<>>]
        one(k) == Fin(s, k, n)
    IN CASE c \in Blank   -> [s EXCEPT !.mode = "ws"]
         [] c \in Single  -> one("op")
         [] c \in {"x", "X"} -> Cont(s, "x")
         [] c \in Letters -> Cont(s, "id")
         [] c \in Digits  -> Add(s, "int", <<c>>)
         [] c = "`"       -> Cont(s, "bt")
         [] c = "'"       -> Cont(s, "s'")
         [] c = "\""      -> Cont(s, "s\"")
         [] c \in {"&", "%", ":", "=", "!", "<", ">", "|", "$", "@", "-", "/", "."} -> Cont(s, c)
         [] OTHER         -> one("invalid")

Feed(s, c, n) ==
    LET again == Open(Flush(s, n - 1), c, n)
        quote == IF s.mode \in {"s'", "e'", "q'"} THEN "'" ELSE "\""
        m == s.mode
    IN CASE m = "ws" -> Open(s, c, n)
         [] m = "id" -> IF c \in Letters \cup Digits THEN s ELSE again
         [] m = "x"  -> IF c = "'" THEN Cont(s, "hex")
                        ELSE IF c \in Letters \cup Digits THEN Cont(s, "id") ELSE again
         [] m = "hex" -> IF c = "'" THEN Fin(s, "invalid", n) ELSE s
         [] m = "bt" -> IF c \in Letters \cup Digits \cup {"-"} THEN Add(s, "bt", <<c>>)
                        ELSE IF c = "`" THEN Fin(s, "name", n) ELSE again
         [] m \in {"s'", "s\""} -> IF c = "\\" THEN Cont(s, "e" \o quote)
                                  ELSE IF c = quote THEN Cont(s, "q" \o quote) ELSE Add(s, m, <<c>>)
         [] m \in {"e'", "e\""} -> Add(s, "s" \o quote, Escaped(c))
         [] m \in {"q'", "q\""} -> IF c = quote THEN Add(s, "s" \o quote, <<c>>) ELSE again
         [] m = "int" -> IF c \in Digits THEN Add(s, m, <<c>>)
                         ELSE IF c = "." THEN Add(s, "flt", <<c>>) ELSE again
         [] m = "flt" -> IF c \in Digits THEN Add(s, m, <<c>>) ELSE again
         [] m = "."   -> IF c \in Digits THEN Add(s, "flt", <<".", c>>) ELSE again
         [] m = "-"   -> IF c = "-" THEN Cont(s, "lc") ELSE again
         [] m = "/"   -> IF c = "/" THEN Cont(s, "lc") ELSE IF c = "*" THEN Cont(s, "bc") ELSE again
         [] m = "lc"  -> IF c \in {"\n", "\r"} THEN Cont(s, "ws") ELSE s
         [] m = "bc"  -> IF c = "*" THEN Cont(s, "bc*") ELSE s
         [] m = "bc*" -> IF c = "/" THEN Cont(s, "ws") ELSE IF c = "*" THEN s ELSE Cont(s, "bc")
         [] m = "$"   -> IF c = "$" THEN Fin(s, "op", n)
                         ELSE IF c \in Digits \ {"0"} THEN Add(s, "arg", <<c>>) ELSE again
         [] m = "arg" -> IF c \in Digits THEN Add(s, m, <<c>>) ELSE again
         [] m = "@"   -> IF c = "@" THEN Cont(s, "@@") ELSE again
         [] m = "@@"  -> IF Same(c, "g") THEN Add(s, "var", <<"g">>)
                         ELSE IF Same(c, "s") THEN Add(s, "var", <<"s">>) ELSE again
         [] m = "var" -> LET w == IF s.val[1] = "g" THEN Global ELSE Session
                             k == Len(s.val) + 1
                         IN IF ~Same(c, w[k]) THEN again
                            ELSE IF k = Len(w) THEN Fin(s, "op", n) ELSE Add(s, m, <<w[k]>>)
         [] m = "<=" -> IF c = ">" THEN Fin(s, "op", n) ELSE again
         [] m = "<"   -> IF c = "=" THEN Cont(s, "<=") ELSE IF c \in Extends["<"] THEN Fin(s, "op", n) ELSE again
         [] OTHER     -> IF c \in Extends[m] THEN Fin(s, "op", n) ELSE again

St == [mode |-> mode, from |-> from, val |-> val, toks |-> toks]
Set(s) == mode' = s.mode /\ from' = s.from /\ val' = s.val /\ toks' = s.toks

RECURSIVE FeedAll(_, _, _)
FeedAll(s, cs, n) == IF cs = <<>> THEN s ELSE FeedAll(Feed(s, Head(cs), n), Tail(cs), n + 1)

Init == \E p \in Prefixes :
    /\ text = p /\ left = MaxLen
    /\ LET s == FeedAll([mode |-> "ws", from |-> 0, val |-> <<>>, toks |-> <<>>], p, 1)
       IN mode = s.mode /\ from = s.from /\ val = s.val /\ toks = s.toks

Read(c) ==
    /\ left > 0 /\ left' = left - 1
    /\ text' = Append(text, c)
    /\ Set(Feed(St, c, Len(text) + 1))

Next == \E c \in Alphabet : Read(c)
Spec == Init /\ [][Next]_vars

(* the tokens of the text as it stands *)
Tokens == Flush(St, Len(text)).toks

(* ------------------------------ properties ---------------------------- *)
(* tokens lie in order within the text and do not overlap *)
Ordered == LET ts == Tokens
           IN \A i \in 1..Len(ts) : /\ 1 <= ts[i].a /\ ts[i].a <= ts[i].b /\ ts[i].b <= Len(text)
                                    /\ i > 1 => ts[i - 1].b < ts[i].a
(* what is in no token is white space or the inside of a comment: in a text  *)
(* without "-" and "/" everything but blanks is in a token                   *)
Covered == LET ts == Tokens
           IN (\A i \in 1..Len(text) : text[i] \notin {"-", "/"}) =>
              \A i \in 1..Len(text) : text[i] \in Blank \/ \E j \in 1..Len(ts) : ts[j].a <= i /\ i <= ts[j].b
(* the value of a string, said without the automaton: the text between the   *)
(* quotes with the escapes and doubled quotes replaced                       *)
RECURSIVE Decode(_, _)
Decode(cs, q) == IF cs = <<>> THEN <<>>
                 ELSE IF cs[1] = "\\" THEN Escaped(cs[2]) \o Decode(SubSeq(cs, 3, Len(cs)), q)
                 ELSE IF cs[1] = q THEN <<q>> \o Decode(SubSeq(cs, 3, Len(cs)), q)
                 ELSE <<cs[1]>> \o Decode(Tail(cs), q)
Decoded == \A i \in 1..Len(Tokens) : LET t == Tokens[i] IN
              t.k = "string" => t.v = Decode(SubSeq(text, t.a + 1, t.b - 1), text[t.a])
                                /\ text[t.a] = text[t.b]
(* reading a text from the start of one of its tokens finds the same tokens *)
Stateless == LET ts == Tokens IN Len(ts) < 2 \/
    LET a == ts[2].a
        s == FeedAll([mode |-> "ws", from |-> 0, val |-> <<>>, toks |-> <<>>], SubSeq(text, a, Len(text)), a)
    IN Flush(s, Len(text)).toks = Tail(ts)

(* the quantity of an INTERVAL written as a string: the numbers between the  *)
(* separators                                                                *)
Separators == {":", "!", ",", ".", "-", " "}
RECURSIVE Split(_, _)
Split(cs, cur) == IF cs = <<>> THEN <<cur>>
                  ELSE IF cs[1] \in Separators THEN <<cur>> \o Split(Tail(cs), <<>>)
                  ELSE Split(Tail(cs), Append(cur, cs[1]))
IsNumber(ds) == Len(ds) \in 1..18 /\ \A i \in 1..Len(ds) : ds[i] \in Digits
Parts(v) == LET p == Split(v, <<>>) IN IF \A i \in 1..Len(p) : IsNumber(p[i]) THEN p ELSE <<>>
SplitJoins == \A i \in 1..Len(Tokens) : LET t == Tokens[i] IN
    t.k = "string" => Len(Split(t.v, <<>>)) = 1 + Cardinality({j \in 1..Len(t.v) : t.v[j] \in Separators})

Emit == PrintT(ToJson([t |-> text, k |-> Tokens]))
EmitInterval == LET ts == Tokens IN
    (Len(ts) = 1 /\ ts[1].k = "string") => PrintT(ToJson([t |-> text, k |-> ts, p |-> Parts(ts[1].v)]))
=============================================================================
