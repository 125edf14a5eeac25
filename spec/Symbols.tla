------------------------------ MODULE Symbols ------------------------------
(* The notation in which Grammar.tla is written.  A symbol is a tuple whose  *)
(* first component is a string tag; Gen.tla gives each tag its meaning as a  *)
(* step of a generating push-down automaton that emits tokens and builds the *)
(* expected syntax tree, Rec.tla as a step of a recognising automaton.       *)
(*                                                                           *)
(* "pushing" symbols leave exactly one value on the value stack.             *)
EXTENDS Naturals, Sequences, TLC

(* -- terminals --------------------------------------------------------- *)
K(w)      == <<"K", <<w>>>>        \* a keyword, nothing pushed
KK(ws)    == <<"K", ws>>           \* several keywords
S(w)      == <<"KS", <<w>>>>       \* a keyword, pushes its span
SS(ws)    == <<"KS", ws>>          \* several keywords, pushes the joined span
P(c)      == <<"P", c>>            \* punctuation
PS(c)     == <<"PS", c>>           \* punctuation, pushes its span
I         == <<"I", "d">>          \* a name; pushes an Identifier
IU        == <<"I", "i">>          \* the same where PostgreSQL's "name" is not
                                   \* supported (it is taken for a string)
ISPAN     == <<"IS">>              \* a name; pushes only its span
INT       == <<"INT">>             \* integer literal; pushes (value, span)
FLT       == <<"FLT">>             \* float literal; pushes (value, span)
STR       == <<"STR">>             \* string literal; pushes an SString
ARG       == <<"ARG">>             \* placeholder; pushes (index, span)
INTN      == <<"INTN">>            \* integer literal; pushes only the value
INTL      == <<"INTL">>            \* integer literal; pushes the list [value]
ITXT      == <<"IX">>              \* a name; pushes only its text
IGN       == <<"IG">>              \* a name, nothing pushed
PREV      == <<"PREV">>            \* pushes the span of the last token
RAW(t)    == <<"RAW", t>>          \* a raw token, nothing pushed

(* -- constants --------------------------------------------------------- *)
NIL       == <<"CST", <<"Z">>>>          \* pushes None
EL        == <<"CST", <<"L", <<>>>>>>    \* pushes an empty list
UV(n)     == <<"CST", <<"O", n, <<>>, <<>>>>>>  \* pushes a unit variant
BV(b)     == <<"CST", <<"B", b>>>>       \* pushes a boolean
TXT(t)    == <<"CST", <<"W", t>>>>       \* pushes a text
HULL      == <<"CST", <<"h">>>>          \* pushes the span of the enclosing node
(* what stands for a damaged element of a list in the tree *)
LOST      == <<"?">>               \* anything or nothing
LOSTREST  == <<"?*">>              \* anything, and so for all that follow it

(* -- combinators -------------------------------------------------------- *)
N(nt)     == <<"N", nt>>
O(x)      == <<"O", x, 1>>         \* optional: absent pushes None
OF(x)     == <<"O", x, 0>>         \* the same, but taking it is free
O0(x)     == <<"O0", x, 1>>        \* optional, nothing pushed either way
OF0(x)    == <<"O0", x, 0>>
C(alts)   == <<"C", alts, 1>>      \* choice, first alternative free
CF(alts)  == <<"C", alts, 0>>      \* choice, all free
L(x, sep) == <<"L", x, sep>>       \* one or more, pushes the list
L2(x, sep)== <<"L2", x, sep>>      \* two or more
L0(x)     == <<"L0", x>>           \* zero or more without separator
SQ(xs)    == <<"SQ", xs>>          \* a sequence
JS(xs)    == <<"JS", xs>>          \* pushes the span of all tokens of xs only
R(ds)     == <<"R", ds>>           \* the rest exists only in these dialects
G(ds)     == <<"G", ds>>           \* accepted everywhere, an error outside ds
DIA(ds, x, y) == <<"D", ds, x, y>> \* x in these dialects, y elsewhere
D(ds, x)  == DIA(ds, x, <<"SQ", <<>>>>)
PERMIT(x) == <<"PERMIT", x>>       \* x with BEGIN ... END blocks permitted
IFC(x, y) == <<"IFC", x, y>>       \* x where blocks are permitted, else y
DROP      == <<"DROP">>            \* discards the value pushed last
LR(x, sep, dm) == <<"L", <<"DM", x, dm, LOST>>, sep>> \* list whose elements recover
LRR(x, sep, dm) == <<"L", <<"DM", x, dm, LOSTREST>>, sep>> \* list that recovers as a whole

F(l, x)   == <<"F", l, x>>         \* labelled part of a node
PartSyms(ps) == TLCEval([i \in 1..Len(ps) |-> IF ps[i][1] = "F" THEN ps[i][3] ELSE ps[i]])
PartLabels(ps) == LET f == SelectSeq(ps, LAMBDA x : x[1] = "F")
                  IN TLCEval([i \in 1..Len(f) |-> f[i][2]])
ND(name, ps)      == <<"ND", name, PartLabels(ps), PartSyms(ps)>>
(* A label that occurs twice in a node stands for the concatenation of the   *)
(* two lists.  *)
(* node that also takes values pushed before it *)
NX(name, pre, ps) == <<"ND", name, pre \o PartLabels(ps), PartSyms(ps)>>
V1(name, x)       == ND(name, <<F("0", x)>>)
T(ps)     == LET n == Len(SelectSeq(ps, LAMBDA x : x[1] = "F"))
             IN <<"T", TLCEval([i \in 1..n |-> i]), PartSyms(ps)>>
(* tuple whose i-th component is the pm[i]-th part written *)
TPERM(ps, pm) == <<"T", pm, PartSyms(ps)>>
X(x)      == F("", x)              \* unlabelled part (of a tuple)
=============================================================================
