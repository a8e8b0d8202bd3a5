------------------------------ MODULE UniEnum ------------------------------
(***************************************************************************)
(* Every code point in every kind of place: the code points are divided    *)
(* into intervals that the lexer treats alike; for each interval and each  *)
(* place the specification says what the lexer delivers for its first code *)
(* point, which holds for all of it with that code point in its place.     *)
(***************************************************************************)
EXTENDS LexFrames, Json
CONSTANTS Places
VARIABLES vPlace, vInt

Place ==
  TLCEval(
  "alone" :> [pre |-> <<>>, suf |-> <<>>, re |-> FALSE] @@
  "after" :> [pre |-> Codes("a"), suf |-> <<>>, re |-> FALSE] @@
  "inside" :> [pre |-> Codes("if"), suf |-> Codes("b"), re |-> FALSE] @@
  "between" :> [pre |-> Codes("; "), suf |-> Codes(" ;"), re |-> FALSE] @@
  "priv" :> [pre |-> Codes("#"), suf |-> <<>>, re |-> FALSE] @@
  "privafter" :> [pre |-> Codes("#a"), suf |-> Codes(" "), re |-> FALSE] @@
  "num" :> [pre |-> Codes("1"), suf |-> Codes(";"), re |-> FALSE] @@
  "punct" :> [pre |-> Codes("+"), suf |-> Codes("="), re |-> FALSE] @@
  "str" :> [pre |-> Codes("'"), suf |-> Codes("'"), re |-> FALSE] @@
  "strtwo" :> [pre |-> Codes("\"a"), suf |-> Codes("b\" "), re |-> FALSE] @@
  "stresc" :> [pre |-> Codes("'\\"), suf |-> Codes("'"), re |-> FALSE] @@
  "block" :> [pre |-> Codes("/*"), suf |-> Codes("*/a"), re |-> FALSE] @@
  "star" :> [pre |-> Codes("/**"), suf |-> Codes("/ a*/"), re |-> FALSE] @@
  "line" :> [pre |-> Codes("a//"), suf |-> Codes("b"), re |-> FALSE] @@
  "regex" :> [pre |-> Codes("/"), suf |-> Codes("/g"), re |-> TRUE] @@
  "reclass" :> [pre |-> Codes("/["), suf |-> Codes("/]/"), re |-> TRUE] @@
  "reesc" :> [pre |-> Codes("/\\"), suf |-> Codes("/"), re |-> TRUE] @@
  "flags" :> [pre |-> Codes("/a/"), suf |-> <<>>, re |-> TRUE] @@
  "flagsin" :> [pre |-> Codes("/a/g"), suf |-> Codes("i "), re |-> TRUE])

(* The first code points of the intervals. *)
Single == 0..127 \cup WhiteSpaces \cup LineTerms \cup {8204, 8205}
Bounds == TLCEval(
  SetToSortSeq(
    Single \cup {c + 1 : c \in Single} \cup {1114112}
    \cup UNION {{StartRanges[r][1], StartRanges[r][2] + 1} : r \in 1..Len(StartRanges)}
    \cup UNION {{ContRanges[r][1], ContRanges[r][2] + 1} : r \in 1..Len(ContRanges)}
    \cup UNION {{UnknownRanges[r][1], UnknownRanges[r][2] + 1} : r \in 1..Len(UnknownRanges)},
    LAMBDA x, y : x < y))

Init == vPlace \in Places /\ vInt = 1
Next == vInt < Len(Bounds) - 1 /\ vInt' = vInt + 1 /\ vPlace' = vPlace
Spec == Init /\ [][Next]_<<vPlace, vInt>>

Lo == Bounds[vInt]
Hi == Bounds[vInt + 1] - 1
Tx(c) == Place[vPlace].pre \o <<c>> \o Place[vPlace].suf
Fin(c) == End(FeedAll(Fresh(Place[vPlace].re), Tx(c)))

(* What the division into intervals rests on. *)
Alike == Fin(Lo) = [Fin(Hi) EXCEPT !.s = Fin(Lo).s]
Total == Bounds[1] = 0 /\ Bounds[Len(Bounds)] = 1114112

Emit ==
  LET e == Fin(Lo)
      ts == [n \in 1..Len(e.toks) |-> LET t == e.toks[n] IN <<t.k, t.st, t.en, t.nl, t.row, t.col, t.x>>]
  IN PrintT(ToJson(<<Place[vPlace].pre, Place[vPlace].suf, Lo, Hi, Place[vPlace].re, IF e.m = "err" THEN "E" ELSE IF e.m = "U" THEN "U" ELSE "A",
                     IF e.m = "err" THEN <<e.lo[1], e.lo[2], e.row, e.col>> ELSE <<>>, ts>>))
=============================================================================
