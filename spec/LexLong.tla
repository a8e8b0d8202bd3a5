------------------------------ MODULE LexLong ------------------------------
(***************************************************************************)
(* Long tokens, long gaps and long lines: a piece many times, with lengths *)
(* around the powers of two.  Whatever a piece more changes about a text,  *)
(* each piece more does: so the harness goes on to any length.             *)
(***************************************************************************)
EXTENDS LexFrames, Json
CONSTANTS Names, Lengths
VARIABLES vFrame, vN, vLex

R(pre, x, post, re) == [pre |-> pre, x |-> x, post |-> post, re |-> re]
LongFrame == [
  name    |-> R(<<>>, Codes("a"), Codes("=b"), FALSE),
  onlyname |-> R(<<233>>, Codes("aB_"), <<>>, FALSE),
  onlystr |-> R(Codes("'"), Codes("a ") \o <<8232>>, Codes("'"), FALSE),
  onlynum |-> R(Codes("1"), Codes("0_4"), Codes(".5"), FALSE),
  keyname |-> R(Codes("in"), Codes("in"), Codes(" in b"), FALSE),
  uniname |-> R(<<233>>, <<119987, 8205>>, Codes("+b"), FALSE),
  private |-> R(Codes("#"), Codes("p0"), Codes(";"), FALSE),
  digits  |-> R(<<>>, Codes("7"), Codes("+1"), FALSE),
  grouped |-> R(Codes("1"), Codes("_0"), Codes(";"), FALSE),
  fraction |-> R(Codes("0."), Codes("3"), Codes(" in"), FALSE),
  exponent |-> R(Codes("1e-"), Codes("0"), Codes("1;"), FALSE),
  hex     |-> R(Codes("0x"), Codes("f0"), Codes(")"), FALSE),
  octal   |-> R(Codes("0o"), Codes("7"), Codes(")"), FALSE),
  binary  |-> R(Codes("0b"), Codes("10"), Codes(")"), FALSE),
  legacy  |-> R(Codes("0"), Codes("1"), Codes(")"), FALSE),
  string  |-> R(Codes("'"), Codes("a\""), Codes("'.b"), FALSE),
  escapes |-> R(Codes("\""), Codes("\\\\"), Codes("\"b"), FALSE),
  quoted  |-> R(Codes("'"), Codes("\\'"), Codes("';"), FALSE),
  linecont |-> R(Codes("'"), Codes("\\") \o <<LF>>, Codes("'a"), FALSE),
  contcrlf |-> R(Codes("'"), Codes("\\") \o <<CR, LF>>, Codes("'a"), FALSE),
  strlines |-> R(Codes("'"), <<8232>>, Codes("'a"), FALSE),
  unended |-> R(Codes("a '"), Codes("b"), <<LF>>, FALSE),
  regex   |-> R(Codes("/"), Codes("ab"), Codes("/g.x"), TRUE),
  class   |-> R(Codes("/["), Codes("/"), Codes("]/;"), TRUE),
  reesc   |-> R(Codes("/"), Codes("\\/"), Codes("/g"), TRUE),
  flags   |-> R(Codes("/a/"), Codes("gi"), Codes(";b"), TRUE),
  block   |-> R(Codes("a/*"), Codes("x"), Codes("*/b"), FALSE),
  stars   |-> R(Codes("a/*"), Codes("*"), Codes("/b"), FALSE),
  blockln |-> R(Codes("a/*"), <<LF>>, Codes("*/b"), FALSE),
  line    |-> R(Codes("a//"), Codes("x"), <<LF>> \o Codes("b"), FALSE),
  lineend |-> R(Codes("a//"), Codes("x"), <<>>, FALSE),
  blanks  |-> R(Codes("a"), Codes(" "), Codes("b"), FALSE),
  wide    |-> R(Codes("a"), <<160, 65279>>, Codes("b"), FALSE),
  lines   |-> R(Codes("a"), <<LF>>, Codes("b c"), FALSE),
  crlfs   |-> R(Codes("a"), <<CR, LF>>, Codes("b c"), FALSE),
  crs     |-> R(Codes("a"), <<CR>>, Codes(" b"), FALSE),
  seps    |-> R(Codes("a"), <<8233, 32>>, Codes("b"), FALSE),
  pieces  |-> R(<<>>, Codes("/**/") \o <<LF>>, Codes("b"), FALSE),
  comments |-> R(<<>>, Codes("//") \o <<LF>>, Codes("b"), FALSE),
  \* as many tokens
  tokens  |-> R(<<>>, Codes("a "), Codes("b"), FALSE),
  punct   |-> R(<<>>, Codes(">>>="), Codes("b"), FALSE),
  rows    |-> R(<<>>, Codes("a") \o <<LF>>, Codes("b"), FALSE)
]
NumberFrames == {"digits", "grouped", "fraction", "exponent", "hex", "octal", "binary", "legacy", "onlynum"}
Lens(name) == SelectSeq(Lengths, LAMBDA n : n < 1500 \/ name \notin NumberFrames)
Times(x, n) == [i \in 1..(n * Len(x)) |-> x[1 + ((i - 1) % Len(x))]]
ASSUME \A i \in 1..Len(Names) :
  LET r == LongFrame[Names[i]]  ls == Lens(Names[i]) IN
  PrintT(ToJson([frame |-> i, name |-> Names[i], pre |-> r.pre, al |-> [k \in 1..Len(ls) |-> <<>>],
                 x |-> r.x, post |-> r.post, times |-> ls, re |-> r.re, n |-> 1]))

Init == vFrame \in 1..Len(Names) /\ vN = 0 /\ vLex = <<>>
Next ==
  /\ vN = 0 /\ vFrame' = vFrame
  /\ \E k \in 1..Len(Lens(Names[vFrame])) :
       /\ vN' = k
       /\ LET r == LongFrame[Names[vFrame]] IN
          vLex' = End(FoldLeft(Feed, Fresh(r.re), r.pre \o Times(r.x, Lens(Names[vFrame])[k]) \o r.post))
Spec == Init /\ [][Next]_<<vFrame, vN, vLex>>
View == <<vFrame, vN>>

Emit == vN > 0 =>
  LET ts == [i \in 1..Len(vLex.toks) |-> LET t == vLex.toks[i] IN <<t.k, t.st, t.en, t.nl, t.row, t.col, t.x>>]
  IN PrintT(ToJson(<<vFrame, <<vN>>, IF vLex.m = "err" THEN "E" ELSE IF vLex.m = "U" THEN "U" ELSE "A",
                     IF vLex.m = "err" THEN <<vLex.lo[1], vLex.lo[2], vLex.row, vLex.col>> ELSE <<>>, ts>>))
=============================================================================
