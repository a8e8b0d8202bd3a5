----------------------------- MODULE LexFrames -----------------------------
(***************************************************************************)
(* The texts the lexer specification is enumerated on: a frame is a prefix *)
(* and an alphabet of short strings of characters, up to a length; re says *)
(* whether slashes begin regular expressions.                              *)
(***************************************************************************)
EXTENDS Lexer, SequencesExt

Cat(ss) == FlattenSeq(ss)
Each(s) == [i \in 1..Len(s) |-> <<Code[SubSeq(s, i, i)]>>]     \* the characters of s
Strs(ss) == [i \in 1..Len(ss) |-> Codes(ss[i])]
Seq1(S) == SetToSortSeq(S, LAMBDA x, y : x < y)
Singles(S) == LET q == Seq1(S) IN [i \in 1..Len(q) |-> <<q[i]>>]

WordSeq == TLCEval(SetToSeq(Keywords))
KeywordCodes == [i \in 1..Len(WordSeq) |-> Codes(WordSeq[i])]
(* Every proper prefix of a keyword, and every keyword with its first letter changed. *)
WordHeads == Cat([i \in 1..Len(WordSeq) |-> [n \in 1..(Len(WordSeq[i]) - 1) |-> Codes(SubSeq(WordSeq[i], 1, n))]])
WordTails == Cat([i \in 1..Len(WordSeq) |-> [n \in 1..(Len(WordSeq[i]) - 1) |-> Codes(SubSeq(WordSeq[i], n + 1, Len(WordSeq[i])))]])

L(pre, al, re, q, t) == [pre |-> pre, al |-> al, re |-> re, q |-> q, t |-> t]
LTs == <<<<LF>>, <<CR>>, <<8232>>, <<8233>>>>
Ascii == Singles(32..126)

\* of long random texts (spec/LexSim.tla)
Weight(n, q) == Cat([i \in 1..n |-> q])
Digits10 == Each("0123456789")

LexFrame == TLCEval(
  "ascii" :> L(<<>>, Ascii \o LTs, FALSE, 2, 3) @@
  "asciire" :> L(<<>>, Ascii \o LTs, TRUE, 2, 2) @@
  "low" :> L(<<>>, Singles(0..31 \cup 127..255) \o Each("a"), FALSE, 2, 2) @@
  "punct" :> L(<<>>, Each(".<>=!+-&|^*%?/a1 "), FALSE, 3, 4) @@
  "punct2" :> L(<<>>, Each("<>=!+-*&?|/"), FALSE, 4, 5) @@
  "punct3" :> L(<<>>, Strs(<<">", "=", "*", ".", "!", "a">>), FALSE, 6, 7) @@
  "words" :> L(<<>>, KeywordCodes \o Strs(<<"a", "$", "_", "1", "#", " ", ".", "A">>) \o <<<<233>>, <<LF>>>>, FALSE, 2, 2) @@
  "wordpre" :> L(<<>>, WordHeads \o WordTails \o Strs(<<" ">>), FALSE, 1, 2) @@
  "ident" :> L(<<>>, Strs(<<"a", "Z", "_", "$", "0", "#", "-">>) \o <<<<233>>, <<119987>>, <<8205>>, <<768>>, <<183>>, <<8472>>, <<160>>>>, FALSE, 4, 5) @@
  "num" :> L(<<>>, Each("019._e+-x"), FALSE, 5, 6) @@
  "numexp" :> L(<<>>, Each("1.eE+-_0"), FALSE, 5, 7) @@
  "numhex" :> L(Codes("0x"), Each("09aFg_.xn"), FALSE, 4, 5) @@
  "numHEX" :> L(Codes("0X"), Each("0fG_ ;"), FALSE, 4, 5) @@
  "numoct" :> L(Codes("0o"), Each("078_.eo"), FALSE, 5, 6) @@
  "numOCT" :> L(Codes("0O"), Each("07_8 ;"), FALSE, 4, 5) @@
  "numbin" :> L(Codes("0b"), Each("012_.eb"), FALSE, 5, 6) @@
  "numBIN" :> L(Codes("0B"), Each("01_2 ;"), FALSE, 4, 5) @@
  "numleg" :> L(Codes("0"), Each("0789.e_+"), FALSE, 5, 6) @@
  "numtail" :> L(<<>>, Strs(<<"0", "1", "1.", ".5", "1e1", "0x1", "0b1", "0o7", "017", "08", "a", "n", "_", "$", "#", "'", "\"", "(", " ", "in", "/", "+", ".", "\\">>) \o <<<<233>>, <<119987>>, <<LF>>, <<160>>, <<8205>>>>, FALSE, 3, 3) @@
  "numbig" :> L(<<>>, Strs(<<"9007199254740993", "1797693134862315", "4940656458412465", "5e-324", "e308", "e-30", "0x1fffffffffffff", "ffffffffffffffff", "0", "00", ".", "5", "_", "e400", "0o7777777777777777777777", "8", "17", "0b11111111111111111111111111111111111111111111111111111">>), FALSE, 3, 4) @@
  "str" :> L(<<>>, Each("\"'\\a ") \o LTs, FALSE, 5, 6) @@
  "strin" :> L(Codes("'"), Each("\\'\"n") \o <<<<LF>>, <<CR>>, <<8232>>, <<119987>>>>, FALSE, 5, 6) @@
  "comment" :> L(<<>>, Each("/*a =") \o LTs, FALSE, 5, 6) @@
  "block" :> L(Codes("/*"), Each("/*a") \o <<<<LF>>, <<CR>>, <<8233>>>>, FALSE, 6, 7) @@
  "regex" :> L(Codes("/"), Each("/\\[]a*g ") \o <<<<LF>>, <<8232>>>>, TRUE, 5, 6) @@
  "reclass" :> L(Codes("a/["), Each("/\\[]ag") \o <<<<CR>>>>, TRUE, 6, 7) @@
  "reflags" :> L(Codes("/=/"), Each("g$_1/ .#") \o <<<<233>>, <<8205>>>>, TRUE, 4, 5) @@
  "gaps" :> L(<<>>, Strs(<<"a", ";", " ", "/**/", "/*a", "*/", "//", "\"s\"">>) \o LTs \o <<<<9>>, <<65279>>>>, FALSE, 4, 5) @@
  "gaps2" :> L(Codes("a"), Strs(<<"b", "/**/", "//", "/*", "*/">>) \o LTs, FALSE, 5, 6) @@
  "pos" :> L(<<>>, Strs(<<"a", "\"", "\\", "/*", "*/", "1", "=">>) \o <<<<LF>>, <<CR>>, <<8233>>, <<119987>>>>, FALSE, 5, 6) @@
  "simdec" :> L(<<>>, Weight(6, Digits10) \o Weight(4, Each("._ e")) \o Each("E+-;x"), FALSE, 60, 400) @@
  "simfrac" :> L(<<>>, Weight(12, Digits10) \o Weight(6, Each(".")) \o Weight(2, Each("e;")) \o Strs(<<"e-", "e+", " .", " 1.", "_", "9007199254740992", "00000000">>), FALSE, 40, 200) @@
  "simhex" :> L(<<>>, Weight(5, Each("0123456789abcdefABCDEF")) \o Weight(4, Strs(<<" 0x">>)) \o Strs(<<" 0X", " ", ";", "_", "_", "_", "0000000000", "ffffffffffff", ".", "x">>), FALSE, 50, 300) @@
  "simoct" :> L(<<>>, Weight(8, Each("01234567")) \o Weight(4, Strs(<<" 0o">>)) \o Strs(<<" 0O", " 0", " ", ";", "_", "_", "8", "0000000000", "7777777777", ".">>), FALSE, 60, 300) @@
  "simbin" :> L(<<>>, Weight(20, Each("01")) \o Weight(2, Strs(<<" 0b">>)) \o Strs(<<" 0B", " ", ";", "_", "_", "2", "0000000000", "1111111111", "10101">>), FALSE, 80, 400) @@
  "simstr" :> L(<<>>, Weight(2, Each("abc'\"\\\\nux0 /*;")) \o <<<<LF>>, <<CR>>, <<8232>>, <<8233>>, <<119987>>, <<233>>, <<CR, LF>>, <<92, CR, LF>>, <<92, 8233>>>>, FALSE, 60, 300) @@
  "simgap" :> L(<<>>, Weight(2, Strs(<<"a", ";", " ", "/**/", "/*", "*/", "*", "/", "//", "b1">>)) \o LTs \o <<<<9>>, <<65279>>, <<CR, LF>>, <<160>>, <<8239>>>>, FALSE, 60, 300) @@
  "simre" :> L(<<>>, Weight(2, Each("/[]\\ag*(.)=")) \o Strs(<<" ", "a/", "/g", "[/", "]", "\\]", "\\/", "\\\\", "$", "_", "1">>) \o <<<<LF>>, <<8232>>, <<119987>>, <<8205>>, <<233>>>>, TRUE, 60, 300) @@
  "simpunct" :> L(<<>>, Weight(2, Each("<>=!+-*&|?.%^~:,()[]{}/;")) \o Strs(<<"a", "1", " ", "...", ">>>=", "?.", "=>">>) \o <<<<LF>>>>, FALSE, 60, 300) @@
  "simword" :> L(<<>>, KeywordCodes \o Weight(8, Each(" .=;(1")) \o Weight(4, Each("ab$_")) \o <<<<233>>, <<119987>>, <<8205>>, <<LF>>, <<LF>>, <<183>>>> \o WordHeads, FALSE, 50, 300) @@
  "simany" :> L(<<>>, Ascii \o Weight(3, LTs) \o KeywordCodes \o Weight(3, Strs(<<"'a'", "\"b\"", "/*", "*/", "//", "0x", "1.5", " ", " ", " ", "\\'", "...", ">>>=">>)) \o <<<<233>>, <<119987>>, <<65279>>, <<8205>>, <<CR, LF>>>>, FALSE, 60, 300))
=============================================================================
