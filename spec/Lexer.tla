------------------------------- MODULE Lexer -------------------------------
(***************************************************************************)
(* The lexer as an automaton that consumes one character (code point) per  *)
(* step.  A state holds the tokens completed so far and what is known of   *)
(* the one that has begun.  "err" means that no text of the language       *)
(* begins with these characters as tokens, "U" that they begin a construct *)
(* this project does not support (template, BigInt, escaped identifier,    *)
(* '?.', '..'), about which the specification says nothing.                *)
(*                                                                         *)
(* Whether a slash that begins no comment begins a regular expression is   *)
(* decided outside: by the field re.                                       *)
(***************************************************************************)
EXTENDS Tables, UnicodeTables, Integers, TLC

AsciiStr == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
Char == TLCEval([c \in 32..126 |-> SubSeq(AsciiStr, c - 31, c - 31)])
Code == TLCEval([s \in {Char[c] : c \in 32..126} |-> CHOOSE c \in 32..126 : Char[c] = s] @@ [s \in {"\n"} |-> 10])
Codes(s) == [i \in 1..Len(s) |-> Code[SubSeq(s, i, i)]]
(* The characters of a token so far; only tokens of ASCII characters are   *)
(* told apart by their text, so every other character is "\t" here.        *)
Chr(c) == IF c \in 32..126 THEN Char[c] ELSE "\t"

LF == 10
CR == 13
LineTerms == {LF, CR, 8232, 8233}
WhiteSpaces == TLCEval({9, 11, 12, 32, 160, 5760, 8239, 8287, 12288, 65279} \cup 8192..8202)

Letters == TLCEval(65..90 \cup 97..122)
DecDigits == 48..57
OctDigits == 48..55
BinDigits == 48..49
HexDigits == TLCEval(DecDigits \cup 65..70 \cup 97..102)
Uscore == 95

IsStart(c) == IF c < 128 THEN c \in Letters \/ c \in {36, 95} ELSE UniStart(c)
IsCont(c) == IF c < 128 THEN c \in Letters \/ c \in DecDigits \/ c \in {36, 95}
             ELSE UniStart(c) \/ UniCont(c) \/ c \in {8204, 8205}

PunctNames == TLCEval(
  "{" :> "OpenBrace" @@ "}" :> "CloseBrace" @@ "(" :> "OpenParen" @@ ")" :> "CloseParen" @@
  "[" :> "OpenBracket" @@ "]" :> "CloseBracket" @@ "." :> "Dot" @@ "..." :> "Ellipsis" @@
  ";" :> "Semicolon" @@ "," :> "Comma" @@ "<" :> "LessThan" @@ ">" :> "GreaterThan" @@
  "<=" :> "LessThanEqual" @@ ">=" :> "GreaterThanEqual" @@ "==" :> "Equal" @@ "!=" :> "NotEqual" @@
  "===" :> "StrictEqual" @@ "!==" :> "StrictNotEqual" @@ "+" :> "Plus" @@ "-" :> "Minus" @@
  "*" :> "Mult" @@ "/" :> "Div" @@ "%" :> "Mod" @@ "**" :> "Exponent" @@ "++" :> "Increment" @@
  "--" :> "Decrement" @@ "<<" :> "LShift" @@ ">>" :> "RShift" @@ ">>>" :> "UnsignedRShift" @@
  "&" :> "BitAnd" @@ "|" :> "BitOr" @@ "^" :> "BitXor" @@ "!" :> "Not" @@ "~" :> "BitNot" @@
  "&&" :> "LogicalAnd" @@ "||" :> "LogicalOr" @@ "??" :> "NullCoalesce" @@ "?" :> "QuestionMark" @@
  ":" :> "Colon" @@ "=" :> "Assign" @@ "+=" :> "PlusAssign" @@ "-=" :> "MinusAssign" @@
  "*=" :> "MultAssign" @@ "/=" :> "DivAssign" @@ "%=" :> "ModAssign" @@ "**=" :> "ExponentAssign" @@
  "<<=" :> "LShiftAssign" @@ ">>=" :> "RShiftAssign" @@ ">>>=" :> "UnsignedRShiftAssign" @@
  "&=" :> "BitAndAssign" @@ "|=" :> "BitOrAssign" @@ "^=" :> "BitXorAssign" @@
  "&&=" :> "LogicalAndAssign" @@ "||=" :> "LogicalOrAssign" @@ "??=" :> "NullCoalesceAssign" @@
  "=>" :> "FatArrow")

WordNames == TLCEval(
  "as" :> "As" @@ "async" :> "Async" @@ "await" :> "Await" @@ "break" :> "Break" @@ "case" :> "Case" @@
  "catch" :> "Catch" @@ "class" :> "Class" @@ "const" :> "Const" @@ "continue" :> "Continue" @@
  "debugger" :> "Debugger" @@ "default" :> "Default" @@ "delete" :> "Delete" @@ "do" :> "Do" @@
  "else" :> "Else" @@ "enum" :> "Enum" @@ "export" :> "Export" @@ "extends" :> "Extends" @@
  "false" :> "False" @@ "finally" :> "Finally" @@ "for" :> "For" @@ "from" :> "From" @@
  "function" :> "Function" @@ "get" :> "Get" @@ "if" :> "If" @@ "implements" :> "Implements" @@
  "import" :> "Import" @@ "in" :> "In" @@ "instanceof" :> "InstanceOf" @@ "interface" :> "Interface" @@
  "let" :> "Let" @@ "meta" :> "Meta" @@ "new" :> "New" @@ "null" :> "Null" @@ "of" :> "Of" @@
  "package" :> "Package" @@ "private" :> "Private" @@ "protected" :> "Protected" @@ "public" :> "Public" @@
  "return" :> "Return" @@ "set" :> "Set" @@ "static" :> "Static" @@ "super" :> "Super" @@
  "switch" :> "Switch" @@ "target" :> "Target" @@ "this" :> "This" @@ "throw" :> "Throw" @@
  "true" :> "True" @@ "try" :> "Try" @@ "typeof" :> "TypeOf" @@ "var" :> "Var" @@ "void" :> "Void" @@
  "while" :> "While" @@ "with" :> "With" @@ "yield" :> "Yield")

ASSUME DOMAIN PunctNames = Punctuators \ {"?."}
ASSUME DOMAIN WordNames = Keywords

(* The characters that begin a punctuator, but for "/". *)
PunctStarts == TLCEval({Code[SubSeq(p, 1, 1)] : p \in Punctuators} \ {47})
PunctSet == TLCEval(DOMAIN PunctNames)
WordSet == TLCEval(DOMAIN WordNames)

(***************************************************************************)
(* States.                                                                 *)
(***************************************************************************)
Fresh(re) ==
  [m |-> "start", x |-> "", s |-> "", st |-> 0, i |-> 0, nl |-> FALSE,
   row |-> 1, col |-> 1, cr |-> FALSE, toks |-> <<>>, re |-> re, lo |-> <<>>, pl |-> 0]

(* The position after one more character. *)
Move(l, c) ==
  IF l.cr /\ c = LF THEN [l EXCEPT !.i = @ + 1, !.cr = FALSE]
  ELSE IF c \in LineTerms THEN [l EXCEPT !.i = @ + 1, !.row = @ + 1, !.col = 1, !.cr = (c = CR)]
  ELSE [l EXCEPT !.i = @ + 1, !.col = @ + 1, !.cr = FALSE]

Take(l, c, m, x) == [Move(l, c) EXCEPT !.m = m, !.x = x, !.s = @ \o Chr(c)]
Begin(l, c, m, x) == [Move(l, c) EXCEPT !.m = m, !.x = x, !.s = Chr(c), !.st = l.i]
Skip(l, c, m) == [Move(l, c) EXCEPT !.m = m, !.nl = @ \/ c \in LineTerms]

(* back: how many characters of the line so far are not part of the token. *)
DoneBack(l, k, s, extra, back) ==
  [l EXCEPT !.m = "start", !.nl = FALSE,
            !.toks = Append(@, [k |-> k, s |-> s, st |-> l.st, en |-> l.i - back, nl |-> l.nl,
                                row |-> l.row, col |-> l.col - back, x |-> extra])]
Done(l, k, extra) == DoneBack(l, k, l.s, extra, 0)

Err(l, c) ==   \* c: the offending character, -1 for the end of the text
  LET n == Len(l.toks)
      d == IF c = -1 THEN l ELSE Move(l, c) IN
  [d EXCEPT !.m = "err",
            !.lo = IF n = 0 THEN <<1, 1>> ELSE <<l.toks[n].row, l.toks[n].col>>]
Unsup(l) == [l EXCEPT !.m = "U"]

(***************************************************************************)
(* Numbers: what a character does to a number literal in a given stage.    *)
(***************************************************************************)
Exp == {69, 101}
After(s, t, c, D, sep) ==  \* a run of digits with separators
  IF c \in D THEN s ELSE IF c = Uscore THEN sep ELSE t
NumStep(x, c) ==
  CASE x = "zero" ->
         CASE c \in {66, 98} -> "bin0"
           [] c \in {79, 111} -> "oct0"
           [] c \in {88, 120} -> "hex0"
           [] c = 46 -> "dot"
           [] c \in Exp -> "exp0"
           [] c = Uscore -> "err"
           [] c \in OctDigits -> "legoct"
           [] c \in DecDigits -> "legdec"
           [] c = 110 -> "U"
           [] OTHER -> "end"
    [] x = "dec" ->
         CASE c \in DecDigits -> "dec"
           [] c = Uscore -> "decsep"
           [] c = 46 -> "dot"
           [] c \in Exp -> "exp0"
           [] c = 110 -> "U"
           [] OTHER -> "end"
    [] x = "decsep" -> IF c \in DecDigits THEN "dec" ELSE "err"
    [] x = "dot" -> IF c \in DecDigits THEN "frac" ELSE IF c \in Exp THEN "exp0" ELSE "end"
    [] x = "frac" ->
         CASE c \in DecDigits -> "frac"
           [] c = Uscore -> "fracsep"
           [] c \in Exp -> "exp0"
           [] OTHER -> "end"
    [] x = "fracsep" -> IF c \in DecDigits THEN "frac" ELSE "err"
    [] x = "exp0" -> IF c \in DecDigits THEN "exp" ELSE IF c \in {43, 45} THEN "expsign" ELSE "err"
    [] x = "expsign" -> IF c \in DecDigits THEN "exp" ELSE "err"
    [] x = "exp" -> IF c \in DecDigits THEN "exp" ELSE IF c = Uscore THEN "expsep" ELSE "end"
    [] x = "expsep" -> IF c \in DecDigits THEN "exp" ELSE "err"
    [] x = "bin0" -> IF c \in BinDigits THEN "bin" ELSE "err"
    [] x = "bin" -> IF c \in BinDigits THEN "bin" ELSE IF c = Uscore THEN "bin0" ELSE IF c = 110 THEN "U" ELSE "end"
    [] x = "oct0" -> IF c \in OctDigits THEN "oct" ELSE "err"
    [] x = "oct" -> IF c \in OctDigits THEN "oct" ELSE IF c = Uscore THEN "oct0" ELSE IF c = 110 THEN "U" ELSE "end"
    [] x = "hex0" -> IF c \in HexDigits THEN "hex" ELSE "err"
    [] x = "hex" -> IF c \in HexDigits THEN "hex" ELSE IF c = Uscore THEN "hex0" ELSE IF c = 110 THEN "U" ELSE "end"
    [] x = "legoct" -> IF c \in OctDigits THEN "legoct" ELSE IF c \in DecDigits THEN "legdec" ELSE "end"
    [] x = "legdec" -> IF c \in DecDigits THEN "legdec" ELSE IF c = 46 THEN "dot" ELSE IF c \in Exp THEN "exp0" ELSE "end"
NumComplete == {"zero", "dec", "dot", "frac", "exp", "bin", "oct", "hex", "legoct", "legdec"}

(* The number a literal denotes: its base, its digits before and after the *)
(* point, the sign and the digits of its exponent.                         *)
RECURSIVE Digs(_, _)
Digs(s, D) ==  \* the digits at the start of s, separators dropped
  IF s = "" THEN <<"", "">>
  ELSE LET h == SubSeq(s, 1, 1)  t == SubSeq(s, 2, Len(s)) IN
       IF h = "_" THEN Digs(t, D)
       ELSE IF Code[h] \in D THEN LET r == Digs(t, D) IN <<h \o r[1], r[2]>>
       ELSE <<"", s>>
Has(s, i, set) == Len(s) >= i /\ SubSeq(s, i, i) \in set
NumValue(s) ==
  CASE Has(s, 2, {"x", "X"}) -> <<16, Digs(SubSeq(s, 3, Len(s)), HexDigits)[1], "", "", "">>
    [] Has(s, 2, {"o", "O"}) -> <<8, Digs(SubSeq(s, 3, Len(s)), HexDigits)[1], "", "", "">>
    [] Has(s, 2, {"b", "B"}) -> <<2, Digs(SubSeq(s, 3, Len(s)), HexDigits)[1], "", "", "">>
    [] OTHER ->
       LET a == Digs(s, DecDigits)
           dot == Has(a[2], 1, {"."})
           b == IF dot THEN Digs(SubSeq(a[2], 2, Len(a[2])), DecDigits) ELSE <<"", a[2]>>
           e == Has(b[2], 1, {"e", "E"})
           sg == IF e /\ Has(b[2], 2, {"+", "-"}) THEN SubSeq(b[2], 2, 2) ELSE ""
           c == IF e THEN Digs(SubSeq(b[2], 2 + Len(sg), Len(b[2])), DecDigits)[1] ELSE ""
           octal == ~dot /\ ~e /\ Len(a[1]) > 1 /\ SubSeq(s, 1, 1) = "0"
                    /\ \A i \in 1..Len(s) : Code[SubSeq(s, i, i)] \in OctDigits
       IN <<IF octal THEN 8 ELSE 10, a[1], b[1], sg, c>>

WordKind(s) == IF s \in WordSet THEN "Keyword" \o WordNames[s] ELSE "Identifier"

(***************************************************************************)
(* One character.                                                          *)
(***************************************************************************)
RECURSIVE Feed(_, _)
FeedStart(l, c) ==
  CASE c \in LineTerms \/ c \in WhiteSpaces -> Skip(l, c, "start")
    [] c = 47 -> Begin(l, c, "slash", "")
    [] c = 34 \/ c = 39 -> Begin(l, c, "str", Chr(c))
    [] c = 48 -> Begin(l, c, "num", "zero")
    [] c \in DecDigits -> Begin(l, c, "num", "dec")
    [] c = 35 -> Begin(l, c, "priv0", "")
    [] c \in PunctStarts -> Begin(l, c, "punct", "")
    [] c = 96 \/ c = 92 -> Unsup(l)
    [] IsStart(c) -> Begin(l, c, "word", "")
    [] OTHER -> Err(l, c)

Opaque == {"err", "U", "str", "stresc", "strcr", "line", "block", "star", "re", "reclass", "reesc", "reclassesc"}
Feed(l, c) ==
  CASE l.m \in {"err", "U"} -> l
    [] c > 127 /\ l.m \notin Opaque /\ UniUnknown(c) -> Unsup(l)
    [] l.m = "start" -> FeedStart(l, c)
    [] l.m = "word" ->
         IF IsCont(c) THEN Take(l, c, "word", "")
         ELSE IF c = 92 THEN Unsup(l)
         ELSE FeedStart(Done(l, WordKind(l.s), <<>>), c)
    [] l.m = "priv0" ->
         IF IsStart(c) THEN Take(l, c, "priv", "") ELSE IF c = 92 THEN Unsup(l) ELSE Err(l, c)
    [] l.m = "priv" ->
         IF IsCont(c) THEN Take(l, c, "priv", "")
         ELSE IF c = 92 THEN Unsup(l)
         ELSE FeedStart(Done(l, "PrivateIdentifier", <<>>), c)
    [] l.m = "punct" ->
         CASE l.s \o Chr(c) \in PunctSet -> Take(l, c, "punct", "")
           [] l.s = "." /\ c \in DecDigits -> Take(l, c, "num", "frac")
           [] l.s = "." /\ c = 46 -> Take(l, c, "punct", "")
           [] l.s = ".." -> Unsup(l)
           [] l.s = "?" /\ c = 46 -> Take(l, c, "qdot", "")
           [] OTHER -> FeedStart(Done(l, "Punctuator" \o PunctNames[l.s], <<>>), c)
    [] l.m = "qdot" ->
         IF c \in DecDigits
         THEN Take([DoneBack(l, "PunctuatorQuestionMark", "?", <<>>, 1) EXCEPT !.st = l.i - 1, !.s = "."], c, "num", "frac")
         ELSE Unsup(l)
    [] l.m = "num" ->
         LET y == NumStep(l.x, c) IN
         CASE y = "err" -> Err(l, c)
           [] y = "U" -> Unsup(l)
           [] y = "end" -> IF IsStart(c) \/ c \in DecDigits THEN Err(l, c)
                           ELSE FeedStart(Done(l, "LiteralNumber", NumValue(l.s)), c)
           [] OTHER -> Take(l, c, "num", y)
    [] l.m = "str" ->
         CASE c = Code[l.x] -> Done(Take(l, c, "str", ""), "LiteralString", <<>>)
           [] c \in {LF, CR} -> Err(l, c)
           [] c = 92 -> Take(l, c, "stresc", l.x)
           [] OTHER -> Take(l, c, "str", l.x)
    [] l.m = "stresc" -> Take(l, c, IF c = CR THEN "strcr" ELSE "str", l.x)
    [] l.m = "strcr" -> IF c = LF THEN Take(l, c, "str", l.x) ELSE Feed([l EXCEPT !.m = "str"], c)
    [] l.m = "slash" ->
         CASE c = 47 -> Skip(l, c, "line")
           [] c = 42 -> Skip(l, c, "block")
           [] l.re -> Feed([l EXCEPT !.m = "re"], c)
           [] OTHER -> Feed([l EXCEPT !.m = "punct"], c)
    [] l.m = "line" -> IF c \in LineTerms THEN FeedStart([l EXCEPT !.m = "start"], c) ELSE Skip(l, c, "line")
    [] l.m = "block" -> Skip(l, c, IF c = 42 THEN "star" ELSE "block")
    [] l.m = "star" -> Skip(l, c, IF c = 47 THEN "start" ELSE IF c = 42 THEN "star" ELSE "block")
    [] l.m \in {"re", "reclass", "reesc", "reclassesc"} ->
         CASE c \in LineTerms -> Err(l, c)
           [] l.m = "reesc" -> Take(l, c, "re", "")
           [] l.m = "reclassesc" -> Take(l, c, "reclass", "")
           [] c = 92 -> Take(l, c, IF l.m = "re" THEN "reesc" ELSE "reclassesc", "")
           [] c = 91 -> Take(l, c, "reclass", "")
           [] c = 93 -> Take(l, c, "re", "")
           [] c = 47 /\ l.m = "re" -> [Take(l, c, "flags", "") EXCEPT !.pl = l.i - l.st - 1]
           [] OTHER -> Take(l, c, l.m, "")
    [] l.m = "flags" ->
         IF IsCont(c) THEN Take(l, c, "flags", "")
         ELSE IF c = 92 THEN Unsup(l)
         ELSE FeedStart(Done(l, "LiteralRegExp", <<l.pl>>), c)

(* The end of the text. *)
Flush(l) ==
  CASE l.m \in {"err", "U", "start"} -> l
    [] l.m = "word" -> Done(l, WordKind(l.s), <<>>)
    [] l.m = "priv" -> Done(l, "PrivateIdentifier", <<>>)
    [] l.m = "punct" -> IF l.s = ".." THEN Unsup(l) ELSE Done(l, "Punctuator" \o PunctNames[l.s], <<>>)
    [] l.m = "qdot" -> Unsup(l)
    [] l.m = "num" -> IF l.x \in NumComplete THEN Done(l, "LiteralNumber", NumValue(l.s)) ELSE Err(l, -1)
    [] l.m = "slash" -> IF l.re THEN Err(l, -1) ELSE Done(l, "PunctuatorDiv", <<>>)
    [] l.m = "line" -> [l EXCEPT !.m = "start"]
    [] l.m = "flags" -> Done(l, "LiteralRegExp", <<l.pl>>)
    [] OTHER -> Err(l, -1)
End(l) ==
  LET d == Flush(l) IN
  IF d.m = "start" THEN Done([d EXCEPT !.st = d.i, !.s = ""], "None", <<>>) ELSE d

RECURSIVE FeedAll(_, _)
FeedAll(l, cs) == IF cs = <<>> THEN l ELSE FeedAll(Feed(l, Head(cs)), Tail(cs))

(***************************************************************************)
(* The position after the first n characters of a text, said directly.     *)
(***************************************************************************)
IsBreak(tx, j) == tx[j] \in LineTerms /\ ~(tx[j] = LF /\ j > 1 /\ tx[j - 1] = CR)
RowAt(tx, n) == 1 + Len(SelectSeq([j \in 1..n |-> IsBreak(tx, j)], LAMBDA b : b))
ColAt(tx, n) == n + 1 - (CHOOSE k \in 0..n : /\ k = 0 \/ tx[k] \in LineTerms
                                             /\ \A j \in (k + 1)..n : tx[j] \notin LineTerms)
=============================================================================
