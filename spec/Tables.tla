------------------------------- MODULE Tables -------------------------------
(***************************************************************************)
(* Constant tables of the ECMAScript subset: words, punctuators, operator  *)
(* precedence.  Shared by the lexer and the parser specification.          *)
(***************************************************************************)
EXTENDS Naturals, Sequences

(* Words that can never be identifiers. *)
AlwaysReserved ==
  {"break", "case", "catch", "class", "const", "continue", "debugger",
   "default", "delete", "do", "else", "enum", "export", "extends", "false",
   "finally", "for", "function", "if", "import", "in", "instanceof", "new",
   "null", "return", "super", "switch", "this", "throw", "true", "try",
   "typeof", "var", "void", "while", "with"}

(* Words that cannot be identifiers in strict code. *)
StrictReserved ==
  {"implements", "interface", "let", "package", "private", "protected",
   "public", "static"}

(* Words with a meaning of their own that always can be identifiers. *)
Contextual ==
  {"as", "async", "from", "get", "meta", "of", "set", "target"}

(* Words the lexer reports with a keyword kind. *)
Keywords == AlwaysReserved \cup StrictReserved \cup Contextual \cup {"await", "yield"}

(* Every punctuator, without the slash forms the lexer shares with regular *)
(* expressions and comments ("/", "/=") which are included too.            *)
Punctuators ==
  {"{", "}", "(", ")", "[", "]", ".", "...", ";", ",", "<", ">", "<=", ">=",
   "==", "!=", "===", "!==", "+", "-", "*", "/", "%", "**", "++", "--", "<<",
   ">>", ">>>", "&", "|", "^", "!", "~", "&&", "||", "??", "?", "?.", ":",
   "=", "+=", "-=", "*=", "/=", "%=", "**=", "<<=", ">>=", ">>>=", "&=",
   "|=", "^=", "&&=", "||=", "??=", "=>"}

(* Levels of the expression grammar, from the comma expression upwards. *)
LvComma == 0
LvAssign == 1
LvCond == 2
LvOr == 3
LvAnd == 4
LvBitOr == 5
LvBitXor == 6
LvBitAnd == 7
LvEq == 8
LvRel == 9
LvShift == 10
LvAdd == 11
LvMul == 12
LvExp == 13
LvUnary == 14
LvLHS == 16
LvMember == 17

BinaryOps ==
  {"**", "*", "/", "%", "+", "-", "<<", ">>", ">>>", "<", ">", "<=", ">=",
   "instanceof", "in", "==", "!=", "===", "!==", "&", "^", "|", "&&", "||", "??"}

BinaryLevel == [o \in BinaryOps |->
  CASE o = "**" -> LvExp
    [] o \in {"*", "/", "%"} -> LvMul
    [] o \in {"+", "-"} -> LvAdd
    [] o \in {"<<", ">>", ">>>"} -> LvShift
    [] o \in {"<", ">", "<=", ">=", "instanceof", "in"} -> LvRel
    [] o \in {"==", "!=", "===", "!=="} -> LvEq
    [] o = "&" -> LvBitAnd
    [] o = "^" -> LvBitXor
    [] o = "|" -> LvBitOr
    [] o = "&&" -> LvAnd
    [] OTHER -> LvOr]

LogicalOps == {"&&", "||", "??"}

AssignOps ==
  {"=", "+=", "-=", "*=", "/=", "%=", "**=", "<<=", ">>=", ">>>=", "&=",
   "|=", "^=", "&&=", "||=", "??="}

UnaryOps == {"+", "-", "~", "!", "delete", "void", "typeof"}
=============================================================================
