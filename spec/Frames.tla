------------------------------- MODULE Frames -------------------------------
(***************************************************************************)
(* The texts the parser specification is enumerated on: a frame is a goal, *)
(* fixed tokens in front, an alphabet and fixed tokens behind.  Tokens are *)
(* written as strings; a leading "\n" stands for a line break before it,   *)
(* and a string such as "/b/g" for the characters of a regular expression, *)
(* which are two divisions instead where a division may stand.             *)
(***************************************************************************)
EXTENDS Parser

Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
Raw(c, s, x, raw) == [c |-> c, s |-> s, nl |-> FALSE, x |-> x, raw |-> raw]

Tok1(s) ==
  LET h == SubSeq(s, 1, 1)  inner == SubSeq(s, 2, Len(s) - 1) IN
  CASE s \in Punctuators -> Raw("p", s, <<>>, "")
    [] h \in Digits -> Raw("num", s, <<>>, "")
    [] h \in {"'", "\""} -> Raw("str", s, inner, inner)
    [] h = "/" -> Raw("chunk", s, <<>>, "")
    [] h = "#" -> Raw("prv", s, <<>>, "")
    [] h = "`" -> Raw("tpl", s, <<>>, "")
    [] OTHER -> Raw("w", s, <<>>, "")
Tok(s) == IF SubSeq(s, 1, 1) = "\n" THEN [Tok1(SubSeq(s, 2, Len(s))) EXCEPT !.nl = TRUE] ELSE Tok1(s)
Toks(ss) == [i \in 1..Len(ss) |-> Tok(ss[i])]

(* A token, or a chunk: "/b/g" *)
Slash == Raw("p", "/", <<>>, "")
StepAny(c, t) ==
  IF t.c # "chunk"
  THEN LET d == Step(c, t) IN
       \* a slash elsewhere starts a regular expression, which ends elsewhere
       IF d.v = "dead" /\ t.c = "p" /\ t.s \in {"/", "/="} THEN Unspec ELSE d
  ELSE LET first == [Slash EXCEPT !.nl = t.nl] IN
       IF DivisionAllowed(c, first)
       THEN Step(Step(Step(Step(c, first), Tok1("b")), Slash), Tok1("g"))
       ELSE Step(c, [Raw("re", "/b/g", <<"b", "g">>, "") EXCEPT !.nl = t.nl])

RECURSIVE StepAll(_, _)
StepAll(c, ts) == IF ts = <<>> THEN c ELSE StepAll(StepAny(c, Head(ts)), Tail(ts))

F(mode, pre, al, suf, q, t) == [mode |-> mode, pre |-> pre, al |-> al, suf |-> suf, q |-> q, t |-> t]

AllBinary == <<"**", "*", "/", "%", "+", "-", "<<", ">>", ">>>", "<", ">", "<=", ">=",
               "instanceof", "in", "==", "!=", "===", "!==", "&", "^", "|", "&&", "||", "??">>
AllAssign == <<"=", "+=", "-=", "*=", "/=", "%=", "**=", "<<=", ">>=", ">>>=", "&=", "|=", "^=", "&&=", "||=", "??=">>
AllWords == <<"break", "case", "catch", "class", "const", "continue", "debugger",
   "default", "delete", "do", "else", "enum", "export", "extends", "false",
   "finally", "for", "function", "if", "import", "in", "instanceof", "new",
   "null", "return", "super", "switch", "this", "throw", "true", "try",
   "typeof", "var", "void", "while", "with",
   "implements", "interface", "let", "package", "private", "protected",
   "public", "static", "as", "async", "from", "get", "meta", "of", "set", "target",
   "await", "yield", "x">>
AllPunct == <<"{", "}", "(", ")", "[", "]", ".", "...", ";", ",", "<", ">", "<=", ">=",
   "==", "!=", "===", "!==", "+", "-", "*", "/", "%", "**", "++", "--", "<<",
   ">>", ">>>", "&", "|", "^", "!", "~", "&&", "||", "??", "?", ":",
   "=", "+=", "-=", "*=", "/=", "%=", "**=", "<<=", ">>=", ">>>=", "&=",
   "|=", "^=", "&&=", "||=", "??=", "=>">>


(* Where an identifier or a word of another meaning may stand. *)
ClassPre == <<"class", "x", "{">>

Frame == [
  \* ---- expressions
  binary    |-> F("expression", <<>>, <<"a">> \o AllBinary, <<>>, 5, 7),
  prec      |-> F("expression", <<>>, <<"a", "b", "+", "*", "**", "??", "||", "&&", "-", "(", ")">>, <<>>, 5, 6),
  assignops |-> F("expression", <<>>, <<"a", ".", "(", ")", "[", "]">> \o AllAssign, <<>>, 4, 5),
  unary     |-> F("expression", <<>>, <<"a", "-", "++", "--", "!", "~", "typeof", "void", "delete", "**", ".", "(", ")">>, <<>>, 5, 6),
  postfix   |-> F("expression", <<>>, <<"a", "1", "++", "\n--", ".", "[", "]", "(", ")", "new", "this">>, <<>>, 5, 6),
  condexpr  |-> F("expression", <<>>, <<"a", "?", ":", "=", "+=", ",", "=>", "in", "(", ")">>, <<>>, 6, 7),
  calls     |-> F("expression", <<>>, <<"a", "new", "(", ")", ",", "...", ".", "[", "]", "this", "class">>, <<>>, 6, 7),
  literals  |-> F("expression", <<>>, <<"1", "'s'", "/b/g", "null", "true", "false", "this", "a", "+", "[", "]", ",", "!">>, <<>>, 5, 6),
  litkey    |-> F("expression", <<"{">>, <<"0x1F", "1.5", "017", "1_0", "1e999", "''", "\"a\\\"b\"", "'\\n'", ":", ",", "}", "(", ")", "{", "get">>, <<>>, 4, 5),
  litops    |-> F("script", <<>>, <<"0B1", "1.5e3", "0.1", "08.5", "0o17", "9007199254740993", "''", "\"a\\\"b\"", "'\\n'", "+", ",", ";", "[", "]", "(", ")">>, <<>>, 4, 5),
  object    |-> F("expression", <<"{">>, <<"a", ":", ",", "}", "get", "async", "*", "(", ")", "[", "]", "1", "'s'", "=">>, <<>>, 5, 6),
  objmethod |-> F("expression", <<"{">>, <<"a", "set", "get", "async", "\na", "*", "(", ")", "{", "}", ",", ":">>, <<>>, 6, 7),
  array     |-> F("expression", <<"[">>, <<"a", ",", "]", "...", "[", "=", "{", "}", ":">>, <<>>, 6, 7),
  fnexpr    |-> F("expression", <<>>, <<"function", "async", "*", "a", "(", ")", "{", "}", ",", "\nfunction">>, <<>>, 7, 8),
  slashes   |-> F("expression", <<>>, <<"a", "/", "/=", "/b/g", "\n/b/g", "(", ")", "++", "+", "1", "{", "}", ",">>, <<>>, 5, 6),
  slashstmt |-> F("script", <<>>, <<"a", "/b/g", "\n/b/g", ")", "(", "}", "{", ";", "if", "return", "++", "]", "this", "typeof">>, <<>>, 5, 6),
  slashfn   |-> F("script", <<"x", "=">>, <<"a", "/b/g", "\n/b/g", "function", "class", "(", ")", "{", "}", "=>">>, <<>>, 6, 7),
  exprany   |-> F("expression", <<>>, AllPunct \o <<"a", "1", "'s'", "function", "class", "new", "this", "typeof", "async", "in", "instanceof", "yield", "await", "let">>, <<>>, 3, 4),
  exprstmt  |-> F("script", <<>>, AllPunct \o <<"a", "\na", "1", "'s'">>, <<>>, 3, 4),
  \* ---- arrow functions and what they share their beginning with
  arrow     |-> F("expression", <<>>, <<"(", ")", "a", ",", "...", "=>", "=", "\n=>">>, <<>>, 7, 8),
  arrow2    |-> F("expression", <<"(">>, <<"a", "b", ")", "=>", ",", "{", "}", "[", "]", ":", "=", "...">>, <<>>, 6, 7),
  arrowbody |-> F("expression", <<"(", "a", ")", "=>">>, <<"a", "{", "}", "return", ";", ",", "+", "(", ")", "?", ":", "=>", "in", "\na">>, <<>>, 5, 6),
  arrowend  |-> F("script", <<"a", "=>">>, <<"{", "}", "(", ")", "a", "\na", ",", ";", "+", "=>", ".", "?", "/b/g">>, <<>>, 5, 6),
  arrowop   |-> F("expression", <<>>, <<"a", "=>", "+", "?", ":", "=", "||", "(", ")", "!", "**">>, <<>>, 5, 7),
  arrowtail |-> F("script", <<"x", "=">>, <<"a", "=>", "{", "}", "+", "?", ":", ",", "(", ")", ".", "\n/b/g", "=", "**", "in">>, <<>>, 5, 7),
  arrowtern |-> F("expression", <<"x", "?", "a", ":">>, <<"a", "=>", "{", "}", "+", "?", ":", ",", "(", ")", "=", "&&", "instanceof">>, <<>>, 5, 7),
  asyncarr  |-> F("expression", <<>>, <<"async", "(", ")", "a", ",", "=>", "...", "\n=>", "\na", "\n(", "function", "=">>, <<>>, 6, 7),
  asyncarr2 |-> F("expression", <<"async", "(">>, <<"a", ")", "=>", ",", "{", "}", "[", "]", "=", ":", "...", "await">>, <<>>, 6, 7),
  asyncbody |-> F("expression", <<"async", "(", ")", "=>">>, <<"a", "await", "yield", "{", "}", "=>", "(", ")", "async", "\na">>, <<>>, 5, 6),
  parendest |-> F("expression", <<"(", "{">>, <<"a", "=", ":", ",", "}", ")", "=>", "[", "]", "get", "(", "1">>, <<>>, 6, 7),
  defaults  |-> F("expression", <<"(", "a", "=">>, <<"b", "(", ")", "=>", ",", "{", "}", "=", "+", "[", "]">>, <<>>, 6, 7),
  \* ---- statements
  stmtany   |-> F("script", <<>>, AllWords \o <<"{", "}", "(", ")", ";", ":", "=", "*", "\nx", "1", "'s'", "[", "+">>, <<>>, 2, 3),
  fnany     |-> F("script", <<"function", "x", "(", ")", "{">>, AllWords \o <<"{", "}", "(", ")", ";", ":", "=", "*", "\nx", "1">>, <<"}">>, 2, 3),
  modany    |-> F("module", <<>>, AllWords \o <<"{", "}", "(", ")", ";", ":", "=", "*", "\nx", "1", "'s'">>, <<>>, 2, 3),
  vars      |-> F("script", <<>>, <<"var", "let", "const", "a", "=", ",", "[", "]", "{", "}", ";", "\na">>, <<>>, 5, 6),
  patterns  |-> F("script", <<"var", "{">>, <<"a", "b", ":", "=", ",", "}", "{", "[", "]", "...", "if">>, <<"=", "x">>, 6, 7),
  patterns2 |-> F("script", <<"const", "[">>, <<"a", "=", ",", "]", "{", "}", "[", "...", ":">>, <<"=", "x">>, 6, 7),
  ifelse    |-> F("script", <<>>, <<"if", "else", "(", ")", "a", ";", "{", "}", "\na", "\nelse">>, <<>>, 8, 9),
  ifbody    |-> F("script", <<"if", "(", "a", ")">>, <<"a", ";", "else", "if", "(", ")", "{", "}", "\nelse", "var", "function", "class", "let", "const", "\na">>, <<>>, 5, 6),
  loops     |-> F("script", <<>>, <<"while", "do", "(", ")", "a", ";", "{", "}", "\nwhile", "\na">>, <<>>, 7, 8),
  dobody    |-> F("script", <<"do">>, <<"a", ";", "while", "(", ")", "{", "}", "\nwhile", "\na", "do", "var", "break">>, <<>>, 7, 8),
  forhead   |-> F("script", <<"for", "(">>, <<"a", ";", ")", "in", "of", "var", "=", ",", "(", "async", "let">>, <<>>, 6, 7),
  forvar    |-> F("script", <<"for", "(", "var">>, <<"a", "b", ";", ")", "in", "of", "=", ",", "[", "]", "{", "}">>, <<>>, 6, 7),
  forexpr   |-> F("script", <<"for", "(">>, <<"a", ".", "in", "of", "?", ":", ";", ")", "(", "[", "]", "+", "=>">>, <<";", ")", ";">>, 6, 7),
  forin     |-> F("script", <<"for", "(", "a">>, <<"in", "of", "b", ",", ")", "{", "}", ";", "=", "\nb", "continue", "break">>, <<>>, 6, 7),
  jumps     |-> F("script", <<"a", ":", "for", "(", ";", ";", ")">>, <<"break", "continue", "a", "\na", ";", "{", "}", "if", "(", ")">>, <<>>, 5, 6),
  returns   |-> F("script", <<"function", "f", "(", ")", "{">>, <<"return", "a", "\na", ";", "}", "{", "+", "throw", "(", ")", "=>", "\nreturn">>, <<"}">>, 5, 6),
  trycatch  |-> F("script", <<"try">>, <<"{", "}", "catch", "finally", "(", ")", "a", ";", "\na", "[", "]">>, <<>>, 8, 9),
  switch    |-> F("script", <<"switch", "(", "a", ")", "{">>, <<"case", "default", ":", "a", ";", "}", "break", "{", "var", "\na">>, <<"}">>, 6, 7),
  labels    |-> F("script", <<>>, <<"a", ":", ";", "{", "}", "let", "async", "yield", "await", "of", "function", "class", "var", "if">>, <<>>, 5, 6),
  throws    |-> F("script", <<>>, <<"throw", "a", "\na", ";", "new", "(", ")", ",", "{", "}">>, <<>>, 5, 6),
  fndecl    |-> F("script", <<"function">>, <<"a", "(", ")", "{", "}", ",", "...", "=", "[", "]", "*", "\na">>, <<>>, 7, 8),
  params    |-> F("script", <<"function", "f", "(">>, <<"a", "b", ",", ")", "...", "=", "{", "}", "[", "]", ":">>, <<")", "{", "}">>, 6, 7),
  directive |-> F("script", <<>>, <<"'use strict'", "\n'use strict'", "'x'", ";", "let", "\nlet", "a", "+", "(", ")", "{", "}", "\na">>, <<>>, 5, 6),
  dirfn     |-> F("script", <<"function", "f", "(", ")", "{">>, <<"'use strict'", "\n'x'", ";", "let", "static", "}", "\nlet", "=", "\na", "{">>, <<"}">>, 5, 6),
  letstmt   |-> F("script", <<>>, <<"let", "a", "\na", "=", "[", "]", "{", "}", ";", ":", ".", "(", ")", "in">>, <<>>, 5, 6),
  asyncstmt |-> F("script", <<>>, <<"async", "a", "\na", "=>", "(", ")", ";", ":", "function", "\nfunction", "=", ".">>, <<>>, 6, 7),
  \* ---- automatic semicolon insertion
  asi       |-> F("script", <<>>, <<"a", "\na", "++", "\n++", "(", "\n(", ")", ";", "{", "}", "\n}", "+", "\n+">>, <<>>, 5, 6),
  asi2      |-> F("script", <<>>, <<"var", "\nvar", "a", "\na", "=", "\n=", ",", "\n,", "\n;", "\n[", "]", "\n`">>, <<>>, 5, 6),
  asikw     |-> F("script", <<"l", ":", "while", "(", "a", ")", "{">>, <<"break", "continue", "\nbreak", "a", "\na", "throw", ";", "}", "\n}", "\nl", "l">>, <<"}">>, 5, 6),
  asido     |-> F("script", <<"do", "a", ";", "while", "(", "a", ")">>, <<"a", "\na", ";", "do", "}", "else", "while", "(", ")", "++">>, <<>>, 5, 6),
  asifor    |-> F("script", <<"for">>, <<"(", "a", "\na", ";", "\n;", ")", "\n)">>, <<>>, 8, 9),
  asifn     |-> F("script", <<"function", "f", "(", ")", "{">>, <<"return", "a", "\na", "}", "\n}", ";", "async", "\nfunction", "(", ")", "{", "=>", "\n=>">>, <<"}">>, 5, 6),
  asiwords  |-> F("script", <<"x", "=", "y">>, <<"\nif", "\nwhile", "\nin", "\ninstanceof", "\nlet", "\nasync", "\nof", "\nvar", "\nnew", "\nthis", "\nget", "x", "(", ")", ";", "\nclass", "\nyield", "\nstatic">>, <<>>, 3, 5),
  asiafter  |-> F("script", <<>>, <<"x", "\nx", "}", "{", ";", "in", "of", "\n`", "import", "\n++", "1", "'s'", "/b/g", "]", "this">>, <<>>, 4, 5),
  \* ---- words as names
  wvar      |-> F("script", <<"var">>, AllWords, <<"=", "1">>, 1, 2),
  wvars     |-> F("script", <<"'use strict'", ";", "var">>, AllWords, <<"=", "1">>, 1, 2),
  wvarm     |-> F("module", <<"var">>, AllWords, <<"=", "1">>, 1, 2),
  wexpr     |-> F("script", <<"x", "=">>, AllWords, <<>>, 1, 3),
  wexprs    |-> F("script", <<"'use strict'", ";", "x", "=">>, AllWords, <<>>, 1, 3),
  wexprm    |-> F("module", <<"x", "=">>, AllWords, <<>>, 1, 3),
  wexprg    |-> F("script", <<"(", "function", "*", "(", ")", "{", "x", "=">>, AllWords, <<"}", ")">>, 1, 3),
  wexpra    |-> F("script", <<"async", "(", ")", "=>", "{", "x", "=">>, AllWords, <<"}">>, 1, 3),
  wexprin   |-> F("script", <<"(", "function", "*", "(", ")", "{", "function", "f", "(", ")", "{", "x", "=">>, AllWords, <<"}", "}", ")">>, 1, 2),
  wexprin2  |-> F("script", <<"(", "async", "function", "(", ")", "{", "(", "x", ")", "=>", "{", "x", "=">>, AllWords, <<"}", "}", ")">>, 1, 2),
  wexprout  |-> F("script", <<"(", "function", "*", "(", ")", "{", "}", ")", ";", "(", "async", "(", ")", "=>", "1", ")", ";", "x", "=">>, AllWords, <<>>, 1, 2),
  wstricto  |-> F("script", <<"function", "f", "(", ")", "{", "'use strict'", "}", "x", "=">>, AllWords, <<>>, 1, 2),
  wclass    |-> F("script", <<"class">>, AllWords, <<"{", "}">>, 1, 2),
  wclassin  |-> F("script", <<"class", "x", "{", "m", "(", ")", "{", "x", "=">>, AllWords, <<"}", "}">>, 1, 2),
  wclassout |-> F("script", <<"class", "x", "{", "}", "x", "=">>, AllWords, <<>>, 1, 2),
  wclassexp |-> F("script", <<"x", "=", "class">>, AllWords, <<"{", "}">>, 1, 2),
  wfn       |-> F("script", <<"function">>, AllWords, <<"(", ")", "{", "}">>, 1, 2),
  wfng      |-> F("script", <<"x", "=", "function", "*">>, AllWords, <<"(", ")", "{", "}">>, 1, 2),
  wfna      |-> F("script", <<"x", "=", "async", "function">>, AllWords, <<"(", ")", "{", "}">>, 1, 2),
  wfns      |-> F("script", <<"'use strict'", ";", "function">>, AllWords, <<"(", ")", "{", "}">>, 1, 2),
  wparam    |-> F("script", <<"function", "f", "(">>, AllWords, <<")", "{", "}">>, 1, 2),
  wparamr   |-> F("script", <<"function", "f", "(", "...">>, AllWords, <<")", "{", "}">>, 1, 2),
  wparamg   |-> F("script", <<"x", "=", "function", "*", "(">>, AllWords, <<")", "{", "}">>, 1, 2),
  wparama   |-> F("script", <<"x", "=", "async", "function", "(">>, AllWords, <<")", "{", "}">>, 1, 2),
  wlabel    |-> F("script", <<>>, AllWords, <<":", ";">>, 1, 2),
  wlabels   |-> F("script", <<"'use strict'", ";">>, AllWords, <<":", ";">>, 1, 2),
  wbreak    |-> F("script", <<"for", "(", ";", ";", ")", "break">>, AllWords, <<";">>, 1, 2),
  wcont     |-> F("script", <<"'use strict'", ";", "for", "(", ";", ";", ")", "continue">>, AllWords, <<";">>, 1, 2),
  wcatch    |-> F("script", <<"try", "{", "}", "catch", "(">>, AllWords, <<")", "{", "}">>, 1, 2),
  wmember   |-> F("script", <<"x", ".">>, AllWords, <<>>, 1, 2),
  wmembers  |-> F("script", <<"'use strict'", ";", "x", ".">>, AllWords \o <<"(", ".">>, <<")">>, 2, 3),
  wprop     |-> F("expression", <<"{">>, AllWords \o <<":", "(">>, <<"1", "}">>, 2, 2),
  wshort    |-> F("expression", <<"{">>, AllWords, <<"}">>, 1, 2),
  wshorts   |-> F("script", <<"'use strict'", ";", "x", "=", "{">>, AllWords, <<"}">>, 1, 2),
  wshortg   |-> F("script", <<"(", "function", "*", "(", ")", "{", "x", "=", "{">>, AllWords, <<"}", "}", ")">>, 1, 2),
  wmethod   |-> F("expression", <<"{">>, AllWords, <<"(", ")", "{", "}", "}">>, 1, 2),
  wgetter   |-> F("expression", <<"{", "get">>, AllWords, <<"(", ")", "{", "}", "}">>, 1, 2),
  wpattern  |-> F("script", <<"var", "{">>, AllWords, <<"}", "=", "x">>, 1, 2),
  wpatkey   |-> F("script", <<"var", "{">>, AllWords \o <<":">>, <<"a", "}", "=", "x">>, 2, 2),
  wpatval   |-> F("script", <<"var", "{", "a", ":">>, AllWords, <<"}", "=", "x">>, 1, 2),
  wpatarr   |-> F("script", <<"var", "[">>, AllWords, <<"]", "=", "x">>, 1, 2),
  wpatarrs  |-> F("script", <<"'use strict'", ";", "var", "[">>, AllWords, <<"]", "=", "x">>, 1, 2),
  warrow    |-> F("expression", <<>>, AllWords, <<"=>", "1">>, 1, 2),
  warrowp   |-> F("expression", <<"(">>, AllWords, <<")", "=>", "1">>, 1, 2),
  warrowps  |-> F("script", <<"'use strict'", ";", "(">>, AllWords, <<")", "=>", "1">>, 1, 2),
  warrowa   |-> F("expression", <<"async">>, AllWords, <<"=>", "1">>, 1, 2),
  warrowap  |-> F("expression", <<"async", "(">>, AllWords, <<")", "=>", "1">>, 1, 2),
  warrowr   |-> F("expression", <<"(", "...">>, AllWords, <<")", "=>", "1">>, 1, 2),
  warrowo   |-> F("expression", <<"(", "{">>, AllWords, <<"}", ")", "=>", "1">>, 1, 2),
  wassign   |-> F("script", <<>>, AllWords, <<"=", "1">>, 1, 2),
  wassigns  |-> F("script", <<"'use strict'", ";">>, AllWords, <<"=", "1">>, 1, 2),
  wlet      |-> F("script", <<"let">>, AllWords, <<"=", "1">>, 1, 2),
  wconst    |-> F("script", <<"const">>, AllWords, <<"=", "1">>, 1, 2),
  wclsmeth  |-> F("script", <<"class", "x", "{">>, AllWords, <<"(", ")", "{", "}", "}">>, 1, 2),
  wclsstat  |-> F("script", <<"class", "x", "{", "static">>, AllWords, <<"(", ")", "{", "}", "}">>, 1, 2),
  wimport   |-> F("module", <<"import">>, AllWords, <<"from", "'m'">>, 1, 2),
  wimpns    |-> F("module", <<"import", "*", "as">>, AllWords, <<"from", "'m'">>, 1, 2),
  wimpspec  |-> F("module", <<"import", "{">>, AllWords, <<"}", "from", "'m'">>, 1, 2),
  wimpas    |-> F("module", <<"import", "{", "x", "as">>, AllWords, <<"}", "from", "'m'">>, 1, 2),
  wimpas2   |-> F("module", <<"import", "{">>, AllWords, <<"as", "x", "}", "from", "'m'">>, 1, 2),
  \* ---- classes
  classes   |-> F("script", <<"class", "x", "{">>, <<"a", "(", ")", "{", "}", "static", "get", "set", "async", ";", "*", "[", "]", "'s'">>, <<"}">>, 6, 7),
  litclass  |-> F("script", <<"class", "x", "{">>, <<"0x1F", "1.5", "017", "''", "\"a\\\"b\"", "(", ")", "{", "}", "static", "get", ";", "*">>, <<"}">>, 5, 6),
  classctor |-> F("expression", <<"class", "{">>, <<"constructor", "'constructor'", "[", "]", "static", "get", "(", ")", "{", "}">>, <<"}">>, 7, 8),
  heritage  |-> F("expression", <<"class">>, <<"a", "extends", "{", "}", "(", ")", ".", "class", "new", "+", "[", "]">>, <<>>, 6, 7),
  classstmt |-> F("script", <<>>, <<"class", "a", "extends", "{", "}", ";", "\na", "(", ")">>, <<>>, 6, 7),
  \* ---- modules
  imports   |-> F("module", <<"import">>, <<"a", "b", "*", "as", "from", "{", "}", ",", "'m'", ";", "\na", "if">>, <<>>, 7, 8),
  imports2  |-> F("module", <<"import", "{">>, <<"a", "as", "if", ",", "}", "from", "'m'", "default", "*">>, <<>>, 7, 8),
  modstmts  |-> F("module", <<>>, <<"import", "'m'", ";", "a", "\na", "\nimport", "{", "}", "from", "function", "(", ")", "if">>, <<>>, 5, 6),
  impscript |-> F("script", <<>>, <<"import", "'m'", ";", "a", "from", "{", "}", "export", "*", "default", "(", ")">>, <<>>, 4, 5)
]
=============================================================================
