------------------------------- MODULE Front -------------------------------
(***************************************************************************)
(* The lexer and the parser together, one character at a time.  A slash    *)
(* that begins no comment begins a regular expression exactly where the    *)
(* parser, after the tokens before it, could not go on with a division.    *)
(***************************************************************************)
EXTENDS LexFrames, Parser

(* What the parser sees of a token of the lexer. *)
ParserTok(t) ==
  LET mk(c, x, raw) == [c |-> c, s |-> t.s, nl |-> t.nl, x |-> x, raw |-> raw]
      k == t.k IN
  CASE k = "LiteralNumber" -> mk("num", <<>>, "")
    [] k = "LiteralString" -> LET in == SubSeq(t.s, 2, Len(t.s) - 1) IN mk("str", in, in)
    [] k = "LiteralRegExp" -> mk("re", <<SubSeq(t.s, 2, t.x[1] + 1), SubSeq(t.s, t.x[1] + 3, Len(t.s))>>, "")
    [] k = "PrivateIdentifier" -> mk("prv", <<>>, "")
    [] t.s \in PunctSet -> mk("p", <<>>, "")
    [] OTHER -> mk("w", <<>>, "")

FrontInit(mode) == [l |-> Fresh(FALSE), c |-> Initial(mode), n |-> 0]

RECURSIVE Catch(_, _, _)
Catch(c, toks, n) ==   \* the parser reads the tokens from the n+1st on
  IF n >= Len(toks) \/ c.v # "ok" THEN c ELSE Catch(Step(c, ParserTok(toks[n + 1])), toks, n + 1)

SlashTok(l) == [c |-> "p", s |-> "/", nl |-> l.nl, x |-> <<>>, raw |-> ""]
FrontFeed(s, ch) ==
  IF s.c.v # "ok" THEN s
  ELSE
    LET l0 == IF s.l.m = "slash" THEN [s.l EXCEPT !.re = ~DivisionAllowed(s.c, SlashTok(s.l))] ELSE s.l
        l == Feed(l0, ch)
    IN IF l.m = "err" THEN [s EXCEPT !.c = Catch(Dead, l.toks, s.n), !.l = l]
       ELSE IF l.m = "U" THEN [s EXCEPT !.l = l, !.c = LET d == Catch(s.c, l.toks, s.n) IN IF d.v = "dead" THEN d ELSE Unspec]
       ELSE [l |-> l, c |-> Catch(s.c, l.toks, s.n), n |-> Len(l.toks)]

RECURSIVE FrontAll(_, _)
FrontAll(s, cs) == IF cs = <<>> THEN s ELSE FrontAll(FrontFeed(s, Head(cs)), Tail(cs))

FrontVerdict(s) ==
  IF s.c.v = "unspec" THEN [v |-> "unspec", t |-> Nil]
  ELSE IF s.c.v = "dead" THEN [v |-> "reject", t |-> Nil]
  ELSE
    LET l0 == IF s.l.m = "slash" THEN [s.l EXCEPT !.re = ~DivisionAllowed(s.c, SlashTok(s.l))] ELSE s.l
        l == End(l0)
        c == Catch(s.c, SelectSeq(l.toks, LAMBDA t : t.k # "None"), s.n)
    IN IF c.v = "unspec" \/ (l.m = "U" /\ c.v = "ok") THEN [v |-> "unspec", t |-> Nil]
       ELSE IF c.v = "dead" \/ l.m = "err" THEN [v |-> "reject", t |-> Nil]
       ELSE Verdict(c, l.toks[Len(l.toks)].nl)

FF(mode, pre, al, suf, q, t) == [mode |-> mode, pre |-> Codes(pre), al |-> al, suf |-> Codes(suf), q |-> q, t |-> t]
NL == <<<<LF>>>>
FrontFrame == TLCEval(
  \* after what does a slash begin a regular expression?
  "fslash" :> FF("script", "", Strs(<<"a", "/", "g", "=", "(", ")", "[", "]", " ", "+", "++", ";">>) \o NL, "", 5, 6) @@
  "fslash2" :> FF("script", "", Strs(<<"a", "/", "{", "}", "(", ")", "/b/g", "\\/", "[/]", "*", " ">>) \o NL, "", 5, 6) @@
  "fafter" :> FF("script", "", Strs(<<"a ", "1 ", "'s' ", "this ", "null ", "true ", "]", ")", "}", "(", "[", "{", ";", ",", "x=", "x+", "x++", "++", "!", "typeof ", "return ", "throw ", "in ", "of ", "new ", "if(", "while(", "for(", "else ", "do ", "case ", "x=>", "?", ":", "/b/g", "/c;", "/=d/", "." >>) \o NL, "", 3, 4) @@
  "fstmt" :> FF("script", "", Strs(<<"if(a)", "else ", "while(a)", "for(;;)", "do ", "{", "}", ";", "a", "/b/g", "/", "x:", "function f()", "class A", "()=>">>) \o NL, "", 4, 5) @@
  "fexpr" :> FF("expression", "", Strs(<<"a", "1", "'s'", "/b/g", "/=b/g", "/", "/=", "(", ")", "[", "]", ",", "+", "++", "!", "typeof ", "?", ":", "=>", "{", "}", "function()", "class ">>), "", 4, 5) @@
  "fbody" :> FF("expression", "function(){", Strs(<<"return", "/b/g", "/", "a", ";", "(", ")", "{", "}", " ", "throw">>) \o NL, "}", 4, 6) @@
  "fline" :> FF("script", "a", Strs(<<"/", "/*", "*/", "//", "=", "b", "g", ";", "[", "]", "\\">>) \o NL, "", 5, 6) @@
  "fregex" :> FF("script", "x=", Strs(<<"/", "\\", "[", "]", "a", "=", "*", "g", " ", ";">>) \o NL, "", 6, 7) @@
  "fend" :> FF("script", "x=/", Strs(<<"/", "\\", "[", "]", "a", "*">>) \o NL \o <<<<8232>>, <<CR>>>>, "/g;y", 4, 6) @@
  \* gaps of every kind between tokens
  "fgaps" :> FF("script", "a", Strs(<<" ", "/**/", "//x", "/*", "*/", "b", "++", ";", "=">>) \o NL \o <<<<CR>>, <<8233>>, <<65279>>, <<11>>>>, "", 5, 6) @@
  "fgaps2" :> FF("expression", "function(){return", Strs(<<" ", "/**/", "//x", "a", ";", "(", ")">>) \o NL \o <<<<8232>>, <<CR>>>> \o <<Codes("/*") \o <<LF>> \o Codes("*/")>>, "}", 4, 5) @@
  "fglue" :> FF("script", "", Strs(<<"a", "1", ".", "'", "in", "=", ">", "<", "-", "+", "!", "&", "|", "?", ":">>), "", 4, 5) @@
  "fglue2" :> FF("script", "", Strs(<<"var", "let", "x", "1", "_", "$", "=", ",", "of", "in", " ", ";", "e", ".", "0">>), "", 4, 5) @@
  "fmod" :> FF("module", "import", Strs(<<"'m'", "*", "as", "from", "a", "{", "}", ",", " ", ";", "/**/">>) \o NL, "", 5, 6))
=============================================================================
