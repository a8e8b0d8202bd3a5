----------------------------- MODULE FrontEdits -----------------------------
(***************************************************************************)
(* Every way to change a text by a character: one left out, put twice,     *)
(* exchanged with the next one, replaced by or put behind any piece of a   *)
(* vocabulary; and every beginning of the text.  And once more behind that *)
(* for every pair of changes.                                              *)
(***************************************************************************)
EXTENDS Front, Corpus, Json
CONSTANTS Names,   \* sequence of names of parts of CharCorpus
          Changes  \* "one", "wide" (one, of a larger vocabulary), "pairs" of a smaller vocabulary, or "more": pairs, one of them of the whole
VARIABLES vP, vPos, vEdits, vState, vNew

Line == <<10>>
LS == <<8232>>
\* what holds numbers, strings, names, regular expressions, comments and punctuators
NumberTexts == Strs(<<"x=1_0.5e+3;", "0x1F+0b10-0o17", "a=08.5", "0.1e-9in b", "x=.5.a", "1..a", "1.e5.b", "[1_0,2e1_0]", "0B1^0O7^0Xa", "017;", "1/2/3", "{0:a}", "x={1.5:2}", "if(1)0;else.5", "'1'+1" >>)
StringTexts == Strs(<<"x='a\\nb'", "\"a'b\"+'c\"d'", "'\\x41\\u0041\\u{1F6}'", "'use strict';a", "'\\0\\\\';b", "x='a\\\nb'", "f('','')", "x={'a':\"b\"}", "'a'['b']", "function f(){'use strict'}", "'\\8'" >>) \o <<Codes("x='") \o <<233, 119987, 8232>> \o Codes("'")>>
NameTexts == Strs(<<"var a$=_b,C1;", "class A{#b=c;d(){}}", "a.if.in.b", "let of=a", "async()", "x={get:1,set,async}", "l:for(;;)break l", "typeof a in b", "newa.b", "new a.b", "inf in of", "yield=await", "eval;arguments", "static/let", "voida", "thisa.this", "null.nulls", "varx=1" >>) \o <<Codes("var ") \o <<233, 119987, 8205>> \o Codes("=1")>>
RegexTexts == Strs(<<"x=/a[/]b\\/(c)/gi;", "a=b/c/d", "/=/.e", "x=/a/g/b/c", "(/b/)/c", "if(a)/b/.c", "a++/b/c", "{}/a/g", "x={}/a/g", "()=>{}\n/a/g", "return\n/a/", "[/a/,/]/g]", "a\n/b/g", "typeof/a/", "/a*/g//b", "a?/b/:/c/", "function f(){}/a/g", "x=function(){}/a/g", "a/=b/c", "/[\\]/]*/" >>)
GapTexts == Strs(<<"a//b\nc", "a/*b\n*/c", "a/**/b", "a /*/ b*/;c", "//\na", "a++//\n++b", "a\n++\nb", "x=a\n/*\n*/(b)", "a;;b", "{a\n}b", "var a\nb", "do;while(a)b", "if(a)\nb\nelse\nc" >>) \o
  <<Codes("a") \o LS \o Codes("b"), Codes("a") \o <<13, 10>> \o Codes("b"), Codes("a//") \o <<8233>> \o Codes("b"), <<65279>> \o Codes("a") \o <<160, 11, 12, 9>> \o Codes("=b")>>
PunctTexts == Strs(<<"a>>>=b>>>c", "a**=b**c", "a?b:c", "a??b", "a&&=b||c", "(...a)=>b", "a<=b>=c", "a!==b===c", "a!=b==c", "a<<=b>>c", "[...a,,]", "a=>b", "!-+~a--", "a- -b+ +c", "a---b", "a+++b", "({a,b}=c)", "{a}[b]", "a&b|c^d", "a%=b%c", "a.b,c", "a?.5:1" >>)

CharVoc == Each("a10_.'\"/\\=+-*()[]{},;:?<>!#$ en") \o <<Line, LS, <<233>>>>
CharVocDeep == Each("abceglnoruvx0189_.'\"/\\=+-*()[]{},;:?<>!#$@`~^&|% ") \o <<Line, <<13>>, LS, <<8233>>, <<233>>, <<160>>, <<65279>>, <<119987>>, <<8205>>, <<0>>, <<127>>>> \o Strs(<<"/*", "*/", "//", "\\u0061", "=>", "in ", "'s'", "/b/g">>)
Spaced(text) == [j \in 1..Len(text) |-> IF text[j] = 64 THEN 32 ELSE text[j]]   \* see Corpus
All(texts) == [i \in 1..Len(texts) |-> Spaced(Codes(texts[i]))]
\* voc: for one change, voc2: for each of several
C(mode, texts, voc, voc2) == [mode |-> mode, texts |-> texts, voc |-> voc, voc2 |-> voc2]
\* the second vocabulary of whole programs
Few == Each("a(){}; =+:/") \o <<Line>>
CharCorpus == [
  numbers  |-> C("script", NumberTexts, CharVocDeep, Each("017._+eExno /a';")),
  strings  |-> C("script", StringTexts, CharVocDeep, Each("'\"\\nxu{}01;") \o <<Line, LS>>),
  names    |-> C("script", NameTexts, CharVocDeep, Each("a1$#. =(;\\n") \o <<<<233>>>>),
  regexes  |-> C("script", RegexTexts, CharVocDeep, Each("/\\[]*ga()={};+ ") \o <<Line>>),
  exregexes |-> C("expression", SelectSeq(RegexTexts, LAMBDA t : \A i \in DOMAIN t : t[i] # 59), CharVocDeep, Each("/\\[]*ga(){+ ") \o <<Line>>),
  gaps     |-> C("script", GapTexts, CharVocDeep, Each("/*a+;({} ") \o <<Line, <<13>>, LS>>),
  puncts   |-> C("script", PunctTexts, CharVocDeep, Each("=<>+-*!&|?.,:(a")),
  xstmts   |-> C("script", All(Mixed(<<"#", "if(x) # else\ny", "x=function*(){ # }", "x=> { # /y", "a\n#\nb">>, Stmts)), CharVoc, Few),
  xexprs   |-> C("script", All(Mixed(<<"x= #", "( # )/x", "x?[ # ]: #", "f(x, # )\n/x/g", "for( # ; ;);">>, Exprs)), CharVoc, Few),
  xlines   |-> C("script", All(Mixed(<<"#", "{ # }", "while(x)\n# \ny">>, LineStmts)), CharVoc, Few),
  xwords   |-> C("script", All(Mixed(<<"#", "'use strict'; #", "async()=>{ # }">>, WordTexts)), CharVoc, Few),
  ximports |-> C("module", All(Mixed(<<"#", "# \nx", "/**/ # //">>, Imports)), CharVoc, Few),
  impscript |-> C("script", All(Imports), CharVoc, Few)
]

Parts == TLCEval([i \in 1..Len(Names) |->
  LET r == CharCorpus[Names[i]] IN [mode |-> r.mode, texts |-> r.texts, vocs |-> CASE Changes = "one" -> <<r.voc>> [] Changes = "wide" -> <<CharVocDeep>> [] Changes = "pairs" -> <<r.voc2, r.voc2>> [] Changes = "more" -> <<r.voc, r.voc2>>]])
RECURSIVE Programs(_)
Programs(i) == IF i > Len(Parts) THEN <<>>
  ELSE [k \in 1..Len(Parts[i].texts) |-> [part |-> i, s |-> Parts[i].texts[k]]] \o Programs(i + 1)
Prog == TLCEval(Programs(1))

ASSUME \A i \in 1..Len(Names) : PrintT(ToJson([part |-> i, name |-> Names[i], mode |-> Parts[i].mode, vocs |-> Parts[i].vocs]))
ASSUME \A p \in 1..Len(Prog) : PrintT(ToJson([program |-> p, of |-> Prog[p].part, s |-> Prog[p].s]))

Rest(p, i) == SubSeq(Prog[p].s, i, Len(Prog[p].s))
Left == Rest(vP, vPos)
Voc == Parts[Prog[vP].part].vocs[Len(vEdits) + 1]
\* no program begins like this, however it goes on
Hopeless(s) == s.c.v = "dead" /\ s.c.why = "syntax"

\* vEdits: <<kind, position, piece>> for each change so far
Init == \E p \in 1..Len(Prog) :
  vP = p /\ vPos = 1 /\ vEdits = <<>> /\ vState = FrontInit(Parts[Prog[p].part].mode) /\ vNew = TRUE
Advance ==
  /\ Len(vEdits) < Len(Parts[Prog[vP].part].vocs) /\ Left # <<>> /\ ~Hopeless(vState)
  /\ vState' = FrontFeed(vState, Left[1]) /\ vPos' = vPos + 1 /\ vNew' = FALSE /\ UNCHANGED <<vP, vEdits>>
\* s in the place of the next n characters
Put(kind, k, s, n) ==
  /\ n <= Len(Left)
  /\ LET d == FrontAll(vState, s) IN ~Hopeless(d) /\ vState' = d
  /\ vEdits' = Append(vEdits, <<kind, vPos, k>>) /\ vPos' = vPos + n /\ vNew' = TRUE /\ vP' = vP
Next ==
  \/ Advance
  \/ /\ Len(vEdits) < Len(Parts[Prog[vP].part].vocs) /\ ~Hopeless(vState)
     /\ \/ Put("d", 0, <<>>, 1)
        \/ Left # <<>> /\ Put("u", 0, <<Left[1], Left[1]>>, 1)
        \/ Len(Left) > 1 /\ Put("s", 0, <<Left[2], Left[1]>>, 2)
        \/ Left # <<>> /\ Put("e", 0, <<>>, Len(Left))
        \/ \E k \in 1..Len(Voc) : Put("i", k, Voc[k], 0)
        \/ \E k \in 1..Len(Voc) : Put("r", k, Voc[k], 1)
Spec == Init /\ [][Next]_<<vP, vPos, vEdits, vState, vNew>>
View == <<vP, vPos, vEdits, vNew>>

Emit == vNew =>
  \A w \in {FrontVerdict(FrontAll(vState, Left))} :
    IF w.v = "accept" THEN PrintT(ToJson(<<vP, vEdits, "A", w.t>>))
    ELSE PrintT(ToJson(<<vP, vEdits, IF w.v = "unspec" THEN "U" ELSE "R">>))
=============================================================================
