------------------------------- MODULE Corpus -------------------------------
(***************************************************************************)
(* Programs that hold every construct in every context, and the tokens     *)
(* they are changed with.  In the contexts # stands for the construct.     *)
(***************************************************************************)
EXTENDS Frames

(* The tokens of a text in which they are separated by spaces; a space within
   a token is written as @. *)
Named(s) == IF s = "'use@strict'" THEN "'use strict'" ELSE IF s = "\n'use@strict'" THEN "\n'use strict'" ELSE s
RECURSIVE SplitFrom(_, _, _)
SplitFrom(s, from, i) ==
  IF i > Len(s) THEN IF i > from THEN <<Named(SubSeq(s, from, i - 1))>> ELSE <<>>
  ELSE IF SubSeq(s, i, i) = " " THEN (IF i > from THEN <<Named(SubSeq(s, from, i - 1))>> ELSE <<>>) \o SplitFrom(s, i + 1, i + 1)
  ELSE SplitFrom(s, from, i + 1)
Split(s) == SplitFrom(s, 1, 1)

RECURSIVE Filled(_, _, _)
Filled(ctx, frag, i) ==
  IF i > Len(ctx) THEN "" ELSE (IF SubSeq(ctx, i, i) = "#" THEN frag ELSE SubSeq(ctx, i, i)) \o Filled(ctx, frag, i + 1)

(* Every fragment in every context. *)
Mixed(ctxs, frags) == [n \in 1..(Len(ctxs) * Len(frags)) |->
  Filled(ctxs[1 + ((n - 1) \div Len(frags))], frags[1 + ((n - 1) % Len(frags))], 1)]
(* Fragments in the contexts that take turns: each fragment once. *)
Turns(ctxs, frags) == [n \in 1..Len(frags) |-> Filled(ctxs[1 + (n % Len(ctxs))], frags[n], 1)]

Kinds == {"d", "n", "u", "s", "i", "r"}
Texts(mode, texts, voc, deepvoc) ==
  [mode |-> mode, texts |-> texts, voc |-> voc, deepvoc |-> deepvoc, levels |-> <<Kinds>>, deeplevels |-> <<Kinds>>]
Lines(mode, texts) ==
  [mode |-> mode, texts |-> texts, voc |-> <<";", "\n;", "a", "\na", "\n(", "\n{", "\n}", "\n++">>, deepvoc |-> <<";", "\n;", "a", "\na", "\n(", "\n{", "\n}", "\n++", "\n+", "\n/b/g", "\n[", "\nfunction", "\n=>">>,
   levels |-> <<Kinds, {"n"}>>, deeplevels |-> <<{"n", "d", "u"}, Kinds>>]

\* ---- what is bound: parameters, and what may turn out to be parameters
Bound == << "a", "{ a }", "{ a = 1 }", "{ a : b }", "{ a : b = 1 }", "{ a : { b = 1 } }", "{ a : [ b = 1 ] , c }", "{ a : { b : c } = d }",
  "[ a ]", "[ a = 1 ]", "[ { a = 1 } ]", "[ { a } , b ]", "[ , a , ]", "[ [ a ] ]", "{ }", "[ ]", "a = b", "{ a = 1 } = b", "[ a ] = b", "{ a : [ { b = 1 } ] }",
  "a = { b = 1 }", "a = ( { b } ) => c", "{ a , b = 1 , }", "{ 1 : a }", "{ 's' : a }", "{ if : a }", "( a )", "( { a = 1 } )", "a . b", "{ a : b . c }", "[ a + 1 ]", "{ a ( ) { } }", "{ get : a }",
  "{ async : a = 1 }", "async", "yield", "let" >>
Rest1 == << "... a", "... [ a ]", "... { a }", "... { a = 1 }", "b , ... a", "... a = 1", "... a ,", "... ( a )" >>
Params == << "( # ) => c", "( c , # ) => d", "( # , c ) => d", "async ( # ) => c", "async ( c , # ) => { }", "function f ( # ) { }", "( # )", "( # , c )", "( c , # )", "async ( # )",
  "x = ( # ) => { } ", "function f ( c , # ) { }" >>
Declared == << "var # = x", "let # = x", "const # = x , y = 1", "var c , # = x", "for ( var # of x ) ;", "for ( let # in x ) ;", "for ( const # = 1 ; ; ) ;", "try { } catch ( # ) { }", "( { m ( # ) { } } )", "class A { m ( # ) { } }",
  "x = function ( # ) { }", "x = async function ( # ) { }", "f ( # )", "x = #", "[ # ]", "# => c", "async # => c", "var # , y" >>
PatVoc == << "a", "=", ",", ":", "(", ")", "[", "]", "{", "}", "...", "=>", "1", "\n=>", "async", "+" >>
PatVocDeep == PatVoc \o << "'s'", "this", ";", "/b/g", "?", ".", "get", "*", "in", "of", "function", "yield", "await", "new", "\na", "++" >>

\* ---- expressions
Exprs == << "a", "1", "'s'", "/b/g", "this", "a . b", "f ( a , b )", "a + b * c", "a * b + c", "- a", "! a . b", "a ++", "-- a . b", "a ? b : c", "a = b", "a += b = c", "( a , b )", "[ a , , b ]", "{ a : b , c }", "{ a ( ) { } , b , }",
  "function f ( a ) { }", "function * ( ) { }", "class A { m ( ) { } }", "class extends a { }", "( a , b ) => c", "a => { }", "async a => b", "async ( a ) => b", "new A ( b ) . c", "new a . b", "new ( a ( ) ) ( )", "typeof a", "void 0", "delete a . b",
  "a / b / c", "async ( a )", "a in b", "a instanceof b", "a ** b ** c", "( - a ) ** b", "a ?? b ?? c", "a || b && c", "( a ?? b ) || c", "a < b == c", "a & b | c ^ d", "a << b >>> c", "a [ b ] [ c ]", "a . if . b ( )", "x = y => z", "{ get : a , set , async }",
  "[ { a } , ... b ]", "f ( ... a )", "async function ( ) { }", "( a => b ) ( c )", "null", "true + false", "f ( ) ( ) . a [ b ]", "{ 'a' : 1 , 2 : b , if : c }", "- - a", "+ + a", "a - - b", "a + + b", "a ++ + ++ b", "a ? b ? c : d : e", "a ? b : c ? d : e",
  "a , b => c , d", "{ async a ( ) { } }", "{ * a ( ) { } }", "new new a ( ) ( )", "typeof - a ++", "a in b in c", "( a ) = b", "a . b = c", "a [ b ] += c",
  "{ 0x1F : 1.5 , \"b\\\\\" : 1e999 , 017 ( ) { } , '' : 0.25 }", "[ 0b1 , 1_0 , 'a\\'b' ]", "class { 1.5 ( ) { } static '\\n' ( ) { } get 0o17 ( ) { } }" >>
ExprCtx == << "# ;", "x = # ;", "( # )", "f ( # , # )", "[ # , # ]", "a [ # ]", "if ( # ) ;", "for ( # ; # ; # ) ;", "function f ( ) { return # }", "throw #", "var x = # , y", "switch ( # ) { case # : }", "a ? # : # ;", "( ) => #", "( a = # ) => b", "( { a : # } )",
  "a + # - b", "- # ;", "while ( # ) #", "for ( a in # ) ;", "for ( a of # ) ;", "x = { a : # , b : # }", "f ( # ) . b", "do ; while ( # )", "a && # || b", "( # , # )", "class A extends # { }", "for ( var x = # ; ; ) ;", "a => #", "new # ;", "x = # ? # : b" >>
ExprVoc == << "a", "(", ")", "[", "]", "{", "}", ",", ".", "...", "?", ":", "=", "=>", "+", "*", "**", "++", "!", "in", "??", "&&", "new", "typeof", "function", "class", "async", "/b/g", "1", "\na", "\n++", ";" >>
ExprVocDeep == ExprVoc \o << "-", "/", "||", "<", "==", "instanceof", "--", "~", "void", "delete", "+=", "??=", "'s'", "this", "null", "yield", "await", "let", "of", "static", "get", "#p", "\n(", "\n/b/g", "|", "&", "^", "<<", "\n=>" >>

\* ---- statements
Stmts == << "a ;", "a", "{ }", "{ a ; b }", ";", "if ( a ) b ;", "if ( a ) b ; else c ;", "if ( a ) { } else if ( b ) { } else { }", "while ( a ) b ;", "do a ; while ( b ) ;", "do { } while ( b ) c", "for ( ; ; ) a ;", "for ( a ; b ; c ) { }", "for ( var a = 1 , b ; a ; a ++ ) ;", "for ( let a of b ) ;",
  "for ( const a in b ) c ;", "for ( a of b ) ;", "for ( a . b in c , d ) ;", "break ;", "continue ;", "return ;", "return a ;", "return a , b ;", "throw a ;", "try { } catch ( a ) { }", "try { a } finally { b }", "try { } catch { } finally { }", "switch ( a ) { case b : c ; break ; default : d }",
  "switch ( a ) { }", "switch ( a ) { default : case b : case c : { } }", "l : a ;", "l : for ( ; ; ) break l ;", "l : while ( a ) continue l ;", "l : m : ;", "var a ;", "var a = 1 , b , c = 2 ;", "let a , b = 1 ;", "const a = 1 ;", "var { a , b : c = 1 } = d ;", "let [ a , , b ] = c ;", "function f ( a , b = 1 , ... c ) { }",
  "function * g ( ) { }", "async function f ( ) { }", "class A { }", "class A extends B { constructor ( ) { } a ( ) { } static b ( ) { } get c ( ) { } ; }", "class A { static ( ) { } async m ( a ) { } * g ( ) { } async * h ( ) { } set a ( b ) { } }", "class A { 's' ( ) { } 1 ( ) { } get ( ) { } static static ( ) { } [ a ] ( ) { } }", "( function ( ) { } ) ( ) ;",
  "if ( a ) ; else ;", "for ( ; ; ) { if ( a ) break ; else continue }", "a : { b : ; }", "'use@strict' ; a", "a = { b : c } ;", "( { } ) ;", "let", "async ( ) ;", "async a => b ;", "x = function ( ) { return } ;", "new A ;", "a ++ ;", "a = b ? c : d ;", "[ a ] . b ;", "var a = function ( ) { } , b ;", "if ( a ) function f ( ) { }", "var a = b => { c } ;" >>
StmtCtx == << "#", "# x ;", "x ; #", "{ # }", "function f ( ) { # }", "a => { # }", "while ( a ) #", "if ( a ) # else #", "switch ( a ) { case b : # default : # }", "try { # } catch { # } finally { # }", "class A { m ( ) { # } }", "l : #", "do # while ( a )", "for ( ; ; ) { # }", "# \n#", "if ( a ) #", "for ( a in b ) #", "( { m ( ) { # } } )", "'use@strict' ; #" >>
StmtVoc == << "a", ";", "{", "}", "(", ")", ":", ",", "=", "if", "else", "for", "while", "do", "break", "return", "case", "default", "catch", "finally", "var", "let", "const", "function", "class", "static", "in", "of", "async", "*", "...", "=>", "\na", "'s'" >>
StmtVocDeep == StmtVoc \o << "[", "]", ".", "1", "continue", "throw", "try", "switch", "extends", "get", "set", "new", "this", "import", "super", "with", "debugger", "yield", "await", "?", "+", "++", "/b/g", "'use strict'", "\n(", "\n;", "\n{", "\n}", "\nwhile", "\nelse", "enum" >>

\* ---- where a line break matters
LineStmts == << "a b", "a \nb", "a \n++ b", "a ++ \nb", "throw a ( b )", "throw ( a )", "throw { }", "throw [ a ]", "throw 's'", "throw new A", "throw /b/g", "throw - a", "throw function ( ) { }", "throw a => b", "throw this", "return ( a )", "return { }", "return [ ]", "return 's' ;", "return - a", "return /b/g", "return new A", "return function ( ) { }", "return a => b",
  "break l", "continue l", "break", "continue ;", "async function f ( ) { }", "async function * f ( ) { }", "async a => b", "async ( a ) => b", "a => b", "( a ) => { }", "( ) => a \n( b )", "a = async function ( ) { }", "a = async ( ) => { } \nb", "( { async a ( ) { } } )", "( { get a ( ) { } } )", "( { async * a ( ) { } } )", "class A { async a ( ) { } }", "class A { get a ( ) { } \nset a ( b ) { } }", "class A { static a ( ) { } }",
  "let a = 1", "let [ a ] = b", "let { a } = b", "var a \nb", "var a = 1 \nvar b", "const a = b \n( c )", "do a ; while ( b ) c", "do ; while ( a ) \nb", "if ( a ) b \nelse c", "if ( a ) b ; else c", "for ( a ; b ; c ) d", "for ( ; ; ) \na", "while ( a ) \nb", "a \n( b )", "a \n[ b ]", "a \n+ b", "a \n/ b", "a = b \n/b/g . c", "{ a } b", "{ a \nb }", "function f ( ) { } a", "function f ( ) { return \na }", "x = function ( ) { } \n( a )", "class A { } a",
  "a = class { } \nb", "'use@strict' \na", "'use@strict' + a", "a . \nb", "a . if \nb", "a ? b \n: c", "new a \n( b )", "typeof a \nb", "a \nin b", "a \ninstanceof b", "a \nof \nb", "l : \na", "l \n: a", "switch ( a ) { case b : c \ndefault : d }", "try { } \ncatch ( a ) { } \nfinally { }", "a -- \n-- b", "a \n, b", "a => { } \n( b )", "yield \na", "await \na", "a = yield", "static \na", "async \na", "get \na", "let \na", "of \na", "( a \n) => b", "( a \n= 1 ) => b", "{ } /b/g", "var a = b \n, c", "import \n'm'" >>
LineCtx == << "#", "function f ( ) { # }", "l : for ( ; ; ) { # }", "l : for ( ; ; ) #", "class A { m ( ) { # } }", "if ( x ) #", "x = ( ) => { # } \ny", "x \n# \ny" >>
ModLines == << "import a from 'm'", "import 'm'", "import * as a from 'm'", "import { a , b as c } from 'm'", "import a , { b } from 'm'", "import a from 'm' \nimport b from 'n'", "import 'm' ; a", "import { } from 'm' \na ++", "import a , * as b from 'm' ; c" >>

\* ---- words
WordTexts == << "a = b", "var a = b , c", "let a = b", "const a = b", "function a ( b , ... c ) { d }", "x = function a ( b ) { c }", "class a extends b { c ( d ) { e } static f ( ) { } get g ( ) { } set h ( i ) { } }", "x = class a { }", "a : b ;", "l : for ( ; ; ) { break l ; continue l }", "a . b . c ( d )", "x = { a , b : c , d ( e ) { } , get f ( ) { } , async g ( ) { } , h }",
  "var { a , b : c , d = e } = f", "var [ a , b = c ] = d", "a => b", "( a , b = c , ... d ) => e", "async a => b", "async ( a , b ) => c", "( { a , b : c , d = e } ) => f", "( [ a , b ] ) => c", "try { } catch ( a ) { b }", "for ( a in b ) c", "for ( a of b ) c", "for ( var a of b ) c", "for ( let a ; ; ) c", "new a . b ( c )", "a ? b : c", "if ( a ) b ; else c", "switch ( a ) { case b : c }", "throw a", "typeof a", "a ++", "( a )", "f ( a , ... b )", "[ a , b ]", "async ( a )", "a [ b ]",
  "function f ( { a , b : c } , [ d ] ) { }", "async function a ( b ) { c }", "function * a ( b ) { c }", "x = async function a ( b ) { c }", "x = function * a ( b ) { c }", "return a", "while ( a ) b", "do a ; while ( b )" >>
WordMods == << "import a from 'm'", "import * as a from 'm'", "import { a , b as c } from 'm'", "import a , { b } from 'm' ; c = d", "var a = b", "function a ( b ) { c }", "class a { b ( c ) { d } }", "a : b ;", "( a , b ) => c", "async ( a ) => b", "x = { a , b : c }", "var { a , b : c } = d", "try { } catch ( a ) { }" >>
WordCtx == << "#", "'use@strict' ; #", "function f ( ) { 'use@strict' ; # }", "( function * ( ) { # } )", "( async function ( ) { # } )", "x = async ( ) => { # }", "class A { m ( ) { # } }", "function f ( ) { # }", "( function * ( ) { ( ) => { # } } )", "( { * m ( ) { # } } )", "( { async m ( ) { # } } )", "( async function * ( ) { # } )", "( async ( ) => { function f ( ) { # } } )", "( function * ( ) { class A { m ( ) { # } } } )", "function f ( ) { 'use@strict' } #", "class A { } #" >>
WordVoc == << "async", "await", "yield", "let", "static", "of", "get", "set", "as", "from", "implements", "interface", "package", "private", "protected", "public", "enum", "if", "this", "null", "in", "new", "function", "class", "super", "import", "var", "typeof", "true", "meta", "target", "eval", "constructor", "x" >>

\* ---- modules
Imports == << "import a from 'm'", "import 'm'", "import * as a from 'm'", "import { a } from 'm'", "import { a as b , c } from 'm'", "import { default as a } from 'm'", "import { if as a , } from 'm'", "import a , * as b from 'm'", "import a , { b , c as d } from 'm'", "import { } from 'm'", "import a , { } from 'm'", "import as from 'm'", "import from from 'm'", "import * as as from 'm'", "import * as from from 'm'", "import { as } from 'm'",
  "import { as as as } from 'm'", "import { from } from 'm'", "import { as as from , from as as } from 'm'", "import async from 'm'", "import get , { set as of } from 'm'" >>
ImportCtx == << "#", "# ;", "# \n#", "# ; #", "a ; # ; b", "'use@strict' ; # ; f ( )", "# \na ( )", "# \n{ }", "{ # }", "function f ( ) { # }", "if ( a ) #", "a => { # }" >>
ImportVoc == << "a", "import", "from", "as", "*", "{", "}", ",", ";", "'m'", "default", "if", "(", ")", ".", "1", "\n;", "\na", "\nfrom", "export", "let", "await", "of", "=", "function", "...", "this" >>

CorpusOf == [
  params    |-> Texts("script", Mixed(Params, Bound \o Rest1), PatVoc, PatVocDeep),
  declared  |-> Texts("script", Mixed(Declared, Bound \o Rest1), PatVoc, PatVocDeep),
  exprs     |-> Texts("script", Mixed(ExprCtx, Exprs), ExprVoc, ExprVocDeep),
  stmts     |-> Texts("script", Mixed(StmtCtx, Stmts), StmtVoc, StmtVocDeep),
  lines     |-> Lines("script", Mixed(LineCtx, LineStmts)),
  modlines  |-> Lines("module", Mixed(<<"#", "x \n# \ny">>, ModLines)),
  wordtexts |-> Texts("script", Mixed(WordCtx, WordTexts), WordVoc, AllWords),
  wordmods  |-> Texts("module", Mixed(<<"#", "# \nx", "function f ( ) { # }">>, WordMods), WordVoc, AllWords),
  imports   |-> Texts("module", Mixed(ImportCtx, Imports), ImportVoc, ImportVoc \o AllWords),
  impscript |-> Texts("script", Imports, <<"a", "(", ")", ".", "{", "}">>, ImportVoc)
]
=============================================================================
