------------------------------- MODULE Parser -------------------------------
(***************************************************************************)
(* The parser as a pushdown automaton: a configuration holds a stack of    *)
(* grammar symbols still to be recognised, a stack of the values built so  *)
(* far, and the context flags.  One step consumes one token.  The automa-  *)
(* ton is deterministic; "dead" means that no program of the grammar       *)
(* starts with the tokens read so far, "unspec" that they use syntax this  *)
(* project does not support, about which the specification says nothing.   *)
(*                                                                         *)
(* The values are ESTree nodes, written as tuples <<type, field, ...>> in  *)
(* the field order of harness/estree.go, with <<>> for an absent node.     *)
(***************************************************************************)
EXTENDS Tables, TLC

(***************************************************************************)
(* Tokens: [c |-> class, s |-> text, nl |-> line break before it,          *)
(* x |-> value].  Classes: "p" punctuator, "w" word, "num", "str", "re",   *)
(* "tpl" (template), "prv" (#name) and "eof".                              *)
(***************************************************************************)
IsP(t, s) == t.c = "p" /\ t.s = s
IsW(t, s) == t.c = "w" /\ t.s = s
EOFTok == [c |-> "eof", s |-> "", nl |-> FALSE, x |-> <<>>]

(***************************************************************************)
(* Values: t the tree; k the syntactic kind, which decides what the value  *)
(* may become; b whether it can turn out to be a binding pattern ("y"es,   *)
(* "n"o, or "u": as far as ECMAScript goes, but unsupported); p the tree   *)
(* as a binding pattern; f a reservation if it turns out to be an expres-  *)
(* sion ("T": a syntax error; "U": unsupported).                           *)
(***************************************************************************)
Nil == <<>>
Val(t, k) == [t |-> t, k |-> k, b |-> "n", p |-> Nil, f |-> ""]
Ident(n) == <<"Identifier", n>>
IdVal(n) == [t |-> Ident(n), k |-> "id", b |-> "y", p |-> Ident(n), f |-> ""]

LHSKinds == {"id", "mem", "lhs", "str", "arr", "obj", "parsimple", "par"}
SimpleKinds == {"id", "mem", "parsimple"}

Worse(f, g) == IF f = "T" \/ g = "T" THEN "T" ELSE IF f = "U" \/ g = "U" THEN "U" ELSE ""
Both(b, d) == IF b = "n" \/ d = "n" THEN "n" ELSE IF b = "u" \/ d = "u" THEN "u" ELSE "y"

(***************************************************************************)
(* Configurations.                                                         *)
(***************************************************************************)
Dead == [v |-> "dead", st |-> <<>>, vs |-> <<>>, why |-> "syntax"]
(* Dead because of how an ambiguity was resolved, not because of the token *)
(* that resolved it.                                                       *)
DeadCover == [Dead EXCEPT !.why = "cover"]
Unspec == [Dead EXCEPT !.v = "unspec"]

Config(start, strict) ==
  [v |-> "ok", st |-> start, vs |-> <<>>, why |-> "",
   strict |-> strict, gen |-> FALSE, asy |-> FALSE, fn |-> FALSE,
   aw |-> FALSE]  \* whether the word await was met

Initial(mode) ==
  CASE mode = "script" -> [Config(<<<<"Items", "eof", TRUE>>, <<"Eof">>, <<"A", "program", "script">>>>, FALSE)
                             EXCEPT !.vs = <<Val(<<>>, "list")>>]
    [] mode = "module" -> [Config(<<<<"Items", "module", TRUE>>, <<"Eof">>, <<"A", "program", "module">>>>, TRUE)
                             EXCEPT !.vs = <<Val(<<>>, "list")>>]
    [] mode = "expression" -> Config(<<<<"Expr", LvComma, FALSE, FALSE>>, <<"A", "final">>, <<"Eof">>>>, FALSE)

IsIdent(c, t) ==
  /\ t.c = "w"
  /\ t.s \notin AlwaysReserved
  /\ ~(c.strict /\ t.s \in StrictReserved)
  /\ ~(c.gen /\ t.s = "yield")
  /\ ~(c.asy /\ t.s = "await")

T(s) == <<"T", s>>
Kw(s) == <<"W", s>>
A(a) == <<"A", a>>
Expr(min) == <<"Expr", min, FALSE, FALSE>>
RestoreCtx(c) == <<"A", "ctx", c.strict, c.gen, c.asy, c.fn>>
InFunction(c, async, gen) == [c EXCEPT !.gen = gen, !.asy = async, !.fn = TRUE]

Top(c) == c.vs[1]
Second(c) == c.vs[2]
Drop(s, n) == SubSeq(s, n + 1, Len(s))
(* Replace the topmost n values by v. *)
Red(c, n, v) == [c EXCEPT !.vs = <<v>> \o Drop(@, n)]
(* Replace the topmost n values by a node. *)
Node(c, n, t, k) == Red(c, n, Val(t, k))

RECURSIVE OrF(_), AndB(_)
OrF(vs) == IF vs = <<>> THEN "" ELSE Worse(Head(vs).f, OrF(Tail(vs)))
AndB(vs) == IF vs = <<>> THEN "y" ELSE Both(Head(vs).b, AndB(Tail(vs)))

Trees(els) == [i \in 1..Len(els) |-> els[i].t]
Patterns(els) == [i \in 1..Len(els) |-> els[i].p]

Property(key, computed, value, kind, method, shorthand) ==
  <<"Property", key, computed, value, kind, method, shorthand>>

FunctionExpr(id, params, body, gen, async) ==
  <<"FunctionExpression", id, params, body, gen, async>>

(***************************************************************************)
(* Actions: what happens to the values when a construct is complete.       *)
(***************************************************************************)
ListAdd(c) == [c EXCEPT !.vs = <<[Second(c) EXCEPT !.t = Append(@, Top(c).t)]>> \o Drop(@, 2)]

(* A value that is used as an expression. *)
UseAsExpr(c) ==
  CASE Top(c).f = "T" -> DeadCover
    [] Top(c).f = "U" -> Unspec
    [] OTHER -> c

FnParts(c) == [params |-> Second(c).t, body |-> Top(c).t]

Act(c, a) ==
  CASE a[2] = "final" -> UseAsExpr(c)
    [] a[2] = "ctx" -> [c EXCEPT !.strict = a[3], !.gen = a[4], !.asy = a[5], !.fn = a[6]]
    [] a[2] = "strict" -> [c EXCEPT !.strict = TRUE]
    [] a[2] = "push" -> [c EXCEPT !.vs = <<a[3]>> \o @]
    [] a[2] = "app" -> ListAdd(c)
    [] a[2] = "hole" -> [c EXCEPT !.vs = <<[Top(c) EXCEPT !.t = Append(@, Nil)]>> \o Tail(@)]
    [] a[2] = "appdir" ->
         IF Top(c).k = "directive"
         THEN LET raw == Top(c).p
                  d == ListAdd([c EXCEPT !.vs[1].t = <<"ExpressionStatement", @[2], raw>>])
              IN [d EXCEPT !.strict = @ \/ raw = "use strict",
                           !.st = <<<<"Items", a[3], TRUE>>>> \o @]
         ELSE [ListAdd(c) EXCEPT !.st = <<<<"Items", a[3], FALSE>>>> \o @]
    [] a[2] = "program" -> Node(c, 1, <<"Program", a[3], Top(c).t>>, "st")
    [] a[2] = "block" -> Node(c, 1, <<"BlockStatement", Top(c).t>>, "st")
    [] a[2] = "exprstmt" ->
         IF Top(c).f # "" THEN UseAsExpr(c)
         ELSE [c EXCEPT !.vs = <<[Val(<<"ExpressionStatement", Top(c).t, "">>,
                                      IF Top(c).k = "str" THEN "directive" ELSE "st")
                                    EXCEPT !.p = Top(c).p]>> \o Tail(@)]
    \* ---- statements
    [] a[2] = "if" -> Node(c, 2, <<"IfStatement", Second(c).t, Top(c).t, Nil>>, "st")
    [] a[2] = "else" -> Node(c, 2, [Second(c).t EXCEPT ![4] = Top(c).t], "st")
    [] a[2] = "while" -> Node(c, 2, <<"WhileStatement", Second(c).t, Top(c).t>>, "st")
    [] a[2] = "dowhile" -> Node(c, 2, <<"DoWhileStatement", Second(c).t, Top(c).t>>, "st")
    [] a[2] = "for" -> Node(c, 4, <<"ForStatement", c.vs[4].t, c.vs[3].t, c.vs[2].t, c.vs[1].t>>, "st")
    [] a[2] = "forin" -> Node(c, 3, <<a[3], c.vs[3].t, c.vs[2].t, c.vs[1].t>>, "st")
    [] a[2] = "jump" -> Node(c, 1, <<a[3], Top(c).t>>, "st")
    [] a[2] = "throw" -> Node(c, 1, <<"ThrowStatement", Top(c).t>>, "st")
    [] a[2] = "label" -> Node(c, 2, <<"LabeledStatement", Second(c).t, Top(c).t>>, "st")
    [] a[2] = "try" -> Node(c, 3, <<"TryStatement", c.vs[3].t, c.vs[2].t, c.vs[1].t>>, "st")
    [] a[2] = "catch" -> Node(c, 2, <<"CatchClause", Second(c).t, Top(c).t>>, "st")
    [] a[2] = "case" -> Node(c, 2, <<"SwitchCase", Second(c).t, Top(c).t>>, "st")
    [] a[2] = "switch" -> Node(c, 2, <<"SwitchStatement", Second(c).t, Top(c).t>>, "st")
    \* ---- declarations
    [] a[2] = "vardecl" ->      \* kind
         Node(c, 1, <<"VariableDeclaration", a[3], Top(c).t>>, "st")
    [] a[2] = "declarator" ->   \* target, init
         ListAdd(Node(c, 2, <<"VariableDeclarator", Second(c).t, Top(c).t>>, "st"))
    [] a[2] = "fndecl" ->       \* id, params, body
         Node(c, 3, <<"FunctionDeclaration", c.vs[3].t, c.vs[2].t, c.vs[1].t, FALSE, FALSE>>, "st")
    [] a[2] = "class" ->        \* type; id, superclass, members
         Node(c, 3, <<a[3], c.vs[3].t, c.vs[2].t, <<"ClassBody", c.vs[1].t>>>>, "lhs")
    [] a[2] = "method" ->       \* kind, static, computed; key, params, body
         LET key == c.vs[3].t
             kind == IF a[3] = "method" /\ ~a[4] /\ ~a[5]
                        /\ ((key[1] = "Identifier" /\ key[2] = "constructor")
                            \/ (key[1] = "Literal" /\ key[2] = "str" /\ key[3] = "constructor"))
                     THEN "constructor" ELSE a[3]
         IN Node(c, 3, <<"MethodDefinition", key, a[5],
                         FunctionExpr(Nil, c.vs[2].t, c.vs[1].t, FALSE, FALSE), kind, a[4]>>, "st")
    \* ---- binding patterns
    [] a[2] = "default" -> Node(c, 2, <<"AssignmentPattern", Second(c).t, Top(c).t>>, "pat")
    [] a[2] = "rest" -> Node(c, 1, <<"RestElement", Top(c).t>>, "pat")
    [] a[2] = "arraypat" -> Node(c, 1, <<"ArrayPattern", Top(c).t>>, "pat")
    [] a[2] = "objectpat" -> Node(c, 1, <<"ObjectPattern", Top(c).t>>, "pat")
    [] a[2] = "patprop" ->      \* key, value (short form: twice the same)
         Node(c, 2, Property(Second(c).t, FALSE, Top(c).t, "init", FALSE, a[3]), "pat")
    \* ---- expressions
    [] a[2] = "unary" -> Node(c, 1, <<"UnaryExpression", a[3], Top(c).t>>, "un")
    [] a[2] = "update" ->
         IF Top(c).k \notin SimpleKinds THEN Dead
         ELSE Node(c, 1, <<"UpdateExpression", a[3], a[4], Top(c).t>>, "upd")
    [] a[2] = "binary" ->
         Node(c, 2, <<IF a[3] \in LogicalOps THEN "LogicalExpression" ELSE "BinaryExpression",
                      a[3], Second(c).t, Top(c).t>>,
              IF a[3] = "??" THEN "coalesce" ELSE IF a[3] \in {"&&", "||"} THEN "logical" ELSE "bin")
    [] a[2] = "cond" -> Node(c, 3, <<"ConditionalExpression", c.vs[3].t, c.vs[2].t, c.vs[1].t>>, "cond")
    [] a[2] = "assign" ->
         LET l == Second(c)
             t == <<"AssignmentExpression", a[3], l.t, Top(c).t>>
         IN IF a[3] = "=" /\ l.b # "n"
            THEN Red(c, 2, [t |-> t, k |-> "assign", b |-> l.b,
                            p |-> <<"AssignmentPattern", l.p, Top(c).t>>,
                            f |-> IF l.k \in {"arr", "obj"} THEN "U" ELSE ""])
            ELSE Red(c, 2, [Val(t, "assign") EXCEPT !.f = IF l.k \in {"arr", "obj"} THEN "U" ELSE ""])
    [] a[2] = "seq" ->
         Node(c, 2, IF Second(c).k = "seq" THEN <<"SequenceExpression", Append(Second(c).t[2], Top(c).t)>>
                    ELSE <<"SequenceExpression", <<Second(c).t, Top(c).t>>>>, "seq")
    [] a[2] = "member" -> Node(c, 2, <<"MemberExpression", Second(c).t, Top(c).t, a[3]>>, "mem")
    [] a[2] = "call" -> Node(c, 2, <<"CallExpression", Second(c).t, Top(c).t>>, "lhs")
    [] a[2] = "new" -> Node(c, 2, <<"NewExpression", Second(c).t, Top(c).t>>, "lhs")
    [] a[2] = "spread" -> Node(c, 1, <<"SpreadElement", Top(c).t>>, "st")
    [] a[2] = "fnexpr" ->       \* gen, async; id, params, body
         Node(c, 3, FunctionExpr(c.vs[3].t, c.vs[2].t, c.vs[1].t, a[3], a[4]), "lhs")
    [] a[2] = "arrow" ->        \* async, expression; params, body
         Node(c, 2, <<"ArrowFunctionExpression", Second(c).t, Top(c).t, a[3], a[4]>>, "arrow")
    \* ---- array literals: the list value collects the element values
    [] a[2] = "coladd" ->       \* element value -> collection
         [c EXCEPT !.vs = <<[Second(c) EXCEPT !.t = Append(@, Top(c))]>> \o Drop(@, 2)]
    [] a[2] = "colhole" ->
         [c EXCEPT !.vs[1].t = Append(@, [t |-> Nil, k |-> "hole", b |-> "y", p |-> Nil, f |-> ""])]
    [] a[2] = "colrest" ->      \* a binding target after "..."
         [c EXCEPT !.vs = <<[Second(c) EXCEPT !.t = Append(@,
             [t |-> <<"SpreadElement", Top(c).t>>, k |-> "rest", b |-> "y",
              p |-> <<"RestElement", Top(c).t>>, f |-> "U"])]>> \o Drop(@, 2)]
    [] a[2] = "array" ->
         LET els == Top(c).t IN
         Red(c, 1, [t |-> <<"ArrayExpression", Trees(els)>>, k |-> "arr", b |-> AndB(els),
                    p |-> <<"ArrayPattern", Patterns(els)>>, f |-> OrF(els)])
    [] a[2] = "object" ->
         LET els == Top(c).t IN
         Red(c, 1, [t |-> <<"ObjectExpression", Trees(els)>>, k |-> "obj", b |-> AndB(els),
                    p |-> <<"ObjectPattern", Patterns(els)>>, f |-> OrF(els)])
    [] a[2] = "property" ->     \* computed; key, value -> property value
         LET key == Second(c)  v == Top(c) IN
         Red(c, 2, [t |-> Property(key.t, a[3], v.t, "init", FALSE, FALSE), k |-> "prop",
                    b |-> IF v.b = "n" THEN "n" ELSE IF key.t[1] = "Identifier" /\ ~a[3] THEN v.b ELSE "u",
                    p |-> Property(key.t, a[3], v.p, "init", FALSE, FALSE),
                    f |-> v.f])
    [] a[2] = "shorthand" ->    \* key
         LET key == Top(c) IN
         Red(c, 1, [t |-> Property(key.t, FALSE, key.t, "init", FALSE, TRUE), k |-> "prop", b |-> "y",
                    p |-> Property(key.t, FALSE, key.t, "init", FALSE, TRUE), f |-> ""])
    [] a[2] = "shortdefault" -> \* key, default value
         LET key == Second(c)  d == <<"AssignmentPattern", key.t, Top(c).t>> IN
         Red(c, 2, [t |-> Property(key.t, FALSE, d, "init", FALSE, TRUE), k |-> "prop", b |-> "y",
                    p |-> Property(key.t, FALSE, d, "init", FALSE, TRUE), f |-> "T"])
    [] a[2] = "propmethod" ->   \* kind, gen, async, computed; key, params, body
         Red(c, 3, Val(Property(c.vs[3].t, a[6], FunctionExpr(Nil, c.vs[2].t, c.vs[1].t, a[4], a[5]),
                                a[3], a[3] = "init", FALSE), "prop"))
    \* ---- parenthesised lists; value: t elements, k "cover", p rest, f "," after the last
    [] a[2] = "covrest" ->      \* identifier after "..."
         [c EXCEPT !.vs = <<[Second(c) EXCEPT !.p = Top(c).t]>> \o Drop(@, 2)]
    [] a[2] = "covcomma" -> [c EXCEPT !.vs[1].f = ","]
    [] a[2] = "covspread" ->    \* argument of "..." in arguments of async
         LET v == Top(c) IN
         [c EXCEPT !.vs = <<[Second(c) EXCEPT !.t = Append(@,
             [t |-> <<"SpreadElement", v.t>>, k |-> "rest",
              b |-> IF v.k = "id" THEN "y" ELSE IF v.b = "n" THEN "n" ELSE "u",
              p |-> <<"RestElement", v.p>>, f |-> v.f])]>> \o Drop(@, 2)]
    \* ---- imports; value: t specifiers
    [] a[2] = "impdefault" -> ListAdd(Node(c, 1, <<"ImportDefaultSpecifier", Top(c).t>>, "st"))
    [] a[2] = "impns" -> ListAdd(Node(c, 1, <<"ImportNamespaceSpecifier", Top(c).t>>, "st"))
    [] a[2] = "impspec" -> ListAdd(Node(c, 2, <<"ImportSpecifier", Second(c).t, Top(c).t>>, "st"))
    [] a[2] = "import" -> Node(c, 2, <<"ImportDeclaration", Second(c).t, Top(c).t>>, "st")

(* Perform the actions on top of the stack. *)
RECURSIVE Run(_)
Run(c) ==
  IF c.v # "ok" \/ c.st = <<>> THEN c
  ELSE IF Head(c.st)[1] = "A" THEN Run(Act([c EXCEPT !.st = Tail(@)], Head(c.st)))
  ELSE c

(* The token is consumed; the topmost symbol is replaced by the symbols. *)
Shift(c, syms) == Run([c EXCEPT !.st = syms \o Tail(@)])
ShiftV(c, v, syms) == Run([c EXCEPT !.st = syms \o Tail(@), !.vs = <<v>> \o @])
ListVal == Val(<<>>, "list")
CoverVal == Val(<<>>, "cover")
Lit(kind, v, x) == <<"Literal", kind, v, x>>
StrLit(t) == Lit("str", t.x, t.s)

(* Parameters and body of a function that is not an arrow function: the    *)
(* symbols to recognise from "(" on.                                       *)
FnTail == <<T("("), <<"A", "push", ListVal>>, <<"Params">>, <<"FnBody">>>>

(* Function with its own context; ends with restoring the one outside. *)
FnWith(c, async, gen, fin) == FnTail \o <<fin, RestoreCtx(c)>>

(***************************************************************************)
(* Step(c, t): the configuration after token t.                            *)
(***************************************************************************)
RECURSIVE Step(_, _)

(* The topmost symbol is replaced, the token is not consumed. *)
Again(c, syms, t) ==
  LET d == Run([c EXCEPT !.st = syms \o Tail(@)])
  IN IF d.v # "ok" THEN d ELSE Step(d, t)
AgainV(c, v, syms, t) == Again([c EXCEPT !.vs = <<v>> \o @], syms, t)

StepStatement(c, s, t) ==      \* s = <<"Stmt", where>>, where: "item", "module", "sub", "subfn"
  LET item == s[2] \in {"item", "module"} IN
  CASE t.c = "p" /\ t.s = "{" -> ShiftV(c, ListVal, <<<<"Items", "}", FALSE>>, T("}"), A("block")>>)
    [] t.c = "p" /\ t.s = ";" -> ShiftV(c, Val(<<"EmptyStatement">>, "st"), <<>>)
    [] t.c = "w" ->
       CASE t.s = "var" -> ShiftV(c, ListVal, <<<<"Decl", "var", FALSE>>, <<"Semi">>, <<"A", "vardecl", "var">>>>)
         [] t.s = "if" -> Shift(c, <<T("("), Expr(0), A("final"), T(")"), <<"Stmt", "subfn">>, A("if"), <<"Else">>>>)
         [] t.s = "while" -> Shift(c, <<T("("), Expr(0), A("final"), T(")"), <<"Stmt", "sub">>, A("while")>>)
         [] t.s = "do" -> Shift(c, <<<<"Stmt", "sub">>, Kw("while"), T("("), Expr(0), A("final"), T(")"), A("dowhile"), <<"OptSemi">>>>)
         [] t.s = "for" -> Shift(c, <<<<"For">>>>)
         [] t.s = "continue" -> Shift(c, <<<<"JumpLabel">>, <<"Semi">>, <<"A", "jump", "ContinueStatement">>>>)
         [] t.s = "break" -> Shift(c, <<<<"JumpLabel">>, <<"Semi">>, <<"A", "jump", "BreakStatement">>>>)
         [] t.s = "return" -> IF c.fn THEN Shift(c, <<<<"Return">>>>) ELSE Dead
         [] t.s = "throw" -> Shift(c, <<<<"NoNewLine">>, Expr(0), A("final"), <<"Semi">>, A("throw")>>)
         [] t.s = "try" -> Shift(c, <<<<"Block">>, <<"Catch">>>>)
         [] t.s = "switch" -> Shift(c, <<T("("), Expr(0), A("final"), T(")"), T("{"), <<"A", "push", ListVal>>, <<"Cases", FALSE>>>>)
         [] t.s \in {"with", "debugger"} -> Unspec
         [] t.s = "function" ->
              IF item THEN Shift(c, <<<<"FnDecl">>>>)
              ELSE IF c.strict \/ s[2] = "sub" THEN Dead ELSE Unspec
         [] t.s = "class" ->
              IF ~item THEN Dead
              ELSE Run([c EXCEPT !.strict = TRUE,
                          !.st = <<<<"BindId">>, <<"Heritage">>, T("{"), <<"A", "push", ListVal>>, <<"ClassBody">>,
                                   <<"A", "class", "ClassDeclaration">>, RestoreCtx(c)>> \o Tail(@)])
         [] t.s = "const" ->
              IF ~item THEN Dead
              ELSE ShiftV(c, ListVal, <<<<"Decl", "const", FALSE>>, <<"Semi">>, <<"A", "vardecl", "const">>>>)
         [] t.s = "let" ->
              IF c.strict
              THEN IF ~item THEN Dead
                   ELSE ShiftV(c, ListVal, <<<<"Decl", "let", FALSE>>, <<"Semi">>, <<"A", "vardecl", "let">>>>)
              ELSE Shift(c, <<<<"LetStart", s[2]>>>>)
         [] t.s = "async" -> Shift(c, <<<<"AsyncStart", s[2]>>>>)
         [] t.s = "import" -> IF s[2] = "module" THEN Shift(c, <<<<"Import">>>>) ELSE Unspec
         [] t.s = "export" -> IF s[2] = "module" THEN Unspec ELSE Dead
         [] IsIdent(c, t) -> ShiftV(c, IdVal(t.s), <<<<"LabelOr">>>>)
         [] OTHER -> Again(c, <<Expr(0), <<"Semi">>, A("exprstmt")>>, t)
    [] OTHER -> Again(c, <<Expr(0), <<"Semi">>, A("exprstmt")>>, t)

(* An operand: the start of an expression that binds at least as tightly   *)
(* as min. *)
StepOperand(c, s, t) ==
  LET min == s[2]  noin == s[3]  cov == s[4]
      unary(op) == IF min > LvUnary THEN Dead
                   ELSE Shift(c, <<<<"Expr", LvUnary, noin, FALSE>>, A("final"), <<"A", "unary", op>>>>)
      leaf(tree) == ShiftV(c, Val(tree, "lhs"), <<>>)
  IN
  CASE t.c = "p" ->
       CASE t.s \in {"+", "-", "~", "!"} -> unary(t.s)
         [] t.s \in {"++", "--"} ->
              IF min > LvUnary THEN Dead
              ELSE Shift(c, <<<<"Expr", LvLHS, noin, FALSE>>, A("final"), <<"A", "update", t.s, TRUE>>>>)
         [] t.s = "(" -> ShiftV(c, CoverVal, <<<<"Cover", "first">>, <<"CoverEnd", min, noin>>>>)
         [] t.s = "[" -> ShiftV(c, ListVal, <<<<"Array", cov>>>>)
         [] t.s = "{" -> ShiftV(c, ListVal, <<<<"Object", cov>>>>)
         [] OTHER -> Dead
    [] t.c = "num" -> leaf(Lit("num", t.s, ""))
    [] t.c = "str" -> ShiftV(c, [Val(StrLit(t), "str") EXCEPT !.p = t.raw], <<>>)
    [] t.c = "re" -> leaf(Lit("re", t.x[1], t.x[2]))
    [] t.c \in {"tpl", "prv"} -> Unspec
    [] t.c = "w" ->
       CASE t.s = "async" -> Shift(c, <<<<"Async", min, noin>>>>)
         [] IsIdent(c, t) -> ShiftV(c, IdVal(t.s), <<>>)
         [] t.s = "this" -> leaf(<<"ThisExpression">>)
         [] t.s = "null" -> leaf(Lit("null", "null", ""))
         [] t.s \in {"true", "false"} -> leaf(Lit("bool", t.s, ""))
         [] t.s \in {"delete", "void", "typeof"} -> unary(t.s)
         [] t.s = "function" -> Shift(c, <<<<"FnExpr", FALSE>>>>)
         [] t.s = "class" ->
              Run([c EXCEPT !.strict = TRUE,
                     !.st = <<<<"ClassName">>, <<"Heritage">>, T("{"), <<"A", "push", ListVal>>, <<"ClassBody">>,
                              <<"A", "class", "ClassExpression">>, RestoreCtx(c)>> \o Tail(@)])
         [] t.s = "new" -> Shift(c, <<<<"New">>>>)
         [] t.s \in {"super", "import"} -> Unspec
         [] t.s = "yield" /\ c.gen -> Unspec
         [] t.s = "await" /\ c.asy -> Unspec
         [] OTHER -> Dead
    [] OTHER -> Dead

ArrowAfter(c, params, async, noin, n) ==   \* n values are replaced by the parameters
  Run([InFunction(c, async, FALSE) EXCEPT
         !.vs = <<Val(params, "list")>> \o Drop(@, n),
         !.st = <<<<"ArrowBody", noin, async>>, RestoreCtx(c)>> \o Tail(@)])

(* What may follow a complete operand or operation: the topmost value is   *)
(* its left part.                                                          *)
StepTail(c, s, t) ==
  LET min == s[2]  noin == s[3]
      v == Top(c)
      lhs == v.k \in LHSKinds
      op == t.s
      word == t.c = "w"
      leave == Again(c, <<>>, t)
      \* consume the operator and go on behind the symbols
      take(syms) == IF v.f # "" THEN UseAsExpr(c) ELSE Shift(c, syms \o <<s>>)
  IN
  \* only a comma may follow what cannot be an operand
  IF v.k \in {"arrow", "assign", "cond", "seq"} /\ ~IsP(t, ",") THEN leave
  ELSE IF t.c = "tpl" THEN IF lhs THEN Unspec ELSE Dead
  ELSE IF t.c = "p" /\ op = "=>" THEN
    IF v.k = "id" /\ min <= LvAssign /\ ~t.nl THEN
      ArrowAfter([c EXCEPT !.st = <<Head(@)>> \o @], <<v.p>>, FALSE, noin, 1)
    ELSE leave
  ELSE IF ~(t.c = "p" \/ (word /\ op \in {"in", "instanceof"})) THEN leave
  ELSE IF lhs /\ op = "." THEN take(<<<<"PropName">>, <<"A", "member", FALSE>>>>)
  ELSE IF lhs /\ op = "[" THEN take(<<Expr(0), A("final"), T("]"), <<"A", "member", TRUE>>>>)
  ELSE IF lhs /\ op = "(" /\ min < LvMember THEN
    take(<<<<"A", "push", ListVal>>, <<"Args">>, A("call")>>)
  ELSE IF op = "?." THEN IF lhs THEN Unspec ELSE leave
  ELSE IF op \in {"++", "--"} THEN
    IF lhs /\ min <= LvUnary /\ ~t.nl THEN take(<<<<"A", "update", op, FALSE>>>>) ELSE leave
  ELSE IF op \in BinaryOps THEN
    IF min > BinaryLevel[op] \/ (op = "in" /\ noin) THEN leave
    ELSE IF op = "**" /\ v.k = "un" THEN Dead
    ELSE IF op = "??" /\ v.k = "logical" THEN Dead
    ELSE IF op \in {"&&", "||"} /\ v.k = "coalesce" THEN Dead
    ELSE take(<<<<"Expr", CASE op = "**" -> LvExp [] op = "??" -> LvBitOr [] OTHER -> BinaryLevel[op] + 1, noin, FALSE>>,
                A("final"), <<"A", "binary", op>>>>)
  ELSE IF op = "?" THEN
    IF min > LvCond THEN leave
    ELSE take(<<Expr(LvAssign), A("final"), T(":"), <<"Expr", LvAssign, noin, FALSE>>, A("final"), A("cond")>>)
  ELSE IF op \in AssignOps THEN
    IF min > LvAssign THEN leave
    ELSE IF v.k \in SimpleKinds \/ (op = "=" /\ v.k \in {"arr", "obj"}) THEN
      \* a literal on the left is a pattern, which needs no ":" or value
      Shift(c, <<<<"Expr", LvAssign, noin, FALSE>>, A("final"), <<"A", "assign", op>>, s>>)
    ELSE Dead
  ELSE IF op = "," THEN
    IF min > LvComma THEN leave
    ELSE take(<<<<"Expr", LvAssign, noin, FALSE>>, A("final"), A("seq")>>)
  ELSE leave

(* Inside "(" ...: a parenthesised expression or arrow parameters.  For    *)
(* the arguments of async also a call.                                     *)
StepCover(c, s, t) ==       \* s = <<"Cover", where>>: "first", "next" element; "sep"arator
  CASE s[2] = "sep" ->
         CASE IsP(t, ",") -> Shift(c, <<<<"Cover", "next">>>>)
           [] IsP(t, ")") -> Shift(c, <<>>)
           [] OTHER -> Dead
    [] IsP(t, ")") -> Shift(c, <<A("covcomma")>>)
    [] IsP(t, "...") -> Shift(c, <<<<"CoverRest">>, A("covrest"), T(")")>>)
    [] OTHER -> Again(c, <<<<"Expr", LvAssign, FALSE, TRUE>>, A("coladd"), <<"Cover", "sep">>>>, t)

StepCoverEnd(c, s, t) ==    \* s = <<"CoverEnd", min, noin>>; value: cover
  LET v == Top(c)  els == v.t  min == s[2]
      simple == Len(els) = 1 /\ els[1].k \in SimpleKinds
      tree == IF Len(els) = 1 THEN els[1].t ELSE <<"SequenceExpression", Trees(els)>>
  IN IF IsP(t, "=>") /\ ~t.nl /\ min <= LvAssign THEN
       CASE AndB(els) = "n" -> DeadCover
         [] AndB(els) = "u" -> Unspec
         [] OTHER -> ArrowAfter(c, Patterns(els) \o (IF v.p = Nil THEN <<>> ELSE <<<<"RestElement", v.p>>>>),
                                FALSE, s[3], 1)
     ELSE IF v.p # Nil \/ v.f = "," \/ OrF(els) = "T" THEN DeadCover
     ELSE IF OrF(els) = "U" THEN Unspec
     ELSE Again(Red(c, 1, Val(tree, IF simple THEN "parsimple" ELSE "par")), <<>>, t)

StepAsyncCover(c, s, t) ==  \* like StepCover, with spread arguments
  CASE s[2] = "sep" ->
         CASE IsP(t, ",") -> Shift(c, <<<<"ACover", "next">>>>)
           [] IsP(t, ")") -> Shift(c, <<>>)
           [] OTHER -> Dead
    [] IsP(t, ")") -> Shift(c, IF s[2] = "next" THEN <<A("covcomma")>> ELSE <<>>)
    [] IsP(t, "...") -> Shift(c, <<<<"Expr", LvAssign, FALSE, FALSE>>, A("covspread"), <<"ACover", "sep">>>>)
    [] OTHER -> Again(c, <<<<"Expr", LvAssign, FALSE, TRUE>>, A("coladd"), <<"ACover", "sep">>>>, t)

StepAsyncCoverEnd(c, s, t) ==
  LET v == Top(c)  els == v.t  n == Len(els)
      badrest == \E i \in 1..n : els[i].k = "rest" /\ (i < n \/ v.f = ",")
  IN IF IsP(t, "=>") /\ ~t.nl THEN
       CASE AndB(els) = "n" \/ badrest -> DeadCover
         [] AndB(els) = "u" \/ c.aw -> Unspec
         [] OTHER -> ArrowAfter(c, Patterns(els), TRUE, s[3], 1)
     ELSE IF OrF(els) = "T" THEN DeadCover
     ELSE IF OrF(els) = "U" THEN Unspec
     ELSE Again(Red(c, 1, Val(<<"CallExpression", Ident("async"), Trees(els)>>, "lhs")), <<>>, t)

(* After the word async where an operand may stand. *)
StepAsync(c, s, t) ==
  LET min == s[2]  noin == s[3] IN
  CASE ~t.nl /\ IsW(t, "function") -> Shift(c, <<<<"FnExpr", TRUE>>>>)
    [] ~t.nl /\ min <= LvAssign /\ IsW(t, "await") -> Unspec
    [] ~t.nl /\ min <= LvAssign /\ IsIdent(c, t) -> ShiftV(c, Val(<<Ident(t.s)>>, "list"), <<<<"AsyncArrow", noin>>>>)
    [] ~t.nl /\ min <= LvAssign /\ IsP(t, "(") ->
         ShiftV(c, CoverVal, <<<<"ACover", "first">>, <<"ACoverEnd", min, noin>>>>)
    [] OTHER -> AgainV(c, IdVal("async"), <<>>, t)

StepObject(c, s, t) ==      \* where a property may start; s = <<"Object", cov>>
  LET cov == s[2]
      key(k, sh) == ShiftV(c, Val(k, "key"), <<<<"PropRest", FALSE, sh, cov>>>>)
  IN
  CASE IsP(t, "}") -> Shift(c, <<A("object")>>)
    [] IsP(t, "...") ->
         IF cov THEN Shift(c, <<<<"RestId">>, A("colrest"), <<"ObjRestEnd">>>>) ELSE Unspec
    [] IsP(t, "*") -> Shift(c, <<<<"PropMethod", "init", TRUE, FALSE, cov>>>>)
    [] IsP(t, "[") -> Shift(c, <<Expr(LvAssign), A("final"), T("]"), <<"PropRest", TRUE, FALSE, cov>>>>)
    [] t.c = "w" /\ t.s \in {"get", "set", "async"} -> Shift(c, <<<<"PropSpec", t.s, cov>>>>)
    [] t.c = "w" -> key(Ident(t.s), IsIdent(c, t))
    [] t.c = "str" -> key(StrLit(t), FALSE)
    [] t.c = "num" -> key(Lit("num", t.s, ""), FALSE)
    [] OTHER -> Dead

(* A property name; then the symbols, which depend on whether it was       *)
(* computed: F(computed).                                                  *)
PropKey(c, t, F(_)) ==
  CASE IsP(t, "[") -> Shift(c, <<Expr(LvAssign), A("final"), T("]")>> \o F(TRUE))
    [] t.c = "w" -> ShiftV(c, Val(Ident(t.s), "key"), F(FALSE))
    [] t.c = "str" -> ShiftV(c, Val(StrLit(t), "key"), F(FALSE))
    [] t.c = "num" -> ShiftV(c, Val(Lit("num", t.s, ""), "key"), F(FALSE))
    [] OTHER -> Dead

StepClassBody(c, t) ==
  LET meth(kind, static, computed) ==
        <<<<"Method", kind, static, computed>>>>
  IN
  CASE IsP(t, "}") -> Shift(c, <<>>)
    [] IsP(t, ";") -> Shift(c, <<<<"ClassBody">>>>)
    [] IsW(t, "static") -> Shift(c, <<<<"MemberStatic">>>>)
    [] IsW(t, "get") \/ IsW(t, "set") -> Shift(c, <<<<"MemberAccessor", t.s, FALSE>>>>)
    [] IsW(t, "async") -> ShiftV(c, Val(Ident("async"), "key"), meth("method", FALSE, FALSE))
    [] IsP(t, "*") \/ t.c = "prv" -> Unspec
    [] OTHER -> PropKey(c, t, LAMBDA comp : meth("method", FALSE, comp))

Step(c, t) ==
  IF c.v # "ok" THEN c
  ELSE IF c.st = <<>> THEN Dead
  ELSE IF IsW(t, "await") /\ ~c.aw THEN Step([c EXCEPT !.aw = TRUE], t)
  ELSE
  LET s == Head(c.st)  n == s[1] IN
  CASE n = "T" -> IF IsP(t, s[2]) THEN Shift(c, <<>>) ELSE Dead
    [] n = "Expr" -> Again(c, <<<<"Operand", s[2], s[3], s[4]>>, <<"Tail", s[2], s[3], s[4]>>>>, t)
    [] n = "Tail" -> StepTail(c, s, t)
    [] n = "Operand" -> StepOperand(c, s, t)
    [] n = "Semi" ->
         IF IsP(t, ";") THEN Shift(c, <<>>)
         ELSE IF t.nl \/ t.c = "eof" \/ IsP(t, "}") THEN Again(c, <<>>, t)
         ELSE Dead
    [] n = "Stmt" -> StepStatement(c, s, t)
    [] n = "Items" ->
         IF (s[2] \in {"eof", "module"} /\ t.c = "eof")
            \/ (s[2] \in {"}", "case"} /\ IsP(t, "}"))
            \/ (s[2] = "case" /\ t.c = "w" /\ t.s \in {"case", "default"})
         THEN Again(c, <<>>, t)
         ELSE LET where == IF s[2] = "module" THEN "module" ELSE "item" IN
              IF s[3] /\ t.c = "str"
              THEN Again(c, <<<<"Stmt", where>>, <<"A", "appdir", s[2]>>>>, t)
              ELSE Again(c, <<<<"Stmt", where>>, A("app"), <<"Items", s[2], FALSE>>>>, t)
    [] n = "Eof" -> IF t.c = "eof" THEN Shift(c, <<>>) ELSE Dead
    [] n = "W" -> IF IsW(t, s[2]) THEN Shift(c, <<>>) ELSE Dead
    [] n = "OptSemi" -> IF IsP(t, ";") THEN Shift(c, <<>>) ELSE Again(c, <<>>, t)
    [] n = "NoNewLine" -> IF t.nl THEN Dead ELSE Again(c, <<>>, t)
    [] n = "Block" ->
         IF IsP(t, "{") THEN ShiftV(c, ListVal, <<<<"Items", "}", FALSE>>, T("}"), A("block")>>) ELSE Dead
    [] n = "FnBody" ->
         IF IsP(t, "{") THEN ShiftV(c, ListVal, <<<<"Items", "}", TRUE>>, T("}"), A("block")>>) ELSE Dead
    \* ---- statements
    [] n = "LabelOr" ->
         IF IsP(t, ":") THEN Shift(c, <<<<"Stmt", "subfn">>, A("label")>>)
         ELSE Again(c, <<<<"Tail", LvComma, FALSE, FALSE>>, A("final"), <<"Semi">>, A("exprstmt")>>, t)
    [] n = "AsyncStart" ->
         IF IsP(t, ":") THEN ShiftV(c, IdVal("async"), <<<<"Stmt", "subfn">>, A("label")>>)
         ELSE IF IsW(t, "function") /\ ~t.nl THEN Unspec
         ELSE Again(c, <<<<"Async", LvComma, FALSE>>, <<"Tail", LvComma, FALSE, FALSE>>, A("final"),
                         <<"Semi">>, A("exprstmt")>>, t)
    [] n = "LetStart" ->
         IF IsIdent(c, t) \/ IsP(t, "[") \/ IsP(t, "{") THEN
           IF s[2] \in {"item", "module"}
           THEN AgainV(c, ListVal, <<<<"Decl", "let", FALSE>>, <<"Semi">>, <<"A", "vardecl", "let">>>>, t)
           ELSE Unspec
         ELSE AgainV(c, IdVal("let"), <<<<"LabelOr">>>>, t)
    [] n = "Else" -> IF IsW(t, "else") THEN Shift(c, <<<<"Stmt", "subfn">>, A("else")>>) ELSE Again(c, <<>>, t)
    [] n = "JumpLabel" ->
         IF IsIdent(c, t) /\ ~t.nl THEN ShiftV(c, IdVal(t.s), <<>>) ELSE AgainV(c, Val(Nil, "none"), <<>>, t)
    [] n = "Return" ->
         IF t.nl \/ t.c = "eof" \/ IsP(t, "}") \/ IsP(t, ";")
         THEN AgainV(c, Val(Nil, "none"), <<<<"Semi">>, <<"A", "jump", "ReturnStatement">>>>, t)
         ELSE Again(c, <<Expr(0), A("final"), <<"Semi">>, <<"A", "jump", "ReturnStatement">>>>, t)
    [] n = "Catch" ->
         IF IsW(t, "catch") THEN Shift(c, <<<<"CatchParam">>>>)
         ELSE IF IsW(t, "finally")
              THEN ShiftV(c, Val(Nil, "none"), <<<<"Block">>, A("try")>>)
         ELSE Dead
    [] n = "CatchParam" ->
         IF IsP(t, "(") THEN Shift(c, <<<<"Target">>, T(")"), <<"Block">>, A("catch"), <<"Finally">>>>)
         ELSE AgainV(c, Val(Nil, "none"), <<<<"Block">>, A("catch"), <<"Finally">>>>, t)
    [] n = "Finally" ->
         IF IsW(t, "finally") THEN Shift(c, <<<<"Block">>, A("try")>>)
         ELSE AgainV(c, Val(Nil, "none"), <<A("try")>>, t)
    [] n = "Cases" ->
         CASE IsP(t, "}") -> Shift(c, <<A("switch")>>)
           [] IsW(t, "case") -> Shift(c, <<Expr(0), A("final"), T(":"), <<"A", "push", ListVal>>, <<"Items", "case", FALSE>>,
                                           A("case"), A("app"), s>>)
           [] IsW(t, "default") /\ ~s[2] ->
                ShiftV(c, Val(Nil, "none"), <<T(":"), <<"A", "push", ListVal>>, <<"Items", "case", FALSE>>,
                                              A("case"), A("app"), <<"Cases", TRUE>>>>)
           [] OTHER -> Dead
    [] n = "For" ->
         IF IsP(t, "(") THEN Shift(c, <<<<"ForInit">>>>) ELSE IF IsW(t, "await") THEN Unspec ELSE Dead
    [] n = "ForInit" ->
         CASE IsP(t, ";") -> ShiftV(c, Val(Nil, "none"), <<<<"ForTest">>>>)
           [] IsW(t, "var") -> ShiftV(c, ListVal, <<<<"Decl", "var", TRUE>>, <<"ForVar">>>>)
           [] IsW(t, "let") \/ IsW(t, "const") -> Unspec
           [] IsW(t, "async") -> Shift(c, <<<<"ForAsync">>>>)
           [] OTHER -> Again(c, <<<<"Expr", LvComma, TRUE, FALSE>>, <<"ForExpr">>>>, t)
    [] n = "ForAsync" ->
         IF IsW(t, "of") THEN Unspec
         ELSE Again(c, <<<<"Async", LvComma, TRUE>>, <<"Tail", LvComma, TRUE, FALSE>>, <<"ForExpr">>>>, t)
    [] n = "ForVar" ->          \* value: list of declarators
         LET ds == Top(c).t
             d == Red(c, 1, Val(<<"VariableDeclaration", "var", ds>>, "st"))
             single == Len(ds) = 1 /\ ds[1][3] = Nil
         IN CASE IsP(t, ";") ->
                   IF \E i \in 1..Len(ds) : ds[i][2][1] # "Identifier" /\ ds[i][3] = Nil THEN Dead
                   ELSE Shift(d, <<<<"ForTest">>>>)
              [] IsW(t, "in") \/ IsW(t, "of") ->
                   IF single THEN Again(d, <<<<"ForHead">>>>, t)
                   ELSE IF t.s = "in" /\ Len(ds) = 1 /\ ~c.strict /\ ds[1][2][1] = "Identifier" THEN Unspec
                   ELSE Dead
              [] OTHER -> Dead
    [] n = "ForExpr" ->
         CASE IsP(t, ";") -> LET d == UseAsExpr(c) IN IF d.v # "ok" THEN d ELSE Shift(d, <<<<"ForTest">>>>)
           [] IsW(t, "in") \/ IsW(t, "of") ->
                IF Top(c).k \in {"arr", "obj"} THEN Unspec
                ELSE IF Top(c).k \in SimpleKinds THEN Again(c, <<<<"ForHead">>>>, t)
                ELSE Dead
           [] OTHER -> IF Top(c).f # "" THEN UseAsExpr(c) ELSE Dead
    [] n = "ForHead" ->
         IF IsW(t, "in")
         THEN Shift(c, <<Expr(0), A("final"), T(")"), <<"Stmt", "sub">>, <<"A", "forin", "ForInStatement">>>>)
         ELSE Shift(c, <<Expr(LvAssign), A("final"), T(")"), <<"Stmt", "sub">>, <<"A", "forin", "ForOfStatement">>>>)
    [] n = "ForTest" ->
         IF IsP(t, ";") THEN ShiftV(c, Val(Nil, "none"), <<<<"ForUpdate">>>>)
         ELSE Again(c, <<Expr(0), A("final"), T(";"), <<"ForUpdate">>>>, t)
    [] n = "ForUpdate" ->
         IF IsP(t, ")") THEN ShiftV(c, Val(Nil, "none"), <<<<"Stmt", "sub">>, A("for")>>)
         ELSE Again(c, <<Expr(0), A("final"), T(")"), <<"Stmt", "sub">>, A("for")>>, t)
    \* ---- declarations
    [] n = "Decl" ->            \* kind, in a for header; one declarator
         IF IsIdent(c, t) THEN ShiftV(c, IdVal(t.s), <<<<"DeclInit", s[2], s[3]>>>>)
         ELSE IF IsP(t, "[") \/ IsP(t, "{") THEN Again(c, <<<<"Target">>, <<"DeclInit", s[2], s[3]>>>>, t)
         ELSE Dead
    [] n = "DeclInit" ->
         IF IsP(t, "=") THEN Shift(c, <<<<"Expr", LvAssign, s[3], FALSE>>, A("final"), A("declarator"), <<"DeclNext", s[2], s[3]>>>>)
         ELSE IF Top(c).k # "id" /\ ~s[3] THEN Dead
         ELSE IF Top(c).k # "id" /\ Len(Second(c).t) > 0 THEN Dead
         ELSE IF Top(c).k # "id" /\ ~(IsW(t, "in") \/ IsW(t, "of")) THEN Dead
         ELSE AgainV(c, Val(Nil, "none"), <<A("declarator"), <<"DeclNext", s[2], s[3]>>>>, t)
    [] n = "DeclNext" -> IF IsP(t, ",") THEN Shift(c, <<<<"Decl", s[2], s[3]>>>>) ELSE Again(c, <<>>, t)
    [] n = "BindId" -> IF IsIdent(c, t) THEN ShiftV(c, IdVal(t.s), <<>>) ELSE Dead
    [] n = "FnDecl" ->
         IF IsP(t, "*") THEN Unspec
         ELSE IF IsIdent(c, t)
              THEN LET d == InFunction(c, FALSE, FALSE)
                   IN ShiftV(d, IdVal(t.s), FnWith(c, FALSE, FALSE, A("fndecl")))
         ELSE Dead
    [] n = "Params" ->
         CASE IsP(t, ")") -> Shift(c, <<>>)
           [] IsP(t, "...") -> Shift(c, <<<<"RestParam">>, A("rest"), A("app"), T(")")>>)
           [] OTHER -> Again(c, <<<<"Target">>, <<"Default">>, A("app"), <<"ParamNext">>>>, t)
    [] n = "ParamNext" ->
         CASE IsP(t, ",") -> Shift(c, <<<<"Params">>>>)
           [] IsP(t, ")") -> Shift(c, <<>>)
           [] OTHER -> Dead
    [] n = "RestParam" ->
         IF IsIdent(c, t) THEN ShiftV(c, IdVal(t.s), <<>>)
         ELSE IF IsP(t, "[") \/ IsP(t, "{") THEN Unspec ELSE Dead
    [] n = "Target" ->          \* identifier or binding pattern
         CASE IsIdent(c, t) -> ShiftV(c, IdVal(t.s), <<>>)
           [] IsP(t, "[") -> ShiftV(c, ListVal, <<<<"ArrayPat">>>>)
           [] IsP(t, "{") -> ShiftV(c, ListVal, <<<<"ObjectPat">>>>)
           [] OTHER -> Dead
    [] n = "Default" ->
         IF IsP(t, "=") THEN Shift(c, <<Expr(LvAssign), A("final"), A("default")>>) ELSE Again(c, <<>>, t)
    [] n = "ArrayPat" ->
         CASE IsP(t, "]") -> Shift(c, <<A("arraypat")>>)
           [] IsP(t, ",") -> Shift(c, <<A("hole"), s>>)
           [] IsP(t, "...") -> Shift(c, <<<<"Target">>, A("rest"), A("app"), T("]"), A("arraypat")>>)
           [] OTHER -> Again(c, <<<<"Target">>, <<"Default">>, A("app"), <<"ArrayPatNext">>>>, t)
    [] n = "ArrayPatNext" ->
         CASE IsP(t, ",") -> Shift(c, <<<<"ArrayPat">>>>)
           [] IsP(t, "]") -> Shift(c, <<A("arraypat")>>)
           [] OTHER -> Dead
    [] n = "ObjectPat" ->
         CASE IsP(t, "}") -> Shift(c, <<A("objectpat")>>)
           [] IsP(t, "...") -> Shift(c, <<<<"BindId">>, A("rest"), A("app"), T("}"), A("objectpat")>>)
           [] t.c = "w" -> ShiftV(c, Val(Ident(t.s), "key"), <<<<"PatProp", IsIdent(c, t)>>>>)
           [] t.c \in {"str", "num"} \/ IsP(t, "[") -> Unspec
           [] OTHER -> Dead
    [] n = "PatProp" ->         \* key may be a short form
         CASE IsP(t, ":") -> Shift(c, <<<<"Target">>, <<"Default">>, <<"A", "patprop", FALSE>>, A("app"), <<"ObjectPatNext">>>>)
           [] s[2] -> AgainV(c, Top(c), <<<<"Default">>, <<"A", "patprop", TRUE>>, A("app"), <<"ObjectPatNext">>>>, t)
           [] OTHER -> Dead
    [] n = "ObjectPatNext" ->
         CASE IsP(t, ",") -> Shift(c, <<<<"ObjectPat">>>>)
           [] IsP(t, "}") -> Shift(c, <<A("objectpat")>>)
           [] OTHER -> Dead
    \* ---- classes
    [] n = "ClassName" ->
         IF IsW(t, "extends") \/ IsP(t, "{") THEN AgainV(c, Val(Nil, "none"), <<>>, t)
         ELSE IF IsIdent(c, t) THEN ShiftV(c, IdVal(t.s), <<>>) ELSE Dead
    [] n = "Heritage" ->
         IF IsW(t, "extends") THEN Shift(c, <<Expr(LvLHS), A("final")>>) ELSE AgainV(c, Val(Nil, "none"), <<>>, t)
    [] n = "ClassBody" -> StepClassBody(c, t)
    [] n = "MemberStatic" ->
         CASE IsP(t, "(") -> AgainV(c, Val(Ident("static"), "key"), <<<<"Method", "method", FALSE, FALSE>>>>, t)
           [] IsP(t, "=") \/ IsP(t, ";") \/ IsP(t, "}") \/ IsP(t, "{") \/ IsP(t, "*") \/ t.c = "prv" -> Unspec
           [] IsW(t, "async") -> ShiftV(c, Val(Ident("async"), "key"), <<<<"Method", "method", TRUE, FALSE>>>>)
           [] IsW(t, "get") \/ IsW(t, "set") -> Shift(c, <<<<"MemberAccessor", t.s, TRUE>>>>)
           [] OTHER -> PropKey(c, t, LAMBDA comp : <<<<"Method", "method", TRUE, comp>>>>)
    [] n = "MemberAccessor" ->  \* after get or set
         CASE IsP(t, "(") -> AgainV(c, Val(Ident(s[2]), "key"), <<<<"Method", "method", s[3], FALSE>>>>, t)
           [] IsP(t, "=") \/ IsP(t, ";") \/ IsP(t, "}") \/ IsP(t, "*") \/ t.c = "prv" -> Unspec
           [] OTHER -> PropKey(c, t, LAMBDA comp : <<<<"Method", s[2], s[3], comp>>>>)
    [] n = "Method" ->          \* kind, static, computed; after the name
         IF IsP(t, "(") THEN
           Again(InFunction(c, FALSE, FALSE),
                 FnWith(c, FALSE, FALSE, <<"A", "method", s[2], s[3], s[4]>>) \o <<A("app"), <<"ClassBody">>>>, t)
         ELSE Unspec            \* a field, or a method of an unsupported kind
    \* ---- expressions
    [] n = "PropName" ->
         CASE t.c = "w" -> ShiftV(c, IdVal(t.s), <<>>)
           [] t.c = "prv" -> Unspec
           [] OTHER -> Dead
    [] n = "Args" ->
         CASE IsP(t, ")") -> Shift(c, <<>>)
           [] IsP(t, "...") -> Shift(c, <<Expr(LvAssign), A("final"), A("spread"), A("app"), <<"ArgNext">>>>)
           [] OTHER -> Again(c, <<Expr(LvAssign), A("final"), A("app"), <<"ArgNext">>>>, t)
    [] n = "ArgNext" ->
         CASE IsP(t, ",") -> Shift(c, <<<<"Args">>>>)
           [] IsP(t, ")") -> Shift(c, <<>>)
           [] OTHER -> Dead
    [] n = "New" ->
         IF IsP(t, ".") THEN Unspec
         ELSE Again(c, <<Expr(LvMember), A("final"), <<"NewArgs">>, A("new")>>, t)
    [] n = "NewArgs" ->
         IF IsP(t, "(") THEN ShiftV(c, ListVal, <<<<"Args">>>>)
         ELSE AgainV(c, ListVal, <<>>, t)
    [] n = "FnExpr" ->          \* s = <<"FnExpr", async>>
         IF IsP(t, "*") THEN Shift(c, <<<<"FnName", s[2], TRUE>>>>)
         ELSE Again(c, <<<<"FnName", s[2], FALSE>>>>, t)
    [] n = "FnName" ->
         LET d == InFunction(c, s[2], s[3])
             rest == FnWith(c, s[2], s[3], <<"A", "fnexpr", s[3], s[2]>>)
         IN IF IsP(t, "(") THEN AgainV(d, Val(Nil, "none"), rest, t)
            ELSE IF IsIdent(d, t) THEN ShiftV(d, IdVal(t.s), rest)
            ELSE Dead
    [] n = "ArrowBody" ->       \* noin, async
         IF IsP(t, "{") THEN Again(c, <<<<"FnBody">>, <<"A", "arrow", s[3], FALSE>>>>, t)
         ELSE Again(c, <<<<"Expr", LvAssign, s[2], FALSE>>, A("final"), <<"A", "arrow", s[3], TRUE>>>>, t)
    [] n = "Async" -> StepAsync(c, s, t)
    [] n = "AsyncArrow" ->      \* after async and a parameter
         IF IsP(t, "=>") /\ ~t.nl THEN ArrowAfter(c, Top(c).t, TRUE, s[2], 1) ELSE Dead
    [] n = "Cover" -> StepCover(c, s, t)
    [] n = "CoverRest" ->
         IF IsIdent(c, t) THEN ShiftV(c, IdVal(t.s), <<>>)
         ELSE IF IsP(t, "[") \/ IsP(t, "{") THEN Unspec ELSE Dead
    [] n = "CoverEnd" -> StepCoverEnd(c, s, t)
    [] n = "ACover" -> StepAsyncCover(c, s, t)
    [] n = "ACoverEnd" -> StepAsyncCoverEnd(c, s, t)
    [] n = "Array" ->           \* s = <<"Array", cov>>
         CASE IsP(t, "]") -> Shift(c, <<A("array")>>)
           [] IsP(t, ",") -> Shift(c, <<A("colhole"), s>>)
           [] IsP(t, "...") ->
                IF s[2] THEN Shift(c, <<<<"ArrayRest">>, A("colrest"), <<"ArrayRestEnd">>>>) ELSE Unspec
           [] OTHER -> Again(c, <<<<"Expr", LvAssign, FALSE, s[2]>>, A("coladd"), <<"ArrayNext", s[2]>>>>, t)
    [] n = "ArrayNext" ->
         CASE IsP(t, ",") -> Shift(c, <<<<"Array", s[2]>>>>)
           [] IsP(t, "]") -> Shift(c, <<A("array")>>)
           [] OTHER -> Dead
    [] n = "ArrayRest" ->       \* a binding target, or the start of any expression
         IF IsIdent(c, t) \/ IsP(t, "[") \/ IsP(t, "{") THEN Again(c, <<<<"Target">>>>, t) ELSE Unspec
    [] n = "ArrayRestEnd" -> IF IsP(t, "]") THEN Shift(c, <<A("array")>>) ELSE Unspec
    [] n = "Object" -> StepObject(c, s, t)
    [] n = "RestId" -> IF IsIdent(c, t) THEN ShiftV(c, IdVal(t.s), <<>>) ELSE Unspec
    [] n = "ObjRestEnd" -> IF IsP(t, "}") THEN Shift(c, <<A("object")>>) ELSE Unspec
    [] n = "PropSpec" ->        \* after get, set or async; s = <<"PropSpec", word, cov>>
         IF t.c = "p" /\ t.s \in {":", ",", "}", "(", "="}
         THEN AgainV(c, Val(Ident(s[2]), "key"), <<<<"PropRest", FALSE, TRUE, s[3]>>>>, t)
         ELSE IF s[2] = "async" THEN
           IF t.nl THEN Dead
           ELSE IF IsP(t, "*") THEN Shift(c, <<<<"PropMethod", "init", TRUE, TRUE, s[3]>>>>)
           ELSE Again(c, <<<<"PropMethod", "init", FALSE, TRUE, s[3]>>>>, t)
         ELSE Again(c, <<<<"PropMethod", s[2], FALSE, FALSE, s[3]>>>>, t)
    [] n = "PropMethod" ->      \* kind, gen, async, cov; before the name
         PropKey(c, t, LAMBDA comp : <<<<"PropFn", s[2], s[3], s[4], comp, s[5]>>>>)
    [] n = "PropFn" ->          \* kind, gen, async, computed, cov
         IF IsP(t, "(") THEN
           Again(InFunction(c, s[4], s[3]),
                 FnWith(c, s[4], s[3], <<"A", "propmethod", s[2], s[3], s[4], s[5]>>) \o <<A("coladd"), <<"PropNext", s[6]>>>>, t)
         ELSE Dead
    [] n = "PropRest" ->        \* computed, short form possible, cov; after the name
         CASE IsP(t, ":") -> Shift(c, <<<<"Expr", LvAssign, FALSE, s[4]>>, <<"A", "property", s[2]>>, A("coladd"), <<"PropNext", s[4]>>>>)
           [] IsP(t, "(") -> Again(c, <<<<"PropFn", "init", FALSE, FALSE, s[2], s[4]>>>>, t)
           [] s[3] /\ (IsP(t, ",") \/ IsP(t, "}")) -> Again(c, <<A("shorthand"), A("coladd"), <<"PropNext", s[4]>>>>, t)
           [] s[3] /\ IsP(t, "=") ->
                IF s[4] THEN Shift(c, <<Expr(LvAssign), A("final"), A("shortdefault"), A("coladd"), <<"PropNext", s[4]>>>>)
                ELSE Unspec
           [] OTHER -> Dead
    [] n = "PropNext" ->
         CASE IsP(t, ",") -> Shift(c, <<<<"Object", s[2]>>>>)
           [] IsP(t, "}") -> Shift(c, <<A("object")>>)
           [] OTHER -> Dead
    \* ---- imports
    [] n = "Import" ->
         CASE t.c = "str" ->
                ShiftV([c EXCEPT !.vs = <<ListVal>> \o @], Val(<<"Source", t.x>>, "src"), <<<<"Semi">>, A("import")>>)
           [] IsP(t, "(") \/ IsP(t, ".") -> Unspec
           [] IsIdent(c, t) ->
                ShiftV([c EXCEPT !.vs = <<ListVal>> \o @], IdVal(t.s), <<A("impdefault"), <<"ImportMore">>>>)
           [] OTHER -> AgainV(c, ListVal, <<<<"ImportBindings">>>>, t)
    [] n = "ImportMore" ->
         CASE IsP(t, ",") -> Shift(c, <<<<"ImportBindings">>>>)
           [] IsW(t, "from") -> Shift(c, <<<<"ImportSource">>>>)
           [] OTHER -> Dead
    [] n = "ImportBindings" ->
         CASE IsP(t, "*") -> Shift(c, <<Kw("as"), <<"BindId">>, A("impns"), Kw("from"), <<"ImportSource">>>>)
           [] IsP(t, "{") -> Shift(c, <<<<"ImportList">>, Kw("from"), <<"ImportSource">>>>)
           [] OTHER -> Dead
    [] n = "ImportSource" ->
         IF t.c = "str" THEN ShiftV(c, Val(<<"Source", t.x>>, "src"), <<<<"Semi">>, A("import")>>) ELSE Dead
    [] n = "ImportList" ->
         CASE IsP(t, "}") -> Shift(c, <<>>)
           [] t.c = "w" -> ShiftV(c, Val(Ident(t.s), "key"), <<<<"ImportAs", IsIdent(c, t)>>>>)
           [] t.c = "str" -> Unspec
           [] OTHER -> Dead
    [] n = "ImportAs" ->
         CASE IsW(t, "as") -> Shift(c, <<<<"BindId">>, A("impspec"), <<"ImportNext">>>>)
           [] s[2] -> AgainV(c, Top(c), <<A("impspec"), <<"ImportNext">>>>, t)
           [] OTHER -> Dead
    [] n = "ImportNext" ->
         CASE IsP(t, ",") -> Shift(c, <<<<"ImportList">>>>)
           [] IsP(t, "}") -> Shift(c, <<>>)
           [] OTHER -> Dead

(* What the parser answers at the end of the text. *)
Verdict(c, nl) ==
  LET d == Step(c, [EOFTok EXCEPT !.nl = nl]) IN
  IF d.v = "unspec" THEN [v |-> "unspec", t |-> Nil]
  ELSE IF d.v = "ok" /\ d.st = <<>> /\ Len(d.vs) = 1 THEN [v |-> "accept", t |-> d.vs[1].t]
  ELSE [v |-> "reject", t |-> Nil]

(***************************************************************************)
(* A chunk that begins with a slash is a regular expression exactly where  *)
(* no division may stand.                                                  *)
(***************************************************************************)
DivisionAllowed(c, t) == Step(c, t).v # "dead"
=============================================================================
