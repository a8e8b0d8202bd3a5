------------------------------- MODULE Estree -------------------------------
(***************************************************************************)
(* What an ESTree node (of ECMAScript 2019, and perhaps the field          *)
(* "optional" of 2020) may look like, for the node                         *)
(* types of the supported syntax.  A form is what one node of a document   *)
(* looks like from above: its type, and for each field what is in it:      *)
(*   <<"null">>  <<"bool", "true">>  <<"string", text>>  <<"number">>      *)
(*   <<"node", T>>  <<"list", T, ...>> with the types of its elements      *)
(*   <<"object", ...>>                                                     *)
(* where T is the type of a node, with more said of a few of them:         *)
(* "Literal:string", "FunctionExpression:anonymous",                       *)
(* "VariableDeclaration:bare" (var with one declarator without a value),   *)
(* "VariableDeclaration:lexical" (let, const),                             *)
(* "RestElement:early" (not the last of its list).                         *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Literals == {"Literal:string", "Literal:number", "Literal:boolean", "Literal:null", "Literal:regex"}
Expressions == Literals \cup
  {"Identifier", "ThisExpression", "ArrayExpression", "ObjectExpression", "FunctionExpression:anonymous",
   "FunctionExpression:named", "ArrowFunctionExpression", "ClassExpression", "UnaryExpression", "UpdateExpression",
   "BinaryExpression", "LogicalExpression", "AssignmentExpression", "ConditionalExpression", "CallExpression",
   "NewExpression", "MemberExpression", "SequenceExpression"}
Declarations == {"VariableDeclaration:lexical", "FunctionDeclaration", "ClassDeclaration"}
Statements == {"ExpressionStatement", "BlockStatement", "EmptyStatement", "IfStatement", "ForStatement", "ForInStatement",
   "ForOfStatement", "WhileStatement", "DoWhileStatement", "ContinueStatement", "BreakStatement", "ReturnStatement",
   "ThrowStatement", "TryStatement", "SwitchStatement", "LabeledStatement", "VariableDeclaration:bare",
   "VariableDeclaration:other"} \cup Declarations
SubStatements == Statements \ Declarations   \* what may stand after a label, if, for...
Bindings == {"Identifier", "ArrayPattern", "ObjectPattern"}
Elements == Bindings \cup {"AssignmentPattern"}
Parameters == Elements \cup {"RestElement"}
Simple == {"Identifier", "MemberExpression"}

(* What may be in a field. *)
One(S) == [k |-> "node", s |-> S, opt |-> FALSE]
Opt(S) == [k |-> "node", s |-> S, opt |-> TRUE]
Many(S) == [k |-> "list", s |-> S, opt |-> FALSE]
ManyOpt(S) == [k |-> "list", s |-> S, opt |-> TRUE]
Text == [k |-> "text", s |-> {}, opt |-> FALSE]
Text0 == [k |-> "text", s |-> {}, opt |-> TRUE]     \* need not be there
OneOf(S) == [k |-> "enum", s |-> S, opt |-> FALSE]
Flag == [k |-> "bool", s |-> {"true", "false"}, opt |-> FALSE]
No == [k |-> "bool", s |-> {"false"}, opt |-> FALSE]
No0 == [k |-> "bool", s |-> {"false"}, opt |-> TRUE]
Absent == [k |-> "null", s |-> {}, opt |-> TRUE]

Unary == {"-", "+", "!", "~", "typeof", "void", "delete"}
Update == {"++", "--"}
Binary == {"==", "!=", "===", "!==", "<", "<=", ">", ">=", "<<", ">>", ">>>", "+", "-", "*", "/", "%", "|", "^", "&",
           "in", "instanceof", "**"}
Assign == {"=", "+=", "-=", "*=", "/=", "%=", "<<=", ">>=", ">>>=", "|=", "^=", "&=", "**=", "||=", "&&=", "??="}
Logical == {"||", "&&", "??"}

Function == [params |-> Many(Parameters), body |-> One({"BlockStatement"}), generator |-> Flag, async |-> Flag, expression |-> No0]
Method == One({"FunctionExpression:anonymous"})
Key == {"Identifier", "Literal:string", "Literal:number"}

Shape == [
  Program |-> [sourceType |-> OneOf({"script", "module"}),
               body |-> Many(Statements \cup {"ImportDeclaration"})],
  ExpressionStatement |-> [expression |-> One(Expressions), directive |-> Text0],
  BlockStatement |-> [body |-> Many(Statements)],
  EmptyStatement |-> [type |-> OneOf({"EmptyStatement"})],
  IfStatement |-> [test |-> One(Expressions), consequent |-> One(SubStatements), alternate |-> Opt(SubStatements)],
  ForStatement |-> [init |-> Opt(Expressions \cup {"VariableDeclaration:bare", "VariableDeclaration:other"}),
                    test |-> Opt(Expressions), update |-> Opt(Expressions), body |-> One(SubStatements)],
  ForInStatement |-> [left |-> One(Simple \cup {"VariableDeclaration:bare"}), right |-> One(Expressions), body |-> One(SubStatements)],
  ForOfStatement |-> [left |-> One(Simple \cup {"VariableDeclaration:bare"}), right |-> One(Expressions),
                      body |-> One(SubStatements), await |-> No],
  WhileStatement |-> [test |-> One(Expressions), body |-> One(SubStatements)],
  DoWhileStatement |-> [test |-> One(Expressions), body |-> One(SubStatements)],
  ContinueStatement |-> [label |-> Opt({"Identifier"})],
  BreakStatement |-> [label |-> Opt({"Identifier"})],
  ReturnStatement |-> [argument |-> Opt(Expressions)],
  ThrowStatement |-> [argument |-> One(Expressions)],
  TryStatement |-> [block |-> One({"BlockStatement"}), handler |-> Opt({"CatchClause"}), finalizer |-> Opt({"BlockStatement"})],
  CatchClause |-> [param |-> Opt(Bindings), body |-> One({"BlockStatement"})],
  SwitchStatement |-> [discriminant |-> One(Expressions), cases |-> Many({"SwitchCase"})],
  SwitchCase |-> [test |-> Opt(Expressions), consequent |-> Many(Statements)],
  LabeledStatement |-> [label |-> One({"Identifier"}), body |-> One(SubStatements \cup {"FunctionDeclaration"})],
  VariableDeclaration |-> [kind |-> OneOf({"var", "let", "const"}), declarations |-> Many({"VariableDeclarator"})],
  VariableDeclarator |-> [id |-> One(Bindings), init |-> Opt(Expressions)],
  FunctionDeclaration |-> [id |-> One({"Identifier"})] @@ Function,
  FunctionExpression |-> [id |-> Opt({"Identifier"})] @@ Function,
  ArrowFunctionExpression |-> [params |-> Many(Parameters), body |-> One((Expressions) \cup {"BlockStatement"}),
                               async |-> Flag, expression |-> Flag, generator |-> No, id |-> Absent],
  ClassDeclaration |-> [id |-> One({"Identifier"}), superClass |-> Opt(Expressions), body |-> One({"ClassBody"})],
  ClassExpression |-> [id |-> Opt({"Identifier"}), superClass |-> Opt(Expressions), body |-> One({"ClassBody"})],
  ClassBody |-> [body |-> Many({"MethodDefinition"})],
  MethodDefinition |-> [key |-> One(Expressions), computed |-> Flag, value |-> Method,
                        kind |-> OneOf({"constructor", "method", "get", "set"}), static |-> Flag],
  Property |-> [key |-> One(Expressions), computed |-> Flag, value |-> One(Expressions \cup Elements),
                kind |-> OneOf({"init", "get", "set"}), method |-> Flag, shorthand |-> Flag],
  ObjectExpression |-> [properties |-> Many({"Property"})],
  ArrayExpression |-> [elements |-> ManyOpt(Expressions)],
  ObjectPattern |-> [properties |-> Many({"Property", "RestElement"})],
  ArrayPattern |-> [elements |-> ManyOpt(Parameters)],
  RestElement |-> [argument |-> One(Bindings)],
  AssignmentPattern |-> [left |-> One(Bindings), right |-> One(Expressions)],
  Identifier |-> [name |-> Text],
  Literal |-> [value |-> [k |-> "any", s |-> {}, opt |-> FALSE], raw |-> Text0],
  ThisExpression |-> [type |-> OneOf({"ThisExpression"})],
  UnaryExpression |-> [operator |-> OneOf(Unary), prefix |-> [k |-> "bool", s |-> {"true"}, opt |-> FALSE], argument |-> One(Expressions)],
  UpdateExpression |-> [operator |-> OneOf(Update), prefix |-> Flag, argument |-> One(Simple)],
  BinaryExpression |-> [operator |-> OneOf(Binary), left |-> One(Expressions), right |-> One(Expressions)],
  LogicalExpression |-> [operator |-> OneOf(Logical), left |-> One(Expressions), right |-> One(Expressions)],
  AssignmentExpression |-> [operator |-> OneOf(Assign), left |-> One(Simple), right |-> One(Expressions)],
  ConditionalExpression |-> [test |-> One(Expressions), consequent |-> One(Expressions), alternate |-> One(Expressions)],
  CallExpression |-> [callee |-> One(Expressions \cup {"Super"}), arguments |-> Many(Expressions \cup {"SpreadElement"}), optional |-> No0],
  NewExpression |-> [callee |-> One(Expressions), arguments |-> Many(Expressions \cup {"SpreadElement"})],
  MemberExpression |-> [object |-> One(Expressions \cup {"Super"}), property |-> One(Expressions), computed |-> Flag, optional |-> No0],
  SpreadElement |-> [argument |-> One(Expressions)],
  SequenceExpression |-> [expressions |-> Many(Expressions)],
  ImportDeclaration |-> [specifiers |-> Many({"ImportDefaultSpecifier", "ImportNamespaceSpecifier", "ImportSpecifier"}),
                         source |-> One({"Literal:string"})],
  ImportDefaultSpecifier |-> [local |-> One({"Identifier"})],
  ImportNamespaceSpecifier |-> [local |-> One({"Identifier"})],
  ImportSpecifier |-> [imported |-> One({"Identifier"}), local |-> One({"Identifier"})]
]

(* Does the value v belong in a field described by d? *)
Fits(v, d) ==
  CASE d.k = "node" -> \/ v[1] = "null" /\ d.opt
                       \/ v[1] = "node" /\ v[2] \in d.s
    [] d.k = "list" -> /\ v[1] = "list"
                       /\ \A i \in 2..Len(v) : v[i] \in d.s \/ (v[i] = "null" /\ d.opt)
    [] d.k = "text" -> v[1] = "string"
    [] d.k = "enum" -> v[1] = "string" /\ v[2] \in d.s
    [] d.k = "bool" -> v[1] = "bool" /\ v[2] \in d.s
    [] d.k = "null" -> v[1] = "null"
    [] d.k = "any" -> TRUE

Is(f, name, v) == f[name] = v
ListLen(v) == Len(v) - 1

(* What no single field shows. *)
Together(t, f) ==
  CASE t = "TryStatement" -> f.handler[1] # "null" \/ f.finalizer[1] # "null"
    [] t = "ExpressionStatement" -> "directive" \in DOMAIN f => f.expression = <<"node", "Literal:string">>
    [] t = "ArrowFunctionExpression" -> f.expression[2] = (IF f.body[2] = "BlockStatement" THEN "false" ELSE "true")
    [] t = "VariableDeclaration" -> ListLen(f.declarations) > 0
    [] t = "SequenceExpression" -> ListLen(f.expressions) > 0
    [] t = "MethodDefinition" -> /\ f.computed[2] = "false" => f.key[2] \in Key
                                 /\ f.kind[2] = "constructor" => f.static[2] = "false" /\ f.computed[2] = "false"
                                                                 /\ f.key[2] \in {"Identifier", "Literal:string"}
    [] t = "Property" -> /\ f.computed[2] = "false" => f.key[2] \in Key
                         /\ f.kind[2] # "init" => f.method[2] = "false" /\ f.shorthand[2] = "false" /\ f.value[2] = "FunctionExpression:anonymous"
                         /\ f.method[2] = "true" => f.shorthand[2] = "false" /\ f.value[2] = "FunctionExpression:anonymous"
                         /\ f.shorthand[2] = "true" => f.computed[2] = "false" /\ f.key[2] = "Identifier" /\ f.value[2] \in {"Identifier", "AssignmentPattern"}
    [] t = "MemberExpression" -> f.computed[2] = "false" => f.property[2] = "Identifier"
    [] t = "Literal" -> /\ "regex" \in DOMAIN f => f.regex = <<"object", "flags", "pattern">>
                        /\ f.value[1] \in {"string", "number", "bool", "null"}
    [] OTHER -> TRUE

(* Fields that a node type may have besides. *)
More == [t \in DOMAIN Shape |-> CASE t = "Literal" -> {"regex"} [] t = "ForInStatement" -> {"each"} [] OTHER -> {}]

(* Why a form is not one of ESTree; "" if it is. *)
Wrong(x) ==
  IF x.t \notin DOMAIN Shape THEN "ESTree has no type " \o x.t
  ELSE LET d == Shape[x.t]
           missing == {n \in DOMAIN d : n \notin DOMAIN x.f /\ ~(d[n].opt /\ d[n].k \in {"text", "bool", "null"})}
           unknown == {n \in DOMAIN x.f : n \notin DOMAIN d \cup More[x.t] \cup {"type"}}
           bad == {n \in DOMAIN d \cap DOMAIN x.f : ~Fits(x.f[n], d[n])}
       IN IF missing # {} THEN "field missing: " \o ToString(missing)
          ELSE IF unknown # {} THEN "field unknown: " \o ToString(unknown)
          ELSE IF bad # {} THEN "wrong in the field: " \o ToString([n \in bad |-> x.f[n]])
          ELSE IF ~Together(x.t, x.f) THEN "fields that do not go together: " \o ToString(x.f)
          ELSE ""
=============================================================================
