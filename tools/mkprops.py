#!/usr/bin/env python3
"""Source of properties.jsonl (python3 tools/mkprops.py > properties.jsonl)."""
import json
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=None)))
LX="ecmascript/lexer/"; PR="ecmascript/parser/"; AS="ecmascript/ast/"

prop("C01","Tokens are the longest match and reproduce the source",
 "For every source text the lexer accepts, the tokens it delivers, put back in order with the white space and comments between them, are exactly that text: each punctuator is the longest ECMAScript punctuator that matches at its place, each identifier extends as far as identifier characters go, and a word gets a keyword kind exactly when it is an ECMAScript keyword. The source text a token reports for itself is what stood in the input. A character that can begin no token, or an unterminated comment, is reported as a syntax error instead of being skipped. (Not covered: template literals, BigInt suffixes, Unicode escapes in identifiers, hashbangs and HTML-like comments, which the lexer does not support, '?.' and '..'.)",
 ["inputs"],"all source texts (any sequence of Unicode characters), with '/' read as division",
 "Four sample strings are lexed in the tests; the input space is unbounded and every pair of adjacent characters can start, extend or end a token.",
 [LX+"lexer.go",LX+"token.go",LX+"unicode.go"],
 [("character-driven token switch",LX+"lexer.go consumeNextToken"),("keyword table",LX+"token.go strToKeywordType"),("character classes",LX+"unicode.go"),("token to source",LX+"token.go Token.Source")],
 ["lexer.Lexer.Lex","lexer.Token.Type/Literal","lexer.Token.Source"])
prop("C02","Line breaks before tokens are known exactly",
 "A token is marked as preceded by a line break exactly when a line terminator (LF, CR, U+2028, U+2029) occurs between it and the token before it (or the start of the text), whether that terminator stands alone, ends a line comment or lies inside a block comment. White space and comments have no other effect: replacing any gap between tokens by another gap with the same line-break content leaves the tokens and the parse tree unchanged.",
 ["inputs"],"all token sequences and all ways of filling the gaps between tokens with white space, line terminators and comments",
 "One test contains two newlines and none contains a comment; gaps are unbounded and the flag decides where semicolons are inserted.",
 [LX+"lexer.go",LX+"unicode.go"],
 [("newline flag",LX+"lexer.go Lex/consumeNextToken"),("comment skipping",LX+"lexer.go consumeSingleLineComment, consumeMultiLineComment")],
 ["lexer.Token.NewLine","parser.Parser.Parse"],
 [dict(name="newLine",meaning="line terminator seen since last token",where=LX+"lexer.go Lexer.newLine")])
prop("C03","Numeric literals keep their extent, value and raw text",
 "Every ECMAScript numeric literal without a BigInt suffix (decimal with optional fraction and exponent, 0b/0o/0x, legacy leading-zero forms, '_' separators) is one token that extends as far as the literal does, its raw text is the source text, and its value is the double nearest to the number it denotes. A malformed literal (missing digits, misplaced separator, identifier character or digit directly after it) is a syntax error.",
 ["inputs"],"all texts built from digits, letters, signs, dots and separators",
 "Tests use the literals 0, 1, 2, 3, 4 and 8 only.",
 [LX+"lexer.go",LX+"token.go",AS+"expressions_literal.go"],
 [("digit runs",LX+"lexer.go consumeBinaryPart..consumeFractionalPart"),("value",LX+"token.go NumberConstant"),("literal node",PR+"expression.go parseExpression")],
 ["lexer.Lexer.Lex","ESTree Literal.value/raw"])
prop("C04","String literals end at their own closing quote",
 "A string literal extends from its quote to the next occurrence of the same quote that is not preceded by an escaping backslash; its raw text is the source text, quotes included, and, when it contains no backslash, its value is the text between the quotes. A string that meets an unescaped LF or CR, or the end of the text, before its closing quote is a syntax error.",
 ["inputs"],"all texts over quotes, backslashes, line terminators and ordinary characters",
 "Tests contain short ASCII strings without escapes; runs of backslashes, mixed quotes and line continuations are unbounded.",
 [LX+"lexer.go",LX+"token.go"],
 [("string scanning",LX+"lexer.go consumeStringLiteral"),("value",LX+"token.go StringConstant")],
 ["lexer.Lexer.Lex","ESTree Literal.value/raw"])
prop("C05","A slash starts a regular expression exactly where an operand may",
 "When parsing, '/' begins a regular expression literal exactly at the places where the grammar expects an operand, and is a division operator everywhere else. The literal ends at the first '/' outside a character class and not escaped, takes the identifier characters after it as flags, and the tree keeps pattern, flags and raw text exactly as written; a line terminator or the end of the text inside it is a syntax error.",
 ["inputs","programs"],"all texts over slashes, brackets, backslashes, flags, line terminators, and all syntactic positions",
 "Two regular expressions at the start of a statement are tested.",
 [LX+"lexer.go",PR+"expression.go",PR+"scanner.go"],
 [("relexing",LX+"lexer.go ReLex, consumeRegex"),("operand position",PR+"expression.go parseExpression")],
 ["lexer.Lexer.ReLex","ESTree Literal.regex","Parse error"])
prop("C06","Reported positions are real positions in the source",
 "After each token the lexer's position is the row and column just after that token, counted from 1 in characters, where each LF, CR, CR LF pair, U+2028 or U+2029 starts a new row; pushing the last character back restores the previous position, also at the end of the text. A syntax error from parsing carries a position that lies between the end of the last token before the first offending token and the end of that offending token, and the source's URL; only an error about how a parenthesised list or literal turned out to be used may lie earlier, inside that construct.",
 ["inputs","histories"],"all texts, all read/unread histories of the character scanner, all syntax errors",
 "No test looks at a position.",
 [LX+"scanner.go",LX+"lexer.go",PR+"scanner.go","ecmascript/errs/errors.go"],
 [("row/column bookkeeping",LX+"scanner.go Read/Unread/Location"),("error construction",PR+"scanner.go SyntaxError")],
 ["lexer.Scanner.Location","lexer.Lexer.Location","errs.SyntaxError.Location"],
 [dict(name="col,row",meaning="position of the next character; negative col marks a line terminator just read",where=LX+"scanner.go Scanner"),
  dict(name="eof",meaning="end of input was seen",where=LX+"scanner.go Scanner")])
prop("C07","Peeking ahead never changes what is scanned",
 "For every interleaving of peeking (to any depth) and scanning, the token scanner delivers exactly the tokens the lexer would have delivered without peeking, in order and each once, and a peek at depth i shows the token the (i+1)-th scan from now returns. Its position is always that of the next token to be scanned, that is, the place the lexer stood before reading it.",
 ["histories","inputs"],"all sequences of scan, peek, length and position queries over all token sequences",
 "Tests only exercise the scanner through a few parses.",
 [PR+"scanner.go"],
 [("lookahead queue",PR+"scanner.go PeekAt/Scan/Location")],
 ["parser.Scanner.Scan/PeekAt/PeekLen/Location"],
 [dict(name="last,loc",meaning="tokens read ahead and the positions before them",where=PR+"scanner.go Scanner")])
prop("C08","Expression trees follow ECMAScript precedence",
 "Every expression built from the supported operators, literals, identifiers, member access, calls, new, array/object literals, function and class expressions is accepted, and the tree groups the operands exactly as ECMAScript's precedence and associativity rules do, with the operator that was written, all operands present once and in source order. (Supported means: no template literals, BigInt, optional chaining, yield and await expressions, destructuring assignment, spread in array and object literals, super, new.target, import() and import.meta; and nested less than 10,000 deep.)",
 ["inputs","programs"],"all expressions of the supported syntax, of any size and nesting",
 "Tests check two arithmetic expressions for acceptance and no operator's tree.",
 [PR+"expression.go",AS+"expressions_binary.go",AS+"expressions_unary.go",AS+"expressions.go"],
 [("precedence climbing",PR+"expression.go parseExpression"),("operator names",AS+"expressions_binary.go, expressions_unary.go")],
 ["Parse result's ESTree"])
prop("C09","Statement and declaration trees match the program",
 "Every program built from the supported statements, declarations, functions, classes and binding patterns is accepted, and its tree contains every statement, clause, parameter, binding, label and default value that was written, once, in order and under the construct it belongs to (an else under the nearest if, a case's statements under that case). (Not supported: let and const in for headers, for-await, async and generator declarations, class fields, private names, static blocks, async and generator class methods, export, with, debugger.)",
 ["programs"],"all programs of the supported syntax, of any size and nesting",
 "Tests parse four libraries for acceptance only, and check trees for arrow parameters and object properties alone.",
 [PR+"statement.go",PR+"declaration.go",PR+"script.go",AS+"statement.go",AS+"declaration.go"],
 [("statement dispatch",PR+"statement.go parseStatement"),("declarations",PR+"declaration.go"),("binding patterns",PR+"statement.go parseArrayBindingPatternTail, parseObjectBindingPatternTail")],
 ["Parse result's ESTree"])
prop("C10","Text outside the grammar is rejected",
 "If no ECMAScript program begins with the tokens read so far, parsing ends in a syntax error: nothing that was written is silently dropped and nothing required is silently supplied (apart from inserted semicolons). In particular a program cut off before it is complete, a missing operand, separator, bracket, clause or body, and leftover tokens after a complete program or expression are rejected. (The grammar here includes what identifiers, assignment targets and operator mixes are allowed, but not the early errors that need scopes or labels: duplicate declarations, unknown labels, const without a value, eval and arguments in strict code, legacy octal there.)",
 ["programs","inputs"],"all token sequences that are not prefixes of, or not, ECMAScript scripts, modules or expressions",
 "Sixteen malformed inputs, nearly all imports, are tested.",
 [PR+"expression.go",PR+"statement.go",PR+"declaration.go",PR+"module.go",PR+"parser.go"],
 [("expected-token checks",PR+"scanner.go ScanExpect"),("list and statement parsers",PR+"statement.go, expression.go, declaration.go")],
 ["Parse error"])
prop("C11","Semicolons are inserted exactly where ECMAScript says",
 "A missing semicolon is supplied exactly before a token that is on a new line or is '}', or at the end of the text, and only where the program could not otherwise continue, and after do-while; never inside a for header and never as an empty statement. No line break is looked past after return, break, continue, throw and async, before a postfix ++ or --, or before '=>'.",
 ["programs"],"all programs with every choice of line break or none between each two tokens",
 "No test puts a line break between statements or inside one.",
 [PR+"statement.go",PR+"expression.go",PR+"parser.go",PR+"context.go"],
 [("expectSemicolon",PR+"parser.go"),("restricted productions",PR+"statement.go parseReturnStatement.., expression.go parseExpression")],
 ["Parse result's ESTree","Parse error"])
prop("C12","Reserved words depend on the enclosing context only",
 "Words reserved only in strict code (implements, interface, let, package, private, protected, public, static) are usable as identifiers exactly outside strict code, where strict code is modules, class bodies and function bodies and scripts with a 'use strict' directive, including everything nested in them and nothing after them. 'yield' is unusable as an identifier inside generators, 'await' inside async functions, each only there; always-reserved words never are identifiers, contextual words always are; any word may be a property name. ('yield' and 'await' are not reserved by strict code or modules alone.)",
 ["programs"],"all programs: every word, in every position, under every nesting of function kinds, directives and modes",
 "Tests use a few words as import names in module mode only.",
 [PR+"context.go",PR+"keyword.go",PR+"statement.go",PR+"expression.go"],
 [("reservation table",PR+"keyword.go reservedWords"),("context",PR+"context.go keywordToIdentifier"),("directive handling",PR+"statement.go parseBlock")],
 ["Parse error or tree"],
 [dict(name="ctx",meaning="strict/async/generator flags",where=PR+"context.go parseContext")])
prop("C13","Parentheses become parameters exactly before an arrow",
 "A parenthesised list (also after 'async') is read as the parameter list of an arrow function exactly when '=>' follows it, and then every parameter, default, pattern element, hole and rest element is in the tree as written; otherwise it is read as an expression or call with the same contents. Forms that are only legal as parameters (empty list, rest, trailing comma, defaults in object shorthand) are syntax errors without the arrow, forms that are only legal as expressions are syntax errors with it, and no tree that parsing returns fails to convert to ESTree because of leftovers of the ambiguity.",
 ["programs"],"all parenthesised lists with any nesting of array and object literals, with and without a following arrow",
 "Tests have twenty-odd well-formed arrow heads and not a single parenthesised list without an arrow.",
 [PR+"expression.go",AS+"temporal.go",AS+"expressions.go"],
 [("cover grammar",PR+"expression.go exprFlagMaybeArrow, convertExprToArrowParams"),("leftover detection",AS+"node.go ContainsTemporalNodes")],
 ["Parse result","Node.ESTree"])
prop("C14","Import declarations bind what was written",
 "In module mode every import declaration of the supported forms (side-effect, default, namespace, named, and their legal combinations) is accepted and its tree lists the default, namespace and named bindings with their local names and the module specifier, each once and in order; any other arrangement of those parts is a syntax error. In script mode import declarations are syntax errors.",
 ["programs"],"all sequences of import-clause parts and all names",
 "Tests check acceptance of two dozen imports but never the bindings.",
 [PR+"module.go",AS+"module.go"],
 [("import clause parser",PR+"module.go parseImportDecl")],
 ["Parse result's ESTree"])
prop("C15","Parsing always ends in a tree or a declared error",
 "For every byte sequence, and in every parse mode, parsing terminates in time and memory proportional to the input and returns either a tree and no error, or one of the declared error kinds (syntax, encoding, parser error); it never panics, loops or exhausts stack or memory, however deep constructs are nested. Every tree returned converts to ESTree and, if it is not nested deeper than JSON encoding goes, to JSON without failing.",
 ["inputs"],"all byte sequences, including invalid UTF-8, truncations and mutations of programs, and all parse modes",
 "Tests feed thirty short well-formed or slightly broken inputs; unimplemented statements, nil children and unterminated constructs are not among them.",
 [PR+"parser.go",PR+"statement.go",PR+"expression.go",LX+"lexer.go",LX+"token.go",AS+"node.go"],
 [("recover to error",PR+"parser.go Parse"),("loop exits",PR+"statement.go, expression.go")],
 ["Parse return values","process exit","Node.ESTree"])
prop("C16","A failing reader surfaces as an encoding error",
 "If the underlying reader fails at any point with an error other than end of file, parsing returns an encoding error that wraps exactly that error and carries the position reached, no matter where in a token or comment it strikes; characters delivered before the failure are processed normally, and nothing is read after it. If the reader refuses to take a character back, parsing returns an error that wraps exactly that refusal, with the position reached. An end of file, bare or wrapped, is treated as the end of the text, and nothing is read after it either.",
 ["fault_sequences","inputs"],"all texts, all failure points, all error values, all reader implementations that honour the RuneScanner contract",
 "No test uses a failing reader.",
 [LX+"scanner.go",PR+"parser.go","ecmascript/errs/errors.go"],
 [("error translation",LX+"scanner.go Read/Unread"),("recover to error",PR+"parser.go Parse")],
 ["Parse error, errors.As/Is","calls on the reader"])
prop("C17","Parses are isolated from each other",
 "The result of parsing a text depends only on the text and the mode: not on the reader type, on how its calls are timed, on what was parsed before, or on other parsers running at the same time in any interleaving.",
 ["schedules","histories"],"all interleavings of two or more parsers at the granularity of single character reads; all orders of parses; all reader types",
 "Tests run one parse at a time.",
 [PR+"parser.go",PR+"scanner.go",LX+"lexer.go",LX+"scanner.go"],
 [("per-parser state",PR+"parser.go Parser, lexer/lexer.go Lexer")],
 ["Parse result's ESTree, under a controlled scheduler"])
prop("C18","ESTree output is well-formed ESTree",
 "The ESTree form of every tree that parsing returns is a JSON document in which each node has a 'type' that ESTree defines, all of the fields ESTree gives that type under ESTree's names, child nodes only of the kinds ESTree allows there, lists as arrays (also when empty), null exactly where ESTree allows an absent child, and operators, kinds and flags taking ESTree's values.",
 ["programs"],"all supported programs",
 "No test calls the ESTree conversion at all.",
 [AS+"expressions.go",AS+"statement.go",AS+"declaration.go",AS+"module.go",AS+"script.go",AS+"estree.go",AS+"expressions_binary.go",AS+"expressions_literal.go",AS+"expressions_unary.go"],
 [("ESTree methods",AS+"*.go")],
 ["Node.ESTree via encoding/json"])
prop("C19","The estree command prints exactly the trees of its files",
 "Given any list of file names, the command writes to standard output, for each file in order up to the first that cannot be read or parsed, one JSON document that is the ESTree of that file, with a '---' line between documents, and nothing else; it exits with status 0 if every file was processed and non-zero, with a message on standard error naming the file, otherwise.",
 ["inputs","histories"],"all lists of good, malformed, unreadable and missing files, in all orders",
 "The command has no tests.",
 ["cmd/estree/main.go"],
 [("file loop","cmd/estree/main.go main")],
 ["stdout, stderr and exit status of the command"])
prop("C20","UTF-16 encoding is exact for every code point",
 "Encoding a string as UTF-16 yields, for each code point in order, the code point itself as one unit if it is below U+10000, and otherwise its high then low surrogate; each invalid byte becomes U+FFFD. The result for a concatenation of valid strings is the concatenation of the results.",
 ["inputs"],"all strings over all 1,112,064 code points and invalid bytes",
 "Fifteen sample strings are tested.",
 [LX+"unicode.go"],[("encoder",LX+"unicode.go EncodeUTF16")],["lexer.EncodeUTF16"])
prop("C21","The web front end answers every call like the library",
 "The function the web build hands to the page answers every call with either a result that is the same ESTree JSON the library produces for that script text, or an error with the library's message, never both and never by dying; so any later call is answered just as if it were the first.",
 ["histories","inputs"],"all sequences of calls with good and malformed script texts",
 "The web front end has no tests.",
 ["web/parser/parser.go"],[("ParseES","web/parser/parser.go")],["return value of the registered function under js/wasm"])
prop("C22","Errors say where, what kind and why",
 "The error of every rejected text reads 'URI:row:column: kind error: reason': the address the text was given, the row and column of the error's location, 'syntax', 'encoding' or 'parser' as its type has it, and the text of the error it wraps, which is never empty, shown as it is (no formatting of what the text or the address contain). Unwrapping gives the wrapped error, through any number of such layers, so that errors.Is and errors.As find what is inside; a location reads the same as the span of only that location.",
 ["inputs"],"all rejected texts, all addresses (also none), all locations, all reasons, all nestings of the three kinds",
 "No test reads the text of an error or looks inside one.",
 ["ecmascript/errs/errors.go",AS+"location.go",PR+"scanner.go",PR+"parser.go"],
 [("error types","ecmascript/errs/errors.go"),("place",AS+"location.go Location.String")],
 ["error.Error, errors.Unwrap, errors.Is, errors.As, ast.Location.String"])
for p in P: print(json.dumps(p, ensure_ascii=False))
