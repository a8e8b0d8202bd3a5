#!/usr/bin/env python3
"""Source of known_findings.json (python3 tools/mkfindings.py > known_findings.json)."""
import json

# Defects that are recorded, not repaired: property, key (what identifies the
# failing case), what fails.
FINDINGS = [
    ("C21", 'web:9000×"{" "" 9000×"}"', "9000 nested blocks, which the library parses, make the function of the web build throw a RangeError (the stack of the JavaScript engine is exhausted)"),
    ("C21", 'web:9000×"[" "" 9000×"]"', "9000 nested arrays, which the library parses, make the function of the web build throw a RangeError (the stack of the JavaScript engine is exhausted)"),
    ("C21", 'web:9000×"a+" "a" 9000×""', "9000 additions in a row, which the library parses, make the function of the web build throw a RangeError (the stack of the JavaScript engine is exhausted)"),
]

# Defects that were repaired: property, commit in /repo, what failed.
FIXED = """
C01 53b2948 '<<<' was lexed as an unsigned right shift
C01 4065a4a the source text of '!=', '%=' and '?.' tokens was wrong
C02 93ad121 the line break that ends a line comment was not noticed
C02 80cfe38 '/***/' did not end a block comment, line breaks in block comments were not noticed
C06 c469f16 unreading at the end of the text moved the location
C06 f06c198 CR LF counted as two line terminators
C05 1e41073 the regular expression pattern lost characters, a line terminator did not end it
C04 c1918ff unescaped line terminators in string literals were accepted
C03 2f298db '1_000' lost its separators in the raw text
C03 1f85a57 '1e5' lost its exponent indicator, '1e' was accepted
C03 719f80c '0.5', '0e1' and '1.' were not single literals
C03 a04f9fc '017' lost its leading zero and was read as decimal
C03 9aecee1 '3in' and '1a' were accepted
C03 16c33d8 '0xFFFFFFFFFFFFFFFFFF' and '1e400' made parsing fail
C15 ea189b7 an unexpected panic in Parse was lost: no tree and no error
C15 dd044c3 unimplemented syntax made the parser panic
C08 5bf9127 'a | b' was parsed as 'a ^ b'
C19 22d0ee9 parsing arrow parameters printed to standard output
C18 8c70138 '??' was a BinaryExpression
C08 337680d '**' was left associative and accepted '-a ** b'
C10 9fe43f1 'a ?? b || c' was accepted
C08 bdddbff 'a[b, c]' was rejected, '1 + a++' updated '1 + a'
C11 7e15e50 'a LF ++b' was parsed as 'a++ b'
C10 228d26c '1 = 2' and '++a()' were accepted
C06 52fa2dd a misplaced unary operator was reported behind its operand
C10 aa6a434 'for (a ? b : c in d;;)' was accepted
C13 e863939 '[...a]', '{a = 1}' and '()' were accepted outside arrow parameters
C11 840770e the line break before a keyword used as an identifier was forgotten
C10 bfdae8d 'f(a b)' and '[a b]' were accepted
C10 e803f2d 'if (a)' and 'while (a)' at the end of the text were accepted
C15 af6453f 'switch (a) {' made the parser loop forever
C10 b100823 'try {}' and 'try {} catch () {}' were accepted
C06 d8a1633 errors were reported one token too far
C07 3320b93 peeking moved the location
C10 9d94b92 'a b' was accepted as an expression
C13 ac81c93 arrow functions were operands and their bodies comma expressions
C18 b771283 arrow functions with expression bodies were not marked
C13 6ca5a4d async arrow functions lost parameters, 'async(a)' was rejected
C12 88fa07e '({if})' and '({"a"})' were accepted
C12 036775f directives were not recognised, nor what they make strict code
C12 3cfd536 'yield' and 'await' stayed reserved in nested functions
C09 6691d37 class heritage, names and method names were not parsed
C11 c51ee2b 'for (a LF ; ;)' accepted inserted semicolons, 'var [a]' was accepted
C11 33d4cc8 'do ; while (a) b' was rejected
C12 c016830 'let' and 'async' could be neither labels nor the start of expressions
C12 12ea1fc '({if: a}) = b' patterns with reserved words as keys were rejected
C14 2dfc1bc 'import {a b}' and 'import {if}' were accepted
C18 b0f1166 classes had the wrong superClass and null for empty bodies
C18 de4ef50 the defaults of object patterns were lost
C18 151ed21 constructors had kind 'method'
C18 d02b251 '1e400' could not be encoded as JSON
C14 437e202 import declarations had no ESTree form
C21 ecbf2e4 a call without an argument killed the web parser
C10 4af08a7 'return' outside of functions was accepted
C08 0ce2374 'x = a => {} + 1' was accepted, 'x = a => {} LF /b/g' parsed as divisions
C15 60341ef a million nested parentheses exhausted the stack
C18 963148d ForOfStatement had no 'await' field
C15 814a257 two million additions in a row were parsed, but converting the tree exhausted the stack
C19 8e61aa8 estree wrote '---' behind the last document, and ignored that it could not write
C19 3aa401f estree kept all its files open, too many made it fail
C21 4f614e9 a call with a BigInt killed the web parser
C06 39ba777 the missing initializer in 'var [a], b = c' was reported at the end of the declaration
C16 fcf5d80 a reader was read on after its end, so that what it had or how it failed then became part of the text
"""

fixed = []
for line in FIXED.strip().splitlines():
    p, c, what = line.split(" ", 2)
    fixed.append("fixed: property=%s %s %s" % (p, c, what))
print(json.dumps({"findings": [dict(property=p, key=k, what=w) for p, k, w in FINDINGS], "fixed": fixed}, indent=1))
