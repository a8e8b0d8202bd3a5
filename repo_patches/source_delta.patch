From 53b29486770746babf2d8c3a57f1e0d6e557cb8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:22 +0000
Subject: [PATCH 01/63] fix: do not lex <<< as an unsigned right shift

---
 ecmascript/lexer/lexer.go | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/ecmascript/lexer/lexer.go b/ecmascript/lexer/lexer.go
index fc94a57..30430df 100644
--- a/ecmascript/lexer/lexer.go
+++ b/ecmascript/lexer/lexer.go
@@ -570,14 +570,6 @@ func (l *Lexer) consumeNextToken() Token {
 			switch l.s.Read() {
 			case '<':
 				switch l.s.Read() {
-				case '<':
-					switch l.s.Read() {
-					case '=':
-						return Token{Type: TokenPunctuatorUnsignedRShiftAssign}
-					default:
-						l.s.Unread()
-						return Token{Type: TokenPunctuatorUnsignedRShift}
-					}
 				case '=':
 					return Token{Type: TokenPunctuatorLShiftAssign}
 				default:
-- 
2.43.0


From 4065a4a1fe21f8a0d5eb182c5790a2b5e24467ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:23 +0000
Subject: [PATCH 02/63] fix: return the real source of !=, %= and ?. tokens

---
 ecmascript/lexer/token.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ecmascript/lexer/token.go b/ecmascript/lexer/token.go
index 1162150..7abb374 100644
--- a/ecmascript/lexer/token.go
+++ b/ecmascript/lexer/token.go
@@ -258,7 +258,7 @@ func (t Token) Source() string {
 		TokenLiteralTemplate:
 		return t.Literal
 	case TokenPunctuatorOptionalChain:
-		return ".?"
+		return "?."
 	case TokenPunctuatorOpenBrace:
 		return "{"
 	case TokenPunctuatorOpenParen:
@@ -290,7 +290,7 @@ func (t Token) Source() string {
 	case TokenPunctuatorEqual:
 		return "=="
 	case TokenPunctuatorNotEqual:
-		return "==="
+		return "!="
 	case TokenPunctuatorStrictEqual:
 		return "==="
 	case TokenPunctuatorStrictNotEqual:
@@ -348,7 +348,7 @@ func (t Token) Source() string {
 	case TokenPunctuatorDivAssign:
 		return "/="
 	case TokenPunctuatorModAssign:
-		return "*="
+		return "%="
 	case TokenPunctuatorExponentAssign:
 		return "**="
 	case TokenPunctuatorLShiftAssign:
-- 
2.43.0


From 93ad1217b9b2a21753e26c3718dd069399347c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:25 +0000
Subject: [PATCH 03/63] fix: a line comment does not hide the line break that
 ends it

---
 ecmascript/lexer/lexer.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ecmascript/lexer/lexer.go b/ecmascript/lexer/lexer.go
index 30430df..24016b4 100644
--- a/ecmascript/lexer/lexer.go
+++ b/ecmascript/lexer/lexer.go
@@ -169,6 +169,8 @@ func (l *Lexer) consumeSingleLineComment() {
 	for {
 		r = l.s.Read()
 		if isLineTerm(r) || r == EOFRune {
+			// The line terminator is not part of the comment.
+			l.s.Unread()
 			return
 		}
 	}
-- 
2.43.0


From 80cfe38d94bf43373d521bcbe81890eb841b036e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:26 +0000
Subject: [PATCH 04/63] fix: end block comments at **/ and notice line breaks
 in them

---
 ecmascript/lexer/lexer.go | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/ecmascript/lexer/lexer.go b/ecmascript/lexer/lexer.go
index 24016b4..d648ba0 100644
--- a/ecmascript/lexer/lexer.go
+++ b/ecmascript/lexer/lexer.go
@@ -143,17 +143,16 @@ func (l *Lexer) consumeMultiLineComment() {
 	var r rune
 	for {
 		r = l.s.Read()
-		switch r {
-		case '*':
-			switch l.s.Read() {
-			case '/':
+		for r == '*' {
+			r = l.s.Read()
+			if r == '/' {
 				return
-			case EOFRune:
-				panic(&errs.SyntaxError{
-					Location: l.s.Location(),
-					Err:      errors.New("unexpected EOF"),
-				})
 			}
+		}
+		if isLineTerm(r) {
+			l.newLine = true
+		}
+		switch r {
 		case EOFRune:
 			panic(&errs.SyntaxError{
 				Location: l.s.Location(),
-- 
2.43.0


From c469f16b0cf6daa992dbf34c34251eb999df9fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:27 +0000
Subject: [PATCH 05/63] fix: unreading EOF does not move the location

---
 ecmascript/lexer/scanner.go | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/ecmascript/lexer/scanner.go b/ecmascript/lexer/scanner.go
index fe312c4..b08325b 100644
--- a/ecmascript/lexer/scanner.go
+++ b/ecmascript/lexer/scanner.go
@@ -88,15 +88,18 @@ func (s *Scanner) Read() rune {
 // Unread unreads a rune. If we are at EOF, this will not call the underlying
 // RuneReader, so it is safe to unread at EOF.
 func (s *Scanner) Unread() {
-	if !s.eof {
-		err := s.r.UnreadRune()
-
-		if err != nil {
-			panic(&errs.ParserError{
-				Location: s.Location(),
-				Err:      err,
-			})
-		}
+	if s.eof {
+		// Reading EOF did not move the location, so neither does this.
+		return
+	}
+
+	err := s.r.UnreadRune()
+
+	if err != nil {
+		panic(&errs.ParserError{
+			Location: s.Location(),
+			Err:      err,
+		})
 	}
 
 	// If negative: we just read a line terminal rune. Invert col and
-- 
2.43.0


From f06c1989131c34a11af7fd1896d100f4fe90df40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:28 +0000
Subject: [PATCH 06/63] fix: count CR LF as a single line terminator in
 locations

---
 ecmascript/lexer/scanner.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/ecmascript/lexer/scanner.go b/ecmascript/lexer/scanner.go
index b08325b..966b316 100644
--- a/ecmascript/lexer/scanner.go
+++ b/ecmascript/lexer/scanner.go
@@ -20,6 +20,10 @@ type Scanner struct {
 	col, row int
 
 	eof bool
+
+	// cr is set when the last rune read was CR, crlf when it was the LF of a
+	// CR LF pair.
+	cr, crlf bool
 }
 
 // NewScanner creates a new scanner for the given RuneScanner and URL.
@@ -63,6 +67,13 @@ func (s *Scanner) Read() rune {
 		})
 	}
 
+	// The LF of a CR LF pair belongs to the line terminator already counted.
+	if s.cr && r == '\n' {
+		s.cr, s.crlf = false, true
+		return r
+	}
+	s.cr, s.crlf = r == '\r', false
+
 	// Increment source location. On newline, we set col to -col. This allows
 	// us to know when we're unreading a line terminator (because col will be
 	// negative) and what to restore it to without needing additional state.
@@ -102,6 +113,12 @@ func (s *Scanner) Unread() {
 		})
 	}
 
+	if s.crlf {
+		s.cr, s.crlf = true, false
+		return
+	}
+	s.cr = false
+
 	// If negative: we just read a line terminal rune. Invert col and
 	// decrement row.
 	// If positive: we read any other rune. Just decrement col.
-- 
2.43.0


From 1e410734ddd9482ae578ede69de1baf505a292ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:30 +0000
Subject: [PATCH 07/63] fix: keep regex patterns as written and end them at
 line terminators

---
 ecmascript/lexer/lexer.go | 42 ++++++++++++++++++++++-----------------
 1 file changed, 24 insertions(+), 18 deletions(-)

diff --git a/ecmascript/lexer/lexer.go b/ecmascript/lexer/lexer.go
index d648ba0..02b9741 100644
--- a/ecmascript/lexer/lexer.go
+++ b/ecmascript/lexer/lexer.go
@@ -81,36 +81,29 @@ patternLoop:
 				pat.WriteRune(r)
 
 				if r == '\\' {
-					r := l.s.Read()
+					r = l.s.Read()
 					lit.WriteRune(r)
 					pat.WriteRune(r)
 				} else if r == ']' {
 					break
-				} else if r == EOFRune {
-					panic(&errs.SyntaxError{
-						Location: l.s.Location(),
-						Err:      errors.New("unexpected EOF"),
-					})
+				}
+				if isLineTerm(r) || r == EOFRune {
+					l.panicUnterminatedRegex(r)
 				}
 			}
 
 		case '\\':
 			// Escape sequence.
+			pat.WriteRune(r)
 			r = l.s.Read()
-			lit.WriteRune(r)
-
-			if r == '/' || r == '\\' {
-				pat.WriteRune(r)
-			} else {
-				pat.WriteRune('\\')
-				pat.WriteRune(r)
+			if isLineTerm(r) || r == EOFRune {
+				l.panicUnterminatedRegex(r)
 			}
+			lit.WriteRune(r)
+			pat.WriteRune(r)
 
-		case EOFRune:
-			panic(&errs.SyntaxError{
-				Location: l.s.Location(),
-				Err:      errors.New("unexpected EOF"),
-			})
+		case EOFRune, '\n', '\r', '\u2028', '\u2029':
+			l.panicUnterminatedRegex(r)
 
 		default:
 			pat.WriteRune(r)
@@ -132,12 +125,25 @@ patternLoop:
 		Token: Token{
 			Type:    TokenLiteralRegExp,
 			Literal: lit.String(),
+			NewLine: t.NewLine,
 		},
 		Pattern: pat.String(),
 		Flags:   flg.String(),
 	}
 }
 
+// panicUnterminatedRegex reports the rune that ends a regex prematurely.
+func (l *Lexer) panicUnterminatedRegex(r rune) {
+	err := errors.New("unexpected EOF")
+	if r != EOFRune {
+		err = fmt.Errorf("unexpected line terminator %q in regular expression", r)
+	}
+	panic(&errs.SyntaxError{
+		Location: l.s.Location(),
+		Err:      err,
+	})
+}
+
 // Consumes a multi-line comment, eating until after the next */.
 func (l *Lexer) consumeMultiLineComment() {
 	var r rune
-- 
2.43.0


From c1918ff8cb970efe3974d71f830ab7bc9eb899ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:31 +0000
Subject: [PATCH 08/63] fix: reject unescaped line terminators in string
 literals

---
 ecmascript/lexer/lexer.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/ecmascript/lexer/lexer.go b/ecmascript/lexer/lexer.go
index 02b9741..601b30b 100644
--- a/ecmascript/lexer/lexer.go
+++ b/ecmascript/lexer/lexer.go
@@ -466,9 +466,24 @@ func (l *Lexer) consumeStringLiteral() Token {
 		if r == quo {
 			break
 		}
+		if r == '\n' || r == '\r' {
+			panic(&errs.SyntaxError{
+				Location: l.s.Location(),
+				Err:      fmt.Errorf("unexpected line terminator %q in string", r),
+			})
+		}
 		if r == '\\' {
 			r = l.s.Read()
 			c = append(c, r)
+			if r == '\r' {
+				// CR LF is a single line continuation.
+				if r = l.s.Read(); r == '\n' {
+					c = append(c, r)
+				} else {
+					l.s.Unread()
+					continue
+				}
+			}
 		}
 		if r == EOFRune {
 			panic(&errs.SyntaxError{
-- 
2.43.0


From 2f298db1ebfdd2b575df958fd3eb53f26ccb5f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:32 +0000
Subject: [PATCH 09/63] fix: keep numeric separators in the literal's source
 text

---
 ecmascript/lexer/lexer.go | 5 +++++
 ecmascript/lexer/token.go | 6 ++++--
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/ecmascript/lexer/lexer.go b/ecmascript/lexer/lexer.go
index 601b30b..a95625c 100644
--- a/ecmascript/lexer/lexer.go
+++ b/ecmascript/lexer/lexer.go
@@ -233,6 +233,7 @@ func (l *Lexer) consumeBinaryPart(lit *strings.Builder) string {
 		if isBinaryDigit(r) {
 			lit.WriteRune(r)
 		} else if isNumericLiteralSeparator(r) {
+			lit.WriteRune(r)
 			r = l.s.Read()
 			if isBinaryDigit(r) {
 				lit.WriteRune(r)
@@ -271,6 +272,7 @@ func (l *Lexer) consumeOctalPart(lit *strings.Builder) string {
 		if isOctalDigit(r) {
 			lit.WriteRune(r)
 		} else if isNumericLiteralSeparator(r) {
+			lit.WriteRune(r)
 			r = l.s.Read()
 			if isOctalDigit(r) {
 				lit.WriteRune(r)
@@ -309,6 +311,7 @@ func (l *Lexer) consumeHexPart(lit *strings.Builder) string {
 		if isHexDigit(r) {
 			lit.WriteRune(r)
 		} else if isNumericLiteralSeparator(r) {
+			lit.WriteRune(r)
 			r = l.s.Read()
 			if isHexDigit(r) {
 				lit.WriteRune(r)
@@ -346,6 +349,7 @@ func (l *Lexer) consumeDecimalPart(lit *strings.Builder) string {
 		if isDecimalDigit(r) {
 			lit.WriteRune(r)
 		} else if isNumericLiteralSeparator(r) {
+			lit.WriteRune(r)
 			r = l.s.Read()
 			if isDecimalDigit(r) {
 				lit.WriteRune(r)
@@ -398,6 +402,7 @@ func (l *Lexer) consumeFractionalPart(lit *strings.Builder) string {
 		if isDecimalDigit(r) {
 			lit.WriteRune(r)
 		} else if isNumericLiteralSeparator(r) {
+			lit.WriteRune(r)
 			r = l.s.Read()
 			if isDecimalDigit(r) {
 				lit.WriteRune(r)
diff --git a/ecmascript/lexer/token.go b/ecmascript/lexer/token.go
index 7abb374..59b56f0 100644
--- a/ecmascript/lexer/token.go
+++ b/ecmascript/lexer/token.go
@@ -3,6 +3,7 @@ package lexer
 import (
 	"fmt"
 	"strconv"
+	"strings"
 )
 
 // TokenType is an enumeration of possible token types.
@@ -388,10 +389,11 @@ func (t Token) StringConstant() string {
 // NumberConstant returns the parsed value for a numeric constant.
 func (t Token) NumberConstant() float64 {
 	// TODO: lexer should be parsing numbers accurately
-	if v, err := strconv.ParseFloat(t.Literal, 64); err == nil {
+	lit := strings.ReplaceAll(t.Literal, "_", "")
+	if v, err := strconv.ParseFloat(lit, 64); err == nil {
 		return v
 	}
-	v, err := strconv.ParseInt(t.Literal, 0, 64)
+	v, err := strconv.ParseInt(lit, 0, 64)
 	if err != nil {
 		panic(err)
 	}
-- 
2.43.0


From 1f85a57d838eb10a727ed27a30e5cd3ba6e34944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:34 +0000
Subject: [PATCH 10/63] fix: keep the exponent indicator and require exponent
 digits

---
 ecmascript/lexer/lexer.go | 75 ++++++++++++++++++++-------------------
 1 file changed, 38 insertions(+), 37 deletions(-)

diff --git a/ecmascript/lexer/lexer.go b/ecmascript/lexer/lexer.go
index a95625c..5df3c0a 100644
--- a/ecmascript/lexer/lexer.go
+++ b/ecmascript/lexer/lexer.go
@@ -363,16 +363,8 @@ func (l *Lexer) consumeDecimalPart(lit *strings.Builder) string {
 			lit.WriteRune(r)
 			return l.consumeFractionalPart(lit)
 		} else if isExponentIndicator(r) {
-			for {
-				r = l.s.Read()
-				if isDecimalDigit(r) {
-					lit.WriteRune(r)
-				} else {
-					l.s.Unread()
-					break
-				}
-			}
-			break
+			lit.WriteRune(r)
+			return l.consumeExponentPart(lit)
 		} else {
 			l.s.Unread()
 			break
@@ -382,20 +374,21 @@ func (l *Lexer) consumeDecimalPart(lit *strings.Builder) string {
 	return lit.String()
 }
 
-func (l *Lexer) consumeFractionalPart(lit *strings.Builder) string {
-	if lit == nil {
-		lit = &strings.Builder{}
-	}
+// Consumes an exponent, after its indicator.
+func (l *Lexer) consumeExponentPart(lit *strings.Builder) string {
 	r := l.s.Read()
-
-	if isDecimalDigit(r) {
+	if r == '+' || r == '-' {
 		lit.WriteRune(r)
-	} else {
+		r = l.s.Read()
+	}
+
+	if !isDecimalDigit(r) {
 		panic(&errs.SyntaxError{
 			Location: l.s.Location(),
 			Err:      fmt.Errorf("expected DecimalDigit, got %q", r),
 		})
 	}
+	lit.WriteRune(r)
 
 	for {
 		r = l.s.Read()
@@ -418,44 +411,52 @@ func (l *Lexer) consumeFractionalPart(lit *strings.Builder) string {
 		}
 	}
 
-	r = l.s.Read()
-	if !isExponentIndicator(r) {
-		l.s.Unread()
-		return lit.String()
+	return lit.String()
+}
+
+func (l *Lexer) consumeFractionalPart(lit *strings.Builder) string {
+	if lit == nil {
+		lit = &strings.Builder{}
 	}
-	lit.WriteRune(r)
+	r := l.s.Read()
 
-	r = l.s.Read()
-	if r != '+' && r != '-' && !isDecimalDigit(r) {
+	if isDecimalDigit(r) {
+		lit.WriteRune(r)
+	} else {
 		panic(&errs.SyntaxError{
 			Location: l.s.Location(),
-			Err:      fmt.Errorf("expected DecimalDigit, +, or -, got %q", r),
+			Err:      fmt.Errorf("expected DecimalDigit, got %q", r),
 		})
 	}
-	lit.WriteRune(r)
 
 	for {
 		r = l.s.Read()
 		if isDecimalDigit(r) {
 			lit.WriteRune(r)
-		} else if isExponentIndicator(r) {
-			for {
-				r = l.s.Read()
-				if isDecimalDigit(r) {
-					lit.WriteRune(r)
-				} else {
-					l.s.Unread()
-					break
-				}
+		} else if isNumericLiteralSeparator(r) {
+			lit.WriteRune(r)
+			r = l.s.Read()
+			if isDecimalDigit(r) {
+				lit.WriteRune(r)
+			} else {
+				panic(&errs.SyntaxError{
+					Location: l.s.Location(),
+					Err:      fmt.Errorf("expected DecimalDigit, got %q", r),
+				})
 			}
-			break
 		} else {
 			l.s.Unread()
 			break
 		}
 	}
 
-	return lit.String()
+	r = l.s.Read()
+	if !isExponentIndicator(r) {
+		l.s.Unread()
+		return lit.String()
+	}
+	lit.WriteRune(r)
+	return l.consumeExponentPart(lit)
 }
 
 func (l *Lexer) consumeStringLiteral() Token {
-- 
2.43.0


From 719f80cf475738dc30c0e45098bbe83509d02110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:17 +0000
Subject: [PATCH 11/63] fix: lex 0.5, 0e1 and 1. as single numeric literals

---
 ecmascript/lexer/lexer.go | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/ecmascript/lexer/lexer.go b/ecmascript/lexer/lexer.go
index 5df3c0a..17a66e0 100644
--- a/ecmascript/lexer/lexer.go
+++ b/ecmascript/lexer/lexer.go
@@ -420,20 +420,11 @@ func (l *Lexer) consumeFractionalPart(lit *strings.Builder) string {
 	}
 	r := l.s.Read()
 
-	if isDecimalDigit(r) {
-		lit.WriteRune(r)
-	} else {
-		panic(&errs.SyntaxError{
-			Location: l.s.Location(),
-			Err:      fmt.Errorf("expected DecimalDigit, got %q", r),
-		})
-	}
-
-	for {
-		r = l.s.Read()
+	// There may be no digits after the dot, when there are some before it.
+	for first := true; ; first = false {
 		if isDecimalDigit(r) {
 			lit.WriteRune(r)
-		} else if isNumericLiteralSeparator(r) {
+		} else if isNumericLiteralSeparator(r) && !first {
 			lit.WriteRune(r)
 			r = l.s.Read()
 			if isDecimalDigit(r) {
@@ -448,6 +439,7 @@ func (l *Lexer) consumeFractionalPart(lit *strings.Builder) string {
 			l.s.Unread()
 			break
 		}
+		r = l.s.Read()
 	}
 
 	r = l.s.Read()
@@ -580,6 +572,12 @@ func (l *Lexer) consumeNextToken() Token {
 					Location: l.s.Location(),
 					Err:      fmt.Errorf("numeric separator can not be used after leading 0"),
 				})
+			case '.':
+				lit.WriteRune(r)
+				return Token{Type: TokenLiteralNumber, Literal: l.consumeFractionalPart(lit)}
+			case 'e', 'E':
+				lit.WriteRune(r)
+				return Token{Type: TokenLiteralNumber, Literal: l.consumeExponentPart(lit)}
 			case '0', '1', '2', '3', '4', '5', '6', '7', '8', '9':
 				l.s.Unread()
 				return Token{Type: TokenLiteralNumber, Literal: l.consumeDecimalPart(lit)}
-- 
2.43.0


From a04f9fc3bdefb8288b6f8c8ce817fbee4c961f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:18 +0000
Subject: [PATCH 12/63] fix: keep the leading zero of legacy literals and read
 octal ones as octal

---
 ecmascript/lexer/lexer.go | 25 ++++++++++++++++++++++++-
 ecmascript/lexer/token.go |  4 ++++
 2 files changed, 28 insertions(+), 1 deletion(-)

diff --git a/ecmascript/lexer/lexer.go b/ecmascript/lexer/lexer.go
index 17a66e0..a83634a 100644
--- a/ecmascript/lexer/lexer.go
+++ b/ecmascript/lexer/lexer.go
@@ -330,6 +330,29 @@ func (l *Lexer) consumeHexPart(lit *strings.Builder) string {
 	return lit.String()
 }
 
+// Consumes the rest of a literal with a leading zero. Unless it has a digit
+// that is not octal, it is an octal integer. There are no separators.
+func (l *Lexer) consumeLegacyPart(lit *strings.Builder) string {
+	octal := true
+	for {
+		r := l.s.Read()
+		switch {
+		case isDecimalDigit(r):
+			octal = octal && isOctalDigit(r)
+			lit.WriteRune(r)
+		case r == '.' && !octal:
+			lit.WriteRune(r)
+			return l.consumeFractionalPart(lit)
+		case isExponentIndicator(r) && !octal:
+			lit.WriteRune(r)
+			return l.consumeExponentPart(lit)
+		default:
+			l.s.Unread()
+			return lit.String()
+		}
+	}
+}
+
 func (l *Lexer) consumeDecimalPart(lit *strings.Builder) string {
 	if lit == nil {
 		lit = &strings.Builder{}
@@ -580,7 +603,7 @@ func (l *Lexer) consumeNextToken() Token {
 				return Token{Type: TokenLiteralNumber, Literal: l.consumeExponentPart(lit)}
 			case '0', '1', '2', '3', '4', '5', '6', '7', '8', '9':
 				l.s.Unread()
-				return Token{Type: TokenLiteralNumber, Literal: l.consumeDecimalPart(lit)}
+				return Token{Type: TokenLiteralNumber, Literal: l.consumeLegacyPart(lit)}
 			default:
 				l.s.Unread()
 				return Token{Type: TokenLiteralNumber, Literal: "0"}
diff --git a/ecmascript/lexer/token.go b/ecmascript/lexer/token.go
index 59b56f0..459e04f 100644
--- a/ecmascript/lexer/token.go
+++ b/ecmascript/lexer/token.go
@@ -390,6 +390,10 @@ func (t Token) StringConstant() string {
 func (t Token) NumberConstant() float64 {
 	// TODO: lexer should be parsing numbers accurately
 	lit := strings.ReplaceAll(t.Literal, "_", "")
+	if len(lit) > 1 && lit[0] == '0' && strings.Trim(lit, "01234567") == "" {
+		// Legacy octal literal.
+		lit = "0o" + lit[1:]
+	}
 	if v, err := strconv.ParseFloat(lit, 64); err == nil {
 		return v
 	}
-- 
2.43.0


From 9aecee179764192e1e32be4be0a5c1bd8ef626be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:19 +0000
Subject: [PATCH 13/63] fix: reject identifiers and digits directly after a
 numeric literal

---
 ecmascript/lexer/lexer.go | 40 +++++++++++++++++++++++++--------------
 1 file changed, 26 insertions(+), 14 deletions(-)

diff --git a/ecmascript/lexer/lexer.go b/ecmascript/lexer/lexer.go
index a83634a..6437153 100644
--- a/ecmascript/lexer/lexer.go
+++ b/ecmascript/lexer/lexer.go
@@ -474,6 +474,20 @@ func (l *Lexer) consumeFractionalPart(lit *strings.Builder) string {
 	return l.consumeExponentPart(lit)
 }
 
+// numberToken returns the token for a numeric literal. The literal may not be
+// followed by an identifier or another literal without anything in between.
+func (l *Lexer) numberToken(lit string) Token {
+	r := l.s.Read()
+	if isIdentifierStart(r) || isDecimalDigit(r) {
+		panic(&errs.SyntaxError{
+			Location: l.s.Location(),
+			Err:      fmt.Errorf("unexpected %q after numeric literal", r),
+		})
+	}
+	l.s.Unread()
+	return Token{Type: TokenLiteralNumber, Literal: lit}
+}
+
 func (l *Lexer) consumeStringLiteral() Token {
 	quo := l.s.Read()
 	if quo != '\'' && quo != '"' {
@@ -560,7 +574,7 @@ func (l *Lexer) consumeNextToken() Token {
 				l.s.Unread()
 				lit := &strings.Builder{}
 				lit.WriteRune(r)
-				return Token{Type: TokenLiteralNumber, Literal: l.consumeFractionalPart(lit)}
+				return l.numberToken(l.consumeFractionalPart(lit))
 			default:
 				l.s.Unread()
 				return Token{Type: TokenPunctuatorDot}
@@ -570,26 +584,24 @@ func (l *Lexer) consumeNextToken() Token {
 			lit.WriteRune(r)
 			r = l.s.Read()
 			switch r {
-			case 'n':
-				return Token{Type: TokenLiteralNumber, Literal: "0n"}
 			case 'b':
 				lit.WriteRune(r)
-				return Token{Type: TokenLiteralNumber, Literal: l.consumeBinaryPart(lit)}
+				return l.numberToken(l.consumeBinaryPart(lit))
 			case 'B':
 				lit.WriteRune(r)
-				return Token{Type: TokenLiteralNumber, Literal: l.consumeBinaryPart(lit)}
+				return l.numberToken(l.consumeBinaryPart(lit))
 			case 'o':
 				lit.WriteRune(r)
-				return Token{Type: TokenLiteralNumber, Literal: l.consumeOctalPart(lit)}
+				return l.numberToken(l.consumeOctalPart(lit))
 			case 'O':
 				lit.WriteRune(r)
-				return Token{Type: TokenLiteralNumber, Literal: l.consumeOctalPart(lit)}
+				return l.numberToken(l.consumeOctalPart(lit))
 			case 'x':
 				lit.WriteRune(r)
-				return Token{Type: TokenLiteralNumber, Literal: l.consumeHexPart(lit)}
+				return l.numberToken(l.consumeHexPart(lit))
 			case 'X':
 				lit.WriteRune(r)
-				return Token{Type: TokenLiteralNumber, Literal: l.consumeHexPart(lit)}
+				return l.numberToken(l.consumeHexPart(lit))
 			case '_':
 				panic(&errs.SyntaxError{
 					Location: l.s.Location(),
@@ -597,20 +609,20 @@ func (l *Lexer) consumeNextToken() Token {
 				})
 			case '.':
 				lit.WriteRune(r)
-				return Token{Type: TokenLiteralNumber, Literal: l.consumeFractionalPart(lit)}
+				return l.numberToken(l.consumeFractionalPart(lit))
 			case 'e', 'E':
 				lit.WriteRune(r)
-				return Token{Type: TokenLiteralNumber, Literal: l.consumeExponentPart(lit)}
+				return l.numberToken(l.consumeExponentPart(lit))
 			case '0', '1', '2', '3', '4', '5', '6', '7', '8', '9':
 				l.s.Unread()
-				return Token{Type: TokenLiteralNumber, Literal: l.consumeLegacyPart(lit)}
+				return l.numberToken(l.consumeLegacyPart(lit))
 			default:
 				l.s.Unread()
-				return Token{Type: TokenLiteralNumber, Literal: "0"}
+				return l.numberToken("0")
 			}
 		case '1', '2', '3', '4', '5', '6', '7', '8', '9':
 			l.s.Unread()
-			return Token{Type: TokenLiteralNumber, Literal: l.consumeDecimalPart(nil)}
+			return l.numberToken(l.consumeDecimalPart(nil))
 		case ';':
 			return Token{Type: TokenPunctuatorSemicolon}
 		case ',':
-- 
2.43.0


From 16c33d880cfe514ce445e3048ffb2f70da754372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:20 +0000
Subject: [PATCH 14/63] fix: read numeric literals beyond 63 bits or the
 float64 range

---
 ecmascript/lexer/token.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/ecmascript/lexer/token.go b/ecmascript/lexer/token.go
index 459e04f..735b2b1 100644
--- a/ecmascript/lexer/token.go
+++ b/ecmascript/lexer/token.go
@@ -1,7 +1,9 @@
 package lexer
 
 import (
+	"errors"
 	"fmt"
+	"math/big"
 	"strconv"
 	"strings"
 )
@@ -394,12 +396,13 @@ func (t Token) NumberConstant() float64 {
 		// Legacy octal literal.
 		lit = "0o" + lit[1:]
 	}
-	if v, err := strconv.ParseFloat(lit, 64); err == nil {
+	if v, err := strconv.ParseFloat(lit, 64); err == nil || errors.Is(err, strconv.ErrRange) {
 		return v
 	}
-	v, err := strconv.ParseInt(lit, 0, 64)
-	if err != nil {
-		panic(err)
+	i, ok := new(big.Int).SetString(lit, 0)
+	if !ok {
+		panic(fmt.Errorf("invalid numeric literal %q", t.Literal))
 	}
-	return float64(v)
+	v, _ := new(big.Float).SetInt(i).Float64()
+	return v
 }
-- 
2.43.0


From ea189b740ce552992eb0b1f6da422debbb9cba8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:59 +0000
Subject: [PATCH 15/63] fix: do not lose the value of an unexpected panic in
 Parse

---
 ecmascript/parser/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecmascript/parser/parser.go b/ecmascript/parser/parser.go
index c43a3fe..ecf5288 100644
--- a/ecmascript/parser/parser.go
+++ b/ecmascript/parser/parser.go
@@ -50,7 +50,7 @@ func (p *Parser) Parse(opt ParseOptions) (n ast.Node, err error) {
 			case *errs.ParserError:
 				err = t
 			default:
-				panic(err)
+				panic(r)
 			}
 		}
 	}()
-- 
2.43.0


From dd044c3e7a6da83dea72312193ff4eede357346c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:00 +0000
Subject: [PATCH 16/63] fix: report unimplemented syntax as a parser error

---
 ecmascript/parser/expression.go | 2 +-
 ecmascript/parser/module.go     | 3 ++-
 ecmascript/parser/scanner.go    | 9 +++++++++
 ecmascript/parser/statement.go  | 6 ++++--
 4 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/ecmascript/parser/expression.go b/ecmascript/parser/expression.go
index 774039a..9a343a8 100644
--- a/ecmascript/parser/expression.go
+++ b/ecmascript/parser/expression.go
@@ -235,7 +235,7 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 		m.SetEnd(p.s.Location())
 		n = m
 	case lexer.TokenLiteralTemplate:
-		panic("unimplemented: template literal")
+		p.s.Unimplemented("template literal")
 	case lexer.TokenPunctuatorOpenParen:
 		// Tricky: this could be a parenthesized expression, or the parameter
 		// list of an arrow function. To avoid look-ahead, the parser will
diff --git a/ecmascript/parser/module.go b/ecmascript/parser/module.go
index 5d3165f..9982035 100644
--- a/ecmascript/parser/module.go
+++ b/ecmascript/parser/module.go
@@ -123,5 +123,6 @@ func (p *Parser) parseImportDecl() ast.ImportDeclNode {
 }
 
 func (p *Parser) parseExportDecl() ast.Node {
-	panic("unimplemented")
+	p.s.Unimplemented("export declaration")
+	return nil
 }
diff --git a/ecmascript/parser/scanner.go b/ecmascript/parser/scanner.go
index 9bbe68f..7b9f789 100644
--- a/ecmascript/parser/scanner.go
+++ b/ecmascript/parser/scanner.go
@@ -78,6 +78,15 @@ func (s *Scanner) ScanExpect(typ lexer.TokenType, err string) lexer.Token {
 	return t
 }
 
+// Unimplemented panics with a parser error for syntax that is valid, but not
+// supported.
+func (s *Scanner) Unimplemented(what string) {
+	panic(&errs.ParserError{
+		Location: s.Location(),
+		Err:      fmt.Errorf("unimplemented: %s", what),
+	})
+}
+
 // SyntaxError panics with a syntax error with the given string.
 func (s *Scanner) SyntaxError(err string) {
 	panic(&errs.SyntaxError{
diff --git a/ecmascript/parser/statement.go b/ecmascript/parser/statement.go
index e52d175..ce5afc9 100644
--- a/ecmascript/parser/statement.go
+++ b/ecmascript/parser/statement.go
@@ -564,7 +564,8 @@ func (p *Parser) parseReturnStatement() ast.Node {
 }
 
 func (p *Parser) parseWithStatement() ast.Node {
-	panic("unimplemented")
+	p.s.Unimplemented("with statement")
+	return nil
 }
 
 func (p *Parser) parseThrowStatement() ast.Node {
@@ -624,7 +625,8 @@ func (p *Parser) parseCatchParameter() ast.BindingPattern {
 }
 
 func (p *Parser) parseDebuggerStatement() ast.Node {
-	panic("unimplemented")
+	p.s.Unimplemented("debugger statement")
+	return nil
 }
 
 func (p *Parser) parseLabelledStatement() ast.Node {
-- 
2.43.0


From 5bf91277dc3456fd870286dc2eae23a880fe03df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:01 +0000
Subject: [PATCH 17/63] fix: the | operator is not ^

---
 ecmascript/parser/expression.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecmascript/parser/expression.go b/ecmascript/parser/expression.go
index 9a343a8..3c4eb71 100644
--- a/ecmascript/parser/expression.go
+++ b/ecmascript/parser/expression.go
@@ -523,7 +523,7 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 
 		if t.Type == lexer.TokenPunctuatorBitOr {
 			p.s.ScanExpect(lexer.TokenPunctuatorBitOr, "expected `|` operator")
-			n = wrapbinary(ast.BinaryBitXorOp, exprOrderBitwiseXor)
+			n = wrapbinary(ast.BinaryBitOrOp, exprOrderBitwiseXor)
 			continue
 		}
 		if order >= exprOrderBitwiseOr {
-- 
2.43.0


From 22d0ee9f42df5edbb32cdceb078e4f65e5413565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:02 +0000
Subject: [PATCH 18/63] fix: do not print to standard output while parsing
 arrow parameters

---
 ecmascript/parser/expression.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/ecmascript/parser/expression.go b/ecmascript/parser/expression.go
index 3c4eb71..42569bc 100644
--- a/ecmascript/parser/expression.go
+++ b/ecmascript/parser/expression.go
@@ -727,7 +727,6 @@ func (p *Parser) convertExprToArrowParams(inner ast.Node) ast.FormalParameters {
 					break
 				}
 				binding := ast.BindingProperty{}
-				fmt.Printf("prop: %#v\n", prop)
 				if key, ok := prop.Key.(ast.Identifier); ok {
 					binding.PropertyName = key.Name
 				}
-- 
2.43.0


From 8c70138d1721e6757f133f573cb923bc1486ecdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:03 +0000
Subject: [PATCH 19/63] fix: ?? is a LogicalExpression in ESTree

---
 ecmascript/ast/expressions_binary.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecmascript/ast/expressions_binary.go b/ecmascript/ast/expressions_binary.go
index 0d70dba..cd6d992 100644
--- a/ecmascript/ast/expressions_binary.go
+++ b/ecmascript/ast/expressions_binary.go
@@ -232,7 +232,7 @@ type BinaryExpression struct {
 // ESTree returns the corresponding ESTree representation for this node.
 func (n BinaryExpression) ESTree() interface{} {
 	nodeType := "BinaryExpression"
-	if n.Operator == BinaryLogicalAndOp || n.Operator == BinaryLogicalOrOp {
+	if n.Operator == BinaryLogicalAndOp || n.Operator == BinaryLogicalOrOp || n.Operator == BinaryCoalesceOp {
 		nodeType = "LogicalExpression"
 	}
 
-- 
2.43.0


From 337680dbaa9014c23d40986fe1151848dce4e5f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:04 +0000
Subject: [PATCH 20/63] fix: ** is right associative and takes no unary
 expression on its left

---
 ecmascript/parser/expression.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ecmascript/parser/expression.go b/ecmascript/parser/expression.go
index 42569bc..43a1928 100644
--- a/ecmascript/parser/expression.go
+++ b/ecmascript/parser/expression.go
@@ -399,7 +399,10 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 
 		if t.Type == lexer.TokenPunctuatorExponent {
 			p.s.ScanExpect(lexer.TokenPunctuatorExponent, "expected `**` operator")
-			n = wrapbinary(ast.BinaryExponentOp, exprOrderUnaryExpr)
+			if _, ok := n.(*ast.UnaryExpression); ok {
+				p.s.SyntaxError("unary expression to the left of `**` must be parenthesized")
+			}
+			n = wrapbinary(ast.BinaryExponentOp, exprOrderExponentExpr)
 			continue
 		}
 		if order >= exprOrderExponentExpr {
-- 
2.43.0


From 9fe43f11f23179b0e13914c1c633af9638b7e05d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:05 +0000
Subject: [PATCH 21/63] fix: do not mix ?? with && or || without parentheses

---
 ecmascript/parser/expression.go | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/ecmascript/parser/expression.go b/ecmascript/parser/expression.go
index 43a1928..213e12d 100644
--- a/ecmascript/parser/expression.go
+++ b/ecmascript/parser/expression.go
@@ -535,6 +535,9 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 
 		if t.Type == lexer.TokenPunctuatorLogicalAnd {
 			p.s.ScanExpect(lexer.TokenPunctuatorLogicalAnd, "expected `&&` operator")
+			if isBinary(n, ast.BinaryCoalesceOp) {
+				p.s.SyntaxError("`??` and `&&` cannot be mixed without parentheses")
+			}
 			n = wrapbinary(ast.BinaryLogicalAndOp, exprOrderBitwiseOr)
 			continue
 		}
@@ -544,11 +547,17 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 
 		if t.Type == lexer.TokenPunctuatorLogicalOr {
 			p.s.ScanExpect(lexer.TokenPunctuatorLogicalOr, "expected `||` operator")
+			if isBinary(n, ast.BinaryCoalesceOp) {
+				p.s.SyntaxError("`??` and `||` cannot be mixed without parentheses")
+			}
 			n = wrapbinary(ast.BinaryLogicalOrOp, exprOrderLogicalAnd)
 			continue
 		} else if t.Type == lexer.TokenPunctuatorNullCoalesce {
 			p.s.ScanExpect(lexer.TokenPunctuatorNullCoalesce, "expected `??` operator")
-			n = wrapbinary(ast.BinaryCoalesceOp, exprOrderLogicalAnd)
+			if isBinary(n, ast.BinaryLogicalAndOp, ast.BinaryLogicalOrOp) {
+				p.s.SyntaxError("`??` cannot be mixed with `&&` or `||` without parentheses")
+			}
+			n = wrapbinary(ast.BinaryCoalesceOp, exprOrderBitwiseOr)
 			continue
 		}
 		if order >= exprOrderLogicalOr {
@@ -667,6 +676,17 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 	return n
 }
 
+// isBinary returns whether n is an expression with one of the operators.
+func isBinary(n ast.Node, ops ...ast.BinaryOperator) bool {
+	m, ok := n.(ast.BinaryExpression)
+	for _, op := range ops {
+		if ok && m.Operator == op {
+			return true
+		}
+	}
+	return false
+}
+
 func (p *Parser) convertExprToArrowParams(inner ast.Node) ast.FormalParameters {
 	params := ast.FormalParameters{}
 
-- 
2.43.0


From bdddbff42b149ae1185dc7f1cefaa8bc04a169f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:31 +0000
Subject: [PATCH 22/63] fix: postfix operators apply to left-hand-side
 expressions only, a[b, c] is legal

---
 ecmascript/parser/expression.go | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/ecmascript/parser/expression.go b/ecmascript/parser/expression.go
index 213e12d..9a06b76 100644
--- a/ecmascript/parser/expression.go
+++ b/ecmascript/parser/expression.go
@@ -297,7 +297,8 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 	for {
 		// exprOrderLHSExpr
 		t = p.s.PeekAt(0)
-		if t.Type == lexer.TokenPunctuatorDot {
+		lhs := isLHS(n)
+		if lhs && t.Type == lexer.TokenPunctuatorDot {
 			p.s.ScanExpect(lexer.TokenPunctuatorDot, "expected `.` operator")
 			m := ast.MemberExpression{
 				Object:   n,
@@ -310,12 +311,12 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 			m.SetEnd(p.s.Location())
 			n = m
 			continue
-		} else if t.Type == lexer.TokenPunctuatorOpenBracket {
+		} else if lhs && t.Type == lexer.TokenPunctuatorOpenBracket {
 			p.s.ScanExpect(lexer.TokenPunctuatorOpenBracket, "expected `[` operator")
 			m := ast.MemberExpression{
 				Object:   n,
 				Computed: true,
-				Property: p.parseExpression(exprOrderAssign, 0),
+				Property: p.parseExpression(exprOrderComma, 0),
 			}
 			p.s.ScanExpect(lexer.TokenPunctuatorCloseBracket, "expected `]` operator")
 			m.SetStart(s)
@@ -327,7 +328,7 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 			break
 		}
 
-		if t.Type == lexer.TokenPunctuatorOpenParen {
+		if lhs && t.Type == lexer.TokenPunctuatorOpenParen {
 			m := ast.CallExpression{
 				Callee:    n,
 				Arguments: p.parseArguments(),
@@ -341,7 +342,7 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 			break
 		}
 
-		if t.Type == lexer.TokenPunctuatorOptionalChain {
+		if lhs && t.Type == lexer.TokenPunctuatorOptionalChain {
 			p.s.ScanExpect(lexer.TokenPunctuatorDot, "expected `?.` operator")
 			if p.s.PeekAt(0).Type == lexer.TokenPunctuatorOpenBracket {
 				p.s.ScanExpect(lexer.TokenPunctuatorOpenBracket, "expected `[` operator")
@@ -384,11 +385,11 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 		}
 
 		// TODO: should add order for update?
-		if t.Type == lexer.TokenPunctuatorIncrement {
+		if lhs && t.Type == lexer.TokenPunctuatorIncrement {
 			p.s.ScanExpect(lexer.TokenPunctuatorIncrement, "expected `++` operator")
 			n = wrap(&ast.UpdateExpression{Operator: ast.UpdatePostIncrementOp, Argument: n}, exprOrderUnaryExpr)
 			continue
-		} else if t.Type == lexer.TokenPunctuatorDecrement {
+		} else if lhs && t.Type == lexer.TokenPunctuatorDecrement {
 			p.s.ScanExpect(lexer.TokenPunctuatorDecrement, "expected `--` operator")
 			n = wrap(&ast.UpdateExpression{Operator: ast.UpdatePostDecrementOp, Argument: n}, exprOrderUnaryExpr)
 			continue
@@ -676,6 +677,19 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 	return n
 }
 
+// isLHS returns whether n can be the operand of a postfix operator, that is,
+// whether it is a LeftHandSideExpression.
+func isLHS(n ast.Node) bool {
+	switch t := n.(type) {
+	case *ast.UnaryExpression, *ast.UpdateExpression, ast.BinaryExpression,
+		ast.ConditionalExpression, ast.AssignmentExpression, ast.SequenceExpression:
+		return false
+	case ast.FunctionExpression:
+		return !t.Arrow
+	}
+	return true
+}
+
 // isBinary returns whether n is an expression with one of the operators.
 func isBinary(n ast.Node, ops ...ast.BinaryOperator) bool {
 	m, ok := n.(ast.BinaryExpression)
-- 
2.43.0


From 7e15e508d7893b1e60441d636ec3ac16cf39f8ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:32 +0000
Subject: [PATCH 23/63] fix: a line break before ++ or -- makes it a prefix
 operator

---
 ecmascript/parser/expression.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ecmascript/parser/expression.go b/ecmascript/parser/expression.go
index 9a06b76..fabd4a8 100644
--- a/ecmascript/parser/expression.go
+++ b/ecmascript/parser/expression.go
@@ -385,11 +385,11 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 		}
 
 		// TODO: should add order for update?
-		if lhs && t.Type == lexer.TokenPunctuatorIncrement {
+		if lhs && !t.NewLine && t.Type == lexer.TokenPunctuatorIncrement {
 			p.s.ScanExpect(lexer.TokenPunctuatorIncrement, "expected `++` operator")
 			n = wrap(&ast.UpdateExpression{Operator: ast.UpdatePostIncrementOp, Argument: n}, exprOrderUnaryExpr)
 			continue
-		} else if lhs && t.Type == lexer.TokenPunctuatorDecrement {
+		} else if lhs && !t.NewLine && t.Type == lexer.TokenPunctuatorDecrement {
 			p.s.ScanExpect(lexer.TokenPunctuatorDecrement, "expected `--` operator")
 			n = wrap(&ast.UpdateExpression{Operator: ast.UpdatePostDecrementOp, Argument: n}, exprOrderUnaryExpr)
 			continue
-- 
2.43.0


From 228d26c7ae8049c082e226295d4e7c39d1a025bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:00 +0000
Subject: [PATCH 24/63] fix: reject assignments to and updates of what cannot
 be assigned to

---
 ecmascript/parser/expression.go | 32 ++++++++++++++++++++++++++++----
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/ecmascript/parser/expression.go b/ecmascript/parser/expression.go
index fabd4a8..334f688 100644
--- a/ecmascript/parser/expression.go
+++ b/ecmascript/parser/expression.go
@@ -91,7 +91,17 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 		return m
 	}
 
+	target := func(n ast.Node) ast.Node {
+		if !isTarget(n, false) {
+			p.s.SyntaxError("invalid operand of `++` or `--`")
+		}
+		return n
+	}
+
 	wrapassign := func(op ast.AssignmentOperator, next exprOrder) ast.Node {
+		if !isTarget(n, op == ast.AssignmentOp) {
+			p.s.SyntaxError("invalid left-hand side of assignment")
+		}
 		m := ast.AssignmentExpression{Operator: op}
 		m.Left = n
 		m.Right = p.parseExpression(next, flags)
@@ -112,10 +122,10 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 	// Unary operators
 	case lexer.TokenPunctuatorIncrement:
 		// TODO: should add order for update operator?
-		n = wrap(&ast.UpdateExpression{Operator: ast.UpdatePreIncrementOp, Argument: p.parseExpression(exprOrderLHSExpr, flags)}, exprOrderUnaryExpr)
+		n = wrap(&ast.UpdateExpression{Operator: ast.UpdatePreIncrementOp, Argument: target(p.parseExpression(exprOrderUnaryExpr, flags))}, exprOrderUnaryExpr)
 	case lexer.TokenPunctuatorDecrement:
 		// TODO: should add order for update operator?
-		n = wrap(&ast.UpdateExpression{Operator: ast.UpdatePreDecrementOp, Argument: p.parseExpression(exprOrderLHSExpr, flags)}, exprOrderUnaryExpr)
+		n = wrap(&ast.UpdateExpression{Operator: ast.UpdatePreDecrementOp, Argument: target(p.parseExpression(exprOrderUnaryExpr, flags))}, exprOrderUnaryExpr)
 	case lexer.TokenKeywordDelete:
 		n = wrap(&ast.UnaryExpression{Operator: ast.UnaryDeleteOp, Argument: p.parseExpression(exprOrderUnaryExpr, flags)}, exprOrderUnaryExpr)
 	case lexer.TokenKeywordVoid:
@@ -387,11 +397,11 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 		// TODO: should add order for update?
 		if lhs && !t.NewLine && t.Type == lexer.TokenPunctuatorIncrement {
 			p.s.ScanExpect(lexer.TokenPunctuatorIncrement, "expected `++` operator")
-			n = wrap(&ast.UpdateExpression{Operator: ast.UpdatePostIncrementOp, Argument: n}, exprOrderUnaryExpr)
+			n = wrap(&ast.UpdateExpression{Operator: ast.UpdatePostIncrementOp, Argument: target(n)}, exprOrderUnaryExpr)
 			continue
 		} else if lhs && !t.NewLine && t.Type == lexer.TokenPunctuatorDecrement {
 			p.s.ScanExpect(lexer.TokenPunctuatorDecrement, "expected `--` operator")
-			n = wrap(&ast.UpdateExpression{Operator: ast.UpdatePostDecrementOp, Argument: n}, exprOrderUnaryExpr)
+			n = wrap(&ast.UpdateExpression{Operator: ast.UpdatePostDecrementOp, Argument: target(n)}, exprOrderUnaryExpr)
 			continue
 		}
 		if order >= exprOrderUnaryExpr {
@@ -690,6 +700,20 @@ func isLHS(n ast.Node) bool {
 	return true
 }
 
+// isTarget returns whether n can be assigned to, either as it is or as a
+// destructuring pattern.
+func isTarget(n ast.Node, pattern bool) bool {
+	switch t := n.(type) {
+	case ast.Identifier, ast.MemberExpression:
+		return true
+	case ast.ArrayExpression, ast.ObjectExpression:
+		return pattern
+	case ast.ParenthesizedExpression:
+		return isTarget(t.Expression, false)
+	}
+	return false
+}
+
 // isBinary returns whether n is an expression with one of the operators.
 func isBinary(n ast.Node, ops ...ast.BinaryOperator) bool {
 	m, ok := n.(ast.BinaryExpression)
-- 
2.43.0


From 52fa2dd00e16edc83a51ec3575d31820d24a54ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:43 +0000
Subject: [PATCH 25/63] fix: report a misplaced unary operator where it is

---
 ecmascript/parser/expression.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/ecmascript/parser/expression.go b/ecmascript/parser/expression.go
index 334f688..8e220e0 100644
--- a/ecmascript/parser/expression.go
+++ b/ecmascript/parser/expression.go
@@ -110,6 +110,17 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 		return m
 	}
 
+	switch t.Type {
+	case lexer.TokenPunctuatorIncrement, lexer.TokenPunctuatorDecrement,
+		lexer.TokenKeywordDelete, lexer.TokenKeywordVoid, lexer.TokenKeywordTypeOf,
+		lexer.TokenPunctuatorPlus, lexer.TokenPunctuatorMinus,
+		lexer.TokenPunctuatorBitNot, lexer.TokenPunctuatorNot:
+		// Report a misplaced unary operator where it is.
+		if order > exprOrderUnaryExpr {
+			invalidprimary()
+		}
+	}
+
 	// Can't be Div/DivAssign here, relex as a regex. NOTE: if we are peeked
 	// ahead at this point, this will fail.
 	re := lexer.ReToken{}
@@ -122,10 +133,10 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 	// Unary operators
 	case lexer.TokenPunctuatorIncrement:
 		// TODO: should add order for update operator?
-		n = wrap(&ast.UpdateExpression{Operator: ast.UpdatePreIncrementOp, Argument: target(p.parseExpression(exprOrderUnaryExpr, flags))}, exprOrderUnaryExpr)
+		n = wrap(&ast.UpdateExpression{Operator: ast.UpdatePreIncrementOp, Argument: target(p.parseExpression(exprOrderLHSExpr, flags))}, exprOrderUnaryExpr)
 	case lexer.TokenPunctuatorDecrement:
 		// TODO: should add order for update operator?
-		n = wrap(&ast.UpdateExpression{Operator: ast.UpdatePreDecrementOp, Argument: target(p.parseExpression(exprOrderUnaryExpr, flags))}, exprOrderUnaryExpr)
+		n = wrap(&ast.UpdateExpression{Operator: ast.UpdatePreDecrementOp, Argument: target(p.parseExpression(exprOrderLHSExpr, flags))}, exprOrderUnaryExpr)
 	case lexer.TokenKeywordDelete:
 		n = wrap(&ast.UnaryExpression{Operator: ast.UnaryDeleteOp, Argument: p.parseExpression(exprOrderUnaryExpr, flags)}, exprOrderUnaryExpr)
 	case lexer.TokenKeywordVoid:
-- 
2.43.0


From aa6a4340e244a84cf43c3be6b3d4372ccd5a4a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:44 +0000
Subject: [PATCH 26/63] fix: the last operand of ?: in a for header may not
 contain in

---
 ecmascript/parser/expression.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecmascript/parser/expression.go b/ecmascript/parser/expression.go
index 8e220e0..f350eb0 100644
--- a/ecmascript/parser/expression.go
+++ b/ecmascript/parser/expression.go
@@ -590,7 +590,7 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 			p.s.ScanExpect(lexer.TokenPunctuatorQuestionMark, "expected `?` operator in conditional expression")
 			a := p.parseExpression(exprOrderAssign, 0)
 			p.s.ScanExpect(lexer.TokenPunctuatorColon, "expected `:` operator in conditional expression")
-			b := p.parseExpression(exprOrderAssign, 0)
+			b := p.parseExpression(exprOrderAssign, flags&exprFlagDisallowIn)
 			m := ast.ConditionalExpression{
 				Test:       n,
 				Consequent: a,
-- 
2.43.0


From e8639391620b87f4c01a91d812db79576ece2ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:46 +0000
Subject: [PATCH 27/63] fix: confine syntax that is only legal in arrow
 parameters to where it can become one

---
 ecmascript/ast/expressions.go        |  7 +++-
 ecmascript/ast/expressions_binary.go |  6 +++
 ecmascript/parser/expression.go      | 59 +++++++++++++++++-----------
 3 files changed, 48 insertions(+), 24 deletions(-)

diff --git a/ecmascript/ast/expressions.go b/ecmascript/ast/expressions.go
index 341bec4..7bb593e 100644
--- a/ecmascript/ast/expressions.go
+++ b/ecmascript/ast/expressions.go
@@ -25,7 +25,7 @@ func (n ArrayExpression) ESTree() interface{} {
 // children.
 func (n ArrayExpression) ContainsTemporalNodes() bool {
 	for _, elem := range n.Elements {
-		if elem.ContainsTemporalNodes() {
+		if elem != nil && elem.ContainsTemporalNodes() {
 			return true
 		}
 	}
@@ -396,7 +396,10 @@ func (n ObjectExpression) ESTree() interface{} {
 // children.
 func (n ObjectExpression) ContainsTemporalNodes() bool {
 	for _, prop := range n.Properties {
-		if prop.Key.ContainsTemporalNodes() || prop.Value.ContainsTemporalNodes() {
+		if prop.DestructureInit != nil || prop.Key.ContainsTemporalNodes() {
+			return true
+		}
+		if prop.Value != nil && prop.Value.ContainsTemporalNodes() {
 			return true
 		}
 	}
diff --git a/ecmascript/ast/expressions_binary.go b/ecmascript/ast/expressions_binary.go
index cd6d992..5d029c1 100644
--- a/ecmascript/ast/expressions_binary.go
+++ b/ecmascript/ast/expressions_binary.go
@@ -284,3 +284,9 @@ func (n AssignmentExpression) ESTree() interface{} {
 		Right:    estree(n.Right),
 	}
 }
+
+// ContainsTemporalNodes returns true if the node contains any temporal
+// children.
+func (n AssignmentExpression) ContainsTemporalNodes() bool {
+	return n.Left.ContainsTemporalNodes()
+}
diff --git a/ecmascript/parser/expression.go b/ecmascript/parser/expression.go
index f350eb0..2b23ce5 100644
--- a/ecmascript/parser/expression.go
+++ b/ecmascript/parser/expression.go
@@ -36,6 +36,7 @@ type exprFlags int
 const (
 	exprFlagDisallowIn exprFlags = 1 << iota
 	exprFlagMaybeArrow
+	exprFlagArrowHead
 )
 
 // parseExpression parses an expression up to a certain level of operator
@@ -51,7 +52,7 @@ const (
 // operator. Note that flags may or may not propagate to sub-expressions,
 // depending on exactly what kind of sub-expression it is.
 func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
-	if flags&exprFlagMaybeArrow != 0 {
+	if flags&exprFlagArrowHead != 0 {
 		switch p.s.PeekAt(0).Type {
 		case lexer.TokenPunctuatorCloseParen:
 			// This is a parameter list, not an expression.
@@ -66,6 +67,7 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 	}
 
 	var n ast.Node
+	inner := flags & exprFlagDisallowIn // Flags for operands.
 	s := p.s.Location()
 	t := p.ctx.keywordToIdentifier(p.s.Scan(), false)
 
@@ -85,7 +87,7 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 	wrapbinary := func(op ast.BinaryOperator, next exprOrder) ast.Node {
 		m := ast.BinaryExpression{Operator: op}
 		m.Left = n
-		m.Right = p.parseExpression(next, flags)
+		m.Right = p.parseExpression(next, inner)
 		m.SetStart(s)
 		m.SetEnd(p.s.Location())
 		return m
@@ -104,7 +106,7 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 		}
 		m := ast.AssignmentExpression{Operator: op}
 		m.Left = n
-		m.Right = p.parseExpression(next, flags)
+		m.Right = p.parseExpression(next, inner)
 		m.SetStart(s)
 		m.SetEnd(p.s.Location())
 		return m
@@ -133,24 +135,24 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 	// Unary operators
 	case lexer.TokenPunctuatorIncrement:
 		// TODO: should add order for update operator?
-		n = wrap(&ast.UpdateExpression{Operator: ast.UpdatePreIncrementOp, Argument: target(p.parseExpression(exprOrderLHSExpr, flags))}, exprOrderUnaryExpr)
+		n = wrap(&ast.UpdateExpression{Operator: ast.UpdatePreIncrementOp, Argument: target(p.parseExpression(exprOrderLHSExpr, inner))}, exprOrderUnaryExpr)
 	case lexer.TokenPunctuatorDecrement:
 		// TODO: should add order for update operator?
-		n = wrap(&ast.UpdateExpression{Operator: ast.UpdatePreDecrementOp, Argument: target(p.parseExpression(exprOrderLHSExpr, flags))}, exprOrderUnaryExpr)
+		n = wrap(&ast.UpdateExpression{Operator: ast.UpdatePreDecrementOp, Argument: target(p.parseExpression(exprOrderLHSExpr, inner))}, exprOrderUnaryExpr)
 	case lexer.TokenKeywordDelete:
-		n = wrap(&ast.UnaryExpression{Operator: ast.UnaryDeleteOp, Argument: p.parseExpression(exprOrderUnaryExpr, flags)}, exprOrderUnaryExpr)
+		n = wrap(&ast.UnaryExpression{Operator: ast.UnaryDeleteOp, Argument: p.parseExpression(exprOrderUnaryExpr, inner)}, exprOrderUnaryExpr)
 	case lexer.TokenKeywordVoid:
-		n = wrap(&ast.UnaryExpression{Operator: ast.UnaryVoidOp, Argument: p.parseExpression(exprOrderUnaryExpr, flags)}, exprOrderUnaryExpr)
+		n = wrap(&ast.UnaryExpression{Operator: ast.UnaryVoidOp, Argument: p.parseExpression(exprOrderUnaryExpr, inner)}, exprOrderUnaryExpr)
 	case lexer.TokenKeywordTypeOf:
-		n = wrap(&ast.UnaryExpression{Operator: ast.UnaryTypeOfOp, Argument: p.parseExpression(exprOrderUnaryExpr, flags)}, exprOrderUnaryExpr)
+		n = wrap(&ast.UnaryExpression{Operator: ast.UnaryTypeOfOp, Argument: p.parseExpression(exprOrderUnaryExpr, inner)}, exprOrderUnaryExpr)
 	case lexer.TokenPunctuatorPlus:
-		n = wrap(&ast.UnaryExpression{Operator: ast.UnaryPlusOp, Argument: p.parseExpression(exprOrderUnaryExpr, flags)}, exprOrderUnaryExpr)
+		n = wrap(&ast.UnaryExpression{Operator: ast.UnaryPlusOp, Argument: p.parseExpression(exprOrderUnaryExpr, inner)}, exprOrderUnaryExpr)
 	case lexer.TokenPunctuatorMinus:
-		n = wrap(&ast.UnaryExpression{Operator: ast.UnaryMinusOp, Argument: p.parseExpression(exprOrderUnaryExpr, flags)}, exprOrderUnaryExpr)
+		n = wrap(&ast.UnaryExpression{Operator: ast.UnaryMinusOp, Argument: p.parseExpression(exprOrderUnaryExpr, inner)}, exprOrderUnaryExpr)
 	case lexer.TokenPunctuatorBitNot:
-		n = wrap(&ast.UnaryExpression{Operator: ast.UnaryBitNotOp, Argument: p.parseExpression(exprOrderUnaryExpr, flags)}, exprOrderUnaryExpr)
+		n = wrap(&ast.UnaryExpression{Operator: ast.UnaryBitNotOp, Argument: p.parseExpression(exprOrderUnaryExpr, inner)}, exprOrderUnaryExpr)
 	case lexer.TokenPunctuatorNot:
-		n = wrap(&ast.UnaryExpression{Operator: ast.UnaryNotOp, Argument: p.parseExpression(exprOrderUnaryExpr, flags)}, exprOrderUnaryExpr)
+		n = wrap(&ast.UnaryExpression{Operator: ast.UnaryNotOp, Argument: p.parseExpression(exprOrderUnaryExpr, inner)}, exprOrderUnaryExpr)
 
 	// Primary Expression
 	case lexer.TokenKeywordThis:
@@ -178,13 +180,13 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 				// OR
 				// Call to function named "async"
 				p.s.Scan()
-				inner := p.parseExpression(exprOrderComma, exprFlagMaybeArrow)
+				list := p.parseExpression(exprOrderComma, exprFlagMaybeArrow|exprFlagArrowHead)
 				p.s.ScanExpect(lexer.TokenPunctuatorCloseParen, "expected `)` operator")
 				if p.s.PeekAt(0).Type == lexer.TokenPunctuatorFatArrow {
 					// This was an arrow function after all. Fix up the parenthesized
 					// expression to be a parameter list.
 					p.s.ScanExpect(lexer.TokenPunctuatorFatArrow, "expected `=>` operator")
-					params := p.convertExprToArrowParams(inner)
+					params := p.convertExprToArrowParams(list)
 					m := ast.FunctionExpression{
 						Params: params,
 						Body:   p.parseBlockOrShorthand(),
@@ -198,7 +200,7 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 					// This was a call to a function named "async"
 					n = ast.CallExpression{
 						Callee:    ast.Identifier{Name: t.Literal},
-						Arguments: p.convertExprToCallParams(inner),
+						Arguments: p.convertExprToCallParams(list),
 					}
 				}
 			} else {
@@ -225,7 +227,7 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 	case lexer.TokenKeywordFunction:
 		n = p.parseFunctionExpressionTail(s, false)
 	case lexer.TokenKeywordNew:
-		ctor := p.parseExpression(exprOrderMemberExpr, flags)
+		ctor := p.parseExpression(exprOrderMemberExpr, inner)
 		m := ast.NewExpression{
 			Callee: ctor,
 		}
@@ -262,13 +264,13 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 		// list of an arrow function. To avoid look-ahead, the parser will
 		// parse as an expression where possible, but also allow some invalid
 		// productions, and then it will be fixed up here.
-		inner := p.parseExpression(exprOrderComma, exprFlagMaybeArrow)
+		list := p.parseExpression(exprOrderComma, exprFlagMaybeArrow|exprFlagArrowHead)
 		p.s.ScanExpect(lexer.TokenPunctuatorCloseParen, "expected `)` operator")
 		if p.s.PeekAt(0).Type == lexer.TokenPunctuatorFatArrow {
 			// This was an arrow function after all. Fix up the parenthesized
 			// expression to be a parameter list.
 			p.s.ScanExpect(lexer.TokenPunctuatorFatArrow, "expected `=>` operator")
-			params := p.convertExprToArrowParams(inner)
+			params := p.convertExprToArrowParams(list)
 			m := ast.FunctionExpression{
 				Params: params,
 				Body:   p.parseBlockOrShorthand(),
@@ -279,11 +281,11 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 			n = m
 		} else {
 			// Was not an arrow. Deal disallowed syntax retroactively.
-			if _, ok := inner.(ast.TemporalEmptyArrowHead); ok || inner.ContainsTemporalNodes() {
+			if list.ContainsTemporalNodes() {
 				p.s.SyntaxError("expected `=>` operator")
 			}
 
-			m := ast.ParenthesizedExpression{Expression: inner}
+			m := ast.ParenthesizedExpression{Expression: list}
 			m.SetStart(s)
 			m.SetEnd(p.s.Location())
 			n = m
@@ -292,6 +294,19 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 		invalidprimary()
 	}
 
+	// What is only legal as a parameter may have a default, but may not be an
+	// operand.
+	if flags&exprFlagMaybeArrow != 0 {
+		switch p.s.PeekAt(0).Type {
+		case lexer.TokenPunctuatorAssign, lexer.TokenPunctuatorComma, lexer.TokenPunctuatorCloseParen,
+			lexer.TokenPunctuatorCloseBracket, lexer.TokenPunctuatorCloseBrace:
+		default:
+			if n.ContainsTemporalNodes() {
+				p.s.SyntaxError(fmt.Sprintf("unexpected token `%s` after destructuring pattern", p.s.PeekAt(0).Source()))
+			}
+		}
+	}
+
 	// Handle single-parameter bare parameter list.
 	if i, ok := n.(ast.Identifier); ok && p.s.PeekAt(0).Type == lexer.TokenPunctuatorFatArrow {
 		p.s.ScanExpect(lexer.TokenPunctuatorFatArrow, "expected `=>` operator")
@@ -1042,7 +1057,7 @@ func (p *Parser) parseObjectTail(start ast.Location, flags exprFlags) ast.Node {
 		case lexer.TokenPunctuatorOpenBracket:
 			// Computed identifier.
 			prop.Computed = true
-			prop.Key = p.parseExpression(exprOrderComma, flags)
+			prop.Key = p.parseExpression(exprOrderAssign, 0)
 			p.s.ScanExpect(lexer.TokenPunctuatorCloseBracket, "expected `]`")
 
 		default:
@@ -1071,7 +1086,7 @@ func (p *Parser) parseObjectTail(start ast.Location, flags exprFlags) ast.Node {
 
 		case flags&exprFlagMaybeArrow != 0 && peek.Type == lexer.TokenPunctuatorAssign:
 			p.s.ScanExpect(lexer.TokenPunctuatorAssign, "expected '='")
-			prop.DestructureInit = p.parseExpression(exprOrderAssign, flags)
+			prop.DestructureInit = p.parseExpression(exprOrderAssign, 0)
 
 		case peek.Type == lexer.TokenPunctuatorOpenParen:
 			// Method short-hand property
-- 
2.43.0


From 840770e5de2ed9c59a3c7434bde4ea70fa9b4a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:14 +0000
Subject: [PATCH 28/63] fix: do not forget the line break before a keyword used
 as identifier

---
 ecmascript/parser/context.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecmascript/parser/context.go b/ecmascript/parser/context.go
index 51d3cd6..f14ca09 100644
--- a/ecmascript/parser/context.go
+++ b/ecmascript/parser/context.go
@@ -38,5 +38,5 @@ func (ctx *parseContext) keywordToIdentifier(token lexer.Token, force bool) lexe
 		}
 	}
 
-	return lexer.Token{Type: lexer.TokenIdentifier, Literal: token.Literal}
+	return lexer.Token{Type: lexer.TokenIdentifier, Literal: token.Literal, NewLine: token.NewLine}
 }
-- 
2.43.0


From bfdae8d8e80e02ec3a97e3358c05e7c6457cd681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:15 +0000
Subject: [PATCH 29/63] fix: require commas between arguments and between array
 elements

---
 ecmascript/parser/expression.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ecmascript/parser/expression.go b/ecmascript/parser/expression.go
index 2b23ce5..be907aa 100644
--- a/ecmascript/parser/expression.go
+++ b/ecmascript/parser/expression.go
@@ -910,8 +910,8 @@ func (p *Parser) parseArrayTail(start ast.Location, flags exprFlags) ast.Node {
 		} else {
 			n.Elements = append(n.Elements, p.parseExpression(exprOrderAssign, flags))
 		}
-		if p.s.PeekAt(0).Type == lexer.TokenPunctuatorComma {
-			p.s.ScanExpect(lexer.TokenPunctuatorComma, "expected `,`")
+		if p.s.PeekAt(0).Type != lexer.TokenPunctuatorCloseBracket {
+			p.s.ScanExpect(lexer.TokenPunctuatorComma, "expected `,` or `]`")
 		}
 		if p.s.PeekAt(0).Type == lexer.TokenPunctuatorCloseBracket {
 			break
@@ -1199,8 +1199,8 @@ func (p *Parser) parseArguments() []ast.Node {
 			m = ast.SpreadElement{Argument: m}
 		}
 		n = append(n, m)
-		if p.s.PeekAt(0).Type == lexer.TokenPunctuatorComma {
-			p.s.ScanExpect(lexer.TokenPunctuatorComma, "expected `,`")
+		if p.s.PeekAt(0).Type != lexer.TokenPunctuatorCloseParen {
+			p.s.ScanExpect(lexer.TokenPunctuatorComma, "expected `,` or `)`")
 		}
 		if p.s.PeekAt(0).Type == lexer.TokenPunctuatorCloseParen {
 			p.s.ScanExpect(lexer.TokenPunctuatorCloseParen, "expected `)`")
-- 
2.43.0


From e803f2ddc17625cc1aa526c5427bd0c67c97dd7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:16 +0000
Subject: [PATCH 30/63] fix: require the statement after if, else, loops and
 labels

---
 ecmascript/parser/statement.go | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/ecmascript/parser/statement.go b/ecmascript/parser/statement.go
index ce5afc9..cb2cc1e 100644
--- a/ecmascript/parser/statement.go
+++ b/ecmascript/parser/statement.go
@@ -98,6 +98,15 @@ func (p *Parser) parseStatement() ast.Node {
 	return nil
 }
 
+// parseSubStatement parses a statement that is part of another one.
+func (p *Parser) parseSubStatement() ast.Node {
+	n := p.parseStatement()
+	if n == nil {
+		p.s.SyntaxError("expected statement")
+	}
+	return n
+}
+
 func (p *Parser) parseExpressionStatement() ast.Node {
 	expr := p.parseExpression(exprOrderComma, 0)
 	n := ast.ExpressionStatement{Expression: expr}
@@ -362,10 +371,10 @@ func (p *Parser) parseIfStatement() ast.Node {
 	p.s.ScanExpect(lexer.TokenPunctuatorOpenParen, "expected `(` after `if`")
 	n.Test = p.parseExpression(exprOrderComma, 0)
 	p.s.ScanExpect(lexer.TokenPunctuatorCloseParen, "expected `)`")
-	n.Consequent = p.parseStatement()
+	n.Consequent = p.parseSubStatement()
 	if p.s.PeekAt(0).Type == lexer.TokenKeywordElse {
 		p.s.ScanExpect(lexer.TokenKeywordElse, "expected `else`")
-		n.Alternate = p.parseStatement()
+		n.Alternate = p.parseSubStatement()
 	}
 	return n
 }
@@ -376,7 +385,7 @@ func (p *Parser) parseDoWhileStatement() ast.Node {
 	defer p.setEnd(&n)
 
 	p.s.ScanExpect(lexer.TokenKeywordDo, "expected `do` statement")
-	n.Body = p.parseStatement()
+	n.Body = p.parseSubStatement()
 	p.s.ScanExpect(lexer.TokenKeywordWhile, "expected `while` in do/while statement")
 	p.s.ScanExpect(lexer.TokenPunctuatorOpenParen, "expected `(` in `while` of do/while statement")
 	n.Test = p.parseExpression(exprOrderComma, 0)
@@ -394,7 +403,7 @@ func (p *Parser) parseWhileStatement() ast.Node {
 	p.s.ScanExpect(lexer.TokenPunctuatorOpenParen, "expected `(` in `while` of do/while statement")
 	n.Test = p.parseExpression(exprOrderComma, 0)
 	p.s.ScanExpect(lexer.TokenPunctuatorCloseParen, "expected `)` in `while` of do/while statement")
-	n.Body = p.parseStatement()
+	n.Body = p.parseSubStatement()
 	return n
 }
 
@@ -429,7 +438,7 @@ func (p *Parser) parseForStatement() ast.Node {
 			}
 			m.SetStart(n.Span().Start)
 			p.s.ScanExpect(lexer.TokenPunctuatorCloseParen, "expected `)`")
-			m.Body = p.parseStatement()
+			m.Body = p.parseSubStatement()
 			p.setEnd(&m)
 			return m
 
@@ -441,7 +450,7 @@ func (p *Parser) parseForStatement() ast.Node {
 			}
 			m.SetStart(n.Span().Start)
 			p.s.ScanExpect(lexer.TokenPunctuatorCloseParen, "expected `)`")
-			m.Body = p.parseStatement()
+			m.Body = p.parseSubStatement()
 			p.setEnd(&m)
 			return m
 		}
@@ -456,7 +465,7 @@ func (p *Parser) parseForStatement() ast.Node {
 		n.Update = p.parseExpression(exprOrderComma, 0)
 	}
 	p.s.ScanExpect(lexer.TokenPunctuatorCloseParen, "expected `)`")
-	n.Body = p.parseStatement()
+	n.Body = p.parseSubStatement()
 	return n
 }
 
@@ -636,6 +645,6 @@ func (p *Parser) parseLabelledStatement() ast.Node {
 
 	n.Label = p.scanIdent("expected statement label")
 	p.s.ScanExpect(lexer.TokenPunctuatorColon, "expected `:` after statement label")
-	n.Body = p.parseStatement()
+	n.Body = p.parseSubStatement()
 	return n
 }
-- 
2.43.0


From af6453f7633245f0a56a636cfd80b0e09c8064c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:17 +0000
Subject: [PATCH 31/63] fix: end switch statements on errors, allow
 declarations and one default in them

---
 ecmascript/parser/statement.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/ecmascript/parser/statement.go b/ecmascript/parser/statement.go
index cb2cc1e..7e9a82d 100644
--- a/ecmascript/parser/statement.go
+++ b/ecmascript/parser/statement.go
@@ -480,6 +480,7 @@ func (p *Parser) parseSwitchStatement() ast.Node {
 	p.s.ScanExpect(lexer.TokenPunctuatorCloseParen, "expected `)`")
 
 	p.s.ScanExpect(lexer.TokenPunctuatorOpenBrace, "expected `{`")
+	hasDefault := false
 	for {
 		switch p.s.PeekAt(0).Type {
 		case lexer.TokenKeywordCase:
@@ -494,7 +495,7 @@ func (p *Parser) parseSwitchStatement() ast.Node {
 				case lexer.TokenKeywordCase, lexer.TokenKeywordDefault, lexer.TokenPunctuatorCloseBrace:
 					break caseStatements
 				default:
-					c.Consequent = append(c.Consequent, p.parseStatement())
+					c.Consequent = append(c.Consequent, p.parseStatementItem())
 				}
 			}
 			n.Cases = append(n.Cases, c)
@@ -502,6 +503,10 @@ func (p *Parser) parseSwitchStatement() ast.Node {
 		case lexer.TokenKeywordDefault:
 			c := ast.SwitchCase{}
 			p.s.ScanExpect(lexer.TokenKeywordDefault, "expected `default`")
+			if hasDefault {
+				p.s.SyntaxError("more than one `default` in switch statement")
+			}
+			hasDefault = true
 			p.s.ScanExpect(lexer.TokenPunctuatorColon, "expected `:`")
 		defaultStatements:
 			for {
@@ -509,7 +514,7 @@ func (p *Parser) parseSwitchStatement() ast.Node {
 				case lexer.TokenKeywordCase, lexer.TokenKeywordDefault, lexer.TokenPunctuatorCloseBrace:
 					break defaultStatements
 				default:
-					c.Consequent = append(c.Consequent, p.parseStatement())
+					c.Consequent = append(c.Consequent, p.parseStatementItem())
 				}
 			}
 			n.Cases = append(n.Cases, c)
@@ -517,6 +522,9 @@ func (p *Parser) parseSwitchStatement() ast.Node {
 		case lexer.TokenPunctuatorCloseBrace:
 			p.s.ScanExpect(lexer.TokenPunctuatorCloseBrace, "expected `}`")
 			return n
+
+		default:
+			p.s.SyntaxError("expected `case`, `default` or `}`")
 		}
 	}
 }
-- 
2.43.0


From b100823a08baed95c953f0fa50c6ff97e6ca8b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:18 +0000
Subject: [PATCH 32/63] fix: require a catch or finally after try, and a proper
 catch parameter

---
 ecmascript/parser/statement.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ecmascript/parser/statement.go b/ecmascript/parser/statement.go
index 7e9a82d..e88a227 100644
--- a/ecmascript/parser/statement.go
+++ b/ecmascript/parser/statement.go
@@ -623,6 +623,8 @@ func (p *Parser) parseTryStatement() ast.Node {
 	if p.s.PeekAt(0).Type == lexer.TokenKeywordFinally {
 		p.s.ScanExpect(lexer.TokenKeywordFinally, "expected finally statement")
 		n.Finalizer = p.parseBlock()
+	} else if n.Handler == nil {
+		p.s.SyntaxError("expected `catch` or `finally` after try block")
 	}
 	return n
 }
@@ -637,6 +639,8 @@ func (p *Parser) parseCatchParameter() ast.BindingPattern {
 		b.ArrayPattern = p.parseArrayBindingPatternTail()
 	case lexer.TokenPunctuatorOpenBrace:
 		b.ObjectPattern = p.parseObjectBindingPatternTail()
+	default:
+		p.s.SyntaxError(fmt.Sprintf("unexpected token in catch parameter: %s", t.Source()))
 	}
 	return b
 }
-- 
2.43.0


From d8a16339831e41fd1b93268a0a568bab5573a360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:19 +0000
Subject: [PATCH 33/63] fix: do not scan past the unexpected token to report it

---
 ecmascript/parser/expression.go | 2 +-
 ecmascript/parser/statement.go  | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/ecmascript/parser/expression.go b/ecmascript/parser/expression.go
index be907aa..2c66a7c 100644
--- a/ecmascript/parser/expression.go
+++ b/ecmascript/parser/expression.go
@@ -1240,7 +1240,7 @@ func (p *Parser) parseParametersTail() ast.FormalParameters {
 			return n
 
 		default:
-			p.s.SyntaxError(fmt.Sprintf("unexpected token in formal parameter list: %s", p.s.Scan().Source()))
+			p.s.SyntaxError(fmt.Sprintf("unexpected token in formal parameter list: %s", t.Source()))
 		}
 
 		// Default syntax
diff --git a/ecmascript/parser/statement.go b/ecmascript/parser/statement.go
index e88a227..15429a6 100644
--- a/ecmascript/parser/statement.go
+++ b/ecmascript/parser/statement.go
@@ -206,7 +206,7 @@ func (p *Parser) parseVariableDeclaration() ast.VariableDeclarator {
 	case lexer.TokenPunctuatorOpenBrace:
 		v.ID.ObjectPattern = p.parseObjectBindingPattern()
 	default:
-		p.s.SyntaxError(fmt.Sprintf("unexpected token in variable declaration: %s", p.s.Scan().Source()))
+		p.s.SyntaxError(fmt.Sprintf("unexpected token in variable declaration: %s", t.Source()))
 	}
 
 	if p.s.PeekAt(0).Type == lexer.TokenPunctuatorAssign {
@@ -255,13 +255,13 @@ func (p *Parser) parseArrayBindingPatternTail() *ast.ArrayBindingPattern {
 			case lexer.TokenPunctuatorOpenBrace:
 				n.RestElement.ObjectPattern = p.parseObjectBindingPattern()
 			default:
-				p.s.SyntaxError(fmt.Sprintf("unexpected token in rest pattern: %s", p.s.Scan().Source()))
+				p.s.SyntaxError(fmt.Sprintf("unexpected token in rest pattern: %s", t.Source()))
 			}
 			p.s.ScanExpect(lexer.TokenPunctuatorCloseBracket, "expected closing braket")
 			return n
 
 		default:
-			p.s.SyntaxError(fmt.Sprintf("unexpected token in array binding pattern: %s", p.s.Scan().Source()))
+			p.s.SyntaxError(fmt.Sprintf("unexpected token in array binding pattern: %s", t.Source()))
 		}
 
 		// Default syntax
@@ -327,7 +327,7 @@ func (p *Parser) parseObjectBindingPatternTail() *ast.ObjectBindingPattern {
 				b.Value.ObjectPattern = p.parseObjectBindingPatternTail()
 
 			default:
-				p.s.SyntaxError(fmt.Sprintf("unexpected token in object binding pattern: %s", p.s.Scan().Source()))
+				p.s.SyntaxError(fmt.Sprintf("unexpected token in object binding pattern: %s", t.Source()))
 			}
 		}
 
-- 
2.43.0


From 3320b93e2b6a574f4d9b100b991873614f099f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:20 +0000
Subject: [PATCH 34/63] fix: remember the location of each token that is peeked

---
 ecmascript/parser/scanner.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecmascript/parser/scanner.go b/ecmascript/parser/scanner.go
index 7b9f789..bbced27 100644
--- a/ecmascript/parser/scanner.go
+++ b/ecmascript/parser/scanner.go
@@ -34,7 +34,7 @@ func (s *Scanner) Location() ast.Location {
 // up to i tokens into the future.
 func (s *Scanner) PeekAt(i int) lexer.Token {
 	for len(s.last) <= i {
-		s.loc = append(s.loc, s.Location())
+		s.loc = append(s.loc, s.l.Location())
 		s.last = append(s.last, s.l.Lex())
 	}
 	return s.last[i]
-- 
2.43.0


From 9d94b926458234865ff364cd2f1e267b96bb230a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:22 +0000
Subject: [PATCH 35/63] fix: reject what follows a complete expression

---
 ecmascript/parser/parser.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ecmascript/parser/parser.go b/ecmascript/parser/parser.go
index ecf5288..3ca49f6 100644
--- a/ecmascript/parser/parser.go
+++ b/ecmascript/parser/parser.go
@@ -60,7 +60,11 @@ func (p *Parser) Parse(opt ParseOptions) (n ast.Node, err error) {
 	case ModuleMode:
 		return p.parseModule(), nil
 	case ExpressionMode:
-		return p.parseExpression(exprOrderComma, 0), nil
+		n := p.parseExpression(exprOrderComma, 0)
+		if t := p.s.PeekAt(0); t.Type != lexer.TokenNone {
+			p.s.SyntaxError(fmt.Sprintf("unexpected token `%s` after expression", t.Source()))
+		}
+		return n, nil
 	default:
 		panic(fmt.Errorf("unexpected parse mode %d", opt.Mode))
 	}
-- 
2.43.0


From ac81c9376181b3d316f413e30cd40339d3e5fd22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:42 +0000
Subject: [PATCH 36/63] fix: arrow functions bind like assignments and their
 bodies are assignment expressions

---
 ecmascript/parser/expression.go | 83 +++++++++++++++------------------
 ecmascript/parser/statement.go  |  8 ----
 2 files changed, 38 insertions(+), 53 deletions(-)

diff --git a/ecmascript/parser/expression.go b/ecmascript/parser/expression.go
index 2c66a7c..055d780 100644
--- a/ecmascript/parser/expression.go
+++ b/ecmascript/parser/expression.go
@@ -168,13 +168,10 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 			} else if ident.Type == lexer.TokenIdentifier {
 				// Async arrow function with bare parameter
 				p.s.Scan()
-				p.s.ScanExpect(lexer.TokenPunctuatorFatArrow, "expected '=>'")
-				return ast.FunctionExpression{
-					Params: ast.FormalParameters{Parameters: []ast.BindingElement{{Value: ast.BindingPattern{Identifier: ident.Literal}}}},
-					Body:   p.parseBlockOrShorthand(),
-					Arrow:  true,
-					Async:  true,
+				if !p.atArrow(order) {
+					p.s.SyntaxError("expected '=>'")
 				}
+				n = p.parseArrowTail(s, ast.FormalParameters{Parameters: []ast.BindingElement{{Value: ast.BindingPattern{Identifier: ident.Literal}}}}, true, inner)
 			} else if peek.Type == lexer.TokenPunctuatorOpenParen {
 				// Async arrow function with parameter list
 				// OR
@@ -182,20 +179,10 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 				p.s.Scan()
 				list := p.parseExpression(exprOrderComma, exprFlagMaybeArrow|exprFlagArrowHead)
 				p.s.ScanExpect(lexer.TokenPunctuatorCloseParen, "expected `)` operator")
-				if p.s.PeekAt(0).Type == lexer.TokenPunctuatorFatArrow {
+				if p.atArrow(order) {
 					// This was an arrow function after all. Fix up the parenthesized
 					// expression to be a parameter list.
-					p.s.ScanExpect(lexer.TokenPunctuatorFatArrow, "expected `=>` operator")
-					params := p.convertExprToArrowParams(list)
-					m := ast.FunctionExpression{
-						Params: params,
-						Body:   p.parseBlockOrShorthand(),
-						Arrow:  true,
-						Async:  true,
-					}
-					m.SetStart(s)
-					m.SetEnd(p.s.Location())
-					n = m
+					n = p.parseArrowTail(s, p.convertExprToArrowParams(list), true, inner)
 				} else {
 					// This was a call to a function named "async"
 					n = ast.CallExpression{
@@ -266,19 +253,10 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 		// productions, and then it will be fixed up here.
 		list := p.parseExpression(exprOrderComma, exprFlagMaybeArrow|exprFlagArrowHead)
 		p.s.ScanExpect(lexer.TokenPunctuatorCloseParen, "expected `)` operator")
-		if p.s.PeekAt(0).Type == lexer.TokenPunctuatorFatArrow {
+		if p.atArrow(order) {
 			// This was an arrow function after all. Fix up the parenthesized
 			// expression to be a parameter list.
-			p.s.ScanExpect(lexer.TokenPunctuatorFatArrow, "expected `=>` operator")
-			params := p.convertExprToArrowParams(list)
-			m := ast.FunctionExpression{
-				Params: params,
-				Body:   p.parseBlockOrShorthand(),
-				Arrow:  true,
-			}
-			m.SetStart(s)
-			m.SetEnd(p.s.Location())
-			n = m
+			n = p.parseArrowTail(s, p.convertExprToArrowParams(list), false, inner)
 		} else {
 			// Was not an arrow. Deal disallowed syntax retroactively.
 			if list.ContainsTemporalNodes() {
@@ -308,22 +286,8 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 	}
 
 	// Handle single-parameter bare parameter list.
-	if i, ok := n.(ast.Identifier); ok && p.s.PeekAt(0).Type == lexer.TokenPunctuatorFatArrow {
-		p.s.ScanExpect(lexer.TokenPunctuatorFatArrow, "expected `=>` operator")
-		var body ast.Node
-		if p.s.PeekAt(0).Type == lexer.TokenPunctuatorOpenBrace {
-			body = p.parseBlock()
-		} else {
-			body = p.parseExpression(exprOrderConditional, 0)
-		}
-		m := ast.FunctionExpression{
-			Params: ast.FormalParameters{Parameters: []ast.BindingElement{{Value: ast.BindingPattern{Identifier: i.Name}}}},
-			Body:   body,
-			Arrow:  true,
-		}
-		m.SetStart(s)
-		m.SetEnd(p.s.Location())
-		return m
+	if i, ok := n.(ast.Identifier); ok && p.atArrow(order) {
+		n = p.parseArrowTail(s, ast.FormalParameters{Parameters: []ast.BindingElement{{Value: ast.BindingPattern{Identifier: i.Name}}}}, false, inner)
 	}
 
 	if order >= exprOrderPrimaryExpr {
@@ -333,6 +297,10 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 	for {
 		// exprOrderLHSExpr
 		t = p.s.PeekAt(0)
+		if fn, ok := n.(ast.FunctionExpression); ok && fn.Arrow && t.Type != lexer.TokenPunctuatorComma {
+			// An arrow function is not an operand.
+			break
+		}
 		lhs := isLHS(n)
 		if lhs && t.Type == lexer.TokenPunctuatorDot {
 			p.s.ScanExpect(lexer.TokenPunctuatorDot, "expected `.` operator")
@@ -713,6 +681,31 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 	return n
 }
 
+// atArrow returns whether an arrow function continues here, after what may be
+// its parameters.
+func (p *Parser) atArrow(order exprOrder) bool {
+	t := p.s.PeekAt(0)
+	return order <= exprOrderAssign && t.Type == lexer.TokenPunctuatorFatArrow && !t.NewLine
+}
+
+// parseArrowTail parses an arrow function after its parameters.
+func (p *Parser) parseArrowTail(start ast.Location, params ast.FormalParameters, async bool, flags exprFlags) ast.Node {
+	p.s.ScanExpect(lexer.TokenPunctuatorFatArrow, "expected `=>` operator")
+	m := ast.FunctionExpression{
+		Params: params,
+		Arrow:  true,
+		Async:  async,
+	}
+	if p.s.PeekAt(0).Type == lexer.TokenPunctuatorOpenBrace {
+		m.Body = p.parseBlock()
+	} else {
+		m.Body = p.parseExpression(exprOrderAssign, flags)
+	}
+	m.SetStart(start)
+	m.SetEnd(p.s.Location())
+	return m
+}
+
 // isLHS returns whether n can be the operand of a postfix operator, that is,
 // whether it is a LeftHandSideExpression.
 func isLHS(n ast.Node) bool {
diff --git a/ecmascript/parser/statement.go b/ecmascript/parser/statement.go
index 15429a6..9c6c761 100644
--- a/ecmascript/parser/statement.go
+++ b/ecmascript/parser/statement.go
@@ -116,14 +116,6 @@ func (p *Parser) parseExpressionStatement() ast.Node {
 	return n
 }
 
-func (p *Parser) parseBlockOrShorthand() ast.Node {
-	if p.s.PeekAt(0).Type == lexer.TokenPunctuatorOpenBrace {
-		return p.parseBlock()
-	} else {
-		return p.parseExpression(exprOrderConditional, 0)
-	}
-}
-
 func (p *Parser) parseBlock() ast.BlockStatement {
 	n := ast.BlockStatement{}
 	p.setStart(&n)
-- 
2.43.0


From b771283937e0da2dabe107d546397b9801df773f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:43 +0000
Subject: [PATCH 37/63] fix: mark arrow functions with expression bodies in
 ESTree

---
 ecmascript/ast/expressions.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ecmascript/ast/expressions.go b/ecmascript/ast/expressions.go
index 7bb593e..7921baf 100644
--- a/ecmascript/ast/expressions.go
+++ b/ecmascript/ast/expressions.go
@@ -116,8 +116,11 @@ type FunctionExpression struct {
 // ESTree returns the corresponding ESTree representation for this node.
 func (n FunctionExpression) ESTree() interface{} {
 	typ := "FunctionExpression"
+	expression := n.Expression
 	if n.Arrow {
 		typ = "ArrowFunctionExpression"
+		_, block := n.Body.(BlockStatement)
+		expression = !block
 	}
 	return struct {
 		Type       string      `json:"type"`
@@ -133,7 +136,7 @@ func (n FunctionExpression) ESTree() interface{} {
 		Params:     n.Params.ESTree(),
 		Body:       estree(n.Body),
 		Generator:  n.Generator,
-		Expression: n.Expression,
+		Expression: expression,
 		Async:      n.Async,
 	}
 }
-- 
2.43.0


From 6ca5a4d4b622f96dfe0fd6e9bb9294f999c67883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:18 +0000
Subject: [PATCH 38/63] fix: parse async arrow functions, calls of async and
 arrow parameters as the grammar has them

---
 ecmascript/parser/expression.go | 277 +++++++++++++++-----------------
 1 file changed, 126 insertions(+), 151 deletions(-)

diff --git a/ecmascript/parser/expression.go b/ecmascript/parser/expression.go
index 055d780..a30b48e 100644
--- a/ecmascript/parser/expression.go
+++ b/ecmascript/parser/expression.go
@@ -61,7 +61,7 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 			// Rest parameter inside of possible arrow function head.
 			p.s.ScanExpect(lexer.TokenPunctuatorEllipsis, "expected `...`")
 			return ast.TemporalFloatingRestElement{
-				Identifier: p.forceScanIdent("unexpected token"),
+				Identifier: p.scanIdent("unexpected token"),
 			}
 		}
 	}
@@ -158,37 +158,44 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 	case lexer.TokenKeywordThis:
 		n = ast.ThisExpression{}
 	case lexer.TokenIdentifier:
-		if t.Literal == "async" {
+		if t.Literal == "async" && !p.s.PeekAt(0).NewLine {
 			peek := p.s.PeekAt(0)
-			ident := p.ctx.keywordToIdentifier(peek, true)
+			ident := p.ctx.keywordToIdentifier(peek, false)
 			if peek.Type == lexer.TokenKeywordFunction {
 				// Async function expression
 				p.s.Scan()
-				n = p.parseFunctionExpressionTail(s, false)
-			} else if ident.Type == lexer.TokenIdentifier {
+				n = p.parseFunctionExpressionTail(s, true)
+			} else if order <= exprOrderAssign && ident.Type == lexer.TokenIdentifier {
 				// Async arrow function with bare parameter
 				p.s.Scan()
 				if !p.atArrow(order) {
 					p.s.SyntaxError("expected '=>'")
 				}
 				n = p.parseArrowTail(s, ast.FormalParameters{Parameters: []ast.BindingElement{{Value: ast.BindingPattern{Identifier: ident.Literal}}}}, true, inner)
-			} else if peek.Type == lexer.TokenPunctuatorOpenParen {
+			} else if order <= exprOrderAssign && peek.Type == lexer.TokenPunctuatorOpenParen {
 				// Async arrow function with parameter list
 				// OR
 				// Call to function named "async"
-				p.s.Scan()
-				list := p.parseExpression(exprOrderComma, exprFlagMaybeArrow|exprFlagArrowHead)
-				p.s.ScanExpect(lexer.TokenPunctuatorCloseParen, "expected `)` operator")
+				args, comma := p.parseArguments(exprFlagMaybeArrow)
 				if p.atArrow(order) {
-					// This was an arrow function after all. Fix up the parenthesized
-					// expression to be a parameter list.
-					n = p.parseArrowTail(s, p.convertExprToArrowParams(list), true, inner)
+					// This was an arrow function after all. Fix up the arguments
+					// to be a parameter list.
+					n = p.parseArrowTail(s, p.convertArgsToArrowParams(args, comma), true, inner)
 				} else {
-					// This was a call to a function named "async"
-					n = ast.CallExpression{
+					// This was a call to a function named "async". Deal with
+					// disallowed syntax retroactively.
+					for _, arg := range args {
+						if arg.ContainsTemporalNodes() {
+							p.s.SyntaxError("expected `=>` operator")
+						}
+					}
+					m := ast.CallExpression{
 						Callee:    ast.Identifier{Name: t.Literal},
-						Arguments: p.convertExprToCallParams(list),
+						Arguments: args,
 					}
+					m.SetStart(s)
+					m.SetEnd(p.s.Location())
+					n = m
 				}
 			} else {
 				// Async as a non-reserved identifier
@@ -219,7 +226,7 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 			Callee: ctor,
 		}
 		if p.s.PeekAt(0).Type == lexer.TokenPunctuatorOpenParen {
-			m.Arguments = p.parseArguments()
+			m.Arguments, _ = p.parseArguments(0)
 		}
 		m.SetStart(s)
 		m.SetEnd(p.s.Location())
@@ -334,9 +341,9 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 
 		if lhs && t.Type == lexer.TokenPunctuatorOpenParen {
 			m := ast.CallExpression{
-				Callee:    n,
-				Arguments: p.parseArguments(),
+				Callee: n,
 			}
+			m.Arguments, _ = p.parseArguments(0)
 			m.SetStart(s)
 			m.SetEnd(p.s.Location())
 			n = m
@@ -362,10 +369,10 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 				n = m
 			} else if p.s.PeekAt(0).Type == lexer.TokenPunctuatorOpenParen {
 				m := ast.CallExpression{
-					Callee:    n,
-					Optional:  true,
-					Arguments: p.parseArguments(),
+					Callee:   n,
+					Optional: true,
 				}
+				m.Arguments, _ = p.parseArguments(0)
 				m.SetStart(s)
 				m.SetEnd(p.s.Location())
 				n = m
@@ -658,16 +665,22 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 		}
 		if t.Type == lexer.TokenPunctuatorComma {
 			p.s.ScanExpect(lexer.TokenPunctuatorComma, "expected `,` operator")
+			m := p.parseExpression(exprOrderAssign, flags)
 			if seq, ok := n.(ast.SequenceExpression); ok {
-				seq.Expressions = append(seq.Expressions, p.parseExpression(exprOrderAssign, flags))
+				seq.Expressions = append(seq.Expressions, m)
 				n = seq
 			} else {
 				seq := ast.SequenceExpression{Expressions: []ast.Node{n}}
 				seq.SetStart(s)
 				seq.SetEnd(p.s.Location())
-				seq.Expressions = append(seq.Expressions, p.parseExpression(exprOrderAssign, flags))
+				seq.Expressions = append(seq.Expressions, m)
 				n = seq
 			}
+			switch m.(type) {
+			case ast.TemporalEmptyArrowHead, ast.TemporalFloatingRestElement:
+				// Nothing may follow in a parameter list.
+				return n
+			}
 			continue
 		}
 		if order >= exprOrderComma {
@@ -744,129 +757,99 @@ func isBinary(n ast.Node, ops ...ast.BinaryOperator) bool {
 	return false
 }
 
-func (p *Parser) convertExprToArrowParams(inner ast.Node) ast.FormalParameters {
-	params := ast.FormalParameters{}
-
-	convarg := func(n ast.Node, params *ast.FormalParameters) {
-		switch t := n.(type) {
-		case ast.Identifier:
-			params.Parameters = append(params.Parameters, ast.BindingElement{
-				Value: ast.BindingPattern{Identifier: t.Name},
-			})
-			return
-
-		case ast.AssignmentExpression:
-			left, ok := t.Left.(ast.Identifier)
-			if !ok {
-				p.s.SyntaxError("expected identifier in argument list")
+// convertExprToBindingPattern converts an expression to the binding pattern
+// it turned out to be.
+func (p *Parser) convertExprToBindingPattern(n ast.Node) ast.BindingPattern {
+	switch t := n.(type) {
+	case ast.Identifier:
+		return ast.BindingPattern{Identifier: t.Name}
+
+	case ast.ArrayExpression:
+		pat := &ast.ArrayBindingPattern{}
+		for _, e := range t.Elements {
+			switch e := e.(type) {
+			case nil:
+				pat.Elements = append(pat.Elements, ast.BindingElement{})
+			case ast.TemporalArrayRestElement:
+				pat.RestElement = e.BindingPattern
+			default:
+				pat.Elements = append(pat.Elements, p.convertExprToBindingElement(e))
 			}
-			name := left.Name
-			params.Parameters = append(params.Parameters, ast.BindingElement{
-				Value: ast.BindingPattern{Identifier: name},
-				Init:  t.Right,
-			})
-			return
-
-		case ast.ArrayExpression:
-			pat := ast.ArrayBindingPattern{}
-			for _, e := range t.Elements {
-				elem := ast.BindingElement{}
-				switch e := e.(type) {
-				case nil:
-					break
-
-				case ast.Identifier:
-					elem.Value = ast.BindingPattern{Identifier: e.Name}
-
-				case ast.AssignmentExpression:
-					left, ok := e.Left.(ast.Identifier)
-					if !ok {
-						p.s.SyntaxError("expected identifier in argument list")
-					}
-					name := left.Name
-					elem = ast.BindingElement{Value: ast.BindingPattern{Identifier: name}, Init: e.Right}
-
-				case ast.TemporalArrayRestElement:
-					pat.RestElement = e.BindingPattern
-					params.Parameters = append(params.Parameters, ast.BindingElement{Value: ast.BindingPattern{ArrayPattern: &pat}})
-					return
+		}
+		return ast.BindingPattern{ArrayPattern: pat}
 
-				default:
-					p.s.SyntaxError(fmt.Sprintf("unexpected production in array destructuring: %T", e))
-				}
-				pat.Elements = append(pat.Elements, elem)
+	case ast.ObjectExpression:
+		pat := &ast.ObjectBindingPattern{}
+		for _, prop := range t.Properties {
+			if rest, ok := prop.Key.(ast.TemporalObjectRestElement); ok {
+				pat.RestElement = rest.Identifier
+				break
 			}
-			params.Parameters = append(params.Parameters, ast.BindingElement{Value: ast.BindingPattern{ArrayPattern: &pat}})
-			return
-
-		case ast.ObjectExpression:
-			pat := ast.ObjectBindingPattern{}
-			for _, prop := range t.Properties {
-				if rest, ok := prop.Key.(ast.TemporalObjectRestElement); ok {
-					pat.RestElement = rest.Identifier
-					break
-				}
-				binding := ast.BindingProperty{}
-				if key, ok := prop.Key.(ast.Identifier); ok {
-					binding.PropertyName = key.Name
-				}
-				switch key := prop.Value.(type) {
-				case ast.Identifier:
-					binding.Value.Identifier = key.Name
-
-				case ast.AssignmentExpression:
-					left, ok := key.Left.(ast.Identifier)
-					if !ok {
-						p.s.SyntaxError("expected identifier in argument list")
-					}
-					binding.Value.Identifier = left.Name
-					binding.Init = key.Right
-
-				case nil:
-					break
-
-				default:
-					p.s.SyntaxError(fmt.Sprintf("unexpected production in object destructuring: %T", key))
-				}
-				if prop.DestructureInit != nil {
-					binding.Init = prop.DestructureInit
-				}
-				pat.Properties = append(pat.Properties, binding)
+			key, ok := prop.Key.(ast.Identifier)
+			if !ok || prop.Computed || prop.Method || prop.Kind != ast.InitProperty {
+				p.s.SyntaxError("unexpected production in object destructuring")
 			}
-			params.Parameters = append(params.Parameters, ast.BindingElement{Value: ast.BindingPattern{ObjectPattern: &pat}})
-			return
-
-		case ast.TemporalFloatingRestElement:
-			params.RestParameter = t.Identifier
-			return
+			binding := ast.BindingProperty{PropertyName: key.Name, Init: prop.DestructureInit}
+			if prop.Value != nil {
+				elem := p.convertExprToBindingElement(prop.Value)
+				binding.Value, binding.Init = elem.Value, elem.Init
+			}
+			pat.Properties = append(pat.Properties, binding)
+		}
+		return ast.BindingPattern{ObjectPattern: pat}
+	}
+	p.s.SyntaxError(fmt.Sprintf("unexpected production %T in arrow function parameter list", n))
+	return ast.BindingPattern{}
+}
 
-		default:
-			p.s.SyntaxError(fmt.Sprintf("unexpected production %T in arrow function parameter list", n))
+// convertExprToBindingElement converts an expression to the binding pattern,
+// possibly with a default value, it turned out to be.
+func (p *Parser) convertExprToBindingElement(n ast.Node) ast.BindingElement {
+	if t, ok := n.(ast.AssignmentExpression); ok {
+		if t.Operator != ast.AssignmentOp {
+			p.s.SyntaxError("expected default assignment `=`")
 		}
+		return ast.BindingElement{Value: p.convertExprToBindingPattern(t.Left), Init: t.Right}
 	}
+	return ast.BindingElement{Value: p.convertExprToBindingPattern(n)}
+}
 
-	switch t := inner.(type) {
-	case ast.TemporalEmptyArrowHead:
-		break
+func (p *Parser) convertExprToArrowParams(inner ast.Node) ast.FormalParameters {
+	params := ast.FormalParameters{}
 
-	case ast.SequenceExpression:
-		for _, e := range t.Expressions {
-			convarg(e, &params)
+	list := []ast.Node{inner}
+	if t, ok := inner.(ast.SequenceExpression); ok {
+		list = t.Expressions
+	}
+	for _, n := range list {
+		switch t := n.(type) {
+		case ast.TemporalEmptyArrowHead:
+			// No parameters, or a comma after the last one.
+		case ast.TemporalFloatingRestElement:
+			params.RestParameter = t.Identifier
+		default:
+			params.Parameters = append(params.Parameters, p.convertExprToBindingElement(t))
 		}
-
-	default:
-		convarg(t, &params)
 	}
-
 	return params
 }
 
-func (p *Parser) convertExprToCallParams(inner ast.Node) []ast.Node {
-	if args, ok := inner.(ast.SequenceExpression); ok {
-		return args.Expressions
-	} else {
-		return []ast.Node{inner}
+// convertArgsToArrowParams converts the arguments of what could have been a
+// call to a function named "async".
+func (p *Parser) convertArgsToArrowParams(args []ast.Node, comma bool) ast.FormalParameters {
+	params := ast.FormalParameters{}
+	for i, arg := range args {
+		if spread, ok := arg.(ast.SpreadElement); ok {
+			ident, ok := spread.Argument.(ast.Identifier)
+			if !ok || comma || i != len(args)-1 {
+				p.s.SyntaxError("invalid rest parameter")
+			}
+			params.RestParameter = ident.Name
+			break
+		}
+		params.Parameters = append(params.Parameters, p.convertExprToBindingElement(arg))
 	}
+	return params
 }
 
 // Parses an array assuming a `[` was already consumed.
@@ -893,10 +876,8 @@ func (p *Parser) parseArrayTail(start ast.Location, flags exprFlags) ast.Node {
 				rest.ArrayPattern = p.parseArrayBindingPattern()
 			case lexer.TokenPunctuatorOpenBrace:
 				rest.ObjectPattern = p.parseObjectBindingPattern()
-			case lexer.TokenIdentifier:
-				rest.Identifier = p.forceScanIdent("unexpected token")
 			default:
-				p.s.SyntaxError("missing variable name")
+				rest.Identifier = p.scanIdent("missing variable name")
 			}
 			n.Elements = append(n.Elements, rest)
 			break
@@ -941,14 +922,10 @@ func (p *Parser) parseObjectTail(start ast.Location, flags exprFlags) ast.Node {
 
 	parseRest := func() ast.TemporalObjectRestElement {
 		rest := ast.TemporalObjectRestElement{}
-		switch p.s.PeekAt(0).Type {
-		case lexer.TokenPunctuatorCloseBrace:
+		if p.s.PeekAt(0).Type == lexer.TokenPunctuatorCloseBrace {
 			p.s.SyntaxError("expected expression, got '}'")
-		case lexer.TokenIdentifier:
-			rest.Identifier = p.forceScanIdent("unexpected token")
-		default:
-			p.s.SyntaxError("missing variable name")
 		}
+		rest.Identifier = p.scanIdent("missing variable name")
 		return rest
 	}
 
@@ -1172,32 +1149,30 @@ func (p *Parser) parseFunctionExpressionTail(start ast.Location, async bool) ast
 	return m
 }
 
-// Parses arguments.
-func (p *Parser) parseArguments() []ast.Node {
+// Parses arguments. Returns also whether there is a comma after the last one.
+func (p *Parser) parseArguments(flags exprFlags) ([]ast.Node, bool) {
 	n := []ast.Node{}
 
 	p.s.ScanExpect(lexer.TokenPunctuatorOpenParen, "expected `(`")
 	if p.s.PeekAt(0).Type == lexer.TokenPunctuatorCloseParen {
 		p.s.ScanExpect(lexer.TokenPunctuatorCloseParen, "expected `)`")
-		return n
+		return n, false
 	}
 	for {
-		spread := false
+		comma := false
 		if p.s.PeekAt(0).Type == lexer.TokenPunctuatorEllipsis {
 			p.s.Scan()
-			spread = true
-		}
-		m := p.parseExpression(exprOrderAssign, 0)
-		if spread {
-			m = ast.SpreadElement{Argument: m}
+			n = append(n, ast.SpreadElement{Argument: p.parseExpression(exprOrderAssign, 0)})
+		} else {
+			n = append(n, p.parseExpression(exprOrderAssign, flags))
 		}
-		n = append(n, m)
 		if p.s.PeekAt(0).Type != lexer.TokenPunctuatorCloseParen {
 			p.s.ScanExpect(lexer.TokenPunctuatorComma, "expected `,` or `)`")
+			comma = true
 		}
 		if p.s.PeekAt(0).Type == lexer.TokenPunctuatorCloseParen {
 			p.s.ScanExpect(lexer.TokenPunctuatorCloseParen, "expected `)`")
-			return n
+			return n, comma
 		}
 	}
 }
-- 
2.43.0


From 88fa07ef7dcde01eba77c57ab948d8c64aa8bad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:19 +0000
Subject: [PATCH 39/63] fix: only identifiers can be shorthand properties

---
 ecmascript/parser/expression.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/ecmascript/parser/expression.go b/ecmascript/parser/expression.go
index a30b48e..c436b6f 100644
--- a/ecmascript/parser/expression.go
+++ b/ecmascript/parser/expression.go
@@ -968,6 +968,9 @@ func (p *Parser) parseObjectTail(start ast.Location, flags exprFlags) ast.Node {
 
 			case lexer.TokenKeywordAsync:
 				async = true
+				if p.s.PeekAt(0).NewLine {
+					p.s.SyntaxError("illegal newline after async")
+				}
 
 				// Async generator (async *)
 				if p.s.PeekAt(0).Type == lexer.TokenPunctuatorMult {
@@ -1000,7 +1003,9 @@ func (p *Parser) parseObjectTail(start ast.Location, flags exprFlags) ast.Node {
 			t = p.s.Scan()
 		}
 
-		// Next, handle identifier...
+		// Next, handle identifier. Only what could be a reference on its own may
+		// omit the value.
+		shorthand := p.ctx.keywordToIdentifier(t, false).Type == lexer.TokenIdentifier && !async && !generator
 		t = p.ctx.keywordToIdentifier(t, true)
 		switch t.Type {
 		case lexer.TokenIdentifier:
@@ -1056,6 +1061,9 @@ func (p *Parser) parseObjectTail(start ast.Location, flags exprFlags) ast.Node {
 
 		case flags&exprFlagMaybeArrow != 0 && peek.Type == lexer.TokenPunctuatorAssign:
 			p.s.ScanExpect(lexer.TokenPunctuatorAssign, "expected '='")
+			if !shorthand {
+				p.s.SyntaxError("expected identifier before default value")
+			}
 			prop.DestructureInit = p.parseExpression(exprOrderAssign, 0)
 
 		case peek.Type == lexer.TokenPunctuatorOpenParen:
@@ -1092,6 +1100,11 @@ func (p *Parser) parseObjectTail(start ast.Location, flags exprFlags) ast.Node {
 				p.s.SyntaxError("expected method")
 			}
 
+			// Reserved words and literals need a value.
+			if !shorthand {
+				p.s.SyntaxError("expected `:` after property name")
+			}
+
 		default:
 			p.s.SyntaxError("expected `,` or `}`")
 		}
-- 
2.43.0


From 036775f0423106f2576bc57460f551b3b6e6ded0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:35 +0000
Subject: [PATCH 40/63] fix: directives are what function bodies and programs
 start with

---
 ecmascript/parser/declaration.go |  4 +--
 ecmascript/parser/expression.go  |  8 ++---
 ecmascript/parser/module.go      |  1 +
 ecmascript/parser/script.go      |  1 +
 ecmascript/parser/statement.go   | 61 +++++++++++++++++++++-----------
 5 files changed, 48 insertions(+), 27 deletions(-)

diff --git a/ecmascript/parser/declaration.go b/ecmascript/parser/declaration.go
index 7f0719d..48e66de 100644
--- a/ecmascript/parser/declaration.go
+++ b/ecmascript/parser/declaration.go
@@ -25,7 +25,7 @@ func (p *Parser) parseFunctionDeclaration() ast.Node {
 	// TODO: generator support
 	p.s.ScanExpect(lexer.TokenPunctuatorOpenParen, "expected parameter list following function declaration")
 	params := p.parseParametersTail()
-	body := p.parseBlock()
+	body := p.parseFunctionBody()
 	n := ast.FunctionDeclaration{
 		ID:     name,
 		Params: params,
@@ -128,7 +128,7 @@ func (p *Parser) parseClassBody() []ast.Node {
 
 		fn := ast.FunctionExpression{}
 		fn.Params = p.parseParameters()
-		fn.Body = p.parseBlock()
+		fn.Body = p.parseFunctionBody()
 		fn.SetEnd(p.s.Location())
 		m.Value = fn
 
diff --git a/ecmascript/parser/expression.go b/ecmascript/parser/expression.go
index c436b6f..ef307d4 100644
--- a/ecmascript/parser/expression.go
+++ b/ecmascript/parser/expression.go
@@ -710,7 +710,7 @@ func (p *Parser) parseArrowTail(start ast.Location, params ast.FormalParameters,
 		Async:  async,
 	}
 	if p.s.PeekAt(0).Type == lexer.TokenPunctuatorOpenBrace {
-		m.Body = p.parseBlock()
+		m.Body = p.parseFunctionBody()
 	} else {
 		m.Body = p.parseExpression(exprOrderAssign, flags)
 	}
@@ -1046,7 +1046,7 @@ func (p *Parser) parseObjectTail(start ast.Location, flags exprFlags) ast.Node {
 			// Getter/setter
 			fn := ast.FunctionExpression{}
 			fn.Params = p.parseParameters()
-			fn.Body = p.parseBlock()
+			fn.Body = p.parseFunctionBody()
 			fn.SetEnd(p.s.Location())
 			prop.Value = fn
 
@@ -1079,7 +1079,7 @@ func (p *Parser) parseObjectTail(start ast.Location, flags exprFlags) ast.Node {
 
 			fn.SetStart(p.s.Location())
 			fn.Params = p.parseParameters()
-			fn.Body = p.parseBlock()
+			fn.Body = p.parseFunctionBody()
 			fn.SetEnd(p.s.Location())
 
 			prop.Value = fn
@@ -1145,7 +1145,7 @@ func (p *Parser) parseFunctionExpressionTail(start ast.Location, async bool) ast
 
 	wasgen := p.ctx.generator
 	p.ctx.generator = true
-	body := p.parseBlock()
+	body := p.parseFunctionBody()
 	p.ctx.generator = wasgen
 
 	m := ast.FunctionExpression{
diff --git a/ecmascript/parser/module.go b/ecmascript/parser/module.go
index 9982035..ae3a0b1 100644
--- a/ecmascript/parser/module.go
+++ b/ecmascript/parser/module.go
@@ -15,6 +15,7 @@ func (p *Parser) parseModule() ast.Node {
 	p.setStart(&m)
 	defer p.setEnd(&m)
 
+	m.Body = p.parseDirectives()
 	for {
 		if p.s.PeekAt(0).Type == lexer.TokenNone {
 			break
diff --git a/ecmascript/parser/script.go b/ecmascript/parser/script.go
index a776ba6..519473c 100644
--- a/ecmascript/parser/script.go
+++ b/ecmascript/parser/script.go
@@ -10,6 +10,7 @@ func (p *Parser) parseScript() ast.Node {
 	p.setStart(&m)
 	defer p.setEnd(&m)
 
+	m.Body = p.parseDirectives()
 	for {
 		if p.s.PeekAt(0).Type == lexer.TokenNone {
 			break
diff --git a/ecmascript/parser/statement.go b/ecmascript/parser/statement.go
index 9c6c761..e1da652 100644
--- a/ecmascript/parser/statement.go
+++ b/ecmascript/parser/statement.go
@@ -122,28 +122,25 @@ func (p *Parser) parseBlock() ast.BlockStatement {
 	defer p.setEnd(&n)
 
 	p.s.ScanExpect(lexer.TokenPunctuatorOpenBrace, "expected block opening brace `{`")
+	p.parseBlockTail(&n)
+	return n
+}
 
-	// Early exit for empty block.
-	if p.s.PeekAt(0).Type == lexer.TokenPunctuatorCloseBrace {
-		p.s.ScanExpect(lexer.TokenPunctuatorCloseBrace, "expected statement, declaration, or closing brace `}`")
-		return n
-	}
-
-	ctx := p.ctx
+// parseFunctionBody parses a block that can start with directives.
+func (p *Parser) parseFunctionBody() ast.BlockStatement {
+	n := ast.BlockStatement{}
+	p.setStart(&n)
+	defer p.setEnd(&n)
 
-	// Parse first statement so we can parse directives out of it.
-	stmt := p.parseStatementItem()
-	if expr, ok := stmt.(ast.ExpressionStatement); ok {
-		if str, ok := expr.Expression.(ast.StringLiteral); ok {
-			if str.Value == "use strict" {
-				ctx.strictMode = true
-				expr.Directive = "use strict"
-			}
-		}
-		stmt = expr
-	}
-	n.Body = append(n.Body, stmt)
+	p.s.ScanExpect(lexer.TokenPunctuatorOpenBrace, "expected block opening brace `{`")
+	strictMode := p.ctx.strictMode
+	n.Body = p.parseDirectives()
+	p.parseBlockTail(&n)
+	p.ctx.strictMode = strictMode
+	return n
+}
 
+func (p *Parser) parseBlockTail(n *ast.BlockStatement) {
 	for {
 		if p.s.PeekAt(0).Type == lexer.TokenPunctuatorCloseBrace {
 			p.s.ScanExpect(lexer.TokenPunctuatorCloseBrace, "expected statement, declaration, or closing brace `}`")
@@ -151,9 +148,31 @@ func (p *Parser) parseBlock() ast.BlockStatement {
 		}
 		n.Body = append(n.Body, p.parseStatementItem())
 	}
+}
 
-	p.ctx = ctx
-
+// parseDirectives parses the statements that start with a string literal at
+// the start of a function body or a script. Those that are nothing but a
+// string literal are directives.
+func (p *Parser) parseDirectives() []ast.Node {
+	var n []ast.Node
+	for p.s.PeekAt(0).Type == lexer.TokenLiteralString {
+		stmt := p.parseStatementItem()
+		expr, ok := stmt.(ast.ExpressionStatement)
+		if ok {
+			var str ast.StringLiteral
+			if str, ok = expr.Expression.(ast.StringLiteral); ok {
+				expr.Directive = str.Raw[1 : len(str.Raw)-1]
+				if expr.Directive == "use strict" {
+					p.ctx.strictMode = true
+				}
+				stmt = expr
+			}
+		}
+		n = append(n, stmt)
+		if !ok {
+			break
+		}
+	}
 	return n
 }
 
-- 
2.43.0


From 3cfd536825f2bd23f9371a056ee590844c02580f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:36 +0000
Subject: [PATCH 41/63] fix: every function has its own async and generator
 context

---
 ecmascript/parser/declaration.go |  7 +---
 ecmascript/parser/expression.go  | 72 +++++++++++++-------------------
 2 files changed, 32 insertions(+), 47 deletions(-)

diff --git a/ecmascript/parser/declaration.go b/ecmascript/parser/declaration.go
index 48e66de..3f599b0 100644
--- a/ecmascript/parser/declaration.go
+++ b/ecmascript/parser/declaration.go
@@ -23,9 +23,7 @@ func (p *Parser) parseFunctionDeclaration() ast.Node {
 	// TODO: support eliding name when in `export default` context.
 	name := p.scanIdent("expected identifier")
 	// TODO: generator support
-	p.s.ScanExpect(lexer.TokenPunctuatorOpenParen, "expected parameter list following function declaration")
-	params := p.parseParametersTail()
-	body := p.parseFunctionBody()
+	params, body := p.parseFunctionTail(false, false)
 	n := ast.FunctionDeclaration{
 		ID:     name,
 		Params: params,
@@ -127,8 +125,7 @@ func (p *Parser) parseClassBody() []ast.Node {
 		}
 
 		fn := ast.FunctionExpression{}
-		fn.Params = p.parseParameters()
-		fn.Body = p.parseFunctionBody()
+		fn.Params, fn.Body = p.parseFunctionTail(false, false)
 		fn.SetEnd(p.s.Location())
 		m.Value = fn
 
diff --git a/ecmascript/parser/expression.go b/ecmascript/parser/expression.go
index ef307d4..eb51f72 100644
--- a/ecmascript/parser/expression.go
+++ b/ecmascript/parser/expression.go
@@ -709,11 +709,15 @@ func (p *Parser) parseArrowTail(start ast.Location, params ast.FormalParameters,
 		Arrow:  true,
 		Async:  async,
 	}
+	ctx := p.ctx
+	p.ctx.async = async
+	p.ctx.generator = false
 	if p.s.PeekAt(0).Type == lexer.TokenPunctuatorOpenBrace {
 		m.Body = p.parseFunctionBody()
 	} else {
 		m.Body = p.parseExpression(exprOrderAssign, flags)
 	}
+	p.ctx = ctx
 	m.SetStart(start)
 	m.SetEnd(p.s.Location())
 	return m
@@ -1045,8 +1049,7 @@ func (p *Parser) parseObjectTail(start ast.Location, flags exprFlags) ast.Node {
 		case prop.Kind == ast.GetProperty || prop.Kind == ast.SetProperty:
 			// Getter/setter
 			fn := ast.FunctionExpression{}
-			fn.Params = p.parseParameters()
-			fn.Body = p.parseFunctionBody()
+			fn.Params, fn.Body = p.parseFunctionTail(false, false)
 			fn.SetEnd(p.s.Location())
 			prop.Value = fn
 
@@ -1068,25 +1071,18 @@ func (p *Parser) parseObjectTail(start ast.Location, flags exprFlags) ast.Node {
 
 		case peek.Type == lexer.TokenPunctuatorOpenParen:
 			// Method short-hand property
-			ctx := p.ctx
-			p.ctx.async = async
-			p.ctx.generator = generator
-
 			fn := ast.FunctionExpression{
 				Async:     async,
 				Generator: generator,
 			}
 
 			fn.SetStart(p.s.Location())
-			fn.Params = p.parseParameters()
-			fn.Body = p.parseFunctionBody()
+			fn.Params, fn.Body = p.parseFunctionTail(async, generator)
 			fn.SetEnd(p.s.Location())
 
 			prop.Value = fn
 			prop.Method = true
 
-			p.ctx = ctx
-
 		case peek.Type == lexer.TokenPunctuatorComma ||
 			peek.Type == lexer.TokenPunctuatorCloseBrace:
 			// Shorthand syntax. We don't need to do anything, but we should
@@ -1124,44 +1120,40 @@ func (p *Parser) parseObjectTail(start ast.Location, flags exprFlags) ast.Node {
 
 // Parse traditional function expression
 func (p *Parser) parseFunctionExpressionTail(start ast.Location, async bool) ast.FunctionExpression {
-	t := p.ctx.keywordToIdentifier(p.s.Scan(), false)
-	name := ""
-	if t.Type == lexer.TokenIdentifier {
-		name = t.Literal
-		t = p.s.Scan()
-	}
-
-	generator := false
-	if t.Type == lexer.TokenPunctuatorMult {
-		generator = true
-		t = p.s.Scan()
-	}
-
-	if t.Type != lexer.TokenPunctuatorOpenParen {
-		p.s.SyntaxError("expected parameter list following function expression head")
+	m := ast.FunctionExpression{Async: async}
+	if p.s.PeekAt(0).Type == lexer.TokenPunctuatorMult {
+		p.s.Scan()
+		m.Generator = true
 	}
 
-	params := p.parseParametersTail()
-
-	wasgen := p.ctx.generator
-	p.ctx.generator = true
-	body := p.parseFunctionBody()
-	p.ctx.generator = wasgen
-
-	m := ast.FunctionExpression{
-		ID:        name,
-		Params:    params,
-		Body:      body,
-		Async:     async,
-		Generator: generator,
+	// The name of the function expression is already part of it.
+	ctx := p.ctx
+	p.ctx.async = m.Async
+	p.ctx.generator = m.Generator
+	if p.s.PeekAt(0).Type != lexer.TokenPunctuatorOpenParen {
+		m.ID = p.scanIdent("expected function name or parameter list")
 	}
+	p.ctx = ctx
 
+	m.Params, m.Body = p.parseFunctionTail(m.Async, m.Generator)
 	m.SetStart(start)
 	m.SetEnd(p.s.Location())
 
 	return m
 }
 
+// parseFunctionTail parses the parameters and the body of a function that is
+// not an arrow function.
+func (p *Parser) parseFunctionTail(async, generator bool) (ast.FormalParameters, ast.BlockStatement) {
+	ctx := p.ctx
+	p.ctx.async = async
+	p.ctx.generator = generator
+	params := p.parseParameters()
+	body := p.parseFunctionBody()
+	p.ctx = ctx
+	return params, body
+}
+
 // Parses arguments. Returns also whether there is a comma after the last one.
 func (p *Parser) parseArguments(flags exprFlags) ([]ast.Node, bool) {
 	n := []ast.Node{}
@@ -1193,10 +1185,6 @@ func (p *Parser) parseArguments(flags exprFlags) ([]ast.Node, bool) {
 // Parses parameters.
 func (p *Parser) parseParameters() ast.FormalParameters {
 	p.s.ScanExpect(lexer.TokenPunctuatorOpenParen, "expected `(`")
-	return p.parseParametersTail()
-}
-
-func (p *Parser) parseParametersTail() ast.FormalParameters {
 	n := ast.FormalParameters{}
 
 	for {
-- 
2.43.0


From 6691d37a4f3e4d3e21ba9f9762973b9f0195efa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:38 +0000
Subject: [PATCH 42/63] fix: parse class heritage, names and method names as
 the grammar has them

---
 ecmascript/parser/declaration.go | 50 ++++++++++++++++++++------------
 ecmascript/parser/expression.go  | 13 +++++----
 2 files changed, 39 insertions(+), 24 deletions(-)

diff --git a/ecmascript/parser/declaration.go b/ecmascript/parser/declaration.go
index 3f599b0..2875f1a 100644
--- a/ecmascript/parser/declaration.go
+++ b/ecmascript/parser/declaration.go
@@ -65,15 +65,21 @@ func (p *Parser) parseClassDeclaration() ast.Node {
 	defer p.setEnd(&n)
 
 	p.s.ScanExpect(lexer.TokenKeywordClass, "expected class")
+	// All parts of a class are strict mode code.
+	ctx := p.ctx
+	p.ctx.strictMode = true
 	n.ID = p.scanIdent("expected class name")
+	n.SuperClass, n.Body = p.parseClassTail()
+	p.ctx = ctx
+	return n
+}
 
+func (p *Parser) parseClassTail() (superClass ast.Node, body []ast.Node) {
 	if p.s.PeekAt(0).Type == lexer.TokenKeywordExtends {
 		p.s.Scan()
-		n.SuperClass = p.parseExpression(exprOrderMemberExpr, 0)
+		superClass = p.parseExpression(exprOrderLHSExpr, 0)
 	}
-
-	n.Body = p.parseClassBody()
-	return n
+	return superClass, p.parseClassBody()
 }
 
 func (p *Parser) parseClassBody() []ast.Node {
@@ -87,37 +93,45 @@ func (p *Parser) parseClassBody() []ast.Node {
 			p.s.Scan()
 			break
 		}
+		if peek.Type == lexer.TokenPunctuatorSemicolon {
+			p.s.Scan()
+			continue
+		}
 
 		// TODO: implement member variables...
 		m := ast.MethodDefinition{}
 
-		// Static specifier
-		if peek.Type == lexer.TokenKeywordStatic {
-			p.s.Scan()
-			peek = p.s.PeekAt(0)
+		// Static specifier, unless it is the name of the method
+		t := p.s.Scan()
+		if t.Type == lexer.TokenKeywordStatic && p.s.PeekAt(0).Type != lexer.TokenPunctuatorOpenParen {
+			t = p.s.Scan()
 			m.Static = true
 		}
 
-		// Get/set specifier
-		switch peek.Type {
-		case lexer.TokenKeywordGet:
-			p.s.Scan()
+		// Get/set specifier, unless it is the name of the method
+		if t.Type == lexer.TokenKeywordGet && p.s.PeekAt(0).Type != lexer.TokenPunctuatorOpenParen {
+			t = p.s.Scan()
 			m.Kind = ast.GetMethod
-
-		case lexer.TokenKeywordSet:
-			p.s.Scan()
+		} else if t.Type == lexer.TokenKeywordSet && p.s.PeekAt(0).Type != lexer.TokenPunctuatorOpenParen {
+			t = p.s.Scan()
 			m.Kind = ast.SetMethod
 		}
 
-		// Identifier (possibly computed)
-		t := p.s.Scan()
+		// Property name (possibly computed)
+		t = p.ctx.keywordToIdentifier(t, true)
 		switch t.Type {
 		case lexer.TokenIdentifier:
 			m.Key = ast.Identifier{Name: t.Literal}
 
+		case lexer.TokenLiteralString:
+			m.Key = ast.StringLiteral{Value: t.StringConstant(), Raw: t.Literal}
+
+		case lexer.TokenLiteralNumber:
+			m.Key = ast.NumberLiteral{Value: t.NumberConstant(), Raw: t.Literal}
+
 		case lexer.TokenPunctuatorOpenBracket:
 			m.Computed = true
-			m.Key = p.parseExpression(exprOrderComma, 0)
+			m.Key = p.parseExpression(exprOrderAssign, 0)
 			p.s.ScanExpect(lexer.TokenPunctuatorCloseBracket, "expected `]`")
 
 		default:
diff --git a/ecmascript/parser/expression.go b/ecmascript/parser/expression.go
index eb51f72..001fd2d 100644
--- a/ecmascript/parser/expression.go
+++ b/ecmascript/parser/expression.go
@@ -233,14 +233,15 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 		n = m
 	case lexer.TokenKeywordClass:
 		m := ast.ClassExpression{}
-		if p.s.PeekAt(0).Type == lexer.TokenIdentifier {
+		ctx := p.ctx
+		p.ctx.strictMode = true
+		if t := p.s.PeekAt(0); t.Type != lexer.TokenKeywordExtends && t.Type != lexer.TokenPunctuatorOpenBrace {
 			m.ID = p.scanIdent("expected class name")
 		}
-		if p.s.PeekAt(0).Type == lexer.TokenKeywordExtends {
-			p.s.Scan()
-			m.SuperClass = p.parseExpression(exprOrderMemberExpr, 0)
-		}
-		m.Body = p.parseClassBody()
+		m.SuperClass, m.Body = p.parseClassTail()
+		p.ctx = ctx
+		m.SetStart(s)
+		m.SetEnd(p.s.Location())
 		n = m
 	case lexer.TokenLiteralRegExp:
 		m := ast.RegExpLiteral{
-- 
2.43.0


From c51ee2bd3d8b3e655686e8d9745a1071b53f7526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:31 +0000
Subject: [PATCH 43/63] fix: check the parts of for headers, and that
 destructuring declarations have initializers

---
 ecmascript/parser/declaration.go |  5 +--
 ecmascript/parser/statement.go   | 52 ++++++++++++++++++++++++--------
 2 files changed, 43 insertions(+), 14 deletions(-)

diff --git a/ecmascript/parser/declaration.go b/ecmascript/parser/declaration.go
index 2875f1a..4054e3a 100644
--- a/ecmascript/parser/declaration.go
+++ b/ecmascript/parser/declaration.go
@@ -36,6 +36,7 @@ func (p *Parser) parseFunctionDeclaration() ast.Node {
 
 func (p *Parser) parseLexicalDeclaration() ast.VariableDeclaration {
 	n := p.parseLexicalDeclarationNoSemicolon()
+	p.expectInitializers(n)
 	p.expectSemicolon()
 	p.setEnd(&n)
 	return n
@@ -48,10 +49,10 @@ func (p *Parser) parseLexicalDeclarationNoSemicolon() ast.VariableDeclaration {
 
 	switch p.s.Scan().Type {
 	case lexer.TokenKeywordLet:
-		n.Declarations = p.parseVariableDeclarations()
+		n.Declarations = p.parseVariableDeclarations(0)
 		n.Kind = ast.LetDeclaration
 	case lexer.TokenKeywordConst:
-		n.Declarations = p.parseVariableDeclarations()
+		n.Declarations = p.parseVariableDeclarations(0)
 		n.Kind = ast.ConstDeclaration
 	default:
 		p.s.SyntaxError("expected lexical declaration")
diff --git a/ecmascript/parser/statement.go b/ecmascript/parser/statement.go
index e1da652..e72f7e6 100644
--- a/ecmascript/parser/statement.go
+++ b/ecmascript/parser/statement.go
@@ -177,26 +177,27 @@ func (p *Parser) parseDirectives() []ast.Node {
 }
 
 func (p *Parser) parseVariableStatement() ast.VariableDeclaration {
-	n := p.parseVariableStatementNoSemicolon()
+	n := p.parseVariableStatementNoSemicolon(0)
+	p.expectInitializers(n)
 	p.expectSemicolon()
 	p.setEnd(&n)
 	return n
 }
 
-func (p *Parser) parseVariableStatementNoSemicolon() ast.VariableDeclaration {
+func (p *Parser) parseVariableStatementNoSemicolon(flags exprFlags) ast.VariableDeclaration {
 	n := ast.VariableDeclaration{}
 	p.setStart(&n)
 	defer p.setEnd(&n)
 
 	p.s.ScanExpect(lexer.TokenKeywordVar, "expected variable declaration")
-	n.Declarations = p.parseVariableDeclarations()
+	n.Declarations = p.parseVariableDeclarations(flags)
 	return n
 }
 
-func (p *Parser) parseVariableDeclarations() []ast.VariableDeclarator {
+func (p *Parser) parseVariableDeclarations(flags exprFlags) []ast.VariableDeclarator {
 	v := []ast.VariableDeclarator{}
 	for {
-		v = append(v, p.parseVariableDeclaration())
+		v = append(v, p.parseVariableDeclaration(flags))
 		if p.s.PeekAt(0).Type != lexer.TokenPunctuatorComma {
 			break
 		}
@@ -205,7 +206,7 @@ func (p *Parser) parseVariableDeclarations() []ast.VariableDeclarator {
 	return v
 }
 
-func (p *Parser) parseVariableDeclaration() ast.VariableDeclarator {
+func (p *Parser) parseVariableDeclaration(flags exprFlags) ast.VariableDeclarator {
 	v := ast.VariableDeclarator{}
 
 	t := p.ctx.keywordToIdentifier(p.s.PeekAt(0), false)
@@ -222,12 +223,22 @@ func (p *Parser) parseVariableDeclaration() ast.VariableDeclarator {
 
 	if p.s.PeekAt(0).Type == lexer.TokenPunctuatorAssign {
 		p.s.ScanExpect(lexer.TokenPunctuatorAssign, "expected `=`")
-		v.Init = p.parseExpression(exprOrderAssign, 0)
+		v.Init = p.parseExpression(exprOrderAssign, flags)
 	}
 
 	return v
 }
 
+// expectInitializers expects that what destructures has something to
+// destructure.
+func (p *Parser) expectInitializers(n ast.VariableDeclaration) {
+	for _, v := range n.Declarations {
+		if v.Init == nil && (v.ID.ArrayPattern != nil || v.ID.ObjectPattern != nil) {
+			p.s.SyntaxError("missing initializer in destructuring declaration")
+		}
+	}
+}
+
 func (p *Parser) parseArrayBindingPattern() *ast.ArrayBindingPattern {
 	p.s.ScanExpect(lexer.TokenPunctuatorOpenBracket, "expected array binding pattern")
 	return p.parseArrayBindingPatternTail()
@@ -431,16 +442,33 @@ func (p *Parser) parseForStatement() ast.Node {
 	// TODO: let, const, more of/in cases, etc.
 	if t.Type == lexer.TokenPunctuatorSemicolon {
 		n.Init = nil
-		p.expectSemicolon()
+		p.s.ScanExpect(lexer.TokenPunctuatorSemicolon, "expected `;`")
 	} else {
 		var v ast.Node
+		target := false
 		if t.Type == lexer.TokenKeywordVar {
-			v = p.parseVariableStatementNoSemicolon()
+			decl := p.parseVariableStatementNoSemicolon(exprFlagDisallowIn)
+			target = len(decl.Declarations) == 1 && decl.Declarations[0].Init == nil
+			if !target {
+				p.expectInitializers(decl)
+			}
+			v = decl
 		} else {
 			v = p.parseExpression(exprOrderComma, exprFlagDisallowIn)
+			target = isTarget(v, true)
 		}
 		// for in/of
 		switch p.s.PeekAt(0).Type {
+		case lexer.TokenKeywordIn, lexer.TokenKeywordOf:
+			if !target {
+				p.s.SyntaxError("invalid left-hand side in for-in or for-of")
+			}
+		default:
+			if decl, ok := v.(ast.VariableDeclaration); ok {
+				p.expectInitializers(decl)
+			}
+		}
+		switch p.s.PeekAt(0).Type {
 		case lexer.TokenKeywordIn:
 			p.s.ScanExpect(lexer.TokenKeywordIn, "expected `in`")
 			m := ast.ForInStatement{
@@ -457,7 +485,7 @@ func (p *Parser) parseForStatement() ast.Node {
 			p.s.ScanExpect(lexer.TokenKeywordOf, "expected `of`")
 			m := ast.ForOfStatement{
 				Left:  v,
-				Right: p.parseExpression(exprOrderComma, 0),
+				Right: p.parseExpression(exprOrderAssign, 0),
 			}
 			m.SetStart(n.Span().Start)
 			p.s.ScanExpect(lexer.TokenPunctuatorCloseParen, "expected `)`")
@@ -466,12 +494,12 @@ func (p *Parser) parseForStatement() ast.Node {
 			return m
 		}
 		n.Init = v
-		p.expectSemicolon()
+		p.s.ScanExpect(lexer.TokenPunctuatorSemicolon, "expected `;`")
 	}
 	if p.s.PeekAt(0).Type != lexer.TokenPunctuatorSemicolon {
 		n.Test = p.parseExpression(exprOrderComma, 0)
 	}
-	p.expectSemicolon()
+	p.s.ScanExpect(lexer.TokenPunctuatorSemicolon, "expected `;`")
 	if p.s.PeekAt(0).Type != lexer.TokenPunctuatorCloseParen {
 		n.Update = p.parseExpression(exprOrderComma, 0)
 	}
-- 
2.43.0


From 33d4cc8179bb8df5ef9a6ebfc26beff181126bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:32 +0000
Subject: [PATCH 44/63] fix: a do-while statement or a return needs no
 semicolon at the end

---
 ecmascript/parser/statement.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ecmascript/parser/statement.go b/ecmascript/parser/statement.go
index e72f7e6..eeeb410 100644
--- a/ecmascript/parser/statement.go
+++ b/ecmascript/parser/statement.go
@@ -412,7 +412,10 @@ func (p *Parser) parseDoWhileStatement() ast.Node {
 	p.s.ScanExpect(lexer.TokenPunctuatorOpenParen, "expected `(` in `while` of do/while statement")
 	n.Test = p.parseExpression(exprOrderComma, 0)
 	p.s.ScanExpect(lexer.TokenPunctuatorCloseParen, "expected `)` in `while` of do/while statement")
-	p.expectSemicolon()
+	// The semicolon is always optional here.
+	if p.s.PeekAt(0).Type == lexer.TokenPunctuatorSemicolon {
+		p.s.ScanExpect(lexer.TokenPunctuatorSemicolon, "expected `;`")
+	}
 	return n
 }
 
@@ -609,7 +612,7 @@ func (p *Parser) parseReturnStatement() ast.Node {
 
 	p.s.ScanExpect(lexer.TokenKeywordReturn, "expected return statement")
 	t := p.s.PeekAt(0)
-	if t.NewLine || t.Type == lexer.TokenPunctuatorSemicolon || t.Type == lexer.TokenPunctuatorCloseBrace {
+	if t.NewLine || t.Type == lexer.TokenNone || t.Type == lexer.TokenPunctuatorSemicolon || t.Type == lexer.TokenPunctuatorCloseBrace {
 		p.expectSemicolon()
 		return n
 	}
-- 
2.43.0


From c0168302d675f29c07827654dc1bbf6431825697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:34 +0000
Subject: [PATCH 45/63] fix: let and async can be labels and start expressions

---
 ecmascript/parser/statement.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ecmascript/parser/statement.go b/ecmascript/parser/statement.go
index eeeb410..1b28c27 100644
--- a/ecmascript/parser/statement.go
+++ b/ecmascript/parser/statement.go
@@ -57,11 +57,16 @@ func (p *Parser) parseStatement() ast.Node {
 			} else if p.s.PeekAt(1).Type == lexer.TokenPunctuatorOpenBrace {
 				// Object destructuring let (let {)
 				return nil
-			} else if p.ctx.keywordToIdentifier(p.s.PeekAt(1), true).Type == lexer.TokenIdentifier {
+			} else if p.ctx.keywordToIdentifier(p.s.PeekAt(1), false).Type == lexer.TokenIdentifier {
 				// Let with identifier (let ident)
 				return nil
 			}
 		}
+		if (p.s.PeekAt(0).Type == lexer.TokenKeywordAsync || p.s.PeekAt(0).Type == lexer.TokenKeywordLet) &&
+			p.ctx.keywordToIdentifier(p.s.PeekAt(0), false).Type == lexer.TokenIdentifier &&
+			p.s.PeekAt(1).Type == lexer.TokenPunctuatorColon {
+			return p.parseLabelledStatement()
+		}
 		return p.parseExpressionStatement()
 	case lexer.TokenKeywordDo:
 		return p.parseDoWhileStatement()
-- 
2.43.0


From 12ea1fcfda025f382e85927e79e8c935d983fc9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:35 +0000
Subject: [PATCH 46/63] fix: reserved words can be property names in object
 binding patterns

---
 ecmascript/parser/statement.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ecmascript/parser/statement.go b/ecmascript/parser/statement.go
index 1b28c27..70fdf1f 100644
--- a/ecmascript/parser/statement.go
+++ b/ecmascript/parser/statement.go
@@ -322,7 +322,12 @@ func (p *Parser) parseObjectBindingPatternTail() *ast.ObjectBindingPattern {
 	n := &ast.ObjectBindingPattern{}
 	for {
 		b := ast.BindingProperty{}
-		t := p.ctx.keywordToIdentifier(p.s.Scan(), false)
+		t := p.s.Scan()
+		if p.s.PeekAt(0).Type == lexer.TokenPunctuatorColon {
+			// Any word can be a property name.
+			t = p.ctx.keywordToIdentifier(t, true)
+		}
+		t = p.ctx.keywordToIdentifier(t, false)
 		switch t.Type {
 		case lexer.TokenIdentifier:
 			b.PropertyName = t.Literal
-- 
2.43.0


From 2dfc1bcaa05892637b529853d2e022c34d82040e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:12 +0000
Subject: [PATCH 47/63] fix: check the specifiers of import lists

---
 ecmascript/parser/module.go | 30 +++++++++++-------------------
 1 file changed, 11 insertions(+), 19 deletions(-)

diff --git a/ecmascript/parser/module.go b/ecmascript/parser/module.go
index ae3a0b1..c9f1df8 100644
--- a/ecmascript/parser/module.go
+++ b/ecmascript/parser/module.go
@@ -88,26 +88,18 @@ func (p *Parser) parseImportDecl() ast.ImportDeclNode {
 			if t.Type == lexer.TokenPunctuatorCloseBrace {
 				break importList
 			}
-			item := ast.NamedImport{
-				Identifier: p.expectIdent(t, "expected import specifier in import list"),
-			}
-			t = p.s.Scan()
-			switch t.Type {
-			case lexer.TokenPunctuatorCloseBrace:
-				n.NamedImports = append(n.NamedImports, item)
-				break importList
-			case lexer.TokenPunctuatorComma:
-				n.NamedImports = append(n.NamedImports, item)
-			case lexer.TokenKeywordAs:
+			// Any word can be imported, but only identifiers can be bound.
+			item := ast.NamedImport{}
+			if p.s.PeekAt(0).Type == lexer.TokenKeywordAs {
+				item.Identifier = p.forceIdent(t, "expected import specifier in import list")
+				p.s.Scan()
 				item.AsBinding = p.scanIdent("expected import binding after `as` in import list")
-				t = p.s.Scan()
-				switch t.Type {
-				case lexer.TokenPunctuatorCloseBrace:
-					n.NamedImports = append(n.NamedImports, item)
-					break importList
-				case lexer.TokenPunctuatorComma:
-					n.NamedImports = append(n.NamedImports, item)
-				}
+			} else {
+				item.Identifier = p.expectIdent(t, "expected import specifier in import list")
+			}
+			n.NamedImports = append(n.NamedImports, item)
+			if p.s.PeekAt(0).Type != lexer.TokenPunctuatorCloseBrace {
+				p.s.ScanExpect(lexer.TokenPunctuatorComma, "expected `,` or `}` in import list")
 			}
 		}
 
-- 
2.43.0


From b0f11665523cbf0d048f777bbd068ba853bdc189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:51 +0000
Subject: [PATCH 48/63] fix: class heritage and empty bodies have their ESTree
 representation

---
 ecmascript/ast/declaration.go | 3 ++-
 ecmascript/ast/expressions.go | 3 ++-
 ecmascript/ast/module.go      | 1 +
 ecmascript/ast/script.go      | 1 +
 4 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/ecmascript/ast/declaration.go b/ecmascript/ast/declaration.go
index 086fc8f..4605d6f 100644
--- a/ecmascript/ast/declaration.go
+++ b/ecmascript/ast/declaration.go
@@ -71,7 +71,7 @@ func (n ClassDeclaration) ESTree() interface{} {
 	e := struct {
 		Type       string      `json:"type"`
 		ID         interface{} `json:"id"`
-		SuperClass interface{} `json:"params"`
+		SuperClass interface{} `json:"superClass"`
 		Body       struct {
 			Type string        `json:"type"`
 			Body []interface{} `json:"body"`
@@ -83,6 +83,7 @@ func (n ClassDeclaration) ESTree() interface{} {
 	}
 
 	e.Body.Type = "ClassBody"
+	e.Body.Body = []interface{}{}
 	for _, elem := range n.Body {
 		e.Body.Body = append(e.Body.Body, estree(elem))
 	}
diff --git a/ecmascript/ast/expressions.go b/ecmascript/ast/expressions.go
index 7921baf..b53d366 100644
--- a/ecmascript/ast/expressions.go
+++ b/ecmascript/ast/expressions.go
@@ -482,7 +482,7 @@ func (n ClassExpression) ESTree() interface{} {
 	e := struct {
 		Type       string      `json:"type"`
 		ID         interface{} `json:"id"`
-		SuperClass interface{} `json:"params"`
+		SuperClass interface{} `json:"superClass"`
 		Body       struct {
 			Type string        `json:"type"`
 			Body []interface{} `json:"body"`
@@ -494,6 +494,7 @@ func (n ClassExpression) ESTree() interface{} {
 	}
 
 	e.Body.Type = "ClassBody"
+	e.Body.Body = []interface{}{}
 	for _, elem := range n.Body {
 		e.Body.Body = append(e.Body.Body, estree(elem))
 	}
diff --git a/ecmascript/ast/module.go b/ecmascript/ast/module.go
index 4d7c0f6..90f5a39 100644
--- a/ecmascript/ast/module.go
+++ b/ecmascript/ast/module.go
@@ -14,6 +14,7 @@ func (n ModuleNode) ESTree() interface{} {
 		SourceType string        `json:"sourceType"`
 	}{
 		Type:       "Program",
+		Body:       []interface{}{},
 		SourceType: "module",
 	}
 	for _, stmt := range n.Body {
diff --git a/ecmascript/ast/script.go b/ecmascript/ast/script.go
index b6894ae..9f21331 100644
--- a/ecmascript/ast/script.go
+++ b/ecmascript/ast/script.go
@@ -14,6 +14,7 @@ func (n ScriptNode) ESTree() interface{} {
 		SourceType string        `json:"sourceType"`
 	}{
 		Type:       "Program",
+		Body:       []interface{}{},
 		SourceType: "script",
 	}
 	for _, stmt := range n.Body {
-- 
2.43.0


From de4ef501ab282301ecafdefae84cf5f8f83cad58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:53 +0000
Subject: [PATCH 49/63] fix: do not lose the defaults of object pattern
 properties in ESTree

---
 ecmascript/ast/statement.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/ecmascript/ast/statement.go b/ecmascript/ast/statement.go
index 8141a6e..6579b79 100644
--- a/ecmascript/ast/statement.go
+++ b/ecmascript/ast/statement.go
@@ -239,6 +239,17 @@ func (n BindingProperty) ESTree() interface{} {
 	if v == nil {
 		v, shorthand = k, true
 	}
+	if n.Init != nil {
+		v = struct {
+			Type  string      `json:"type"`
+			Left  interface{} `json:"left"`
+			Right interface{} `json:"right"`
+		}{
+			Type:  "AssignmentPattern",
+			Left:  v,
+			Right: estree(n.Init),
+		}
+	}
 	return struct {
 		Type      string      `json:"type"`
 		Key       interface{} `json:"key"`
-- 
2.43.0


From 151ed21092655053bfe7417ba6c0273247589c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:54 +0000
Subject: [PATCH 50/63] fix: constructors have their own method kind in ESTree

---
 ecmascript/ast/declaration.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/ecmascript/ast/declaration.go b/ecmascript/ast/declaration.go
index 4605d6f..9e409cc 100644
--- a/ecmascript/ast/declaration.go
+++ b/ecmascript/ast/declaration.go
@@ -118,6 +118,19 @@ type MethodDefinition struct {
 
 // ESTree returns the corresponding ESTree representation for this node.
 func (n MethodDefinition) ESTree() interface{} {
+	kind := estreeMethodKindMap[n.Kind]
+	if n.Kind == Method && !n.Static && !n.Computed {
+		switch key := n.Key.(type) {
+		case Identifier:
+			if key.Name == "constructor" {
+				kind = "constructor"
+			}
+		case StringLiteral:
+			if key.Value == "constructor" {
+				kind = "constructor"
+			}
+		}
+	}
 	return struct {
 		Type     string      `json:"type"`
 		Key      interface{} `json:"key"`
@@ -130,7 +143,7 @@ func (n MethodDefinition) ESTree() interface{} {
 		Key:      estree(n.Key),
 		Computed: n.Computed,
 		Value:    estree(n.Value),
-		Kind:     estreeMethodKindMap[n.Kind],
+		Kind:     kind,
 		Static:   n.Static,
 	}
 }
-- 
2.43.0


From d02b251c817557419b6418697f63dd279584e4fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:56 +0000
Subject: [PATCH 51/63] fix: literals beyond the range of numbers can be
 encoded as JSON

---
 ecmascript/ast/expressions_literal.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/ecmascript/ast/expressions_literal.go b/ecmascript/ast/expressions_literal.go
index 4958638..45a0e73 100644
--- a/ecmascript/ast/expressions_literal.go
+++ b/ecmascript/ast/expressions_literal.go
@@ -1,5 +1,7 @@
 package ast
 
+import "math"
+
 // NullLiteral is a node containing a null literal.
 //
 // For example:
@@ -108,13 +110,18 @@ type NumberLiteral struct {
 
 // ESTree returns the corresponding ESTree representation for this node.
 func (n NumberLiteral) ESTree() interface{} {
+	// JSON has no number for infinity.
+	var value interface{}
+	if !math.IsInf(n.Value, 0) {
+		value = n.Value
+	}
 	return struct {
-		Type  string  `json:"type"`
-		Value float64 `json:"value"`
-		Raw   string  `json:"raw"`
+		Type  string      `json:"type"`
+		Value interface{} `json:"value"`
+		Raw   string      `json:"raw"`
 	}{
 		Type:  "Literal",
-		Value: n.Value,
+		Value: value,
 		Raw:   n.Raw,
 	}
 }
-- 
2.43.0


From 437e2025eb9e34be1cbbfc7f0992fbc24acd9d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:57 +0000
Subject: [PATCH 52/63] fix: import declarations have an ESTree representation

---
 ecmascript/ast/module.go | 45 +++++++++++++++++++++++++++++++++++++++-
 1 file changed, 44 insertions(+), 1 deletion(-)

diff --git a/ecmascript/ast/module.go b/ecmascript/ast/module.go
index 90f5a39..9b16314 100644
--- a/ecmascript/ast/module.go
+++ b/ecmascript/ast/module.go
@@ -56,7 +56,50 @@ type ImportDeclNode struct {
 
 // ESTree returns the corresponding ESTree representation for this node.
 func (n ImportDeclNode) ESTree() interface{} {
-	panic("unimplemented")
+	type specifier struct {
+		Type     string      `json:"type"`
+		Imported interface{} `json:"imported,omitempty"`
+		Local    interface{} `json:"local"`
+	}
+	e := struct {
+		Type       string        `json:"type"`
+		Specifiers []interface{} `json:"specifiers"`
+		Source     interface{}   `json:"source"`
+	}{
+		Type:       "ImportDeclaration",
+		Specifiers: []interface{}{},
+		Source: struct {
+			Type  string `json:"type"`
+			Value string `json:"value"`
+		}{
+			Type:  "Literal",
+			Value: n.Module,
+		},
+	}
+	if n.DefaultBinding != nil {
+		e.Specifiers = append(e.Specifiers, specifier{
+			Type:  "ImportDefaultSpecifier",
+			Local: estreeIdent(n.DefaultBinding.Identifier),
+		})
+	}
+	if n.NameSpace != nil {
+		e.Specifiers = append(e.Specifiers, specifier{
+			Type:  "ImportNamespaceSpecifier",
+			Local: estreeIdent(n.NameSpace.Identifier),
+		})
+	}
+	for _, item := range n.NamedImports {
+		local := item.AsBinding
+		if local == "" {
+			local = item.Identifier
+		}
+		e.Specifiers = append(e.Specifiers, specifier{
+			Type:     "ImportSpecifier",
+			Imported: estreeIdent(item.Identifier),
+			Local:    estreeIdent(local),
+		})
+	}
+	return e
 }
 
 // ImportDefaultBinding contains the default import identifier.
-- 
2.43.0


From ecbf2e416f1e7c6c06983bdf349bb9364fd7f59f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:58 +0000
Subject: [PATCH 53/63] fix: report a missing argument to the web parser as an
 error

---
 web/parser/parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/web/parser/parser.go b/web/parser/parser.go
index 7e5c482..8ada30b 100644
--- a/web/parser/parser.go
+++ b/web/parser/parser.go
@@ -19,6 +19,9 @@ func main() {
 }
 
 func ParseES(this js.Value, p []js.Value) interface{} {
+	if len(p) == 0 {
+		return map[string]interface{}{"error": "no source text"}
+	}
 	n, err := parser.NewParser(lexer.NewLexer(lexer.NewScanner(strings.NewReader(p[0].String()), nil))).Parse(parser.ParseOptions{Mode: parser.ScriptMode})
 	if err != nil {
 		return map[string]interface{}{"error": err.Error()}
-- 
2.43.0


From 4af08a77ffb457b3f1053805062a62b0d33cccb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:56 +0000
Subject: [PATCH 54/63] fix: reject return outside of functions

---
 ecmascript/parser/context.go    | 1 +
 ecmascript/parser/expression.go | 2 ++
 ecmascript/parser/statement.go  | 3 +++
 3 files changed, 6 insertions(+)

diff --git a/ecmascript/parser/context.go b/ecmascript/parser/context.go
index f14ca09..5c5767e 100644
--- a/ecmascript/parser/context.go
+++ b/ecmascript/parser/context.go
@@ -7,6 +7,7 @@ type parseContext struct {
 	strictMode bool
 	async      bool
 	generator  bool
+	function   bool
 }
 
 // keywordToIdentifier converts a keyword to an identifier, if permissible in
diff --git a/ecmascript/parser/expression.go b/ecmascript/parser/expression.go
index 001fd2d..b715704 100644
--- a/ecmascript/parser/expression.go
+++ b/ecmascript/parser/expression.go
@@ -713,6 +713,7 @@ func (p *Parser) parseArrowTail(start ast.Location, params ast.FormalParameters,
 	ctx := p.ctx
 	p.ctx.async = async
 	p.ctx.generator = false
+	p.ctx.function = true
 	if p.s.PeekAt(0).Type == lexer.TokenPunctuatorOpenBrace {
 		m.Body = p.parseFunctionBody()
 	} else {
@@ -1149,6 +1150,7 @@ func (p *Parser) parseFunctionTail(async, generator bool) (ast.FormalParameters,
 	ctx := p.ctx
 	p.ctx.async = async
 	p.ctx.generator = generator
+	p.ctx.function = true
 	params := p.parseParameters()
 	body := p.parseFunctionBody()
 	p.ctx = ctx
diff --git a/ecmascript/parser/statement.go b/ecmascript/parser/statement.go
index 70fdf1f..3d25a6a 100644
--- a/ecmascript/parser/statement.go
+++ b/ecmascript/parser/statement.go
@@ -621,6 +621,9 @@ func (p *Parser) parseReturnStatement() ast.Node {
 	defer p.setEnd(&n)
 
 	p.s.ScanExpect(lexer.TokenKeywordReturn, "expected return statement")
+	if !p.ctx.function {
+		p.s.SyntaxError("return outside of a function")
+	}
 	t := p.s.PeekAt(0)
 	if t.NewLine || t.Type == lexer.TokenNone || t.Type == lexer.TokenPunctuatorSemicolon || t.Type == lexer.TokenPunctuatorCloseBrace {
 		p.expectSemicolon()
-- 
2.43.0


From 0ce23749883a9fb5dd5bd0a7bb0d0a2c8b5df04a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:37 +0000
Subject: [PATCH 55/63] fix: an assignment, condition or list ending in an
 arrow function is not an operand

---
 ecmascript/parser/expression.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/ecmascript/parser/expression.go b/ecmascript/parser/expression.go
index b715704..db267bb 100644
--- a/ecmascript/parser/expression.go
+++ b/ecmascript/parser/expression.go
@@ -305,8 +305,7 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 	for {
 		// exprOrderLHSExpr
 		t = p.s.PeekAt(0)
-		if fn, ok := n.(ast.FunctionExpression); ok && fn.Arrow && t.Type != lexer.TokenPunctuatorComma {
-			// An arrow function is not an operand.
+		if !isOperand(n) && t.Type != lexer.TokenPunctuatorComma {
 			break
 		}
 		lhs := isLHS(n)
@@ -725,6 +724,18 @@ func (p *Parser) parseArrowTail(start ast.Location, params ast.FormalParameters,
 	return m
 }
 
+// isOperand returns whether n can be the left operand of something other than
+// a comma. What may end in the body of an arrow function can not.
+func isOperand(n ast.Node) bool {
+	switch n := n.(type) {
+	case ast.FunctionExpression:
+		return !n.Arrow
+	case ast.AssignmentExpression, ast.ConditionalExpression, ast.SequenceExpression:
+		return false
+	}
+	return true
+}
+
 // isLHS returns whether n can be the operand of a postfix operator, that is,
 // whether it is a LeftHandSideExpression.
 func isLHS(n ast.Node) bool {
-- 
2.43.0


From 60341ef29866c07b9eab8bb45ba8cb04d7fcf0f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:44 +0000
Subject: [PATCH 56/63] fix: limit the nesting depth, which could exhaust the
 stack

---
 ecmascript/parser/declaration.go |  2 ++
 ecmascript/parser/expression.go  |  2 ++
 ecmascript/parser/parser.go      | 19 +++++++++++++++++++
 ecmascript/parser/statement.go   |  6 ++++++
 4 files changed, 29 insertions(+)

diff --git a/ecmascript/parser/declaration.go b/ecmascript/parser/declaration.go
index 4054e3a..4b734ce 100644
--- a/ecmascript/parser/declaration.go
+++ b/ecmascript/parser/declaration.go
@@ -6,6 +6,8 @@ import (
 )
 
 func (p *Parser) parseDeclaration() ast.Node {
+	defer p.nest()()
+
 	switch p.s.PeekAt(0).Type {
 	case lexer.TokenKeywordFunction:
 		return p.parseFunctionDeclaration()
diff --git a/ecmascript/parser/expression.go b/ecmascript/parser/expression.go
index db267bb..b5cd410 100644
--- a/ecmascript/parser/expression.go
+++ b/ecmascript/parser/expression.go
@@ -52,6 +52,8 @@ const (
 // operator. Note that flags may or may not propagate to sub-expressions,
 // depending on exactly what kind of sub-expression it is.
 func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
+	defer p.nest()()
+
 	if flags&exprFlagArrowHead != 0 {
 		switch p.s.PeekAt(0).Type {
 		case lexer.TokenPunctuatorCloseParen:
diff --git a/ecmascript/parser/parser.go b/ecmascript/parser/parser.go
index 3ca49f6..3640e4d 100644
--- a/ecmascript/parser/parser.go
+++ b/ecmascript/parser/parser.go
@@ -1,6 +1,7 @@
 package parser
 
 import (
+	"errors"
 	"fmt"
 
 	"github.com/jchv/cleansheets/ecmascript/ast"
@@ -27,10 +28,28 @@ type ParseOptions struct {
 	Mode ParseMode
 }
 
+// maxNesting is how deep expressions, statements and patterns may be nested,
+// so that they cannot exhaust the stack. JSON encoding goes no deeper either.
+const maxNesting = 10000
+
 // Parser parses ECMAScript code according to ECMA262.
 type Parser struct {
 	s   *Scanner
 	ctx parseContext
+
+	nesting int
+}
+
+// nest enters a nested construct. The function it returns leaves it.
+func (p *Parser) nest() func() {
+	p.nesting++
+	if p.nesting > maxNesting {
+		panic(&errs.ParserError{
+			Location: p.s.Location(),
+			Err:      errors.New("nesting too deep"),
+		})
+	}
+	return func() { p.nesting-- }
 }
 
 // NewParser creates a new parser.
diff --git a/ecmascript/parser/statement.go b/ecmascript/parser/statement.go
index 3d25a6a..c1a71e0 100644
--- a/ecmascript/parser/statement.go
+++ b/ecmascript/parser/statement.go
@@ -19,6 +19,8 @@ func (p *Parser) parseStatementItem() ast.Node {
 }
 
 func (p *Parser) parseStatement() ast.Node {
+	defer p.nest()()
+
 	switch p.s.PeekAt(0).Type {
 	case lexer.TokenPunctuatorOpenBrace:
 		return p.parseBlock()
@@ -250,6 +252,8 @@ func (p *Parser) parseArrayBindingPattern() *ast.ArrayBindingPattern {
 }
 
 func (p *Parser) parseArrayBindingPatternTail() *ast.ArrayBindingPattern {
+	defer p.nest()()
+
 	n := &ast.ArrayBindingPattern{}
 	for {
 		b := ast.BindingElement{}
@@ -319,6 +323,8 @@ func (p *Parser) parseObjectBindingPattern() *ast.ObjectBindingPattern {
 }
 
 func (p *Parser) parseObjectBindingPatternTail() *ast.ObjectBindingPattern {
+	defer p.nest()()
+
 	n := &ast.ObjectBindingPattern{}
 	for {
 		b := ast.BindingProperty{}
-- 
2.43.0


From 963148de9a82585a1b3ea21862c90422dad65c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:54 +0000
Subject: [PATCH 57/63] fix: for-of statements have ESTree's await field

---
 ecmascript/ast/statement.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ecmascript/ast/statement.go b/ecmascript/ast/statement.go
index 6579b79..6092812 100644
--- a/ecmascript/ast/statement.go
+++ b/ecmascript/ast/statement.go
@@ -495,6 +495,7 @@ func (n ForOfStatement) ESTree() interface{} {
 		Left  interface{} `json:"left"`
 		Right interface{} `json:"right"`
 		Body  interface{} `json:"body"`
+		Await bool        `json:"await"`
 	}{
 		Type:  "ForOfStatement",
 		Left:  estree(n.Left),
-- 
2.43.0


From 814a25760af576116fcfd2e4bd49be63c4bd5460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:12 +0000
Subject: [PATCH 58/63] fix: limit the depth of operator chains, which could
 exhaust the stack

---
 ecmascript/parser/expression.go |  5 +++++
 ecmascript/parser/parser.go     | 24 ++++++++++++++++++++++--
 2 files changed, 27 insertions(+), 2 deletions(-)

diff --git a/ecmascript/parser/expression.go b/ecmascript/parser/expression.go
index b5cd410..dacc544 100644
--- a/ecmascript/parser/expression.go
+++ b/ecmascript/parser/expression.go
@@ -89,6 +89,7 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 	wrapbinary := func(op ast.BinaryOperator, next exprOrder) ast.Node {
 		m := ast.BinaryExpression{Operator: op}
 		m.Left = n
+		p.deepen()
 		m.Right = p.parseExpression(next, inner)
 		m.SetStart(s)
 		m.SetEnd(p.s.Location())
@@ -312,6 +313,7 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 		}
 		lhs := isLHS(n)
 		if lhs && t.Type == lexer.TokenPunctuatorDot {
+			p.deepen()
 			p.s.ScanExpect(lexer.TokenPunctuatorDot, "expected `.` operator")
 			m := ast.MemberExpression{
 				Object:   n,
@@ -325,6 +327,7 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 			n = m
 			continue
 		} else if lhs && t.Type == lexer.TokenPunctuatorOpenBracket {
+			p.deepen()
 			p.s.ScanExpect(lexer.TokenPunctuatorOpenBracket, "expected `[` operator")
 			m := ast.MemberExpression{
 				Object:   n,
@@ -342,6 +345,7 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 		}
 
 		if lhs && t.Type == lexer.TokenPunctuatorOpenParen {
+			p.deepen()
 			m := ast.CallExpression{
 				Callee: n,
 			}
@@ -356,6 +360,7 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 		}
 
 		if lhs && t.Type == lexer.TokenPunctuatorOptionalChain {
+			p.deepen()
 			p.s.ScanExpect(lexer.TokenPunctuatorDot, "expected `?.` operator")
 			if p.s.PeekAt(0).Type == lexer.TokenPunctuatorOpenBracket {
 				p.s.ScanExpect(lexer.TokenPunctuatorOpenBracket, "expected `[` operator")
diff --git a/ecmascript/parser/parser.go b/ecmascript/parser/parser.go
index 3640e4d..1582399 100644
--- a/ecmascript/parser/parser.go
+++ b/ecmascript/parser/parser.go
@@ -38,18 +38,38 @@ type Parser struct {
 	ctx parseContext
 
 	nesting int
+
+	// deepest is the deepest nesting inside of the current construct.
+	deepest int
 }
 
 // nest enters a nested construct. The function it returns leaves it.
 func (p *Parser) nest() func() {
 	p.nesting++
-	if p.nesting > maxNesting {
+	p.limitNesting(p.nesting)
+	before := p.deepest
+	p.deepest = p.nesting
+	return func() {
+		p.nesting--
+		if p.deepest < before {
+			p.deepest = before
+		}
+	}
+}
+
+// deepen notes that the operand parsed so far becomes a part of another node.
+func (p *Parser) deepen() {
+	p.deepest++
+	p.limitNesting(p.deepest)
+}
+
+func (p *Parser) limitNesting(depth int) {
+	if depth > maxNesting {
 		panic(&errs.ParserError{
 			Location: p.s.Location(),
 			Err:      errors.New("nesting too deep"),
 		})
 	}
-	return func() { p.nesting-- }
 }
 
 // NewParser creates a new parser.
-- 
2.43.0


From 8e61aa8f9b9d8db8d5cab50d3c86f715a94f7fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:27 +0000
Subject: [PATCH 59/63] fix: estree writes a separator only between documents
 and reports what it cannot write

---
 cmd/estree/main.go | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/cmd/estree/main.go b/cmd/estree/main.go
index 1f3fe2f..0817fee 100644
--- a/cmd/estree/main.go
+++ b/cmd/estree/main.go
@@ -2,6 +2,7 @@ package main
 
 import (
 	"bufio"
+	"bytes"
 	"encoding/json"
 	"flag"
 	"log"
@@ -16,16 +17,12 @@ import (
 func main() {
 	flag.Parse()
 
-	encoder := json.NewEncoder(os.Stdout)
+	output := bytes.Buffer{}
+	encoder := json.NewEncoder(&output)
 	encoder.SetEscapeHTML(false)
 	encoder.SetIndent("", "  ")
 
 	for i, filename := range flag.Args() {
-		// Write separator if multiple files.
-		if i != 0 {
-			os.Stdout.Write([]byte("\n---\n"))
-		}
-
 		// Open file for reading and create a buffered reader.
 		file, err := os.Open(filename)
 		if err != nil {
@@ -54,10 +51,19 @@ func main() {
 			log.Fatalf("Could not parse ECMAscript file %q: %v", filename, err)
 		}
 
+		// Write separator if multiple files.
+		output.Reset()
+		if i != 0 {
+			output.WriteString("\n---\n")
+		}
+
 		// Output ESTree AST.
 		err = encoder.Encode(script.ESTree())
 		if err != nil {
-			log.Fatalf("Error while encoding ESTree AST: %v", err)
+			log.Fatalf("Error while encoding ESTree AST of %q: %v", filename, err)
+		}
+		if _, err := output.WriteTo(os.Stdout); err != nil {
+			log.Fatalf("Could not write ESTree AST of %q: %v", filename, err)
 		}
 	}
 }
-- 
2.43.0


From 3aa401fe22b0e9ee5a9bcdb6a1c7a2ed77428aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:28 +0000
Subject: [PATCH 60/63] fix: estree closes each file when it is done with it

---
 cmd/estree/main.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/cmd/estree/main.go b/cmd/estree/main.go
index 0817fee..662632b 100644
--- a/cmd/estree/main.go
+++ b/cmd/estree/main.go
@@ -28,11 +28,6 @@ func main() {
 		if err != nil {
 			log.Fatalf("Could not open file for reading: %q", filename)
 		}
-		defer func(file *os.File) {
-			if err := file.Close(); err != nil {
-				log.Printf("Warning: Error closing file: %v", err)
-			}
-		}(file)
 		reader := bufio.NewReader(file)
 
 		// Try to calculate a file URL.
@@ -47,6 +42,9 @@ func main() {
 
 		// Parse script.
 		script, err := parser.NewParser(lexer.NewLexer(lexer.NewScanner(reader, url))).Parse(parser.ParseOptions{Mode: parser.ScriptMode})
+		if err := file.Close(); err != nil {
+			log.Printf("Warning: Error closing file: %v", err)
+		}
 		if err != nil {
 			log.Fatalf("Could not parse ECMAscript file %q: %v", filename, err)
 		}
-- 
2.43.0


From 4f614e9576907c5f4e79156c4a4af0cb93858071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:48 +0000
Subject: [PATCH 61/63] fix: the web front end answers a BigInt with an error
 instead of dying

---
 web/parser/parser.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/web/parser/parser.go b/web/parser/parser.go
index 8ada30b..d1b7db0 100644
--- a/web/parser/parser.go
+++ b/web/parser/parser.go
@@ -5,6 +5,7 @@ package main
 
 import (
 	"encoding/json"
+	"fmt"
 	"strings"
 	"syscall/js"
 
@@ -18,7 +19,13 @@ func main() {
 	<-c
 }
 
-func ParseES(this js.Value, p []js.Value) interface{} {
+func ParseES(this js.Value, p []js.Value) (answer interface{}) {
+	// Some values, such as a BigInt, cannot even be asked for their type.
+	defer func() {
+		if r := recover(); r != nil {
+			answer = map[string]interface{}{"error": fmt.Sprint(r)}
+		}
+	}()
 	if len(p) == 0 {
 		return map[string]interface{}{"error": "no source text"}
 	}
-- 
2.43.0


From 39ba7771194c680455d00e4a0cbd320cbc66eaeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:32 +0000
Subject: [PATCH 62/63] fix: report a missing initializer where it is missing

---
 ecmascript/parser/statement.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/ecmascript/parser/statement.go b/ecmascript/parser/statement.go
index c1a71e0..806e647 100644
--- a/ecmascript/parser/statement.go
+++ b/ecmascript/parser/statement.go
@@ -208,6 +208,7 @@ func (p *Parser) parseVariableDeclarations(flags exprFlags) []ast.VariableDeclar
 		if p.s.PeekAt(0).Type != lexer.TokenPunctuatorComma {
 			break
 		}
+		p.expectInitializer(v[len(v)-1])
 		p.s.ScanExpect(lexer.TokenPunctuatorComma, "expected comma")
 	}
 	return v
@@ -236,13 +237,17 @@ func (p *Parser) parseVariableDeclaration(flags exprFlags) ast.VariableDeclarato
 	return v
 }
 
-// expectInitializers expects that what destructures has something to
-// destructure.
 func (p *Parser) expectInitializers(n ast.VariableDeclaration) {
 	for _, v := range n.Declarations {
-		if v.Init == nil && (v.ID.ArrayPattern != nil || v.ID.ObjectPattern != nil) {
-			p.s.SyntaxError("missing initializer in destructuring declaration")
-		}
+		p.expectInitializer(v)
+	}
+}
+
+// expectInitializer expects that what destructures has something to
+// destructure.
+func (p *Parser) expectInitializer(v ast.VariableDeclarator) {
+	if v.Init == nil && (v.ID.ArrayPattern != nil || v.ID.ObjectPattern != nil) {
+		p.s.SyntaxError("missing initializer in destructuring declaration")
 	}
 }
 
-- 
2.43.0


From fcf5d80eee8545284c79a634749a24f2e21f9acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:43 +0000
Subject: [PATCH 63/63] fix: nothing is read from the reader after its end

---
 ecmascript/lexer/scanner.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ecmascript/lexer/scanner.go b/ecmascript/lexer/scanner.go
index 966b316..14d81e5 100644
--- a/ecmascript/lexer/scanner.go
+++ b/ecmascript/lexer/scanner.go
@@ -53,6 +53,11 @@ func (s *Scanner) Location() ast.Location {
 
 // Read reads a rune and returns it. On EOF, EOFRune is returned.
 func (s *Scanner) Read() rune {
+	// The reader might have more after the end, or fail there.
+	if s.eof {
+		return EOFRune
+	}
+
 	r, _, err := s.r.ReadRune()
 
 	if errors.Is(err, io.EOF) {
-- 
2.43.0

