From 3fda4085cf484b0b11dcfa18a289464d635f4548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:07 +0000
Subject: [PATCH 01/75] fix: keep line breaks in and after comments, end
 comments at **/

---
 ecmascript/lexer/lexer.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/ecmascript/lexer/lexer.go b/ecmascript/lexer/lexer.go
index fc94a57..a982f41 100644
--- a/ecmascript/lexer/lexer.go
+++ b/ecmascript/lexer/lexer.go
@@ -143,6 +143,9 @@ func (l *Lexer) consumeMultiLineComment() {
 	var r rune
 	for {
 		r = l.s.Read()
+		if isLineTerm(r) {
+			l.newLine = true
+		}
 		switch r {
 		case '*':
 			switch l.s.Read() {
@@ -153,6 +156,10 @@ func (l *Lexer) consumeMultiLineComment() {
 					Location: l.s.Location(),
 					Err:      errors.New("unexpected EOF"),
 				})
+			default:
+				// This rune may itself be a line terminator or the * of the
+				// closing */.
+				l.s.Unread()
 			}
 		case EOFRune:
 			panic(&errs.SyntaxError{
@@ -163,12 +170,14 @@ func (l *Lexer) consumeMultiLineComment() {
 	}
 }
 
-// Consumes a single-line comment, eating until after the next line term.
+// Consumes a single-line comment, eating up to the next line term. The line
+// term is not part of the comment.
 func (l *Lexer) consumeSingleLineComment() {
 	var r rune
 	for {
 		r = l.s.Read()
 		if isLineTerm(r) || r == EOFRune {
+			l.s.Unread()
 			return
 		}
 	}
-- 
2.43.0


From e854f1c0677163953ef23a7d93c02d84e2f91f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:27 +0000
Subject: [PATCH 02/75] fix: do not move the location back when unreading at
 end of input

---
 ecmascript/lexer/scanner.go | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/ecmascript/lexer/scanner.go b/ecmascript/lexer/scanner.go
index fe312c4..1809bba 100644
--- a/ecmascript/lexer/scanner.go
+++ b/ecmascript/lexer/scanner.go
@@ -88,15 +88,18 @@ func (s *Scanner) Read() rune {
 // Unread unreads a rune. If we are at EOF, this will not call the underlying
 // RuneReader, so it is safe to unread at EOF.
 func (s *Scanner) Unread() {
-	if !s.eof {
-		err := s.r.UnreadRune()
-
-		if err != nil {
-			panic(&errs.ParserError{
-				Location: s.Location(),
-				Err:      err,
-			})
-		}
+	if s.eof {
+		// Reading EOF did not move the source location either.
+		return
+	}
+
+	err := s.r.UnreadRune()
+
+	if err != nil {
+		panic(&errs.ParserError{
+			Location: s.Location(),
+			Err:      err,
+		})
 	}
 
 	// If negative: we just read a line terminal rune. Invert col and
-- 
2.43.0


From 739d21cdc5141eb54116025b5a6393789688dc14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:29 +0000
Subject: [PATCH 03/75] fix: count a CRLF sequence as one line terminator in
 locations

---
 ecmascript/lexer/scanner.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/ecmascript/lexer/scanner.go b/ecmascript/lexer/scanner.go
index 1809bba..46be9ef 100644
--- a/ecmascript/lexer/scanner.go
+++ b/ecmascript/lexer/scanner.go
@@ -20,6 +20,9 @@ type Scanner struct {
 	col, row int
 
 	eof bool
+
+	cr   bool // the last rune read was a carriage return
+	crlf bool // the last rune read was the line feed of a CRLF sequence
 }
 
 // NewScanner creates a new scanner for the given RuneScanner and URL.
@@ -63,6 +66,14 @@ func (s *Scanner) Read() rune {
 		})
 	}
 
+	// A CRLF sequence is a single line terminator, counted at the carriage
+	// return.
+	s.crlf = r == '\n' && s.cr
+	s.cr = r == '\r'
+	if s.crlf {
+		return r
+	}
+
 	// Increment source location. On newline, we set col to -col. This allows
 	// us to know when we're unreading a line terminator (because col will be
 	// negative) and what to restore it to without needing additional state.
@@ -102,6 +113,13 @@ func (s *Scanner) Unread() {
 		})
 	}
 
+	if s.crlf {
+		// The line feed of a CRLF sequence did not move the source location.
+		s.crlf = false
+		s.cr = true
+		return
+	}
+
 	// If negative: we just read a line terminal rune. Invert col and
 	// decrement row.
 	// If positive: we read any other rune. Just decrement col.
-- 
2.43.0


From ff6a0a5894fb53e1e4cd79880020acdf1dc02327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:31 +0000
Subject: [PATCH 04/75] fix: report the exact source of !=, %= and ?. tokens

---
 ecmascript/lexer/token.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ecmascript/lexer/token.go b/ecmascript/lexer/token.go
index 1162150..7abb374 100644
--- a/ecmascript/lexer/token.go
+++ b/ecmascript/lexer/token.go
@@ -258,7 +258,7 @@ func (t Token) Source() string {
 		TokenLiteralTemplate:
 		return t.Literal
 	case TokenPunctuatorOptionalChain:
-		return ".?"
+		return "?."
 	case TokenPunctuatorOpenBrace:
 		return "{"
 	case TokenPunctuatorOpenParen:
@@ -290,7 +290,7 @@ func (t Token) Source() string {
 	case TokenPunctuatorEqual:
 		return "=="
 	case TokenPunctuatorNotEqual:
-		return "==="
+		return "!="
 	case TokenPunctuatorStrictEqual:
 		return "==="
 	case TokenPunctuatorStrictNotEqual:
@@ -348,7 +348,7 @@ func (t Token) Source() string {
 	case TokenPunctuatorDivAssign:
 		return "/="
 	case TokenPunctuatorModAssign:
-		return "*="
+		return "%="
 	case TokenPunctuatorExponentAssign:
 		return "**="
 	case TokenPunctuatorLShiftAssign:
-- 
2.43.0


From 8fe020dc1e37f102b29b9cc1823196bb1a9a2ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:33 +0000
Subject: [PATCH 05/75] fix: do not lex <<< as an unsigned right shift

---
 ecmascript/lexer/lexer.go | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/ecmascript/lexer/lexer.go b/ecmascript/lexer/lexer.go
index a982f41..9a9da43 100644
--- a/ecmascript/lexer/lexer.go
+++ b/ecmascript/lexer/lexer.go
@@ -579,14 +579,6 @@ func (l *Lexer) consumeNextToken() Token {
 			switch l.s.Read() {
 			case '<':
 				switch l.s.Read() {
-				case '<':
-					switch l.s.Read() {
-					case '=':
-						return Token{Type: TokenPunctuatorUnsignedRShiftAssign}
-					default:
-						l.s.Unread()
-						return Token{Type: TokenPunctuatorUnsignedRShift}
-					}
 				case '=':
 					return Token{Type: TokenPunctuatorLShiftAssign}
 				default:
-- 
2.43.0


From 096ea8b8a5b0c44004064bdf5e2075f1f4e29ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:58 +0000
Subject: [PATCH 06/75] fix: lex exponents, 0.x and a trailing decimal point as
 parts of the number

---
 ecmascript/lexer/lexer.go | 59 +++++++++++++++++++--------------------
 1 file changed, 29 insertions(+), 30 deletions(-)

diff --git a/ecmascript/lexer/lexer.go b/ecmascript/lexer/lexer.go
index 9a9da43..4c90ee1 100644
--- a/ecmascript/lexer/lexer.go
+++ b/ecmascript/lexer/lexer.go
@@ -360,26 +360,16 @@ func (l *Lexer) consumeDecimalPart(lit *strings.Builder) string {
 		} else if r == '.' {
 			lit.WriteRune(r)
 			return l.consumeFractionalPart(lit)
-		} else if isExponentIndicator(r) {
-			for {
-				r = l.s.Read()
-				if isDecimalDigit(r) {
-					lit.WriteRune(r)
-				} else {
-					l.s.Unread()
-					break
-				}
-			}
-			break
 		} else {
 			l.s.Unread()
 			break
 		}
 	}
 
-	return lit.String()
+	return l.consumeExponentPart(lit)
 }
 
+// Consumes the digits that follow a decimal point, if any, and the exponent.
 func (l *Lexer) consumeFractionalPart(lit *strings.Builder) string {
 	if lit == nil {
 		lit = &strings.Builder{}
@@ -389,10 +379,8 @@ func (l *Lexer) consumeFractionalPart(lit *strings.Builder) string {
 	if isDecimalDigit(r) {
 		lit.WriteRune(r)
 	} else {
-		panic(&errs.SyntaxError{
-			Location: l.s.Location(),
-			Err:      fmt.Errorf("expected DecimalDigit, got %q", r),
-		})
+		l.s.Unread()
+		return l.consumeExponentPart(lit)
 	}
 
 	for {
@@ -415,7 +403,12 @@ func (l *Lexer) consumeFractionalPart(lit *strings.Builder) string {
 		}
 	}
 
-	r = l.s.Read()
+	return l.consumeExponentPart(lit)
+}
+
+// Consumes the exponent of a decimal literal, if there is one.
+func (l *Lexer) consumeExponentPart(lit *strings.Builder) string {
+	r := l.s.Read()
 	if !isExponentIndicator(r) {
 		l.s.Unread()
 		return lit.String()
@@ -423,10 +416,14 @@ func (l *Lexer) consumeFractionalPart(lit *strings.Builder) string {
 	lit.WriteRune(r)
 
 	r = l.s.Read()
-	if r != '+' && r != '-' && !isDecimalDigit(r) {
+	if r == '+' || r == '-' {
+		lit.WriteRune(r)
+		r = l.s.Read()
+	}
+	if !isDecimalDigit(r) {
 		panic(&errs.SyntaxError{
 			Location: l.s.Location(),
-			Err:      fmt.Errorf("expected DecimalDigit, +, or -, got %q", r),
+			Err:      fmt.Errorf("expected DecimalDigit, got %q", r),
 		})
 	}
 	lit.WriteRune(r)
@@ -435,17 +432,16 @@ func (l *Lexer) consumeFractionalPart(lit *strings.Builder) string {
 		r = l.s.Read()
 		if isDecimalDigit(r) {
 			lit.WriteRune(r)
-		} else if isExponentIndicator(r) {
-			for {
-				r = l.s.Read()
-				if isDecimalDigit(r) {
-					lit.WriteRune(r)
-				} else {
-					l.s.Unread()
-					break
-				}
+		} else if isNumericLiteralSeparator(r) {
+			r = l.s.Read()
+			if isDecimalDigit(r) {
+				lit.WriteRune(r)
+			} else {
+				panic(&errs.SyntaxError{
+					Location: l.s.Location(),
+					Err:      fmt.Errorf("expected DecimalDigit, got %q", r),
+				})
 			}
-			break
 		} else {
 			l.s.Unread()
 			break
@@ -564,9 +560,12 @@ func (l *Lexer) consumeNextToken() Token {
 			case '0', '1', '2', '3', '4', '5', '6', '7', '8', '9':
 				l.s.Unread()
 				return Token{Type: TokenLiteralNumber, Literal: l.consumeDecimalPart(lit)}
+			case '.':
+				lit.WriteRune(r)
+				return Token{Type: TokenLiteralNumber, Literal: l.consumeFractionalPart(lit)}
 			default:
 				l.s.Unread()
-				return Token{Type: TokenLiteralNumber, Literal: "0"}
+				return Token{Type: TokenLiteralNumber, Literal: l.consumeExponentPart(lit)}
 			}
 		case '1', '2', '3', '4', '5', '6', '7', '8', '9':
 			l.s.Unread()
-- 
2.43.0


From 7d9ed115fba438c0abec6119ac0667bdce126664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:26 +0000
Subject: [PATCH 07/75] fix: keep numeric separators in the source of a number

---
 ecmascript/lexer/lexer.go | 6 ++++++
 ecmascript/lexer/token.go | 6 ++++--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/ecmascript/lexer/lexer.go b/ecmascript/lexer/lexer.go
index 4c90ee1..95aaf32 100644
--- a/ecmascript/lexer/lexer.go
+++ b/ecmascript/lexer/lexer.go
@@ -235,6 +235,7 @@ func (l *Lexer) consumeBinaryPart(lit *strings.Builder) string {
 		if isBinaryDigit(r) {
 			lit.WriteRune(r)
 		} else if isNumericLiteralSeparator(r) {
+			lit.WriteRune(r)
 			r = l.s.Read()
 			if isBinaryDigit(r) {
 				lit.WriteRune(r)
@@ -273,6 +274,7 @@ func (l *Lexer) consumeOctalPart(lit *strings.Builder) string {
 		if isOctalDigit(r) {
 			lit.WriteRune(r)
 		} else if isNumericLiteralSeparator(r) {
+			lit.WriteRune(r)
 			r = l.s.Read()
 			if isOctalDigit(r) {
 				lit.WriteRune(r)
@@ -311,6 +313,7 @@ func (l *Lexer) consumeHexPart(lit *strings.Builder) string {
 		if isHexDigit(r) {
 			lit.WriteRune(r)
 		} else if isNumericLiteralSeparator(r) {
+			lit.WriteRune(r)
 			r = l.s.Read()
 			if isHexDigit(r) {
 				lit.WriteRune(r)
@@ -348,6 +351,7 @@ func (l *Lexer) consumeDecimalPart(lit *strings.Builder) string {
 		if isDecimalDigit(r) {
 			lit.WriteRune(r)
 		} else if isNumericLiteralSeparator(r) {
+			lit.WriteRune(r)
 			r = l.s.Read()
 			if isDecimalDigit(r) {
 				lit.WriteRune(r)
@@ -388,6 +392,7 @@ func (l *Lexer) consumeFractionalPart(lit *strings.Builder) string {
 		if isDecimalDigit(r) {
 			lit.WriteRune(r)
 		} else if isNumericLiteralSeparator(r) {
+			lit.WriteRune(r)
 			r = l.s.Read()
 			if isDecimalDigit(r) {
 				lit.WriteRune(r)
@@ -433,6 +438,7 @@ func (l *Lexer) consumeExponentPart(lit *strings.Builder) string {
 		if isDecimalDigit(r) {
 			lit.WriteRune(r)
 		} else if isNumericLiteralSeparator(r) {
+			lit.WriteRune(r)
 			r = l.s.Read()
 			if isDecimalDigit(r) {
 				lit.WriteRune(r)
diff --git a/ecmascript/lexer/token.go b/ecmascript/lexer/token.go
index 7abb374..59b56f0 100644
--- a/ecmascript/lexer/token.go
+++ b/ecmascript/lexer/token.go
@@ -3,6 +3,7 @@ package lexer
 import (
 	"fmt"
 	"strconv"
+	"strings"
 )
 
 // TokenType is an enumeration of possible token types.
@@ -388,10 +389,11 @@ func (t Token) StringConstant() string {
 // NumberConstant returns the parsed value for a numeric constant.
 func (t Token) NumberConstant() float64 {
 	// TODO: lexer should be parsing numbers accurately
-	if v, err := strconv.ParseFloat(t.Literal, 64); err == nil {
+	lit := strings.ReplaceAll(t.Literal, "_", "")
+	if v, err := strconv.ParseFloat(lit, 64); err == nil {
 		return v
 	}
-	v, err := strconv.ParseInt(t.Literal, 0, 64)
+	v, err := strconv.ParseInt(lit, 0, 64)
 	if err != nil {
 		panic(err)
 	}
-- 
2.43.0


From 72f1c64a02ace34661b1bb72640e1f513757e1bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:28 +0000
Subject: [PATCH 08/75] fix: do not fail on numbers beyond the range of a
 double or int64

---
 ecmascript/ast/expressions_literal.go | 15 +++++++++++----
 ecmascript/lexer/token.go             | 13 +++++++++----
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/ecmascript/ast/expressions_literal.go b/ecmascript/ast/expressions_literal.go
index 4958638..cfeb33f 100644
--- a/ecmascript/ast/expressions_literal.go
+++ b/ecmascript/ast/expressions_literal.go
@@ -1,5 +1,7 @@
 package ast
 
+import "math"
+
 // NullLiteral is a node containing a null literal.
 //
 // For example:
@@ -108,13 +110,18 @@ type NumberLiteral struct {
 
 // ESTree returns the corresponding ESTree representation for this node.
 func (n NumberLiteral) ESTree() interface{} {
+	// JSON has no infinity. Like JSON.stringify, use null.
+	var value interface{} = n.Value
+	if math.IsInf(n.Value, 0) {
+		value = nil
+	}
 	return struct {
-		Type  string  `json:"type"`
-		Value float64 `json:"value"`
-		Raw   string  `json:"raw"`
+		Type  string      `json:"type"`
+		Value interface{} `json:"value"`
+		Raw   string      `json:"raw"`
 	}{
 		Type:  "Literal",
-		Value: n.Value,
+		Value: value,
 		Raw:   n.Raw,
 	}
 }
diff --git a/ecmascript/lexer/token.go b/ecmascript/lexer/token.go
index 59b56f0..51d7ba5 100644
--- a/ecmascript/lexer/token.go
+++ b/ecmascript/lexer/token.go
@@ -1,7 +1,9 @@
 package lexer
 
 import (
+	"errors"
 	"fmt"
+	"math/big"
 	"strconv"
 	"strings"
 )
@@ -390,12 +392,15 @@ func (t Token) StringConstant() string {
 func (t Token) NumberConstant() float64 {
 	// TODO: lexer should be parsing numbers accurately
 	lit := strings.ReplaceAll(t.Literal, "_", "")
-	if v, err := strconv.ParseFloat(lit, 64); err == nil {
+	// A number that is out of range reads as infinity.
+	v, err := strconv.ParseFloat(lit, 64)
+	if err == nil || errors.Is(err, strconv.ErrRange) {
 		return v
 	}
-	v, err := strconv.ParseInt(lit, 0, 64)
-	if err != nil {
+	i, ok := new(big.Int).SetString(lit, 0)
+	if !ok {
 		panic(err)
 	}
-	return float64(v)
+	v, _ = new(big.Float).SetInt(i).Float64()
+	return v
 }
-- 
2.43.0


From 72adc21e54ca92e1810eda062cb77da9a7475006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:30 +0000
Subject: [PATCH 09/75] fix: read legacy octal literals as octal

---
 ecmascript/lexer/lexer.go | 27 ++++++++++++++++++++++++++-
 ecmascript/lexer/token.go |  6 ++++--
 2 files changed, 30 insertions(+), 3 deletions(-)

diff --git a/ecmascript/lexer/lexer.go b/ecmascript/lexer/lexer.go
index 95aaf32..d02f849 100644
--- a/ecmascript/lexer/lexer.go
+++ b/ecmascript/lexer/lexer.go
@@ -457,6 +457,31 @@ func (l *Lexer) consumeExponentPart(lit *strings.Builder) string {
 	return lit.String()
 }
 
+// Consumes the rest of a decimal literal that starts with the digit 0. It is
+// a legacy octal literal unless it contains the digits 8 or 9; only in the
+// latter case can it have a fraction or an exponent.
+func (l *Lexer) consumeLegacyPart(lit *strings.Builder) string {
+	octal := true
+	for {
+		r := l.s.Read()
+		if !isDecimalDigit(r) {
+			l.s.Unread()
+			if octal {
+				return lit.String()
+			}
+			if r == '.' {
+				lit.WriteRune(l.s.Read())
+				return l.consumeFractionalPart(lit)
+			}
+			return l.consumeExponentPart(lit)
+		}
+		if !isOctalDigit(r) {
+			octal = false
+		}
+		lit.WriteRune(r)
+	}
+}
+
 func (l *Lexer) consumeStringLiteral() Token {
 	quo := l.s.Read()
 	if quo != '\'' && quo != '"' {
@@ -565,7 +590,7 @@ func (l *Lexer) consumeNextToken() Token {
 				})
 			case '0', '1', '2', '3', '4', '5', '6', '7', '8', '9':
 				l.s.Unread()
-				return Token{Type: TokenLiteralNumber, Literal: l.consumeDecimalPart(lit)}
+				return Token{Type: TokenLiteralNumber, Literal: l.consumeLegacyPart(lit)}
 			case '.':
 				lit.WriteRune(r)
 				return Token{Type: TokenLiteralNumber, Literal: l.consumeFractionalPart(lit)}
diff --git a/ecmascript/lexer/token.go b/ecmascript/lexer/token.go
index 51d7ba5..f8d0796 100644
--- a/ecmascript/lexer/token.go
+++ b/ecmascript/lexer/token.go
@@ -392,9 +392,11 @@ func (t Token) StringConstant() string {
 func (t Token) NumberConstant() float64 {
 	// TODO: lexer should be parsing numbers accurately
 	lit := strings.ReplaceAll(t.Literal, "_", "")
-	// A number that is out of range reads as infinity.
+	// A number that is out of range reads as infinity. A number that starts
+	// with the digit 0 and has only octal digits is a legacy octal literal.
 	v, err := strconv.ParseFloat(lit, 64)
-	if err == nil || errors.Is(err, strconv.ErrRange) {
+	legacyOctal := len(lit) > 1 && lit[0] == '0' && strings.Trim(lit, "01234567") == ""
+	if !legacyOctal && (err == nil || errors.Is(err, strconv.ErrRange)) {
 		return v
 	}
 	i, ok := new(big.Int).SetString(lit, 0)
-- 
2.43.0


From 61036b7155e53e4d1d5142a2a155a28366d4287a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:50 +0000
Subject: [PATCH 10/75] fix: reject letters and digits right after a number
 instead of crashing or splitting it

---
 ecmascript/lexer/lexer.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/ecmascript/lexer/lexer.go b/ecmascript/lexer/lexer.go
index d02f849..3a4ef3d 100644
--- a/ecmascript/lexer/lexer.go
+++ b/ecmascript/lexer/lexer.go
@@ -36,6 +36,9 @@ func NewLexer(s *Scanner) *Lexer {
 // Lex returns the next token by scanning the input stream.
 func (l *Lexer) Lex() Token {
 	t := l.consumeNextToken()
+	if t.Type == TokenLiteralNumber {
+		l.expectNumberEnd()
+	}
 	if l.newLine {
 		t.NewLine = true
 		l.newLine = false
@@ -214,6 +217,19 @@ func (l *Lexer) consumeIdentifier(typ TokenType) Token {
 	}
 }
 
+// Checks that the rune right after a numeric literal can not be read as a part
+// of it. This also rules out BigInt literals, which are not supported yet.
+func (l *Lexer) expectNumberEnd() {
+	r := l.s.Read()
+	if isIdentifierStart(r) || isDecimalDigit(r) {
+		panic(&errs.SyntaxError{
+			Location: l.s.Location(),
+			Err:      fmt.Errorf("unexpected %q directly after number", r),
+		})
+	}
+	l.s.Unread()
+}
+
 // Consumes binary digits.
 func (l *Lexer) consumeBinaryPart(lit *strings.Builder) string {
 	if lit == nil {
@@ -563,8 +579,6 @@ func (l *Lexer) consumeNextToken() Token {
 			lit.WriteRune(r)
 			r = l.s.Read()
 			switch r {
-			case 'n':
-				return Token{Type: TokenLiteralNumber, Literal: "0n"}
 			case 'b':
 				lit.WriteRune(r)
 				return Token{Type: TokenLiteralNumber, Literal: l.consumeBinaryPart(lit)}
-- 
2.43.0


From dbe3d68eb87a91f1737b6deb46a4482eee4c4b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:52 +0000
Subject: [PATCH 11/75] fix: keep escapes in the pattern of a regular
 expression as written

---
 ecmascript/lexer/lexer.go | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/ecmascript/lexer/lexer.go b/ecmascript/lexer/lexer.go
index 3a4ef3d..912b5db 100644
--- a/ecmascript/lexer/lexer.go
+++ b/ecmascript/lexer/lexer.go
@@ -99,15 +99,10 @@ patternLoop:
 
 		case '\\':
 			// Escape sequence.
+			pat.WriteRune(r)
 			r = l.s.Read()
 			lit.WriteRune(r)
-
-			if r == '/' || r == '\\' {
-				pat.WriteRune(r)
-			} else {
-				pat.WriteRune('\\')
-				pat.WriteRune(r)
-			}
+			pat.WriteRune(r)
 
 		case EOFRune:
 			panic(&errs.SyntaxError{
-- 
2.43.0


From cae358756605cfa71c4b4073a3279a8f2236a8ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:17 +0000
Subject: [PATCH 12/75] fix: reject line breaks inside string and regular
 expression literals

---
 ecmascript/lexer/lexer.go | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/ecmascript/lexer/lexer.go b/ecmascript/lexer/lexer.go
index 912b5db..6aa9862 100644
--- a/ecmascript/lexer/lexer.go
+++ b/ecmascript/lexer/lexer.go
@@ -67,6 +67,7 @@ func (l *Lexer) consumeRegex(t Token) ReToken {
 patternLoop:
 	for {
 		r := l.s.Read()
+		l.rejectLineTerm(r)
 		lit.WriteRune(r)
 
 		switch r {
@@ -80,11 +81,13 @@ patternLoop:
 			pat.WriteRune(r)
 			for {
 				r := l.s.Read()
+				l.rejectLineTerm(r)
 				lit.WriteRune(r)
 				pat.WriteRune(r)
 
 				if r == '\\' {
 					r := l.s.Read()
+					l.rejectLineTerm(r)
 					lit.WriteRune(r)
 					pat.WriteRune(r)
 				} else if r == ']' {
@@ -101,6 +104,7 @@ patternLoop:
 			// Escape sequence.
 			pat.WriteRune(r)
 			r = l.s.Read()
+			l.rejectLineTerm(r)
 			lit.WriteRune(r)
 			pat.WriteRune(r)
 
@@ -136,6 +140,16 @@ patternLoop:
 	}
 }
 
+// rejectLineTerm panics with a syntax error if the rune is a line terminator.
+func (l *Lexer) rejectLineTerm(r rune) {
+	if isLineTerm(r) {
+		panic(&errs.SyntaxError{
+			Location: l.s.Location(),
+			Err:      fmt.Errorf("unexpected line terminator %q", r),
+		})
+	}
+}
+
 // Consumes a multi-line comment, eating until after the next */.
 func (l *Lexer) consumeMultiLineComment() {
 	var r rune
@@ -509,6 +523,17 @@ func (l *Lexer) consumeStringLiteral() Token {
 		if r == '\\' {
 			r = l.s.Read()
 			c = append(c, r)
+			if r == '\r' {
+				// Line continuation; the line terminator may be CRLF.
+				r = l.s.Read()
+				if r != '\n' {
+					l.s.Unread()
+					continue
+				}
+				c = append(c, r)
+			}
+		} else if r == '\n' || r == '\r' {
+			l.rejectLineTerm(r)
 		}
 		if r == EOFRune {
 			panic(&errs.SyntaxError{
-- 
2.43.0


From 269eaf05c459cac8cbeddf8a5f53bc65b8f331a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:19 +0000
Subject: [PATCH 13/75] fix: keep the newline flag when a token is re-read as a
 regular expression

---
 ecmascript/lexer/lexer.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ecmascript/lexer/lexer.go b/ecmascript/lexer/lexer.go
index 6aa9862..a9054e8 100644
--- a/ecmascript/lexer/lexer.go
+++ b/ecmascript/lexer/lexer.go
@@ -134,6 +134,7 @@ patternLoop:
 		Token: Token{
 			Type:    TokenLiteralRegExp,
 			Literal: lit.String(),
+			NewLine: t.NewLine,
 		},
 		Pattern: pat.String(),
 		Flags:   flg.String(),
-- 
2.43.0


From af1b7ff96a1dc608f0e8f19563db6e265c99005c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:01 +0000
Subject: [PATCH 14/75] fix: return an error for constructs that are not
 implemented instead of panicking

---
 ecmascript/parser/expression.go | 2 +-
 ecmascript/parser/module.go     | 3 ++-
 ecmascript/parser/parser.go     | 2 +-
 ecmascript/parser/scanner.go    | 9 +++++++++
 ecmascript/parser/statement.go  | 6 ++++--
 5 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/ecmascript/parser/expression.go b/ecmascript/parser/expression.go
index 774039a..c58ab3a 100644
--- a/ecmascript/parser/expression.go
+++ b/ecmascript/parser/expression.go
@@ -235,7 +235,7 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 		m.SetEnd(p.s.Location())
 		n = m
 	case lexer.TokenLiteralTemplate:
-		panic("unimplemented: template literal")
+		p.s.Unsupported("template literal")
 	case lexer.TokenPunctuatorOpenParen:
 		// Tricky: this could be a parenthesized expression, or the parameter
 		// list of an arrow function. To avoid look-ahead, the parser will
diff --git a/ecmascript/parser/module.go b/ecmascript/parser/module.go
index 5d3165f..8289b39 100644
--- a/ecmascript/parser/module.go
+++ b/ecmascript/parser/module.go
@@ -123,5 +123,6 @@ func (p *Parser) parseImportDecl() ast.ImportDeclNode {
 }
 
 func (p *Parser) parseExportDecl() ast.Node {
-	panic("unimplemented")
+	p.s.Unsupported("export declaration")
+	return nil
 }
diff --git a/ecmascript/parser/parser.go b/ecmascript/parser/parser.go
index c43a3fe..ecf5288 100644
--- a/ecmascript/parser/parser.go
+++ b/ecmascript/parser/parser.go
@@ -50,7 +50,7 @@ func (p *Parser) Parse(opt ParseOptions) (n ast.Node, err error) {
 			case *errs.ParserError:
 				err = t
 			default:
-				panic(err)
+				panic(r)
 			}
 		}
 	}()
diff --git a/ecmascript/parser/scanner.go b/ecmascript/parser/scanner.go
index 9bbe68f..d30b9f0 100644
--- a/ecmascript/parser/scanner.go
+++ b/ecmascript/parser/scanner.go
@@ -78,6 +78,15 @@ func (s *Scanner) ScanExpect(typ lexer.TokenType, err string) lexer.Token {
 	return t
 }
 
+// Unsupported panics with a parser error stating that a valid construct is not
+// supported by this parser.
+func (s *Scanner) Unsupported(what string) {
+	panic(&errs.ParserError{
+		Location: s.Location(),
+		Err:      fmt.Errorf("%s not supported", what),
+	})
+}
+
 // SyntaxError panics with a syntax error with the given string.
 func (s *Scanner) SyntaxError(err string) {
 	panic(&errs.SyntaxError{
diff --git a/ecmascript/parser/statement.go b/ecmascript/parser/statement.go
index e52d175..a9a00ad 100644
--- a/ecmascript/parser/statement.go
+++ b/ecmascript/parser/statement.go
@@ -564,7 +564,8 @@ func (p *Parser) parseReturnStatement() ast.Node {
 }
 
 func (p *Parser) parseWithStatement() ast.Node {
-	panic("unimplemented")
+	p.s.Unsupported("with statement")
+	return nil
 }
 
 func (p *Parser) parseThrowStatement() ast.Node {
@@ -624,7 +625,8 @@ func (p *Parser) parseCatchParameter() ast.BindingPattern {
 }
 
 func (p *Parser) parseDebuggerStatement() ast.Node {
-	panic("unimplemented")
+	p.s.Unsupported("debugger statement")
+	return nil
 }
 
 func (p *Parser) parseLabelledStatement() ast.Node {
-- 
2.43.0


From 8be92ecb094f189624fec885ca01bb950054e0bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:03 +0000
Subject: [PATCH 15/75] fix: parse | as bitwise or

---
 ecmascript/parser/expression.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecmascript/parser/expression.go b/ecmascript/parser/expression.go
index c58ab3a..09f5abb 100644
--- a/ecmascript/parser/expression.go
+++ b/ecmascript/parser/expression.go
@@ -523,7 +523,7 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 
 		if t.Type == lexer.TokenPunctuatorBitOr {
 			p.s.ScanExpect(lexer.TokenPunctuatorBitOr, "expected `|` operator")
-			n = wrapbinary(ast.BinaryBitXorOp, exprOrderBitwiseXor)
+			n = wrapbinary(ast.BinaryBitOrOp, exprOrderBitwiseXor)
 			continue
 		}
 		if order >= exprOrderBitwiseOr {
-- 
2.43.0


From 7e94ea224e345a1e4787a6bc52904fadfdfbe4f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:04 +0000
Subject: [PATCH 16/75] fix: make ** right-associative and reject an
 unparenthesized unary operand

---
 ecmascript/parser/expression.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ecmascript/parser/expression.go b/ecmascript/parser/expression.go
index 09f5abb..b76fa83 100644
--- a/ecmascript/parser/expression.go
+++ b/ecmascript/parser/expression.go
@@ -399,7 +399,10 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 
 		if t.Type == lexer.TokenPunctuatorExponent {
 			p.s.ScanExpect(lexer.TokenPunctuatorExponent, "expected `**` operator")
-			n = wrapbinary(ast.BinaryExponentOp, exprOrderUnaryExpr)
+			if _, ok := n.(*ast.UnaryExpression); ok {
+				p.s.SyntaxError("unary expression before `**` must be parenthesized")
+			}
+			n = wrapbinary(ast.BinaryExponentOp, exprOrderExponentExpr)
 			continue
 		}
 		if order >= exprOrderExponentExpr {
-- 
2.43.0


From 7ce42378cf6b4bc3c052b667c945047fd841683a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:07 +0000
Subject: [PATCH 17/75] fix: represent ?? as a LogicalExpression

---
 ecmascript/ast/expressions_binary.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecmascript/ast/expressions_binary.go b/ecmascript/ast/expressions_binary.go
index 0d70dba..cd6d992 100644
--- a/ecmascript/ast/expressions_binary.go
+++ b/ecmascript/ast/expressions_binary.go
@@ -232,7 +232,7 @@ type BinaryExpression struct {
 // ESTree returns the corresponding ESTree representation for this node.
 func (n BinaryExpression) ESTree() interface{} {
 	nodeType := "BinaryExpression"
-	if n.Operator == BinaryLogicalAndOp || n.Operator == BinaryLogicalOrOp {
+	if n.Operator == BinaryLogicalAndOp || n.Operator == BinaryLogicalOrOp || n.Operator == BinaryCoalesceOp {
 		nodeType = "LogicalExpression"
 	}
 
-- 
2.43.0


From 3d5ff117802dd6811d538da9b8a2b3f25e738b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:08 +0000
Subject: [PATCH 18/75] fix: reject ?? mixed with && or || without parentheses

---
 ecmascript/parser/expression.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/ecmascript/parser/expression.go b/ecmascript/parser/expression.go
index b76fa83..ae66607 100644
--- a/ecmascript/parser/expression.go
+++ b/ecmascript/parser/expression.go
@@ -91,6 +91,13 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 		return m
 	}
 
+	// nomix rejects an unparenthesized left operand with the given operator.
+	nomix := func(op ast.BinaryOperator) {
+		if m, ok := n.(ast.BinaryExpression); ok && m.Operator == op {
+			p.s.SyntaxError("`??` mixed with `&&` or `||` must be parenthesized")
+		}
+	}
+
 	wrapassign := func(op ast.AssignmentOperator, next exprOrder) ast.Node {
 		m := ast.AssignmentExpression{Operator: op}
 		m.Left = n
@@ -535,6 +542,7 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 
 		if t.Type == lexer.TokenPunctuatorLogicalAnd {
 			p.s.ScanExpect(lexer.TokenPunctuatorLogicalAnd, "expected `&&` operator")
+			nomix(ast.BinaryCoalesceOp)
 			n = wrapbinary(ast.BinaryLogicalAndOp, exprOrderBitwiseOr)
 			continue
 		}
@@ -544,11 +552,14 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 
 		if t.Type == lexer.TokenPunctuatorLogicalOr {
 			p.s.ScanExpect(lexer.TokenPunctuatorLogicalOr, "expected `||` operator")
+			nomix(ast.BinaryCoalesceOp)
 			n = wrapbinary(ast.BinaryLogicalOrOp, exprOrderLogicalAnd)
 			continue
 		} else if t.Type == lexer.TokenPunctuatorNullCoalesce {
 			p.s.ScanExpect(lexer.TokenPunctuatorNullCoalesce, "expected `??` operator")
-			n = wrapbinary(ast.BinaryCoalesceOp, exprOrderLogicalAnd)
+			nomix(ast.BinaryLogicalAndOp)
+			nomix(ast.BinaryLogicalOrOp)
+			n = wrapbinary(ast.BinaryCoalesceOp, exprOrderBitwiseOr)
 			continue
 		}
 		if order >= exprOrderLogicalOr {
-- 
2.43.0


From a6da2ce0a7b659eba2608a63f1c9ab6d13a6dd4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:46 +0000
Subject: [PATCH 19/75] fix: insert a semicolon before ++ and -- on a new line

---
 ecmascript/parser/expression.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ecmascript/parser/expression.go b/ecmascript/parser/expression.go
index ae66607..1d09e4d 100644
--- a/ecmascript/parser/expression.go
+++ b/ecmascript/parser/expression.go
@@ -390,6 +390,12 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 			break
 		}
 
+		// A postfix operator can not follow a line break; a semicolon is inserted
+		// instead.
+		if t.NewLine && (t.Type == lexer.TokenPunctuatorIncrement || t.Type == lexer.TokenPunctuatorDecrement) {
+			break
+		}
+
 		// TODO: should add order for update?
 		if t.Type == lexer.TokenPunctuatorIncrement {
 			p.s.ScanExpect(lexer.TokenPunctuatorIncrement, "expected `++` operator")
-- 
2.43.0


From 0f8896cb11e3b5851504f5a76b275cc8570a18ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:48 +0000
Subject: [PATCH 20/75] fix: do not apply member access, calls and postfix
 operators to operator expressions

---
 ecmascript/parser/expression.go | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/ecmascript/parser/expression.go b/ecmascript/parser/expression.go
index 1d09e4d..86c33ab 100644
--- a/ecmascript/parser/expression.go
+++ b/ecmascript/parser/expression.go
@@ -304,6 +304,17 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 	for {
 		// exprOrderLHSExpr
 		t = p.s.PeekAt(0)
+
+		// An operator expression can not be the object of a member access or a
+		// call, nor the operand of a postfix operator.
+		if isOperatorExpression(n) {
+			switch t.Type {
+			case lexer.TokenPunctuatorDot, lexer.TokenPunctuatorOpenBracket, lexer.TokenPunctuatorOpenParen,
+				lexer.TokenPunctuatorOptionalChain, lexer.TokenPunctuatorIncrement, lexer.TokenPunctuatorDecrement:
+				return n
+			}
+		}
+
 		if t.Type == lexer.TokenPunctuatorDot {
 			p.s.ScanExpect(lexer.TokenPunctuatorDot, "expected `.` operator")
 			m := ast.MemberExpression{
@@ -684,6 +695,17 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 	return n
 }
 
+// isOperatorExpression returns true if the node is an expression that binds
+// less tightly than a left-hand side expression.
+func isOperatorExpression(n ast.Node) bool {
+	switch n.(type) {
+	case *ast.UpdateExpression, *ast.UnaryExpression, ast.BinaryExpression,
+		ast.ConditionalExpression, ast.AssignmentExpression, ast.SequenceExpression:
+		return true
+	}
+	return false
+}
+
 func (p *Parser) convertExprToArrowParams(inner ast.Node) ast.FormalParameters {
 	params := ast.FormalParameters{}
 
-- 
2.43.0


From 5d876e7db252a32d9a0a718706ad42ae865f215e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:37 +0000
Subject: [PATCH 21/75] fix: parse arrow functions at the level of assignment
 expressions

---
 ecmascript/parser/expression.go | 80 +++++++++++++++++----------------
 ecmascript/parser/statement.go  |  4 +-
 2 files changed, 43 insertions(+), 41 deletions(-)

diff --git a/ecmascript/parser/expression.go b/ecmascript/parser/expression.go
index 86c33ab..58abb2f 100644
--- a/ecmascript/parser/expression.go
+++ b/ecmascript/parser/expression.go
@@ -107,6 +107,20 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 		return m
 	}
 
+	// parsearrow parses the rest of an arrow function after its parameters. An
+	// arrow function is an assignment expression, so it can not be an operand.
+	parsearrow := func(m ast.FunctionExpression) ast.Node {
+		if order > exprOrderAssign || p.s.PeekAt(0).NewLine {
+			p.s.SyntaxError("unexpected `=>`")
+		}
+		p.s.ScanExpect(lexer.TokenPunctuatorFatArrow, "expected `=>` operator")
+		m.Body = p.parseBlockOrShorthand(flags & exprFlagDisallowIn)
+		m.Arrow = true
+		m.SetStart(s)
+		m.SetEnd(p.s.Location())
+		return m
+	}
+
 	// Can't be Div/DivAssign here, relex as a regex. NOTE: if we are peeked
 	// ahead at this point, this will fail.
 	re := lexer.ReToken{}
@@ -152,13 +166,10 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 			} else if ident.Type == lexer.TokenIdentifier {
 				// Async arrow function with bare parameter
 				p.s.Scan()
-				p.s.ScanExpect(lexer.TokenPunctuatorFatArrow, "expected '=>'")
-				return ast.FunctionExpression{
+				n = parsearrow(ast.FunctionExpression{
 					Params: ast.FormalParameters{Parameters: []ast.BindingElement{{Value: ast.BindingPattern{Identifier: ident.Literal}}}},
-					Body:   p.parseBlockOrShorthand(),
-					Arrow:  true,
 					Async:  true,
-				}
+				})
 			} else if peek.Type == lexer.TokenPunctuatorOpenParen {
 				// Async arrow function with parameter list
 				// OR
@@ -169,17 +180,10 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 				if p.s.PeekAt(0).Type == lexer.TokenPunctuatorFatArrow {
 					// This was an arrow function after all. Fix up the parenthesized
 					// expression to be a parameter list.
-					p.s.ScanExpect(lexer.TokenPunctuatorFatArrow, "expected `=>` operator")
-					params := p.convertExprToArrowParams(inner)
-					m := ast.FunctionExpression{
-						Params: params,
-						Body:   p.parseBlockOrShorthand(),
-						Arrow:  true,
+					n = parsearrow(ast.FunctionExpression{
+						Params: p.convertExprToArrowParams(inner),
 						Async:  true,
-					}
-					m.SetStart(s)
-					m.SetEnd(p.s.Location())
-					n = m
+					})
 				} else {
 					// This was a call to a function named "async"
 					n = ast.CallExpression{
@@ -253,16 +257,9 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 		if p.s.PeekAt(0).Type == lexer.TokenPunctuatorFatArrow {
 			// This was an arrow function after all. Fix up the parenthesized
 			// expression to be a parameter list.
-			p.s.ScanExpect(lexer.TokenPunctuatorFatArrow, "expected `=>` operator")
-			params := p.convertExprToArrowParams(inner)
-			m := ast.FunctionExpression{
-				Params: params,
-				Body:   p.parseBlockOrShorthand(),
-				Arrow:  true,
-			}
-			m.SetStart(s)
-			m.SetEnd(p.s.Location())
-			n = m
+			n = parsearrow(ast.FunctionExpression{
+				Params: p.convertExprToArrowParams(inner),
+			})
 		} else {
 			// Was not an arrow. Deal disallowed syntax retroactively.
 			if _, ok := inner.(ast.TemporalEmptyArrowHead); ok || inner.ContainsTemporalNodes() {
@@ -280,21 +277,9 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 
 	// Handle single-parameter bare parameter list.
 	if i, ok := n.(ast.Identifier); ok && p.s.PeekAt(0).Type == lexer.TokenPunctuatorFatArrow {
-		p.s.ScanExpect(lexer.TokenPunctuatorFatArrow, "expected `=>` operator")
-		var body ast.Node
-		if p.s.PeekAt(0).Type == lexer.TokenPunctuatorOpenBrace {
-			body = p.parseBlock()
-		} else {
-			body = p.parseExpression(exprOrderConditional, 0)
-		}
-		m := ast.FunctionExpression{
+		n = parsearrow(ast.FunctionExpression{
 			Params: ast.FormalParameters{Parameters: []ast.BindingElement{{Value: ast.BindingPattern{Identifier: i.Name}}}},
-			Body:   body,
-			Arrow:  true,
-		}
-		m.SetStart(s)
-		m.SetEnd(p.s.Location())
-		return m
+		})
 	}
 
 	if order >= exprOrderPrimaryExpr {
@@ -305,6 +290,11 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 		// exprOrderLHSExpr
 		t = p.s.PeekAt(0)
 
+		// Only a comma can follow an assignment expression.
+		if isAssignmentLevel(n) && t.Type != lexer.TokenPunctuatorComma {
+			return n
+		}
+
 		// An operator expression can not be the object of a member access or a
 		// call, nor the operand of a postfix operator.
 		if isOperatorExpression(n) {
@@ -695,6 +685,18 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 	return n
 }
 
+// isAssignmentLevel returns true if the node is an expression that can not be
+// an operand of any operator other than the comma.
+func isAssignmentLevel(n ast.Node) bool {
+	switch m := n.(type) {
+	case ast.ConditionalExpression, ast.AssignmentExpression:
+		return true
+	case ast.FunctionExpression:
+		return m.Arrow
+	}
+	return false
+}
+
 // isOperatorExpression returns true if the node is an expression that binds
 // less tightly than a left-hand side expression.
 func isOperatorExpression(n ast.Node) bool {
diff --git a/ecmascript/parser/statement.go b/ecmascript/parser/statement.go
index a9a00ad..a0e1b0a 100644
--- a/ecmascript/parser/statement.go
+++ b/ecmascript/parser/statement.go
@@ -107,11 +107,11 @@ func (p *Parser) parseExpressionStatement() ast.Node {
 	return n
 }
 
-func (p *Parser) parseBlockOrShorthand() ast.Node {
+func (p *Parser) parseBlockOrShorthand(flags exprFlags) ast.Node {
 	if p.s.PeekAt(0).Type == lexer.TokenPunctuatorOpenBrace {
 		return p.parseBlock()
 	} else {
-		return p.parseExpression(exprOrderConditional, 0)
+		return p.parseExpression(exprOrderAssign, flags)
 	}
 }
 
-- 
2.43.0


From f780e8abe9e914b7746e14cc85611bddf2e50804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:01 +0000
Subject: [PATCH 22/75] fix: tell calls to and uses of a variable named async
 from async functions

---
 ecmascript/parser/expression.go | 35 ++++++++++++++++++++++++---------
 1 file changed, 26 insertions(+), 9 deletions(-)

diff --git a/ecmascript/parser/expression.go b/ecmascript/parser/expression.go
index 58abb2f..34a6c4c 100644
--- a/ecmascript/parser/expression.go
+++ b/ecmascript/parser/expression.go
@@ -158,11 +158,14 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 	case lexer.TokenIdentifier:
 		if t.Literal == "async" {
 			peek := p.s.PeekAt(0)
-			ident := p.ctx.keywordToIdentifier(peek, true)
-			if peek.Type == lexer.TokenKeywordFunction {
+			ident := p.ctx.keywordToIdentifier(peek, false)
+			if peek.NewLine && peek.Type != lexer.TokenPunctuatorOpenParen {
+				// Async as a non-reserved identifier
+				n = ast.Identifier{Name: t.Literal}
+			} else if peek.Type == lexer.TokenKeywordFunction {
 				// Async function expression
 				p.s.Scan()
-				n = p.parseFunctionExpressionTail(s, false)
+				n = p.parseFunctionExpressionTail(s, true)
 			} else if ident.Type == lexer.TokenIdentifier {
 				// Async arrow function with bare parameter
 				p.s.Scan()
@@ -170,14 +173,14 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 					Params: ast.FormalParameters{Parameters: []ast.BindingElement{{Value: ast.BindingPattern{Identifier: ident.Literal}}}},
 					Async:  true,
 				})
-			} else if peek.Type == lexer.TokenPunctuatorOpenParen {
+			} else if peek.Type == lexer.TokenPunctuatorOpenParen && order <= exprOrderCallExpr {
 				// Async arrow function with parameter list
 				// OR
 				// Call to function named "async"
 				p.s.Scan()
 				inner := p.parseExpression(exprOrderComma, exprFlagMaybeArrow)
 				p.s.ScanExpect(lexer.TokenPunctuatorCloseParen, "expected `)` operator")
-				if p.s.PeekAt(0).Type == lexer.TokenPunctuatorFatArrow {
+				if p.s.PeekAt(0).Type == lexer.TokenPunctuatorFatArrow && !peek.NewLine {
 					// This was an arrow function after all. Fix up the parenthesized
 					// expression to be a parameter list.
 					n = parsearrow(ast.FunctionExpression{
@@ -827,11 +830,25 @@ func (p *Parser) convertExprToArrowParams(inner ast.Node) ast.FormalParameters {
 }
 
 func (p *Parser) convertExprToCallParams(inner ast.Node) []ast.Node {
-	if args, ok := inner.(ast.SequenceExpression); ok {
-		return args.Expressions
-	} else {
-		return []ast.Node{inner}
+	args := []ast.Node{inner}
+	if seq, ok := inner.(ast.SequenceExpression); ok {
+		args = seq.Expressions
+	}
+
+	// An empty arrow head stands for no arguments or for a trailing comma.
+	if _, ok := args[len(args)-1].(ast.TemporalEmptyArrowHead); ok {
+		args = args[:len(args)-1]
 	}
+
+	for i, arg := range args {
+		if rest, ok := arg.(ast.TemporalFloatingRestElement); ok {
+			args[i] = ast.SpreadElement{Argument: ast.Identifier{Name: rest.Identifier}}
+		} else if arg.ContainsTemporalNodes() {
+			p.s.SyntaxError("expected `=>` operator")
+		}
+	}
+
+	return args
 }
 
 // Parses an array assuming a `[` was already consumed.
-- 
2.43.0


From da09938913930737df42ad4ab1c3d9c86ee47a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:48 +0000
Subject: [PATCH 23/75] fix: convert nested patterns in arrow function heads
 and keep invalid productions out of expressions

---
 ecmascript/ast/expressions.go   |   7 +-
 ecmascript/ast/temporal.go      |   2 +-
 ecmascript/parser/expression.go | 229 +++++++++++++++-----------------
 3 files changed, 114 insertions(+), 124 deletions(-)

diff --git a/ecmascript/ast/expressions.go b/ecmascript/ast/expressions.go
index 341bec4..7bb593e 100644
--- a/ecmascript/ast/expressions.go
+++ b/ecmascript/ast/expressions.go
@@ -25,7 +25,7 @@ func (n ArrayExpression) ESTree() interface{} {
 // children.
 func (n ArrayExpression) ContainsTemporalNodes() bool {
 	for _, elem := range n.Elements {
-		if elem.ContainsTemporalNodes() {
+		if elem != nil && elem.ContainsTemporalNodes() {
 			return true
 		}
 	}
@@ -396,7 +396,10 @@ func (n ObjectExpression) ESTree() interface{} {
 // children.
 func (n ObjectExpression) ContainsTemporalNodes() bool {
 	for _, prop := range n.Properties {
-		if prop.Key.ContainsTemporalNodes() || prop.Value.ContainsTemporalNodes() {
+		if prop.DestructureInit != nil || prop.Key.ContainsTemporalNodes() {
+			return true
+		}
+		if prop.Value != nil && prop.Value.ContainsTemporalNodes() {
 			return true
 		}
 	}
diff --git a/ecmascript/ast/temporal.go b/ecmascript/ast/temporal.go
index 0333509..cbc3c7e 100644
--- a/ecmascript/ast/temporal.go
+++ b/ecmascript/ast/temporal.go
@@ -40,7 +40,7 @@ func (t TemporalObjectRestElement) ContainsTemporalNodes() bool {
 
 type TemporalFloatingRestElement struct {
 	BaseNode
-	Identifier string
+	Argument Node
 }
 
 func (t TemporalFloatingRestElement) ESTree() interface{} {
diff --git a/ecmascript/parser/expression.go b/ecmascript/parser/expression.go
index 34a6c4c..a6fa6fb 100644
--- a/ecmascript/parser/expression.go
+++ b/ecmascript/parser/expression.go
@@ -35,7 +35,11 @@ type exprFlags int
 
 const (
 	exprFlagDisallowIn exprFlags = 1 << iota
+	// exprFlagMaybeArrow allows the patterns of an arrow function head.
 	exprFlagMaybeArrow
+	// exprFlagArrowHead marks the outermost level of a possible arrow function
+	// head, where rest parameters and trailing commas may appear.
+	exprFlagArrowHead
 )
 
 // parseExpression parses an expression up to a certain level of operator
@@ -51,20 +55,17 @@ const (
 // operator. Note that flags may or may not propagate to sub-expressions,
 // depending on exactly what kind of sub-expression it is.
 func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
-	if flags&exprFlagMaybeArrow != 0 {
-		switch p.s.PeekAt(0).Type {
-		case lexer.TokenPunctuatorCloseParen:
-			// This is a parameter list, not an expression.
-			return ast.TemporalEmptyArrowHead{}
-		case lexer.TokenPunctuatorEllipsis:
-			// Rest parameter inside of possible arrow function head.
-			p.s.ScanExpect(lexer.TokenPunctuatorEllipsis, "expected `...`")
-			return ast.TemporalFloatingRestElement{
-				Identifier: p.forceScanIdent("unexpected token"),
-			}
-		}
+	if flags&exprFlagArrowHead != 0 && p.s.PeekAt(0).Type == lexer.TokenPunctuatorCloseParen {
+		// This is a parameter list, not an expression.
+		return ast.TemporalEmptyArrowHead{}
 	}
 
+	// Arrow function parameters can appear next to a comma and in patterns, but
+	// not inside of an operand.
+	head := flags & exprFlagArrowHead
+	maybeArrow := flags & exprFlagMaybeArrow
+	flags &^= exprFlagArrowHead | exprFlagMaybeArrow
+
 	var n ast.Node
 	s := p.s.Location()
 	t := p.ctx.keywordToIdentifier(p.s.Scan(), false)
@@ -178,7 +179,7 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 				// OR
 				// Call to function named "async"
 				p.s.Scan()
-				inner := p.parseExpression(exprOrderComma, exprFlagMaybeArrow)
+				inner := p.parseExpression(exprOrderComma, exprFlagMaybeArrow|exprFlagArrowHead)
 				p.s.ScanExpect(lexer.TokenPunctuatorCloseParen, "expected `)` operator")
 				if p.s.PeekAt(0).Type == lexer.TokenPunctuatorFatArrow && !peek.NewLine {
 					// This was an arrow function after all. Fix up the parenthesized
@@ -212,9 +213,9 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 	case lexer.TokenLiteralString:
 		n = ast.StringLiteral{Value: t.StringConstant(), Raw: t.Literal}
 	case lexer.TokenPunctuatorOpenBracket:
-		n = p.parseArrayTail(s, flags&exprFlagMaybeArrow)
+		n = p.parseArrayTail(s, maybeArrow)
 	case lexer.TokenPunctuatorOpenBrace:
-		n = p.parseObjectTail(s, flags&exprFlagMaybeArrow)
+		n = p.parseObjectTail(s, maybeArrow)
 	case lexer.TokenKeywordFunction:
 		n = p.parseFunctionExpressionTail(s, false)
 	case lexer.TokenKeywordNew:
@@ -255,7 +256,7 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 		// list of an arrow function. To avoid look-ahead, the parser will
 		// parse as an expression where possible, but also allow some invalid
 		// productions, and then it will be fixed up here.
-		inner := p.parseExpression(exprOrderComma, exprFlagMaybeArrow)
+		inner := p.parseExpression(exprOrderComma, exprFlagMaybeArrow|exprFlagArrowHead)
 		p.s.ScanExpect(lexer.TokenPunctuatorCloseParen, "expected `)` operator")
 		if p.s.PeekAt(0).Type == lexer.TokenPunctuatorFatArrow {
 			// This was an arrow function after all. Fix up the parenthesized
@@ -265,7 +266,7 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 			})
 		} else {
 			// Was not an arrow. Deal disallowed syntax retroactively.
-			if _, ok := inner.(ast.TemporalEmptyArrowHead); ok || inner.ContainsTemporalNodes() {
+			if inner.ContainsTemporalNodes() {
 				p.s.SyntaxError("expected `=>` operator")
 			}
 
@@ -274,6 +275,13 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 			m.SetEnd(p.s.Location())
 			n = m
 		}
+	case lexer.TokenPunctuatorEllipsis:
+		if head == 0 {
+			invalidprimary()
+		}
+		// Rest parameter inside of possible arrow function head, or spread
+		// argument of a call to a function named "async".
+		n = ast.TemporalFloatingRestElement{Argument: p.parseExpression(exprOrderAssign, 0)}
 	default:
 		invalidprimary()
 	}
@@ -298,6 +306,11 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 			return n
 		}
 
+		// A pattern can not be an operand; it can only be assigned to.
+		if maybeArrow != 0 && n.ContainsTemporalNodes() && t.Type != lexer.TokenPunctuatorAssign && t.Type != lexer.TokenPunctuatorComma {
+			return n
+		}
+
 		// An operator expression can not be the object of a member access or a
 		// call, nor the operand of a postfix operator.
 		if isOperatorExpression(n) {
@@ -666,13 +679,13 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 		if t.Type == lexer.TokenPunctuatorComma {
 			p.s.ScanExpect(lexer.TokenPunctuatorComma, "expected `,` operator")
 			if seq, ok := n.(ast.SequenceExpression); ok {
-				seq.Expressions = append(seq.Expressions, p.parseExpression(exprOrderAssign, flags))
+				seq.Expressions = append(seq.Expressions, p.parseExpression(exprOrderAssign, flags|head|maybeArrow))
 				n = seq
 			} else {
 				seq := ast.SequenceExpression{Expressions: []ast.Node{n}}
 				seq.SetStart(s)
 				seq.SetEnd(p.s.Location())
-				seq.Expressions = append(seq.Expressions, p.parseExpression(exprOrderAssign, flags))
+				seq.Expressions = append(seq.Expressions, p.parseExpression(exprOrderAssign, flags|head|maybeArrow))
 				n = seq
 			}
 			continue
@@ -692,7 +705,7 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 // an operand of any operator other than the comma.
 func isAssignmentLevel(n ast.Node) bool {
 	switch m := n.(type) {
-	case ast.ConditionalExpression, ast.AssignmentExpression:
+	case ast.ConditionalExpression, ast.AssignmentExpression, ast.TemporalFloatingRestElement:
 		return true
 	case ast.FunctionExpression:
 		return m.Arrow
@@ -714,119 +727,93 @@ func isOperatorExpression(n ast.Node) bool {
 func (p *Parser) convertExprToArrowParams(inner ast.Node) ast.FormalParameters {
 	params := ast.FormalParameters{}
 
-	convarg := func(n ast.Node, params *ast.FormalParameters) {
-		switch t := n.(type) {
-		case ast.Identifier:
-			params.Parameters = append(params.Parameters, ast.BindingElement{
-				Value: ast.BindingPattern{Identifier: t.Name},
-			})
-			return
-
-		case ast.AssignmentExpression:
-			left, ok := t.Left.(ast.Identifier)
-			if !ok {
-				p.s.SyntaxError("expected identifier in argument list")
-			}
-			name := left.Name
-			params.Parameters = append(params.Parameters, ast.BindingElement{
-				Value: ast.BindingPattern{Identifier: name},
-				Init:  t.Right,
-			})
-			return
-
-		case ast.ArrayExpression:
-			pat := ast.ArrayBindingPattern{}
-			for _, e := range t.Elements {
-				elem := ast.BindingElement{}
-				switch e := e.(type) {
-				case nil:
-					break
-
-				case ast.Identifier:
-					elem.Value = ast.BindingPattern{Identifier: e.Name}
-
-				case ast.AssignmentExpression:
-					left, ok := e.Left.(ast.Identifier)
-					if !ok {
-						p.s.SyntaxError("expected identifier in argument list")
-					}
-					name := left.Name
-					elem = ast.BindingElement{Value: ast.BindingPattern{Identifier: name}, Init: e.Right}
-
-				case ast.TemporalArrayRestElement:
-					pat.RestElement = e.BindingPattern
-					params.Parameters = append(params.Parameters, ast.BindingElement{Value: ast.BindingPattern{ArrayPattern: &pat}})
-					return
-
-				default:
-					p.s.SyntaxError(fmt.Sprintf("unexpected production in array destructuring: %T", e))
-				}
-				pat.Elements = append(pat.Elements, elem)
-			}
-			params.Parameters = append(params.Parameters, ast.BindingElement{Value: ast.BindingPattern{ArrayPattern: &pat}})
-			return
-
-		case ast.ObjectExpression:
-			pat := ast.ObjectBindingPattern{}
-			for _, prop := range t.Properties {
-				if rest, ok := prop.Key.(ast.TemporalObjectRestElement); ok {
-					pat.RestElement = rest.Identifier
-					break
-				}
-				binding := ast.BindingProperty{}
-				fmt.Printf("prop: %#v\n", prop)
-				if key, ok := prop.Key.(ast.Identifier); ok {
-					binding.PropertyName = key.Name
-				}
-				switch key := prop.Value.(type) {
-				case ast.Identifier:
-					binding.Value.Identifier = key.Name
-
-				case ast.AssignmentExpression:
-					left, ok := key.Left.(ast.Identifier)
-					if !ok {
-						p.s.SyntaxError("expected identifier in argument list")
-					}
-					binding.Value.Identifier = left.Name
-					binding.Init = key.Right
+	exprs := []ast.Node{inner}
+	if seq, ok := inner.(ast.SequenceExpression); ok {
+		exprs = seq.Expressions
+	}
 
-				case nil:
-					break
+	for i, e := range exprs {
+		last := i == len(exprs)-1
 
-				default:
-					p.s.SyntaxError(fmt.Sprintf("unexpected production in object destructuring: %T", key))
-				}
-				if prop.DestructureInit != nil {
-					binding.Init = prop.DestructureInit
-				}
-				pat.Properties = append(pat.Properties, binding)
+		switch t := e.(type) {
+		case ast.TemporalEmptyArrowHead:
+			// No parameters, or a trailing comma.
+			if !last || params.RestParameter != "" {
+				p.s.SyntaxError("unexpected token in arrow function parameter list")
 			}
-			params.Parameters = append(params.Parameters, ast.BindingElement{Value: ast.BindingPattern{ObjectPattern: &pat}})
-			return
 
 		case ast.TemporalFloatingRestElement:
-			params.RestParameter = t.Identifier
-			return
+			rest, ok := t.Argument.(ast.Identifier)
+			if !ok {
+				p.s.SyntaxError("expected identifier for rest parameter")
+			}
+			if !last {
+				p.s.SyntaxError("rest parameter must be the last parameter")
+			}
+			params.RestParameter = rest.Name
 
 		default:
-			p.s.SyntaxError(fmt.Sprintf("unexpected production %T in arrow function parameter list", n))
+			params.Parameters = append(params.Parameters, p.convertExprToBindingElement(e))
 		}
 	}
 
-	switch t := inner.(type) {
-	case ast.TemporalEmptyArrowHead:
-		break
+	return params
+}
 
-	case ast.SequenceExpression:
-		for _, e := range t.Expressions {
-			convarg(e, &params)
+// convertExprToBindingElement converts an expression into a pattern with an
+// optional default value.
+func (p *Parser) convertExprToBindingElement(n ast.Node) ast.BindingElement {
+	if t, ok := n.(ast.AssignmentExpression); ok && t.Operator == ast.AssignmentOp {
+		return ast.BindingElement{Value: p.convertExprToBindingPattern(t.Left), Init: t.Right}
+	}
+	return ast.BindingElement{Value: p.convertExprToBindingPattern(n)}
+}
+
+// convertExprToBindingPattern converts an expression into a pattern.
+func (p *Parser) convertExprToBindingPattern(n ast.Node) ast.BindingPattern {
+	switch t := n.(type) {
+	case ast.Identifier:
+		return ast.BindingPattern{Identifier: t.Name}
+
+	case ast.ArrayExpression:
+		pat := &ast.ArrayBindingPattern{}
+		for _, e := range t.Elements {
+			switch e := e.(type) {
+			case nil:
+				pat.Elements = append(pat.Elements, ast.BindingElement{})
+			case ast.TemporalArrayRestElement:
+				pat.RestElement = e.BindingPattern
+			default:
+				pat.Elements = append(pat.Elements, p.convertExprToBindingElement(e))
+			}
 		}
+		return ast.BindingPattern{ArrayPattern: pat}
+
+	case ast.ObjectExpression:
+		pat := &ast.ObjectBindingPattern{}
+		for _, prop := range t.Properties {
+			if rest, ok := prop.Key.(ast.TemporalObjectRestElement); ok {
+				pat.RestElement = rest.Identifier
+				continue
+			}
+			key, ok := prop.Key.(ast.Identifier)
+			if !ok || prop.Computed || prop.Method || prop.Kind != ast.InitProperty {
+				p.s.SyntaxError("unexpected property in object destructuring")
+			}
+			binding := ast.BindingProperty{PropertyName: key.Name, Init: prop.DestructureInit}
+			if prop.Value != nil {
+				elem := p.convertExprToBindingElement(prop.Value)
+				binding.Value = elem.Value
+				binding.Init = elem.Init
+			}
+			pat.Properties = append(pat.Properties, binding)
+		}
+		return ast.BindingPattern{ObjectPattern: pat}
 
 	default:
-		convarg(t, &params)
+		p.s.SyntaxError(fmt.Sprintf("unexpected production %T in arrow function parameter list", n))
+		return ast.BindingPattern{}
 	}
-
-	return params
 }
 
 func (p *Parser) convertExprToCallParams(inner ast.Node) []ast.Node {
@@ -842,7 +829,7 @@ func (p *Parser) convertExprToCallParams(inner ast.Node) []ast.Node {
 
 	for i, arg := range args {
 		if rest, ok := arg.(ast.TemporalFloatingRestElement); ok {
-			args[i] = ast.SpreadElement{Argument: ast.Identifier{Name: rest.Identifier}}
+			args[i] = ast.SpreadElement{Argument: rest.Argument}
 		} else if arg.ContainsTemporalNodes() {
 			p.s.SyntaxError("expected `=>` operator")
 		}
@@ -1032,7 +1019,7 @@ func (p *Parser) parseObjectTail(start ast.Location, flags exprFlags) ast.Node {
 		case lexer.TokenPunctuatorOpenBracket:
 			// Computed identifier.
 			prop.Computed = true
-			prop.Key = p.parseExpression(exprOrderComma, flags)
+			prop.Key = p.parseExpression(exprOrderAssign, 0)
 			p.s.ScanExpect(lexer.TokenPunctuatorCloseBracket, "expected `]`")
 
 		default:
@@ -1061,7 +1048,7 @@ func (p *Parser) parseObjectTail(start ast.Location, flags exprFlags) ast.Node {
 
 		case flags&exprFlagMaybeArrow != 0 && peek.Type == lexer.TokenPunctuatorAssign:
 			p.s.ScanExpect(lexer.TokenPunctuatorAssign, "expected '='")
-			prop.DestructureInit = p.parseExpression(exprOrderAssign, flags)
+			prop.DestructureInit = p.parseExpression(exprOrderAssign, 0)
 
 		case peek.Type == lexer.TokenPunctuatorOpenParen:
 			// Method short-hand property
-- 
2.43.0


From 89ca7c1031edf9bc5b3c9843753a584fce9d5c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:50 +0000
Subject: [PATCH 24/75] fix: accept contextual words as the name of a rest
 element in arrow function heads

---
 ecmascript/parser/expression.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ecmascript/parser/expression.go b/ecmascript/parser/expression.go
index a6fa6fb..ec813ea 100644
--- a/ecmascript/parser/expression.go
+++ b/ecmascript/parser/expression.go
@@ -855,7 +855,7 @@ func (p *Parser) parseArrayTail(start ast.Location, flags exprFlags) ast.Node {
 		if flags&exprFlagMaybeArrow != 0 && p.s.PeekAt(0).Type == lexer.TokenPunctuatorEllipsis {
 			p.s.ScanExpect(lexer.TokenPunctuatorEllipsis, "expected `...`")
 			rest := ast.TemporalArrayRestElement{}
-			switch p.s.PeekAt(0).Type {
+			switch p.ctx.keywordToIdentifier(p.s.PeekAt(0), false).Type {
 			case lexer.TokenPunctuatorCloseBracket:
 				p.s.SyntaxError("expected expression, got ']'")
 			case lexer.TokenPunctuatorOpenBracket:
@@ -910,7 +910,7 @@ func (p *Parser) parseObjectTail(start ast.Location, flags exprFlags) ast.Node {
 
 	parseRest := func() ast.TemporalObjectRestElement {
 		rest := ast.TemporalObjectRestElement{}
-		switch p.s.PeekAt(0).Type {
+		switch p.ctx.keywordToIdentifier(p.s.PeekAt(0), false).Type {
 		case lexer.TokenPunctuatorCloseBrace:
 			p.s.SyntaxError("expected expression, got '}'")
 		case lexer.TokenIdentifier:
-- 
2.43.0


From 2ab6c15b99e63d59562ce1f46d389809393ec446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:52 +0000
Subject: [PATCH 25/75] fix: keep in out of the alternate of a conditional
 expression in for headers

---
 ecmascript/parser/expression.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecmascript/parser/expression.go b/ecmascript/parser/expression.go
index ec813ea..9e93162 100644
--- a/ecmascript/parser/expression.go
+++ b/ecmascript/parser/expression.go
@@ -593,7 +593,7 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 			p.s.ScanExpect(lexer.TokenPunctuatorQuestionMark, "expected `?` operator in conditional expression")
 			a := p.parseExpression(exprOrderAssign, 0)
 			p.s.ScanExpect(lexer.TokenPunctuatorColon, "expected `:` operator in conditional expression")
-			b := p.parseExpression(exprOrderAssign, 0)
+			b := p.parseExpression(exprOrderAssign, flags)
 			m := ast.ConditionalExpression{
 				Test:       n,
 				Consequent: a,
-- 
2.43.0


From 43b63d04abd59069f6953faa4f074e40eef76238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:05 +0000
Subject: [PATCH 26/75] fix: check assignment targets and represent
 destructuring assignments as patterns

---
 ecmascript/ast/estree.go             | 104 +++++++++++++++++++++++++++
 ecmascript/ast/expressions_binary.go |   2 +-
 ecmascript/parser/expression.go      |  65 +++++++++++++++--
 3 files changed, 166 insertions(+), 5 deletions(-)

diff --git a/ecmascript/ast/estree.go b/ecmascript/ast/estree.go
index fae326a..c23a59e 100644
--- a/ecmascript/ast/estree.go
+++ b/ecmascript/ast/estree.go
@@ -16,6 +16,110 @@ func estreeIdent(ident string) interface{} {
 	}
 }
 
+// estreeTarget returns the ESTree representation of the target of an
+// assignment. Our AST keeps array and object literals that are destructured as
+// expressions, but ESTree represents them as patterns.
+func estreeTarget(node Node) interface{} {
+	switch n := node.(type) {
+	case ArrayExpression:
+		e := struct {
+			Type     string        `json:"type"`
+			Elements []interface{} `json:"elements"`
+		}{
+			Type:     "ArrayPattern",
+			Elements: []interface{}{},
+		}
+		for _, elem := range n.Elements {
+			if rest, ok := elem.(TemporalArrayRestElement); ok {
+				e.Elements = append(e.Elements, estreeRest(rest.BindingPattern.ESTree()))
+			} else {
+				e.Elements = append(e.Elements, estreeTargetElement(elem))
+			}
+		}
+		return e
+
+	case ObjectExpression:
+		e := struct {
+			Type       string        `json:"type"`
+			Properties []interface{} `json:"properties"`
+		}{
+			Type:       "ObjectPattern",
+			Properties: []interface{}{},
+		}
+		for _, prop := range n.Properties {
+			if rest, ok := prop.Key.(TemporalObjectRestElement); ok {
+				e.Properties = append(e.Properties, estreeRest(estreeIdent(rest.Identifier)))
+				continue
+			}
+			k := estree(prop.Key)
+			v, shorthand := estreeTargetElement(prop.Value), false
+			if v == nil {
+				v, shorthand = k, true
+			}
+			if prop.DestructureInit != nil {
+				v = estreeDefault(v, prop.DestructureInit)
+			}
+			e.Properties = append(e.Properties, estreePatternProperty(k, prop.Computed, v, shorthand))
+		}
+		return e
+	}
+	return estree(node)
+}
+
+// estreeTargetElement returns the ESTree representation of an assignment
+// target with an optional default value inside of a pattern.
+func estreeTargetElement(node Node) interface{} {
+	if n, ok := node.(AssignmentExpression); ok {
+		return estreeDefault(estreeTarget(n.Left), n.Right)
+	}
+	return estreeTarget(node)
+}
+
+// estreeDefault returns a pattern with a default value.
+func estreeDefault(left interface{}, right Node) interface{} {
+	return struct {
+		Type  string      `json:"type"`
+		Left  interface{} `json:"left"`
+		Right interface{} `json:"right"`
+	}{
+		Type:  "AssignmentPattern",
+		Left:  left,
+		Right: estree(right),
+	}
+}
+
+// estreeRest returns a rest element of a pattern.
+func estreeRest(argument interface{}) interface{} {
+	return struct {
+		Type     string      `json:"type"`
+		Argument interface{} `json:"argument"`
+	}{
+		Type:     "RestElement",
+		Argument: argument,
+	}
+}
+
+// estreePatternProperty returns a property of an object pattern.
+func estreePatternProperty(key interface{}, computed bool, value interface{}, shorthand bool) interface{} {
+	return struct {
+		Type      string      `json:"type"`
+		Key       interface{} `json:"key"`
+		Computed  bool        `json:"computed"`
+		Value     interface{} `json:"value"`
+		Kind      string      `json:"kind"`
+		Method    bool        `json:"method"`
+		Shorthand bool        `json:"shorthand"`
+	}{
+		Type:      "Property",
+		Key:       key,
+		Computed:  computed,
+		Value:     value,
+		Kind:      "init",
+		Method:    false,
+		Shorthand: shorthand,
+	}
+}
+
 // estree returns the result of calling the ESTree method if the node is
 // non-nil, or nil otherwise. This is useful since nil nodes may appear in many
 // different structures.
diff --git a/ecmascript/ast/expressions_binary.go b/ecmascript/ast/expressions_binary.go
index cd6d992..584e717 100644
--- a/ecmascript/ast/expressions_binary.go
+++ b/ecmascript/ast/expressions_binary.go
@@ -280,7 +280,7 @@ func (n AssignmentExpression) ESTree() interface{} {
 	}{
 		Type:     "AssignmentExpression",
 		Operator: estreeAssignOpMap[n.Operator],
-		Left:     estree(n.Left),
+		Left:     estreeTarget(n.Left),
 		Right:    estree(n.Right),
 	}
 }
diff --git a/ecmascript/parser/expression.go b/ecmascript/parser/expression.go
index 9e93162..7f4c70c 100644
--- a/ecmascript/parser/expression.go
+++ b/ecmascript/parser/expression.go
@@ -100,6 +100,9 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 	}
 
 	wrapassign := func(op ast.AssignmentOperator, next exprOrder) ast.Node {
+		if !isSimpleTarget(n) && (op != ast.AssignmentOp || !isPatternTarget(n)) {
+			p.s.SyntaxError("invalid assignment target")
+		}
 		m := ast.AssignmentExpression{Operator: op}
 		m.Left = n
 		m.Right = p.parseExpression(next, flags)
@@ -122,6 +125,13 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 		return m
 	}
 
+	wrapupdate := func(op ast.UpdateOperator, arg ast.Node) ast.Node {
+		if !isSimpleTarget(arg) {
+			p.s.SyntaxError("invalid increment or decrement operand")
+		}
+		return wrap(&ast.UpdateExpression{Operator: op, Argument: arg}, exprOrderUnaryExpr)
+	}
+
 	// Can't be Div/DivAssign here, relex as a regex. NOTE: if we are peeked
 	// ahead at this point, this will fail.
 	re := lexer.ReToken{}
@@ -134,10 +144,10 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 	// Unary operators
 	case lexer.TokenPunctuatorIncrement:
 		// TODO: should add order for update operator?
-		n = wrap(&ast.UpdateExpression{Operator: ast.UpdatePreIncrementOp, Argument: p.parseExpression(exprOrderLHSExpr, flags)}, exprOrderUnaryExpr)
+		n = wrapupdate(ast.UpdatePreIncrementOp, p.parseExpression(exprOrderLHSExpr, flags))
 	case lexer.TokenPunctuatorDecrement:
 		// TODO: should add order for update operator?
-		n = wrap(&ast.UpdateExpression{Operator: ast.UpdatePreDecrementOp, Argument: p.parseExpression(exprOrderLHSExpr, flags)}, exprOrderUnaryExpr)
+		n = wrapupdate(ast.UpdatePreDecrementOp, p.parseExpression(exprOrderLHSExpr, flags))
 	case lexer.TokenKeywordDelete:
 		n = wrap(&ast.UnaryExpression{Operator: ast.UnaryDeleteOp, Argument: p.parseExpression(exprOrderUnaryExpr, flags)}, exprOrderUnaryExpr)
 	case lexer.TokenKeywordVoid:
@@ -416,11 +426,11 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 		// TODO: should add order for update?
 		if t.Type == lexer.TokenPunctuatorIncrement {
 			p.s.ScanExpect(lexer.TokenPunctuatorIncrement, "expected `++` operator")
-			n = wrap(&ast.UpdateExpression{Operator: ast.UpdatePostIncrementOp, Argument: n}, exprOrderUnaryExpr)
+			n = wrapupdate(ast.UpdatePostIncrementOp, n)
 			continue
 		} else if t.Type == lexer.TokenPunctuatorDecrement {
 			p.s.ScanExpect(lexer.TokenPunctuatorDecrement, "expected `--` operator")
-			n = wrap(&ast.UpdateExpression{Operator: ast.UpdatePostDecrementOp, Argument: n}, exprOrderUnaryExpr)
+			n = wrapupdate(ast.UpdatePostDecrementOp, n)
 			continue
 		}
 		if order >= exprOrderUnaryExpr {
@@ -724,6 +734,53 @@ func isOperatorExpression(n ast.Node) bool {
 	return false
 }
 
+// isSimpleTarget returns true if a value can be assigned to the expression
+// without destructuring.
+func isSimpleTarget(n ast.Node) bool {
+	switch m := n.(type) {
+	case ast.Identifier:
+		return true
+	case ast.MemberExpression:
+		return !m.Optional
+	case ast.ParenthesizedExpression:
+		return isSimpleTarget(m.Expression)
+	}
+	return false
+}
+
+// isPatternTarget returns true if the expression is a valid pattern for a
+// destructuring assignment.
+func isPatternTarget(n ast.Node) bool {
+	isElement := func(n ast.Node) bool {
+		if m, ok := n.(ast.AssignmentExpression); ok {
+			// The target of the default value was checked already.
+			return m.Operator == ast.AssignmentOp
+		}
+		return isSimpleTarget(n) || isPatternTarget(n)
+	}
+
+	switch m := n.(type) {
+	case ast.ArrayExpression:
+		for _, elem := range m.Elements {
+			if _, ok := elem.(ast.TemporalArrayRestElement); !ok && elem != nil && !isElement(elem) {
+				return false
+			}
+		}
+		return true
+	case ast.ObjectExpression:
+		for _, prop := range m.Properties {
+			if prop.Method || prop.Kind != ast.InitProperty {
+				return false
+			}
+			if prop.Value != nil && !isElement(prop.Value) {
+				return false
+			}
+		}
+		return true
+	}
+	return false
+}
+
 func (p *Parser) convertExprToArrowParams(inner ast.Node) ast.FormalParameters {
 	params := ast.FormalParameters{}
 
-- 
2.43.0


From 7c2b1b796a673bc3d79864d2889e524bdad0948a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:32 +0000
Subject: [PATCH 27/75] fix: do not use a sequence or an unassigned pattern as
 an operand

---
 ecmascript/parser/expression.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ecmascript/parser/expression.go b/ecmascript/parser/expression.go
index 7f4c70c..be7bea5 100644
--- a/ecmascript/parser/expression.go
+++ b/ecmascript/parser/expression.go
@@ -307,6 +307,8 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 		return n
 	}
 
+	isPattern := maybeArrow != 0 && n.ContainsTemporalNodes()
+
 	for {
 		// exprOrderLHSExpr
 		t = p.s.PeekAt(0)
@@ -317,7 +319,7 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 		}
 
 		// A pattern can not be an operand; it can only be assigned to.
-		if maybeArrow != 0 && n.ContainsTemporalNodes() && t.Type != lexer.TokenPunctuatorAssign && t.Type != lexer.TokenPunctuatorComma {
+		if isPattern && t.Type != lexer.TokenPunctuatorAssign && t.Type != lexer.TokenPunctuatorComma {
 			return n
 		}
 
@@ -715,7 +717,7 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 // an operand of any operator other than the comma.
 func isAssignmentLevel(n ast.Node) bool {
 	switch m := n.(type) {
-	case ast.ConditionalExpression, ast.AssignmentExpression, ast.TemporalFloatingRestElement:
+	case ast.ConditionalExpression, ast.AssignmentExpression, ast.SequenceExpression, ast.TemporalFloatingRestElement:
 		return true
 	case ast.FunctionExpression:
 		return m.Arrow
-- 
2.43.0


From f767246d12e95af17af8e04748542680814795cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:34 +0000
Subject: [PATCH 28/75] fix: name the superclass of a class superClass and
 never emit a null class body

---
 ecmascript/ast/declaration.go | 3 ++-
 ecmascript/ast/expressions.go | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/ecmascript/ast/declaration.go b/ecmascript/ast/declaration.go
index 086fc8f..4605d6f 100644
--- a/ecmascript/ast/declaration.go
+++ b/ecmascript/ast/declaration.go
@@ -71,7 +71,7 @@ func (n ClassDeclaration) ESTree() interface{} {
 	e := struct {
 		Type       string      `json:"type"`
 		ID         interface{} `json:"id"`
-		SuperClass interface{} `json:"params"`
+		SuperClass interface{} `json:"superClass"`
 		Body       struct {
 			Type string        `json:"type"`
 			Body []interface{} `json:"body"`
@@ -83,6 +83,7 @@ func (n ClassDeclaration) ESTree() interface{} {
 	}
 
 	e.Body.Type = "ClassBody"
+	e.Body.Body = []interface{}{}
 	for _, elem := range n.Body {
 		e.Body.Body = append(e.Body.Body, estree(elem))
 	}
diff --git a/ecmascript/ast/expressions.go b/ecmascript/ast/expressions.go
index 7bb593e..4a90ed7 100644
--- a/ecmascript/ast/expressions.go
+++ b/ecmascript/ast/expressions.go
@@ -479,7 +479,7 @@ func (n ClassExpression) ESTree() interface{} {
 	e := struct {
 		Type       string      `json:"type"`
 		ID         interface{} `json:"id"`
-		SuperClass interface{} `json:"params"`
+		SuperClass interface{} `json:"superClass"`
 		Body       struct {
 			Type string        `json:"type"`
 			Body []interface{} `json:"body"`
@@ -491,6 +491,7 @@ func (n ClassExpression) ESTree() interface{} {
 	}
 
 	e.Body.Type = "ClassBody"
+	e.Body.Body = []interface{}{}
 	for _, elem := range n.Body {
 		e.Body.Body = append(e.Body.Body, estree(elem))
 	}
-- 
2.43.0


From fab32def4deb917b8d36670af523662f17c3e293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:37 +0000
Subject: [PATCH 29/75] fix: emit an empty array for the body of an empty
 program

---
 ecmascript/ast/module.go | 1 +
 ecmascript/ast/script.go | 1 +
 2 files changed, 2 insertions(+)

diff --git a/ecmascript/ast/module.go b/ecmascript/ast/module.go
index 4d7c0f6..90f5a39 100644
--- a/ecmascript/ast/module.go
+++ b/ecmascript/ast/module.go
@@ -14,6 +14,7 @@ func (n ModuleNode) ESTree() interface{} {
 		SourceType string        `json:"sourceType"`
 	}{
 		Type:       "Program",
+		Body:       []interface{}{},
 		SourceType: "module",
 	}
 	for _, stmt := range n.Body {
diff --git a/ecmascript/ast/script.go b/ecmascript/ast/script.go
index b6894ae..9f21331 100644
--- a/ecmascript/ast/script.go
+++ b/ecmascript/ast/script.go
@@ -14,6 +14,7 @@ func (n ScriptNode) ESTree() interface{} {
 		SourceType string        `json:"sourceType"`
 	}{
 		Type:       "Program",
+		Body:       []interface{}{},
 		SourceType: "script",
 	}
 	for _, stmt := range n.Body {
-- 
2.43.0


From ed297441a9b08ab11c2d296c59ee63c9d6ea9c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:39 +0000
Subject: [PATCH 30/75] fix: keep default values of object pattern properties
 in ESTree output

---
 ecmascript/ast/statement.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ecmascript/ast/statement.go b/ecmascript/ast/statement.go
index 8141a6e..7e832e7 100644
--- a/ecmascript/ast/statement.go
+++ b/ecmascript/ast/statement.go
@@ -239,6 +239,9 @@ func (n BindingProperty) ESTree() interface{} {
 	if v == nil {
 		v, shorthand = k, true
 	}
+	if n.Init != nil {
+		v = estreeDefault(v, n.Init)
+	}
 	return struct {
 		Type      string      `json:"type"`
 		Key       interface{} `json:"key"`
-- 
2.43.0


From eb058a5fa0dfa3c547c1975af32472db4ca8e21c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:41 +0000
Subject: [PATCH 31/75] fix: mark arrow functions with an expression body in
 ESTree output

---
 ecmascript/ast/expressions.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ecmascript/ast/expressions.go b/ecmascript/ast/expressions.go
index 4a90ed7..7bd6724 100644
--- a/ecmascript/ast/expressions.go
+++ b/ecmascript/ast/expressions.go
@@ -115,9 +115,11 @@ type FunctionExpression struct {
 
 // ESTree returns the corresponding ESTree representation for this node.
 func (n FunctionExpression) ESTree() interface{} {
-	typ := "FunctionExpression"
+	typ, expression := "FunctionExpression", n.Expression
 	if n.Arrow {
 		typ = "ArrowFunctionExpression"
+		_, block := n.Body.(BlockStatement)
+		expression = !block
 	}
 	return struct {
 		Type       string      `json:"type"`
@@ -133,7 +135,7 @@ func (n FunctionExpression) ESTree() interface{} {
 		Params:     n.Params.ESTree(),
 		Body:       estree(n.Body),
 		Generator:  n.Generator,
-		Expression: n.Expression,
+		Expression: expression,
 		Async:      n.Async,
 	}
 }
-- 
2.43.0


From 82c7b0d91e062a982168fb4d1d914bfa85bab090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:43 +0000
Subject: [PATCH 32/75] fix: report the kind of a class constructor

---
 ecmascript/ast/declaration.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ecmascript/ast/declaration.go b/ecmascript/ast/declaration.go
index 4605d6f..6d9c4bb 100644
--- a/ecmascript/ast/declaration.go
+++ b/ecmascript/ast/declaration.go
@@ -118,6 +118,10 @@ type MethodDefinition struct {
 
 // ESTree returns the corresponding ESTree representation for this node.
 func (n MethodDefinition) ESTree() interface{} {
+	kind := estreeMethodKindMap[n.Kind]
+	if key, ok := n.Key.(Identifier); ok && key.Name == "constructor" && n.Kind == Method && !n.Static && !n.Computed {
+		kind = "constructor"
+	}
 	return struct {
 		Type     string      `json:"type"`
 		Key      interface{} `json:"key"`
@@ -130,7 +134,7 @@ func (n MethodDefinition) ESTree() interface{} {
 		Key:      estree(n.Key),
 		Computed: n.Computed,
 		Value:    estree(n.Value),
-		Kind:     estreeMethodKindMap[n.Kind],
+		Kind:     kind,
 		Static:   n.Static,
 	}
 }
-- 
2.43.0


From 98beefbb416bb02ec852530e8f6021b403b7f160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:33 +0000
Subject: [PATCH 33/75] fix: reject unseparated import specifiers instead of
 dropping them, accept default as

---
 ecmascript/parser/module.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/ecmascript/parser/module.go b/ecmascript/parser/module.go
index 8289b39..104d547 100644
--- a/ecmascript/parser/module.go
+++ b/ecmascript/parser/module.go
@@ -87,8 +87,12 @@ func (p *Parser) parseImportDecl() ast.ImportDeclNode {
 			if t.Type == lexer.TokenPunctuatorCloseBrace {
 				break importList
 			}
+			// Reserved words can be imported under another name.
+			if p.s.PeekAt(0).Type != lexer.TokenKeywordAs {
+				p.expectIdent(t, "expected import specifier in import list")
+			}
 			item := ast.NamedImport{
-				Identifier: p.expectIdent(t, "expected import specifier in import list"),
+				Identifier: p.forceIdent(t, "expected import specifier in import list"),
 			}
 			t = p.s.Scan()
 			switch t.Type {
@@ -106,7 +110,11 @@ func (p *Parser) parseImportDecl() ast.ImportDeclNode {
 					break importList
 				case lexer.TokenPunctuatorComma:
 					n.NamedImports = append(n.NamedImports, item)
+				default:
+					p.s.SyntaxError(fmt.Sprintf("expected `,` or `}` in import list, got %q", t.Source()))
 				}
+			default:
+				p.s.SyntaxError(fmt.Sprintf("expected `,`, `as` or `}` in import list, got %q", t.Source()))
 			}
 		}
 
-- 
2.43.0


From d6f996f1a443a17b1aabcf79f45aa2251b86473f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:35 +0000
Subject: [PATCH 34/75] fix: produce ESTree for import declarations instead of
 panicking

---
 ecmascript/ast/module.go    | 62 ++++++++++++++++++++++++++++++++++++-
 ecmascript/parser/module.go |  7 +++--
 2 files changed, 65 insertions(+), 4 deletions(-)

diff --git a/ecmascript/ast/module.go b/ecmascript/ast/module.go
index 90f5a39..022fadb 100644
--- a/ecmascript/ast/module.go
+++ b/ecmascript/ast/module.go
@@ -52,11 +52,32 @@ type ImportDeclNode struct {
 
 	// Module to import; string literal.
 	Module string
+
+	// Source code of the string literal.
+	ModuleRaw string
 }
 
 // ESTree returns the corresponding ESTree representation for this node.
 func (n ImportDeclNode) ESTree() interface{} {
-	panic("unimplemented")
+	e := struct {
+		Type       string        `json:"type"`
+		Specifiers []interface{} `json:"specifiers"`
+		Source     interface{}   `json:"source"`
+	}{
+		Type:       "ImportDeclaration",
+		Specifiers: []interface{}{},
+		Source:     StringLiteral{Value: n.Module, Raw: n.ModuleRaw}.ESTree(),
+	}
+	if n.DefaultBinding != nil {
+		e.Specifiers = append(e.Specifiers, n.DefaultBinding.ESTree())
+	}
+	if n.NameSpace != nil {
+		e.Specifiers = append(e.Specifiers, n.NameSpace.ESTree())
+	}
+	for _, named := range n.NamedImports {
+		e.Specifiers = append(e.Specifiers, named.ESTree())
+	}
+	return e
 }
 
 // ImportDefaultBinding contains the default import identifier.
@@ -64,13 +85,52 @@ type ImportDefaultBinding struct {
 	Identifier string
 }
 
+// ESTree returns the corresponding ESTree representation for this node.
+func (n ImportDefaultBinding) ESTree() interface{} {
+	return struct {
+		Type  string      `json:"type"`
+		Local interface{} `json:"local"`
+	}{
+		Type:  "ImportDefaultSpecifier",
+		Local: estreeIdent(n.Identifier),
+	}
+}
+
 // NameSpaceImport contains the namespace import identifier.
 type NameSpaceImport struct {
 	Identifier string
 }
 
+// ESTree returns the corresponding ESTree representation for this node.
+func (n NameSpaceImport) ESTree() interface{} {
+	return struct {
+		Type  string      `json:"type"`
+		Local interface{} `json:"local"`
+	}{
+		Type:  "ImportNamespaceSpecifier",
+		Local: estreeIdent(n.Identifier),
+	}
+}
+
 // NamedImport contains an individual named import binding.
 type NamedImport struct {
 	Identifier string
 	AsBinding  string
 }
+
+// ESTree returns the corresponding ESTree representation for this node.
+func (n NamedImport) ESTree() interface{} {
+	local := n.AsBinding
+	if local == "" {
+		local = n.Identifier
+	}
+	return struct {
+		Type     string      `json:"type"`
+		Imported interface{} `json:"imported"`
+		Local    interface{} `json:"local"`
+	}{
+		Type:     "ImportSpecifier",
+		Imported: estreeIdent(n.Identifier),
+		Local:    estreeIdent(local),
+	}
+}
diff --git a/ecmascript/parser/module.go b/ecmascript/parser/module.go
index 104d547..1a4c3f8 100644
--- a/ecmascript/parser/module.go
+++ b/ecmascript/parser/module.go
@@ -48,7 +48,7 @@ func (p *Parser) parseImportDecl() ast.ImportDeclNode {
 	t := p.ctx.keywordToIdentifier(p.s.Scan(), false)
 	switch t.Type {
 	case lexer.TokenLiteralString:
-		n.Module = t.StringConstant()
+		n.Module, n.ModuleRaw = t.StringConstant(), t.Literal
 		p.expectSemicolon()
 		return n
 
@@ -64,7 +64,7 @@ func (p *Parser) parseImportDecl() ast.ImportDeclNode {
 
 		case lexer.TokenKeywordFrom:
 			t = p.s.ScanExpect(lexer.TokenLiteralString, "expected module specifier after `from`")
-			n.Module = t.StringConstant()
+			n.Module, n.ModuleRaw = t.StringConstant(), t.Literal
 			p.expectSemicolon()
 			return n
 
@@ -123,7 +123,8 @@ func (p *Parser) parseImportDecl() ast.ImportDeclNode {
 	}
 
 	p.s.ScanExpect(lexer.TokenKeywordFrom, "expected `from` clause in import declaration")
-	n.Module = p.s.ScanExpect(lexer.TokenLiteralString, "expected module specifier after `from`").StringConstant()
+	t = p.s.ScanExpect(lexer.TokenLiteralString, "expected module specifier after `from`")
+	n.Module, n.ModuleRaw = t.StringConstant(), t.Literal
 
 	p.expectSemicolon()
 
-- 
2.43.0


From 2637734c9946910212734df1991d7028500aa60c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:59 +0000
Subject: [PATCH 35/75] fix: recognize directives only at the start of
 functions and programs, and all of them

---
 ecmascript/parser/declaration.go |  4 +-
 ecmascript/parser/expression.go  |  6 +--
 ecmascript/parser/module.go      |  1 +
 ecmascript/parser/script.go      |  1 +
 ecmascript/parser/statement.go   | 67 +++++++++++++++++++++-----------
 5 files changed, 51 insertions(+), 28 deletions(-)

diff --git a/ecmascript/parser/declaration.go b/ecmascript/parser/declaration.go
index 7f0719d..48e66de 100644
--- a/ecmascript/parser/declaration.go
+++ b/ecmascript/parser/declaration.go
@@ -25,7 +25,7 @@ func (p *Parser) parseFunctionDeclaration() ast.Node {
 	// TODO: generator support
 	p.s.ScanExpect(lexer.TokenPunctuatorOpenParen, "expected parameter list following function declaration")
 	params := p.parseParametersTail()
-	body := p.parseBlock()
+	body := p.parseFunctionBody()
 	n := ast.FunctionDeclaration{
 		ID:     name,
 		Params: params,
@@ -128,7 +128,7 @@ func (p *Parser) parseClassBody() []ast.Node {
 
 		fn := ast.FunctionExpression{}
 		fn.Params = p.parseParameters()
-		fn.Body = p.parseBlock()
+		fn.Body = p.parseFunctionBody()
 		fn.SetEnd(p.s.Location())
 		m.Value = fn
 
diff --git a/ecmascript/parser/expression.go b/ecmascript/parser/expression.go
index be7bea5..3db3b49 100644
--- a/ecmascript/parser/expression.go
+++ b/ecmascript/parser/expression.go
@@ -1092,7 +1092,7 @@ func (p *Parser) parseObjectTail(start ast.Location, flags exprFlags) ast.Node {
 			// Getter/setter
 			fn := ast.FunctionExpression{}
 			fn.Params = p.parseParameters()
-			fn.Body = p.parseBlock()
+			fn.Body = p.parseFunctionBody()
 			fn.SetEnd(p.s.Location())
 			prop.Value = fn
 
@@ -1122,7 +1122,7 @@ func (p *Parser) parseObjectTail(start ast.Location, flags exprFlags) ast.Node {
 
 			fn.SetStart(p.s.Location())
 			fn.Params = p.parseParameters()
-			fn.Body = p.parseBlock()
+			fn.Body = p.parseFunctionBody()
 			fn.SetEnd(p.s.Location())
 
 			prop.Value = fn
@@ -1183,7 +1183,7 @@ func (p *Parser) parseFunctionExpressionTail(start ast.Location, async bool) ast
 
 	wasgen := p.ctx.generator
 	p.ctx.generator = true
-	body := p.parseBlock()
+	body := p.parseFunctionBody()
 	p.ctx.generator = wasgen
 
 	m := ast.FunctionExpression{
diff --git a/ecmascript/parser/module.go b/ecmascript/parser/module.go
index 1a4c3f8..0fa972a 100644
--- a/ecmascript/parser/module.go
+++ b/ecmascript/parser/module.go
@@ -15,6 +15,7 @@ func (p *Parser) parseModule() ast.Node {
 	p.setStart(&m)
 	defer p.setEnd(&m)
 
+	m.Body = p.parseDirectives()
 	for {
 		if p.s.PeekAt(0).Type == lexer.TokenNone {
 			break
diff --git a/ecmascript/parser/script.go b/ecmascript/parser/script.go
index a776ba6..519473c 100644
--- a/ecmascript/parser/script.go
+++ b/ecmascript/parser/script.go
@@ -10,6 +10,7 @@ func (p *Parser) parseScript() ast.Node {
 	p.setStart(&m)
 	defer p.setEnd(&m)
 
+	m.Body = p.parseDirectives()
 	for {
 		if p.s.PeekAt(0).Type == lexer.TokenNone {
 			break
diff --git a/ecmascript/parser/statement.go b/ecmascript/parser/statement.go
index a0e1b0a..3932d50 100644
--- a/ecmascript/parser/statement.go
+++ b/ecmascript/parser/statement.go
@@ -109,7 +109,7 @@ func (p *Parser) parseExpressionStatement() ast.Node {
 
 func (p *Parser) parseBlockOrShorthand(flags exprFlags) ast.Node {
 	if p.s.PeekAt(0).Type == lexer.TokenPunctuatorOpenBrace {
-		return p.parseBlock()
+		return p.parseFunctionBody()
 	} else {
 		return p.parseExpression(exprOrderAssign, flags)
 	}
@@ -122,27 +122,6 @@ func (p *Parser) parseBlock() ast.BlockStatement {
 
 	p.s.ScanExpect(lexer.TokenPunctuatorOpenBrace, "expected block opening brace `{`")
 
-	// Early exit for empty block.
-	if p.s.PeekAt(0).Type == lexer.TokenPunctuatorCloseBrace {
-		p.s.ScanExpect(lexer.TokenPunctuatorCloseBrace, "expected statement, declaration, or closing brace `}`")
-		return n
-	}
-
-	ctx := p.ctx
-
-	// Parse first statement so we can parse directives out of it.
-	stmt := p.parseStatementItem()
-	if expr, ok := stmt.(ast.ExpressionStatement); ok {
-		if str, ok := expr.Expression.(ast.StringLiteral); ok {
-			if str.Value == "use strict" {
-				ctx.strictMode = true
-				expr.Directive = "use strict"
-			}
-		}
-		stmt = expr
-	}
-	n.Body = append(n.Body, stmt)
-
 	for {
 		if p.s.PeekAt(0).Type == lexer.TokenPunctuatorCloseBrace {
 			p.s.ScanExpect(lexer.TokenPunctuatorCloseBrace, "expected statement, declaration, or closing brace `}`")
@@ -151,11 +130,53 @@ func (p *Parser) parseBlock() ast.BlockStatement {
 		n.Body = append(n.Body, p.parseStatementItem())
 	}
 
-	p.ctx = ctx
+	return n
+}
+
+// parseFunctionBody parses the body of a function, which, unlike other blocks,
+// can start with directives.
+func (p *Parser) parseFunctionBody() ast.BlockStatement {
+	n := ast.BlockStatement{}
+	p.setStart(&n)
+	defer p.setEnd(&n)
+
+	strict := p.ctx.strictMode
+
+	p.s.ScanExpect(lexer.TokenPunctuatorOpenBrace, "expected function body opening brace `{`")
+	n.Body = p.parseDirectives()
+	for p.s.PeekAt(0).Type != lexer.TokenPunctuatorCloseBrace {
+		n.Body = append(n.Body, p.parseStatementItem())
+	}
+	p.s.ScanExpect(lexer.TokenPunctuatorCloseBrace, "expected statement, declaration, or closing brace `}`")
+
+	p.ctx.strictMode = strict
 
 	return n
 }
 
+// parseDirectives parses the directives at the start of a function body or
+// program, along with the statement following them, if any.
+func (p *Parser) parseDirectives() []ast.Node {
+	var body []ast.Node
+	for p.s.PeekAt(0).Type == lexer.TokenLiteralString {
+		stmt := p.parseStatementItem()
+		expr, ok := stmt.(ast.ExpressionStatement)
+		if !ok {
+			return append(body, stmt)
+		}
+		str, ok := expr.Expression.(ast.StringLiteral)
+		if !ok {
+			return append(body, stmt)
+		}
+		expr.Directive = str.Raw[1 : len(str.Raw)-1]
+		if expr.Directive == "use strict" {
+			p.ctx.strictMode = true
+		}
+		body = append(body, expr)
+	}
+	return body
+}
+
 func (p *Parser) parseVariableStatement() ast.VariableDeclaration {
 	n := p.parseVariableStatementNoSemicolon()
 	p.expectSemicolon()
-- 
2.43.0


From 964e40b217ddfc5ac1287f54cf876daf9786c51c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:01 +0000
Subject: [PATCH 36/75] fix: reserve yield and await in the functions they
 belong to only

---
 ecmascript/parser/context.go     |  8 ++++++++
 ecmascript/parser/declaration.go |  6 ++++++
 ecmascript/parser/expression.go  | 13 +++++++++----
 3 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/ecmascript/parser/context.go b/ecmascript/parser/context.go
index 51d3cd6..fdac1d8 100644
--- a/ecmascript/parser/context.go
+++ b/ecmascript/parser/context.go
@@ -9,6 +9,14 @@ type parseContext struct {
 	generator  bool
 }
 
+// function returns the context inside of a function. Functions inherit strict
+// mode, but not whether yield and await are reserved.
+func (ctx parseContext) function(async, generator bool) parseContext {
+	ctx.async = async
+	ctx.generator = generator
+	return ctx
+}
+
 // keywordToIdentifier converts a keyword to an identifier, if permissible in
 // the context.
 func (ctx *parseContext) keywordToIdentifier(token lexer.Token, force bool) lexer.Token {
diff --git a/ecmascript/parser/declaration.go b/ecmascript/parser/declaration.go
index 48e66de..1b98a7f 100644
--- a/ecmascript/parser/declaration.go
+++ b/ecmascript/parser/declaration.go
@@ -24,8 +24,11 @@ func (p *Parser) parseFunctionDeclaration() ast.Node {
 	name := p.scanIdent("expected identifier")
 	// TODO: generator support
 	p.s.ScanExpect(lexer.TokenPunctuatorOpenParen, "expected parameter list following function declaration")
+	ctx := p.ctx
+	p.ctx = ctx.function(false, false)
 	params := p.parseParametersTail()
 	body := p.parseFunctionBody()
+	p.ctx = ctx
 	n := ast.FunctionDeclaration{
 		ID:     name,
 		Params: params,
@@ -126,11 +129,14 @@ func (p *Parser) parseClassBody() []ast.Node {
 			p.s.SyntaxError("expected method definition")
 		}
 
+		ctx := p.ctx
+		p.ctx = ctx.function(false, false)
 		fn := ast.FunctionExpression{}
 		fn.Params = p.parseParameters()
 		fn.Body = p.parseFunctionBody()
 		fn.SetEnd(p.s.Location())
 		m.Value = fn
+		p.ctx = ctx
 
 		n = append(n, m)
 	}
diff --git a/ecmascript/parser/expression.go b/ecmascript/parser/expression.go
index 3db3b49..e932c6d 100644
--- a/ecmascript/parser/expression.go
+++ b/ecmascript/parser/expression.go
@@ -118,7 +118,10 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 			p.s.SyntaxError("unexpected `=>`")
 		}
 		p.s.ScanExpect(lexer.TokenPunctuatorFatArrow, "expected `=>` operator")
+		ctx := p.ctx
+		p.ctx = ctx.function(m.Async, false)
 		m.Body = p.parseBlockOrShorthand(flags & exprFlagDisallowIn)
+		p.ctx = ctx
 		m.Arrow = true
 		m.SetStart(s)
 		m.SetEnd(p.s.Location())
@@ -1090,11 +1093,14 @@ func (p *Parser) parseObjectTail(start ast.Location, flags exprFlags) ast.Node {
 		switch {
 		case prop.Kind == ast.GetProperty || prop.Kind == ast.SetProperty:
 			// Getter/setter
+			ctx := p.ctx
+			p.ctx = ctx.function(false, false)
 			fn := ast.FunctionExpression{}
 			fn.Params = p.parseParameters()
 			fn.Body = p.parseFunctionBody()
 			fn.SetEnd(p.s.Location())
 			prop.Value = fn
+			p.ctx = ctx
 
 		case peek.Type == lexer.TokenPunctuatorColon:
 			// Normal init property
@@ -1179,12 +1185,11 @@ func (p *Parser) parseFunctionExpressionTail(start ast.Location, async bool) ast
 		p.s.SyntaxError("expected parameter list following function expression head")
 	}
 
+	ctx := p.ctx
+	p.ctx = ctx.function(async, generator)
 	params := p.parseParametersTail()
-
-	wasgen := p.ctx.generator
-	p.ctx.generator = true
 	body := p.parseFunctionBody()
-	p.ctx.generator = wasgen
+	p.ctx = ctx
 
 	m := ast.FunctionExpression{
 		ID:        name,
-- 
2.43.0


From d4a351a055aecc1f72225f94702f73a4076ee942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:03 +0000
Subject: [PATCH 37/75] fix: expect the * of a generator expression before its
 name

---
 ecmascript/parser/expression.go | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/ecmascript/parser/expression.go b/ecmascript/parser/expression.go
index e932c6d..aefb7c6 100644
--- a/ecmascript/parser/expression.go
+++ b/ecmascript/parser/expression.go
@@ -1168,12 +1168,7 @@ func (p *Parser) parseObjectTail(start ast.Location, flags exprFlags) ast.Node {
 
 // Parse traditional function expression
 func (p *Parser) parseFunctionExpressionTail(start ast.Location, async bool) ast.FunctionExpression {
-	t := p.ctx.keywordToIdentifier(p.s.Scan(), false)
-	name := ""
-	if t.Type == lexer.TokenIdentifier {
-		name = t.Literal
-		t = p.s.Scan()
-	}
+	t := p.s.Scan()
 
 	generator := false
 	if t.Type == lexer.TokenPunctuatorMult {
@@ -1181,12 +1176,21 @@ func (p *Parser) parseFunctionExpressionTail(start ast.Location, async bool) ast
 		t = p.s.Scan()
 	}
 
+	// The name of a function expression is bound inside of the function.
+	inner := p.ctx.function(async, generator)
+	t = inner.keywordToIdentifier(t, false)
+	name := ""
+	if t.Type == lexer.TokenIdentifier {
+		name = t.Literal
+		t = p.s.Scan()
+	}
+
 	if t.Type != lexer.TokenPunctuatorOpenParen {
 		p.s.SyntaxError("expected parameter list following function expression head")
 	}
 
 	ctx := p.ctx
-	p.ctx = ctx.function(async, generator)
+	p.ctx = inner
 	params := p.parseParametersTail()
 	body := p.parseFunctionBody()
 	p.ctx = ctx
-- 
2.43.0


From 185893b8eea84a42de16b95697e1e5c8ea3ad0ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:48 +0000
Subject: [PATCH 38/75] fix: treat classes as strict mode code, accept
 contextual names and calls in extends

---
 ecmascript/parser/declaration.go | 8 +++++++-
 ecmascript/parser/expression.go  | 9 +++++++--
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/ecmascript/parser/declaration.go b/ecmascript/parser/declaration.go
index 1b98a7f..4421b8d 100644
--- a/ecmascript/parser/declaration.go
+++ b/ecmascript/parser/declaration.go
@@ -70,11 +70,17 @@ func (p *Parser) parseClassDeclaration() ast.Node {
 	defer p.setEnd(&n)
 
 	p.s.ScanExpect(lexer.TokenKeywordClass, "expected class")
+
+	// All parts of a class are strict mode code.
+	strict := p.ctx.strictMode
+	p.ctx.strictMode = true
+	defer func() { p.ctx.strictMode = strict }()
+
 	n.ID = p.scanIdent("expected class name")
 
 	if p.s.PeekAt(0).Type == lexer.TokenKeywordExtends {
 		p.s.Scan()
-		n.SuperClass = p.parseExpression(exprOrderMemberExpr, 0)
+		n.SuperClass = p.parseExpression(exprOrderLHSExpr, 0)
 	}
 
 	n.Body = p.parseClassBody()
diff --git a/ecmascript/parser/expression.go b/ecmascript/parser/expression.go
index aefb7c6..d0f0915 100644
--- a/ecmascript/parser/expression.go
+++ b/ecmascript/parser/expression.go
@@ -243,16 +243,21 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 		m.SetEnd(p.s.Location())
 		n = m
 	case lexer.TokenKeywordClass:
+		// All parts of a class are strict mode code.
+		strict := p.ctx.strictMode
+		p.ctx.strictMode = true
+
 		m := ast.ClassExpression{}
-		if p.s.PeekAt(0).Type == lexer.TokenIdentifier {
+		if p.ctx.keywordToIdentifier(p.s.PeekAt(0), false).Type == lexer.TokenIdentifier {
 			m.ID = p.scanIdent("expected class name")
 		}
 		if p.s.PeekAt(0).Type == lexer.TokenKeywordExtends {
 			p.s.Scan()
-			m.SuperClass = p.parseExpression(exprOrderMemberExpr, 0)
+			m.SuperClass = p.parseExpression(exprOrderLHSExpr, 0)
 		}
 		m.Body = p.parseClassBody()
 		n = m
+		p.ctx.strictMode = strict
 	case lexer.TokenLiteralRegExp:
 		m := ast.RegExpLiteral{
 			Raw:     t.Literal,
-- 
2.43.0


From f422861adde5c3eb49fc282f2e02a354e86c716a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:51 +0000
Subject: [PATCH 39/75] fix: accept keywords, get, set, static and literals as
 method names, and ; in classes

---
 ecmascript/ast/declaration.go    | 13 +++++++++--
 ecmascript/parser/declaration.go | 40 ++++++++++++++++++++------------
 2 files changed, 36 insertions(+), 17 deletions(-)

diff --git a/ecmascript/ast/declaration.go b/ecmascript/ast/declaration.go
index 6d9c4bb..9e409cc 100644
--- a/ecmascript/ast/declaration.go
+++ b/ecmascript/ast/declaration.go
@@ -119,8 +119,17 @@ type MethodDefinition struct {
 // ESTree returns the corresponding ESTree representation for this node.
 func (n MethodDefinition) ESTree() interface{} {
 	kind := estreeMethodKindMap[n.Kind]
-	if key, ok := n.Key.(Identifier); ok && key.Name == "constructor" && n.Kind == Method && !n.Static && !n.Computed {
-		kind = "constructor"
+	if n.Kind == Method && !n.Static && !n.Computed {
+		switch key := n.Key.(type) {
+		case Identifier:
+			if key.Name == "constructor" {
+				kind = "constructor"
+			}
+		case StringLiteral:
+			if key.Value == "constructor" {
+				kind = "constructor"
+			}
+		}
 	}
 	return struct {
 		Type     string      `json:"type"`
diff --git a/ecmascript/parser/declaration.go b/ecmascript/parser/declaration.go
index 4421b8d..00418ce 100644
--- a/ecmascript/parser/declaration.go
+++ b/ecmascript/parser/declaration.go
@@ -93,42 +93,52 @@ func (p *Parser) parseClassBody() []ast.Node {
 	n := []ast.Node{}
 
 	for {
-		peek := p.s.PeekAt(0)
-		if peek.Type == lexer.TokenPunctuatorCloseBrace {
-			p.s.Scan()
+		t := p.s.Scan()
+		if t.Type == lexer.TokenPunctuatorCloseBrace {
 			break
 		}
+		if t.Type == lexer.TokenPunctuatorSemicolon {
+			continue
+		}
 
 		// TODO: implement member variables...
 		m := ast.MethodDefinition{}
 
+		// Specifiers are method names when they are followed by parameters.
+		isName := func() bool {
+			return p.s.PeekAt(0).Type == lexer.TokenPunctuatorOpenParen
+		}
+
 		// Static specifier
-		if peek.Type == lexer.TokenKeywordStatic {
-			p.s.Scan()
-			peek = p.s.PeekAt(0)
+		if t.Type == lexer.TokenKeywordStatic && !isName() {
+			t = p.s.Scan()
 			m.Static = true
 		}
 
 		// Get/set specifier
-		switch peek.Type {
-		case lexer.TokenKeywordGet:
-			p.s.Scan()
+		if t.Type == lexer.TokenKeywordGet && !isName() {
+			t = p.s.Scan()
 			m.Kind = ast.GetMethod
-
-		case lexer.TokenKeywordSet:
-			p.s.Scan()
+		} else if t.Type == lexer.TokenKeywordSet && !isName() {
+			t = p.s.Scan()
 			m.Kind = ast.SetMethod
 		}
 
-		// Identifier (possibly computed)
-		t := p.s.Scan()
+		// Property name (possibly computed)
+		t = p.ctx.keywordToIdentifier(t, true)
 		switch t.Type {
 		case lexer.TokenIdentifier:
 			m.Key = ast.Identifier{Name: t.Literal}
 
+		case lexer.TokenLiteralString:
+			m.Key = ast.StringLiteral{Value: t.StringConstant(), Raw: t.Literal}
+
+		case lexer.TokenLiteralNumber:
+			m.Key = ast.NumberLiteral{Value: t.NumberConstant(), Raw: t.Literal}
+
 		case lexer.TokenPunctuatorOpenBracket:
 			m.Computed = true
-			m.Key = p.parseExpression(exprOrderComma, 0)
+			m.Key = p.parseExpression(exprOrderAssign, 0)
 			p.s.ScanExpect(lexer.TokenPunctuatorCloseBracket, "expected `]`")
 
 		default:
-- 
2.43.0


From b007a2be630484a9e34bc0dc92501babe61f726a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:28 +0000
Subject: [PATCH 40/75] fix: reject arguments and array elements that are not
 separated by commas

---
 ecmascript/parser/expression.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/ecmascript/parser/expression.go b/ecmascript/parser/expression.go
index d0f0915..b192898 100644
--- a/ecmascript/parser/expression.go
+++ b/ecmascript/parser/expression.go
@@ -939,12 +939,10 @@ func (p *Parser) parseArrayTail(start ast.Location, flags exprFlags) ast.Node {
 		} else {
 			n.Elements = append(n.Elements, p.parseExpression(exprOrderAssign, flags))
 		}
-		if p.s.PeekAt(0).Type == lexer.TokenPunctuatorComma {
-			p.s.ScanExpect(lexer.TokenPunctuatorComma, "expected `,`")
-		}
 		if p.s.PeekAt(0).Type == lexer.TokenPunctuatorCloseBracket {
 			break
 		}
+		p.s.ScanExpect(lexer.TokenPunctuatorComma, "expected `,` or `]`")
 	}
 
 	p.s.ScanExpect(lexer.TokenPunctuatorCloseBracket, "expected `]`")
@@ -1234,8 +1232,8 @@ func (p *Parser) parseArguments() []ast.Node {
 			m = ast.SpreadElement{Argument: m}
 		}
 		n = append(n, m)
-		if p.s.PeekAt(0).Type == lexer.TokenPunctuatorComma {
-			p.s.ScanExpect(lexer.TokenPunctuatorComma, "expected `,`")
+		if p.s.PeekAt(0).Type != lexer.TokenPunctuatorCloseParen {
+			p.s.ScanExpect(lexer.TokenPunctuatorComma, "expected `,` or `)`")
 		}
 		if p.s.PeekAt(0).Type == lexer.TokenPunctuatorCloseParen {
 			p.s.ScanExpect(lexer.TokenPunctuatorCloseParen, "expected `)`")
-- 
2.43.0


From e247dded860b9e0e0add33d6f3bb06b03b61c48c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:04 +0000
Subject: [PATCH 41/75] fix: reject a missing statement in if, loops and labels

---
 ecmascript/parser/statement.go | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/ecmascript/parser/statement.go b/ecmascript/parser/statement.go
index 3932d50..4a36461 100644
--- a/ecmascript/parser/statement.go
+++ b/ecmascript/parser/statement.go
@@ -18,6 +18,15 @@ func (p *Parser) parseStatementItem() ast.Node {
 	return nil
 }
 
+// parseSubStatement parses a statement where no declaration is allowed.
+func (p *Parser) parseSubStatement() ast.Node {
+	n := p.parseStatement()
+	if n == nil {
+		p.s.SyntaxError("expected statement")
+	}
+	return n
+}
+
 func (p *Parser) parseStatement() ast.Node {
 	switch p.s.PeekAt(0).Type {
 	case lexer.TokenPunctuatorOpenBrace:
@@ -383,10 +392,10 @@ func (p *Parser) parseIfStatement() ast.Node {
 	p.s.ScanExpect(lexer.TokenPunctuatorOpenParen, "expected `(` after `if`")
 	n.Test = p.parseExpression(exprOrderComma, 0)
 	p.s.ScanExpect(lexer.TokenPunctuatorCloseParen, "expected `)`")
-	n.Consequent = p.parseStatement()
+	n.Consequent = p.parseSubStatement()
 	if p.s.PeekAt(0).Type == lexer.TokenKeywordElse {
 		p.s.ScanExpect(lexer.TokenKeywordElse, "expected `else`")
-		n.Alternate = p.parseStatement()
+		n.Alternate = p.parseSubStatement()
 	}
 	return n
 }
@@ -397,7 +406,7 @@ func (p *Parser) parseDoWhileStatement() ast.Node {
 	defer p.setEnd(&n)
 
 	p.s.ScanExpect(lexer.TokenKeywordDo, "expected `do` statement")
-	n.Body = p.parseStatement()
+	n.Body = p.parseSubStatement()
 	p.s.ScanExpect(lexer.TokenKeywordWhile, "expected `while` in do/while statement")
 	p.s.ScanExpect(lexer.TokenPunctuatorOpenParen, "expected `(` in `while` of do/while statement")
 	n.Test = p.parseExpression(exprOrderComma, 0)
@@ -415,7 +424,7 @@ func (p *Parser) parseWhileStatement() ast.Node {
 	p.s.ScanExpect(lexer.TokenPunctuatorOpenParen, "expected `(` in `while` of do/while statement")
 	n.Test = p.parseExpression(exprOrderComma, 0)
 	p.s.ScanExpect(lexer.TokenPunctuatorCloseParen, "expected `)` in `while` of do/while statement")
-	n.Body = p.parseStatement()
+	n.Body = p.parseSubStatement()
 	return n
 }
 
@@ -450,7 +459,7 @@ func (p *Parser) parseForStatement() ast.Node {
 			}
 			m.SetStart(n.Span().Start)
 			p.s.ScanExpect(lexer.TokenPunctuatorCloseParen, "expected `)`")
-			m.Body = p.parseStatement()
+			m.Body = p.parseSubStatement()
 			p.setEnd(&m)
 			return m
 
@@ -462,7 +471,7 @@ func (p *Parser) parseForStatement() ast.Node {
 			}
 			m.SetStart(n.Span().Start)
 			p.s.ScanExpect(lexer.TokenPunctuatorCloseParen, "expected `)`")
-			m.Body = p.parseStatement()
+			m.Body = p.parseSubStatement()
 			p.setEnd(&m)
 			return m
 		}
@@ -477,7 +486,7 @@ func (p *Parser) parseForStatement() ast.Node {
 		n.Update = p.parseExpression(exprOrderComma, 0)
 	}
 	p.s.ScanExpect(lexer.TokenPunctuatorCloseParen, "expected `)`")
-	n.Body = p.parseStatement()
+	n.Body = p.parseSubStatement()
 	return n
 }
 
@@ -657,6 +666,6 @@ func (p *Parser) parseLabelledStatement() ast.Node {
 
 	n.Label = p.scanIdent("expected statement label")
 	p.s.ScanExpect(lexer.TokenPunctuatorColon, "expected `:` after statement label")
-	n.Body = p.parseStatement()
+	n.Body = p.parseSubStatement()
 	return n
 }
-- 
2.43.0


From 7be1cf4a4660726b16760b998e22ff69ba56f100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:06 +0000
Subject: [PATCH 42/75] fix: reject unexpected tokens in switch statements
 instead of looping, accept declarations in cases

---
 ecmascript/parser/statement.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ecmascript/parser/statement.go b/ecmascript/parser/statement.go
index 4a36461..f904569 100644
--- a/ecmascript/parser/statement.go
+++ b/ecmascript/parser/statement.go
@@ -515,7 +515,7 @@ func (p *Parser) parseSwitchStatement() ast.Node {
 				case lexer.TokenKeywordCase, lexer.TokenKeywordDefault, lexer.TokenPunctuatorCloseBrace:
 					break caseStatements
 				default:
-					c.Consequent = append(c.Consequent, p.parseStatement())
+					c.Consequent = append(c.Consequent, p.parseStatementItem())
 				}
 			}
 			n.Cases = append(n.Cases, c)
@@ -530,7 +530,7 @@ func (p *Parser) parseSwitchStatement() ast.Node {
 				case lexer.TokenKeywordCase, lexer.TokenKeywordDefault, lexer.TokenPunctuatorCloseBrace:
 					break defaultStatements
 				default:
-					c.Consequent = append(c.Consequent, p.parseStatement())
+					c.Consequent = append(c.Consequent, p.parseStatementItem())
 				}
 			}
 			n.Cases = append(n.Cases, c)
@@ -538,6 +538,9 @@ func (p *Parser) parseSwitchStatement() ast.Node {
 		case lexer.TokenPunctuatorCloseBrace:
 			p.s.ScanExpect(lexer.TokenPunctuatorCloseBrace, "expected `}`")
 			return n
+
+		default:
+			p.s.SyntaxError("expected `case`, `default` or `}`")
 		}
 	}
 }
-- 
2.43.0


From 717f511bce0aa876c2a123cd056d69a9a7d6ca5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:58 +0000
Subject: [PATCH 43/75] fix: reject more than one default clause in a switch
 statement

---
 ecmascript/parser/statement.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ecmascript/parser/statement.go b/ecmascript/parser/statement.go
index f904569..aac15c0 100644
--- a/ecmascript/parser/statement.go
+++ b/ecmascript/parser/statement.go
@@ -521,6 +521,11 @@ func (p *Parser) parseSwitchStatement() ast.Node {
 			n.Cases = append(n.Cases, c)
 
 		case lexer.TokenKeywordDefault:
+			for _, c := range n.Cases {
+				if c.Test == nil {
+					p.s.SyntaxError("more than one default clause in switch statement")
+				}
+			}
 			c := ast.SwitchCase{}
 			p.s.ScanExpect(lexer.TokenKeywordDefault, "expected `default`")
 			p.s.ScanExpect(lexer.TokenPunctuatorColon, "expected `:`")
-- 
2.43.0


From a00484e73035e75a62bdcd4c56d3c4d25a744fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:00 +0000
Subject: [PATCH 44/75] fix: insert a semicolon after do-while statements

---
 ecmascript/parser/statement.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ecmascript/parser/statement.go b/ecmascript/parser/statement.go
index aac15c0..8a3dd2d 100644
--- a/ecmascript/parser/statement.go
+++ b/ecmascript/parser/statement.go
@@ -411,7 +411,10 @@ func (p *Parser) parseDoWhileStatement() ast.Node {
 	p.s.ScanExpect(lexer.TokenPunctuatorOpenParen, "expected `(` in `while` of do/while statement")
 	n.Test = p.parseExpression(exprOrderComma, 0)
 	p.s.ScanExpect(lexer.TokenPunctuatorCloseParen, "expected `)` in `while` of do/while statement")
-	p.expectSemicolon()
+	// A semicolon is always inserted after a do-while statement.
+	if p.s.PeekAt(0).Type == lexer.TokenPunctuatorSemicolon {
+		p.s.Scan()
+	}
 	return n
 }
 
-- 
2.43.0


From 4b537770bc8a04f95077bf527f816b3f11e95607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:02 +0000
Subject: [PATCH 45/75] fix: reject try without catch or finally and invalid
 catch parameters

---
 ecmascript/parser/statement.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ecmascript/parser/statement.go b/ecmascript/parser/statement.go
index 8a3dd2d..3b24462 100644
--- a/ecmascript/parser/statement.go
+++ b/ecmascript/parser/statement.go
@@ -648,6 +648,9 @@ func (p *Parser) parseTryStatement() ast.Node {
 		p.s.ScanExpect(lexer.TokenKeywordFinally, "expected finally statement")
 		n.Finalizer = p.parseBlock()
 	}
+	if n.Handler == nil && n.Finalizer == nil {
+		p.s.SyntaxError("expected `catch` or `finally`")
+	}
 	return n
 }
 
@@ -661,6 +664,8 @@ func (p *Parser) parseCatchParameter() ast.BindingPattern {
 		b.ArrayPattern = p.parseArrayBindingPatternTail()
 	case lexer.TokenPunctuatorOpenBrace:
 		b.ObjectPattern = p.parseObjectBindingPatternTail()
+	default:
+		p.s.SyntaxError(fmt.Sprintf("unexpected token in catch parameter: %s", t.Source()))
 	}
 	return b
 }
-- 
2.43.0


From ddc93ed6682ae31e6d307900ccc429ce256b07c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:04 +0000
Subject: [PATCH 46/75] fix: do not insert semicolons in the header of a for
 statement

---
 ecmascript/parser/statement.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ecmascript/parser/statement.go b/ecmascript/parser/statement.go
index 3b24462..20263cb 100644
--- a/ecmascript/parser/statement.go
+++ b/ecmascript/parser/statement.go
@@ -444,7 +444,6 @@ func (p *Parser) parseForStatement() ast.Node {
 	// TODO: let, const, more of/in cases, etc.
 	if t.Type == lexer.TokenPunctuatorSemicolon {
 		n.Init = nil
-		p.expectSemicolon()
 	} else {
 		var v ast.Node
 		if t.Type == lexer.TokenKeywordVar {
@@ -479,12 +478,13 @@ func (p *Parser) parseForStatement() ast.Node {
 			return m
 		}
 		n.Init = v
-		p.expectSemicolon()
 	}
+	// Semicolons are never inserted in the header of a for statement.
+	p.s.ScanExpect(lexer.TokenPunctuatorSemicolon, "expected `;` in for statement")
 	if p.s.PeekAt(0).Type != lexer.TokenPunctuatorSemicolon {
 		n.Test = p.parseExpression(exprOrderComma, 0)
 	}
-	p.expectSemicolon()
+	p.s.ScanExpect(lexer.TokenPunctuatorSemicolon, "expected `;` in for statement")
 	if p.s.PeekAt(0).Type != lexer.TokenPunctuatorCloseParen {
 		n.Update = p.parseExpression(exprOrderComma, 0)
 	}
-- 
2.43.0


From e3e315b697d1acb83f055d73ae026b765836ad07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:35 +0000
Subject: [PATCH 47/75] fix: keep in out of variable initializers in for
 headers

---
 ecmascript/parser/declaration.go |  4 ++--
 ecmascript/parser/statement.go   | 16 ++++++++--------
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/ecmascript/parser/declaration.go b/ecmascript/parser/declaration.go
index 00418ce..d055316 100644
--- a/ecmascript/parser/declaration.go
+++ b/ecmascript/parser/declaration.go
@@ -53,10 +53,10 @@ func (p *Parser) parseLexicalDeclarationNoSemicolon() ast.VariableDeclaration {
 
 	switch p.s.Scan().Type {
 	case lexer.TokenKeywordLet:
-		n.Declarations = p.parseVariableDeclarations()
+		n.Declarations = p.parseVariableDeclarations(0)
 		n.Kind = ast.LetDeclaration
 	case lexer.TokenKeywordConst:
-		n.Declarations = p.parseVariableDeclarations()
+		n.Declarations = p.parseVariableDeclarations(0)
 		n.Kind = ast.ConstDeclaration
 	default:
 		p.s.SyntaxError("expected lexical declaration")
diff --git a/ecmascript/parser/statement.go b/ecmascript/parser/statement.go
index 20263cb..79fdba9 100644
--- a/ecmascript/parser/statement.go
+++ b/ecmascript/parser/statement.go
@@ -187,26 +187,26 @@ func (p *Parser) parseDirectives() []ast.Node {
 }
 
 func (p *Parser) parseVariableStatement() ast.VariableDeclaration {
-	n := p.parseVariableStatementNoSemicolon()
+	n := p.parseVariableStatementNoSemicolon(0)
 	p.expectSemicolon()
 	p.setEnd(&n)
 	return n
 }
 
-func (p *Parser) parseVariableStatementNoSemicolon() ast.VariableDeclaration {
+func (p *Parser) parseVariableStatementNoSemicolon(flags exprFlags) ast.VariableDeclaration {
 	n := ast.VariableDeclaration{}
 	p.setStart(&n)
 	defer p.setEnd(&n)
 
 	p.s.ScanExpect(lexer.TokenKeywordVar, "expected variable declaration")
-	n.Declarations = p.parseVariableDeclarations()
+	n.Declarations = p.parseVariableDeclarations(flags)
 	return n
 }
 
-func (p *Parser) parseVariableDeclarations() []ast.VariableDeclarator {
+func (p *Parser) parseVariableDeclarations(flags exprFlags) []ast.VariableDeclarator {
 	v := []ast.VariableDeclarator{}
 	for {
-		v = append(v, p.parseVariableDeclaration())
+		v = append(v, p.parseVariableDeclaration(flags))
 		if p.s.PeekAt(0).Type != lexer.TokenPunctuatorComma {
 			break
 		}
@@ -215,7 +215,7 @@ func (p *Parser) parseVariableDeclarations() []ast.VariableDeclarator {
 	return v
 }
 
-func (p *Parser) parseVariableDeclaration() ast.VariableDeclarator {
+func (p *Parser) parseVariableDeclaration(flags exprFlags) ast.VariableDeclarator {
 	v := ast.VariableDeclarator{}
 
 	t := p.ctx.keywordToIdentifier(p.s.PeekAt(0), false)
@@ -232,7 +232,7 @@ func (p *Parser) parseVariableDeclaration() ast.VariableDeclarator {
 
 	if p.s.PeekAt(0).Type == lexer.TokenPunctuatorAssign {
 		p.s.ScanExpect(lexer.TokenPunctuatorAssign, "expected `=`")
-		v.Init = p.parseExpression(exprOrderAssign, 0)
+		v.Init = p.parseExpression(exprOrderAssign, flags)
 	}
 
 	return v
@@ -447,7 +447,7 @@ func (p *Parser) parseForStatement() ast.Node {
 	} else {
 		var v ast.Node
 		if t.Type == lexer.TokenKeywordVar {
-			v = p.parseVariableStatementNoSemicolon()
+			v = p.parseVariableStatementNoSemicolon(exprFlagDisallowIn)
 		} else {
 			v = p.parseExpression(exprOrderComma, exprFlagDisallowIn)
 		}
-- 
2.43.0


From f5d3757d93a26cf070b694b520f2670ba9a184e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:38 +0000
Subject: [PATCH 48/75] fix: check the left-hand side of for-in and for-of,
 represent it as a pattern, and end for-of at a comma

---
 ecmascript/ast/statement.go    |  4 ++--
 ecmascript/parser/statement.go | 20 +++++++++++++++++++-
 2 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/ecmascript/ast/statement.go b/ecmascript/ast/statement.go
index 7e832e7..7e26786 100644
--- a/ecmascript/ast/statement.go
+++ b/ecmascript/ast/statement.go
@@ -466,7 +466,7 @@ func (n ForInStatement) ESTree() interface{} {
 	}{
 		Type:  "ForInStatement",
 		Each:  false,
-		Left:  estree(n.Left),
+		Left:  estreeTarget(n.Left),
 		Right: estree(n.Right),
 		Body:  estree(n.Body),
 	}
@@ -489,7 +489,7 @@ func (n ForOfStatement) ESTree() interface{} {
 		Body  interface{} `json:"body"`
 	}{
 		Type:  "ForOfStatement",
-		Left:  estree(n.Left),
+		Left:  estreeTarget(n.Left),
 		Right: estree(n.Right),
 		Body:  estree(n.Body),
 	}
diff --git a/ecmascript/parser/statement.go b/ecmascript/parser/statement.go
index 79fdba9..a1f57ae 100644
--- a/ecmascript/parser/statement.go
+++ b/ecmascript/parser/statement.go
@@ -454,6 +454,7 @@ func (p *Parser) parseForStatement() ast.Node {
 		// for in/of
 		switch p.s.PeekAt(0).Type {
 		case lexer.TokenKeywordIn:
+			p.checkForTarget(v, !p.ctx.strictMode)
 			p.s.ScanExpect(lexer.TokenKeywordIn, "expected `in`")
 			m := ast.ForInStatement{
 				Left:  v,
@@ -466,10 +467,14 @@ func (p *Parser) parseForStatement() ast.Node {
 			return m
 
 		case lexer.TokenKeywordOf:
+			if _, ok := v.(ast.Identifier); t.Type == lexer.TokenKeywordLet || t.Type == lexer.TokenKeywordAsync && ok {
+				p.s.SyntaxError("unexpected `of`")
+			}
+			p.checkForTarget(v, false)
 			p.s.ScanExpect(lexer.TokenKeywordOf, "expected `of`")
 			m := ast.ForOfStatement{
 				Left:  v,
-				Right: p.parseExpression(exprOrderComma, 0),
+				Right: p.parseExpression(exprOrderAssign, 0),
 			}
 			m.SetStart(n.Span().Start)
 			p.s.ScanExpect(lexer.TokenPunctuatorCloseParen, "expected `)`")
@@ -493,6 +498,19 @@ func (p *Parser) parseForStatement() ast.Node {
 	return n
 }
 
+// checkForTarget checks the left-hand side of a for-in or for-of statement,
+// which can be an assignment target or a single variable without initializer.
+// For historical reasons, sloppy for-in statements can have an initializer.
+func (p *Parser) checkForTarget(n ast.Node, allowInit bool) {
+	if v, ok := n.(ast.VariableDeclaration); ok {
+		if len(v.Declarations) != 1 || v.Declarations[0].Init != nil && (!allowInit || v.Declarations[0].ID.Identifier == "") {
+			p.s.SyntaxError("expected a single variable without initializer in for statement")
+		}
+	} else if !isSimpleTarget(n) && !isPatternTarget(n) {
+		p.s.SyntaxError("invalid left-hand side in for statement")
+	}
+}
+
 func (p *Parser) parseSwitchStatement() ast.Node {
 	n := ast.SwitchStatement{}
 	p.setStart(&n)
-- 
2.43.0


From 961e26e8c635803b3afc4c960a8cd8036ed62e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:07 +0000
Subject: [PATCH 49/75] fix: require initializers in const and destructuring
 declarations

---
 ecmascript/parser/declaration.go | 5 +++++
 ecmascript/parser/statement.go   | 8 ++++++++
 2 files changed, 13 insertions(+)

diff --git a/ecmascript/parser/declaration.go b/ecmascript/parser/declaration.go
index d055316..743471f 100644
--- a/ecmascript/parser/declaration.go
+++ b/ecmascript/parser/declaration.go
@@ -58,6 +58,11 @@ func (p *Parser) parseLexicalDeclarationNoSemicolon() ast.VariableDeclaration {
 	case lexer.TokenKeywordConst:
 		n.Declarations = p.parseVariableDeclarations(0)
 		n.Kind = ast.ConstDeclaration
+		for _, v := range n.Declarations {
+			if v.Init == nil {
+				p.s.SyntaxError("missing initializer in const declaration")
+			}
+		}
 	default:
 		p.s.SyntaxError("expected lexical declaration")
 	}
diff --git a/ecmascript/parser/statement.go b/ecmascript/parser/statement.go
index a1f57ae..e720acd 100644
--- a/ecmascript/parser/statement.go
+++ b/ecmascript/parser/statement.go
@@ -233,11 +233,19 @@ func (p *Parser) parseVariableDeclaration(flags exprFlags) ast.VariableDeclarato
 	if p.s.PeekAt(0).Type == lexer.TokenPunctuatorAssign {
 		p.s.ScanExpect(lexer.TokenPunctuatorAssign, "expected `=`")
 		v.Init = p.parseExpression(exprOrderAssign, flags)
+	} else if v.ID.Identifier == "" && !(flags&exprFlagDisallowIn != 0 && p.atForInOf()) {
+		p.s.SyntaxError("missing initializer in destructuring declaration")
 	}
 
 	return v
 }
 
+// atForInOf returns true if the next token is the in or of of a for statement.
+func (p *Parser) atForInOf() bool {
+	t := p.s.PeekAt(0).Type
+	return t == lexer.TokenKeywordIn || t == lexer.TokenKeywordOf
+}
+
 func (p *Parser) parseArrayBindingPattern() *ast.ArrayBindingPattern {
 	p.s.ScanExpect(lexer.TokenPunctuatorOpenBracket, "expected array binding pattern")
 	return p.parseArrayBindingPatternTail()
-- 
2.43.0


From 9015fe192a84653a96d94e0cbc5b115393f14ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:38 +0000
Subject: [PATCH 50/75] fix: reject reserved words and literals as shorthand
 properties, and a line break after async

---
 ecmascript/parser/expression.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/ecmascript/parser/expression.go b/ecmascript/parser/expression.go
index b192898..d66844b 100644
--- a/ecmascript/parser/expression.go
+++ b/ecmascript/parser/expression.go
@@ -1024,6 +1024,9 @@ func (p *Parser) parseObjectTail(start ast.Location, flags exprFlags) ast.Node {
 				prop.Kind = ast.SetProperty
 
 			case lexer.TokenKeywordAsync:
+				if p.s.PeekAt(0).NewLine {
+					p.s.SyntaxError("unexpected line break after `async`")
+				}
 				async = true
 
 				// Async generator (async *)
@@ -1057,6 +1060,9 @@ func (p *Parser) parseObjectTail(start ast.Location, flags exprFlags) ast.Node {
 			t = p.s.Scan()
 		}
 
+		// Only names that are not reserved can be used without a value.
+		isReference := p.ctx.keywordToIdentifier(t, false).Type == lexer.TokenIdentifier
+
 		// Next, handle identifier...
 		t = p.ctx.keywordToIdentifier(t, true)
 		switch t.Type {
@@ -1115,6 +1121,9 @@ func (p *Parser) parseObjectTail(start ast.Location, flags exprFlags) ast.Node {
 			prop.Value = p.parseExpression(exprOrderAssign, flags)
 
 		case flags&exprFlagMaybeArrow != 0 && peek.Type == lexer.TokenPunctuatorAssign:
+			if !isReference || async || generator {
+				p.s.SyntaxError("expected identifier before `=`")
+			}
 			p.s.ScanExpect(lexer.TokenPunctuatorAssign, "expected '='")
 			prop.DestructureInit = p.parseExpression(exprOrderAssign, 0)
 
@@ -1142,9 +1151,10 @@ func (p *Parser) parseObjectTail(start ast.Location, flags exprFlags) ast.Node {
 		case peek.Type == lexer.TokenPunctuatorComma ||
 			peek.Type == lexer.TokenPunctuatorCloseBrace:
 			// Shorthand syntax. We don't need to do anything, but we should
-			// disallow this from happening with a computed property.
-			if prop.Computed {
-				p.s.SyntaxError("shorthand not allowed for computed property")
+			// disallow this from happening with a computed property, a literal
+			// or a reserved word.
+			if !isReference {
+				p.s.SyntaxError("shorthand only allowed for identifiers")
 			}
 
 			// We also should not allow this when async/generator is specified.
-- 
2.43.0


From 4e92a2313c17bbaddb9c035c62ffec63ddff27f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:40 +0000
Subject: [PATCH 51/75] fix: accept reserved words as property names in object
 patterns

---
 ecmascript/parser/statement.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ecmascript/parser/statement.go b/ecmascript/parser/statement.go
index e720acd..1ebb418 100644
--- a/ecmascript/parser/statement.go
+++ b/ecmascript/parser/statement.go
@@ -324,7 +324,9 @@ func (p *Parser) parseObjectBindingPatternTail() *ast.ObjectBindingPattern {
 	n := &ast.ObjectBindingPattern{}
 	for {
 		b := ast.BindingProperty{}
-		t := p.ctx.keywordToIdentifier(p.s.Scan(), false)
+		// Reserved words can be property names, but not variables.
+		t := p.s.Scan()
+		t = p.ctx.keywordToIdentifier(t, p.s.PeekAt(0).Type == lexer.TokenPunctuatorColon)
 		switch t.Type {
 		case lexer.TokenIdentifier:
 			b.PropertyName = t.Literal
-- 
2.43.0


From 23b1e9472c46a978cf2d20a23510a396f185de29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:42 +0000
Subject: [PATCH 52/75] fix: accept async and let as labels, and let as an
 operand of in and instanceof

---
 ecmascript/parser/statement.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ecmascript/parser/statement.go b/ecmascript/parser/statement.go
index 1ebb418..26dc2eb 100644
--- a/ecmascript/parser/statement.go
+++ b/ecmascript/parser/statement.go
@@ -59,6 +59,11 @@ func (p *Parser) parseStatement() ast.Node {
 		if p.s.PeekAt(0).Type == lexer.TokenKeywordAsync && p.s.PeekAt(1).Type == lexer.TokenKeywordFunction && !p.s.PeekAt(1).NewLine {
 			return nil
 		}
+		if p.s.PeekAt(0).Type == lexer.TokenKeywordLet || p.s.PeekAt(0).Type == lexer.TokenKeywordAsync {
+			if p.s.PeekAt(1).Type == lexer.TokenPunctuatorColon && p.ctx.keywordToIdentifier(p.s.PeekAt(0), false).Type == lexer.TokenIdentifier {
+				return p.parseLabelledStatement()
+			}
+		}
 		if p.s.PeekAt(0).Type == lexer.TokenKeywordLet {
 			if p.s.PeekAt(1).Type == lexer.TokenPunctuatorOpenBracket {
 				// Array destructuring let (let [)
@@ -66,7 +71,7 @@ func (p *Parser) parseStatement() ast.Node {
 			} else if p.s.PeekAt(1).Type == lexer.TokenPunctuatorOpenBrace {
 				// Object destructuring let (let {)
 				return nil
-			} else if p.ctx.keywordToIdentifier(p.s.PeekAt(1), true).Type == lexer.TokenIdentifier {
+			} else if p.ctx.keywordToIdentifier(p.s.PeekAt(1), false).Type == lexer.TokenIdentifier {
 				// Let with identifier (let ident)
 				return nil
 			}
-- 
2.43.0


From da509669e454d91016a00a461d1d9cbc82915972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:10 +0000
Subject: [PATCH 53/75] fix: record the location of every token that is peeked
 at

---
 ecmascript/parser/scanner.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecmascript/parser/scanner.go b/ecmascript/parser/scanner.go
index d30b9f0..f31e79d 100644
--- a/ecmascript/parser/scanner.go
+++ b/ecmascript/parser/scanner.go
@@ -34,7 +34,7 @@ func (s *Scanner) Location() ast.Location {
 // up to i tokens into the future.
 func (s *Scanner) PeekAt(i int) lexer.Token {
 	for len(s.last) <= i {
-		s.loc = append(s.loc, s.Location())
+		s.loc = append(s.loc, s.l.Location())
 		s.last = append(s.last, s.l.Lex())
 	}
 	return s.last[i]
-- 
2.43.0


From c81e250f72ca7dc29b95509753617f1f1e3254ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:12 +0000
Subject: [PATCH 54/75] fix: reject tokens after the expression in expression
 mode

---
 ecmascript/parser/parser.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ecmascript/parser/parser.go b/ecmascript/parser/parser.go
index ecf5288..314eb3b 100644
--- a/ecmascript/parser/parser.go
+++ b/ecmascript/parser/parser.go
@@ -60,7 +60,11 @@ func (p *Parser) Parse(opt ParseOptions) (n ast.Node, err error) {
 	case ModuleMode:
 		return p.parseModule(), nil
 	case ExpressionMode:
-		return p.parseExpression(exprOrderComma, 0), nil
+		n := p.parseExpression(exprOrderComma, 0)
+		if t := p.s.PeekAt(0); t.Type != lexer.TokenNone {
+			p.s.SyntaxError(fmt.Sprintf("unexpected token after expression: %s", t.Source()))
+		}
+		return n, nil
 	default:
 		panic(fmt.Errorf("unexpected parse mode %d", opt.Mode))
 	}
-- 
2.43.0


From 2193a2253dc05d5ca785528c1fba2539e3a682db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:01 +0000
Subject: [PATCH 55/75] fix: return an error for code that is nested too deeply
 instead of exhausting the stack

---
 ecmascript/parser/declaration.go |  2 +
 ecmascript/parser/depth.go       | 64 ++++++++++++++++++++++++++++++++
 ecmascript/parser/expression.go  |  9 +++++
 ecmascript/parser/parser.go      |  4 ++
 ecmascript/parser/statement.go   |  8 ++++
 5 files changed, 87 insertions(+)
 create mode 100644 ecmascript/parser/depth.go

diff --git a/ecmascript/parser/declaration.go b/ecmascript/parser/declaration.go
index 743471f..e38f43b 100644
--- a/ecmascript/parser/declaration.go
+++ b/ecmascript/parser/declaration.go
@@ -6,6 +6,8 @@ import (
 )
 
 func (p *Parser) parseDeclaration() ast.Node {
+	defer p.leave(p.enter())
+
 	switch p.s.PeekAt(0).Type {
 	case lexer.TokenKeywordFunction:
 		return p.parseFunctionDeclaration()
diff --git a/ecmascript/parser/depth.go b/ecmascript/parser/depth.go
new file mode 100644
index 0000000..260be80
--- /dev/null
+++ b/ecmascript/parser/depth.go
@@ -0,0 +1,64 @@
+package parser
+
+import (
+	"errors"
+	"runtime"
+
+	"github.com/jchv/cleansheets/ecmascript/errs"
+)
+
+const (
+	// nestingCost is the number of levels of ESTree output, objects and arrays
+	// alike, that one recursion of the parser produces at most.
+	nestingCost = 4
+
+	// maxDepth is the maximum number of levels of ESTree output. The parser
+	// and everything that visits the AST are recursive, so without a limit,
+	// deeply nested code would exhaust the stack. encoding/json does not
+	// support more than 10000 levels.
+	maxDepth = 9900
+
+	// maxDepthJS is the maximum number of levels under WebAssembly, where
+	// calls are limited by the comparably small stack of the JavaScript engine.
+	maxDepthJS = 2000
+)
+
+// enter is called when the parser recurses. It returns the height of what was
+// parsed before, which must be passed to leave.
+func (p *Parser) enter() int {
+	height := p.height
+	p.depth += nestingCost
+	p.height = 0
+	p.checkDepth()
+	return height
+}
+
+// leave is called when the parser returns from a recursion.
+func (p *Parser) leave(height int) {
+	p.depth -= nestingCost
+	p.height += nestingCost
+	if p.height < height {
+		p.height = height
+	}
+}
+
+// nest is called when the node that was just parsed becomes the child of
+// another node without recursion.
+func (p *Parser) nest() {
+	p.height++
+	p.checkDepth()
+}
+
+// checkDepth panics with a parser error if the code is nested too deeply.
+func (p *Parser) checkDepth() {
+	max := maxDepth
+	if runtime.GOOS == "js" {
+		max = maxDepthJS
+	}
+	if p.depth+p.height > max {
+		panic(&errs.ParserError{
+			Location: p.s.Location(),
+			Err:      errors.New("code is nested too deeply"),
+		})
+	}
+}
diff --git a/ecmascript/parser/expression.go b/ecmascript/parser/expression.go
index d66844b..4231329 100644
--- a/ecmascript/parser/expression.go
+++ b/ecmascript/parser/expression.go
@@ -55,6 +55,8 @@ const (
 // operator. Note that flags may or may not propagate to sub-expressions,
 // depending on exactly what kind of sub-expression it is.
 func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
+	defer p.leave(p.enter())
+
 	if flags&exprFlagArrowHead != 0 && p.s.PeekAt(0).Type == lexer.TokenPunctuatorCloseParen {
 		// This is a parameter list, not an expression.
 		return ast.TemporalEmptyArrowHead{}
@@ -321,6 +323,11 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 		// exprOrderLHSExpr
 		t = p.s.PeekAt(0)
 
+		// Every operator but the comma makes the expression an operand.
+		if t.Type != lexer.TokenPunctuatorComma {
+			p.nest()
+		}
+
 		// Only a comma can follow an assignment expression.
 		if isAssignmentLevel(n) && t.Type != lexer.TokenPunctuatorComma {
 			return n
@@ -1259,6 +1266,8 @@ func (p *Parser) parseParameters() ast.FormalParameters {
 }
 
 func (p *Parser) parseParametersTail() ast.FormalParameters {
+	defer p.leave(p.enter())
+
 	n := ast.FormalParameters{}
 
 	for {
diff --git a/ecmascript/parser/parser.go b/ecmascript/parser/parser.go
index 314eb3b..95a6d5e 100644
--- a/ecmascript/parser/parser.go
+++ b/ecmascript/parser/parser.go
@@ -31,6 +31,10 @@ type ParseOptions struct {
 type Parser struct {
 	s   *Scanner
 	ctx parseContext
+
+	// depth is the depth of what is being parsed, and height is the height of
+	// what was parsed since the last recursion. See enter.
+	depth, height int
 }
 
 // NewParser creates a new parser.
diff --git a/ecmascript/parser/statement.go b/ecmascript/parser/statement.go
index 26dc2eb..58e1287 100644
--- a/ecmascript/parser/statement.go
+++ b/ecmascript/parser/statement.go
@@ -28,6 +28,8 @@ func (p *Parser) parseSubStatement() ast.Node {
 }
 
 func (p *Parser) parseStatement() ast.Node {
+	defer p.leave(p.enter())
+
 	switch p.s.PeekAt(0).Type {
 	case lexer.TokenPunctuatorOpenBrace:
 		return p.parseBlock()
@@ -150,6 +152,8 @@ func (p *Parser) parseBlock() ast.BlockStatement {
 // parseFunctionBody parses the body of a function, which, unlike other blocks,
 // can start with directives.
 func (p *Parser) parseFunctionBody() ast.BlockStatement {
+	defer p.leave(p.enter())
+
 	n := ast.BlockStatement{}
 	p.setStart(&n)
 	defer p.setEnd(&n)
@@ -257,6 +261,8 @@ func (p *Parser) parseArrayBindingPattern() *ast.ArrayBindingPattern {
 }
 
 func (p *Parser) parseArrayBindingPatternTail() *ast.ArrayBindingPattern {
+	defer p.leave(p.enter())
+
 	n := &ast.ArrayBindingPattern{}
 	for {
 		b := ast.BindingElement{}
@@ -326,6 +332,8 @@ func (p *Parser) parseObjectBindingPattern() *ast.ObjectBindingPattern {
 }
 
 func (p *Parser) parseObjectBindingPatternTail() *ast.ObjectBindingPattern {
+	defer p.leave(p.enter())
+
 	n := &ast.ObjectBindingPattern{}
 	for {
 		b := ast.BindingProperty{}
-- 
2.43.0


From 5b3705362eb315160caea5e28a5bb58e0218ce54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:07 +0000
Subject: [PATCH 56/75] fix: accept a comma expression in a computed member
 access

---
 ecmascript/parser/expression.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecmascript/parser/expression.go b/ecmascript/parser/expression.go
index 4231329..40037df 100644
--- a/ecmascript/parser/expression.go
+++ b/ecmascript/parser/expression.go
@@ -366,7 +366,7 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 			m := ast.MemberExpression{
 				Object:   n,
 				Computed: true,
-				Property: p.parseExpression(exprOrderAssign, 0),
+				Property: p.parseExpression(exprOrderComma, 0),
 			}
 			p.s.ScanExpect(lexer.TokenPunctuatorCloseBracket, "expected `]` operator")
 			m.SetStart(s)
-- 
2.43.0


From bfdb5f930435f9ace9e2c9646e1a1cdf2bc3b6d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:09 +0000
Subject: [PATCH 57/75] fix: end break and continue at a line break before a
 contextual keyword

---
 ecmascript/parser/context.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecmascript/parser/context.go b/ecmascript/parser/context.go
index fdac1d8..5d53691 100644
--- a/ecmascript/parser/context.go
+++ b/ecmascript/parser/context.go
@@ -46,5 +46,5 @@ func (ctx *parseContext) keywordToIdentifier(token lexer.Token, force bool) lexe
 		}
 	}
 
-	return lexer.Token{Type: lexer.TokenIdentifier, Literal: token.Literal}
+	return lexer.Token{Type: lexer.TokenIdentifier, Literal: token.Literal, NewLine: token.NewLine}
 }
-- 
2.43.0


From d9fd82f0f968265e02ba9b2931992aa61fed23bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:54 +0000
Subject: [PATCH 58/75] fix: let on a line of its own in place of a statement
 is an identifier (C12/C15)

---
 ecmascript/parser/statement.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ecmascript/parser/statement.go b/ecmascript/parser/statement.go
index 58e1287..29c8134 100644
--- a/ecmascript/parser/statement.go
+++ b/ecmascript/parser/statement.go
@@ -21,6 +21,12 @@ func (p *Parser) parseStatementItem() ast.Node {
 // parseSubStatement parses a statement where no declaration is allowed.
 func (p *Parser) parseSubStatement() ast.Node {
 	n := p.parseStatement()
+	if n == nil && p.s.PeekAt(0).Type == lexer.TokenKeywordLet && p.s.PeekAt(1).Type != lexer.TokenPunctuatorOpenBracket &&
+		p.ctx.keywordToIdentifier(p.s.PeekAt(0), false).Type == lexer.TokenIdentifier {
+		// Not a declaration: `let` is an expression, and what follows is
+		// another statement, if it is on a new line.
+		return p.parseExpressionStatement()
+	}
 	if n == nil {
 		p.s.SyntaxError("expected statement")
 	}
-- 
2.43.0


From 2417989c85239d3d36a87ed87719be8b9bb1b97d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:44 +0000
Subject: [PATCH 59/75] fix: read numbers with more than 800 integer digits
 right (C06)

---
 ecmascript/lexer/token.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ecmascript/lexer/token.go b/ecmascript/lexer/token.go
index f8d0796..a7e7901 100644
--- a/ecmascript/lexer/token.go
+++ b/ecmascript/lexer/token.go
@@ -397,6 +397,12 @@ func (t Token) NumberConstant() float64 {
 	v, err := strconv.ParseFloat(lit, 64)
 	legacyOctal := len(lit) > 1 && lit[0] == '0' && strings.Trim(lit, "01234567") == ""
 	if !legacyOctal && (err == nil || errors.Is(err, strconv.ErrRange)) {
+		// strconv misplaces the decimal point after more than 800 digits.
+		if strings.IndexAny(lit+".", ".eE") > 800 {
+			if f, _, err := big.ParseFloat(lit, 10, uint(4*len(lit)+2048), big.ToNearestEven); err == nil {
+				v, _ = f.Float64()
+			}
+		}
 		return v
 	}
 	i, ok := new(big.Int).SetString(lit, 0)
-- 
2.43.0


From 72c4e9b934714c0346bcb06c895c32ac19b3c3d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:06 +0000
Subject: [PATCH 60/75] fix: close each file in estree when it was parsed, not
 at exit

---
 cmd/estree/main.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/cmd/estree/main.go b/cmd/estree/main.go
index 1f3fe2f..308e5f0 100644
--- a/cmd/estree/main.go
+++ b/cmd/estree/main.go
@@ -31,11 +31,6 @@ func main() {
 		if err != nil {
 			log.Fatalf("Could not open file for reading: %q", filename)
 		}
-		defer func(file *os.File) {
-			if err := file.Close(); err != nil {
-				log.Printf("Warning: Error closing file: %v", err)
-			}
-		}(file)
 		reader := bufio.NewReader(file)
 
 		// Try to calculate a file URL.
@@ -54,6 +49,10 @@ func main() {
 			log.Fatalf("Could not parse ECMAscript file %q: %v", filename, err)
 		}
 
+		if err := file.Close(); err != nil {
+			log.Printf("Warning: Error closing file: %v", err)
+		}
+
 		// Output ESTree AST.
 		err = encoder.Encode(script.ESTree())
 		if err != nil {
-- 
2.43.0


From d9b103d8ef9466069180f1730ca59140bd44f743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:13 +0000
Subject: [PATCH 61/75] fix: record the end of the span of statements, arrays,
 objects and programs

The deferred setEnd changed the local variable after its value had been
copied to the result, so the end of these nodes was never recorded.
---
 ecmascript/parser/declaration.go |  6 ++---
 ecmascript/parser/expression.go  |  6 ++---
 ecmascript/parser/module.go      |  6 ++---
 ecmascript/parser/script.go      |  3 +--
 ecmascript/parser/statement.go   | 44 +++++++++++---------------------
 5 files changed, 22 insertions(+), 43 deletions(-)

diff --git a/ecmascript/parser/declaration.go b/ecmascript/parser/declaration.go
index e38f43b..59b6d8f 100644
--- a/ecmascript/parser/declaration.go
+++ b/ecmascript/parser/declaration.go
@@ -48,8 +48,7 @@ func (p *Parser) parseLexicalDeclaration() ast.VariableDeclaration {
 	return n
 }
 
-func (p *Parser) parseLexicalDeclarationNoSemicolon() ast.VariableDeclaration {
-	n := ast.VariableDeclaration{}
+func (p *Parser) parseLexicalDeclarationNoSemicolon() (n ast.VariableDeclaration) {
 	p.setStart(&n)
 	defer p.setEnd(&n)
 
@@ -71,8 +70,7 @@ func (p *Parser) parseLexicalDeclarationNoSemicolon() ast.VariableDeclaration {
 	return n
 }
 
-func (p *Parser) parseClassDeclaration() ast.Node {
-	n := ast.ClassDeclaration{}
+func (p *Parser) parseClassDeclaration() (n ast.ClassDeclaration) {
 	p.setStart(&n)
 	defer p.setEnd(&n)
 
diff --git a/ecmascript/parser/expression.go b/ecmascript/parser/expression.go
index 40037df..7522df3 100644
--- a/ecmascript/parser/expression.go
+++ b/ecmascript/parser/expression.go
@@ -913,8 +913,7 @@ func (p *Parser) convertExprToCallParams(inner ast.Node) []ast.Node {
 }
 
 // Parses an array assuming a `[` was already consumed.
-func (p *Parser) parseArrayTail(start ast.Location, flags exprFlags) ast.Node {
-	n := ast.ArrayExpression{}
+func (p *Parser) parseArrayTail(start ast.Location, flags exprFlags) (n ast.ArrayExpression) {
 	n.SetStart(start)
 	defer p.setEnd(&n)
 
@@ -957,8 +956,7 @@ func (p *Parser) parseArrayTail(start ast.Location, flags exprFlags) ast.Node {
 }
 
 // Parses an object assuming a `{` was already consumed.
-func (p *Parser) parseObjectTail(start ast.Location, flags exprFlags) ast.Node {
-	n := ast.ObjectExpression{}
+func (p *Parser) parseObjectTail(start ast.Location, flags exprFlags) (n ast.ObjectExpression) {
 	n.SetStart(start)
 	defer p.setEnd(&n)
 
diff --git a/ecmascript/parser/module.go b/ecmascript/parser/module.go
index 0fa972a..906a2c1 100644
--- a/ecmascript/parser/module.go
+++ b/ecmascript/parser/module.go
@@ -7,11 +7,10 @@ import (
 	"github.com/jchv/cleansheets/ecmascript/lexer"
 )
 
-func (p *Parser) parseModule() ast.Node {
+func (p *Parser) parseModule() (m ast.ModuleNode) {
 	// Modules are always strict.
 	p.ctx.strictMode = true
 
-	m := ast.ModuleNode{}
 	p.setStart(&m)
 	defer p.setEnd(&m)
 
@@ -39,8 +38,7 @@ func (p *Parser) parseModuleItem() ast.Node {
 	}
 }
 
-func (p *Parser) parseImportDecl() ast.ImportDeclNode {
-	n := ast.ImportDeclNode{}
+func (p *Parser) parseImportDecl() (n ast.ImportDeclNode) {
 	p.setStart(&n)
 	defer p.setEnd(&n)
 
diff --git a/ecmascript/parser/script.go b/ecmascript/parser/script.go
index 519473c..647bec5 100644
--- a/ecmascript/parser/script.go
+++ b/ecmascript/parser/script.go
@@ -5,8 +5,7 @@ import (
 	"github.com/jchv/cleansheets/ecmascript/lexer"
 )
 
-func (p *Parser) parseScript() ast.Node {
-	m := ast.ScriptNode{}
+func (p *Parser) parseScript() (m ast.ScriptNode) {
 	p.setStart(&m)
 	defer p.setEnd(&m)
 
diff --git a/ecmascript/parser/statement.go b/ecmascript/parser/statement.go
index 29c8134..5e5f2b2 100644
--- a/ecmascript/parser/statement.go
+++ b/ecmascript/parser/statement.go
@@ -137,8 +137,7 @@ func (p *Parser) parseBlockOrShorthand(flags exprFlags) ast.Node {
 	}
 }
 
-func (p *Parser) parseBlock() ast.BlockStatement {
-	n := ast.BlockStatement{}
+func (p *Parser) parseBlock() (n ast.BlockStatement) {
 	p.setStart(&n)
 	defer p.setEnd(&n)
 
@@ -157,10 +156,9 @@ func (p *Parser) parseBlock() ast.BlockStatement {
 
 // parseFunctionBody parses the body of a function, which, unlike other blocks,
 // can start with directives.
-func (p *Parser) parseFunctionBody() ast.BlockStatement {
+func (p *Parser) parseFunctionBody() (n ast.BlockStatement) {
 	defer p.leave(p.enter())
 
-	n := ast.BlockStatement{}
 	p.setStart(&n)
 	defer p.setEnd(&n)
 
@@ -208,8 +206,7 @@ func (p *Parser) parseVariableStatement() ast.VariableDeclaration {
 	return n
 }
 
-func (p *Parser) parseVariableStatementNoSemicolon(flags exprFlags) ast.VariableDeclaration {
-	n := ast.VariableDeclaration{}
+func (p *Parser) parseVariableStatementNoSemicolon(flags exprFlags) (n ast.VariableDeclaration) {
 	p.setStart(&n)
 	defer p.setEnd(&n)
 
@@ -403,8 +400,7 @@ func (p *Parser) parseObjectBindingPatternTail() *ast.ObjectBindingPattern {
 	}
 }
 
-func (p *Parser) parseEmptyExpression() ast.Node {
-	n := ast.EmptyStatement{}
+func (p *Parser) parseEmptyExpression() (n ast.EmptyStatement) {
 	p.setStart(&n)
 	defer p.setEnd(&n)
 
@@ -412,8 +408,7 @@ func (p *Parser) parseEmptyExpression() ast.Node {
 	return n
 }
 
-func (p *Parser) parseIfStatement() ast.Node {
-	n := ast.IfStatement{}
+func (p *Parser) parseIfStatement() (n ast.IfStatement) {
 	p.setStart(&n)
 	defer p.setEnd(&n)
 
@@ -429,8 +424,7 @@ func (p *Parser) parseIfStatement() ast.Node {
 	return n
 }
 
-func (p *Parser) parseDoWhileStatement() ast.Node {
-	n := ast.DoWhileStatement{}
+func (p *Parser) parseDoWhileStatement() (n ast.DoWhileStatement) {
 	p.setStart(&n)
 	defer p.setEnd(&n)
 
@@ -447,8 +441,7 @@ func (p *Parser) parseDoWhileStatement() ast.Node {
 	return n
 }
 
-func (p *Parser) parseWhileStatement() ast.Node {
-	n := ast.WhileStatement{}
+func (p *Parser) parseWhileStatement() (n ast.WhileStatement) {
 	p.setStart(&n)
 	defer p.setEnd(&n)
 
@@ -463,7 +456,6 @@ func (p *Parser) parseWhileStatement() ast.Node {
 func (p *Parser) parseForStatement() ast.Node {
 	n := ast.ForStatement{}
 	p.setStart(&n)
-	defer p.setEnd(&n)
 
 	p.s.ScanExpect(lexer.TokenKeywordFor, "expected `for` statement")
 	// TODO: async
@@ -524,6 +516,7 @@ func (p *Parser) parseForStatement() ast.Node {
 	}
 	p.s.ScanExpect(lexer.TokenPunctuatorCloseParen, "expected `)`")
 	n.Body = p.parseSubStatement()
+	p.setEnd(&n)
 	return n
 }
 
@@ -540,8 +533,7 @@ func (p *Parser) checkForTarget(n ast.Node, allowInit bool) {
 	}
 }
 
-func (p *Parser) parseSwitchStatement() ast.Node {
-	n := ast.SwitchStatement{}
+func (p *Parser) parseSwitchStatement() (n ast.SwitchStatement) {
 	p.setStart(&n)
 	defer p.setEnd(&n)
 
@@ -600,8 +592,7 @@ func (p *Parser) parseSwitchStatement() ast.Node {
 	}
 }
 
-func (p *Parser) parseContinueStatement() ast.Node {
-	n := ast.ContinueStatement{}
+func (p *Parser) parseContinueStatement() (n ast.ContinueStatement) {
 	p.setStart(&n)
 	defer p.setEnd(&n)
 
@@ -617,8 +608,7 @@ func (p *Parser) parseContinueStatement() ast.Node {
 	return n
 }
 
-func (p *Parser) parseBreakStatement() ast.Node {
-	n := ast.BreakStatement{}
+func (p *Parser) parseBreakStatement() (n ast.BreakStatement) {
 	p.setStart(&n)
 	defer p.setEnd(&n)
 
@@ -634,8 +624,7 @@ func (p *Parser) parseBreakStatement() ast.Node {
 	return n
 }
 
-func (p *Parser) parseReturnStatement() ast.Node {
-	n := ast.ReturnStatement{}
+func (p *Parser) parseReturnStatement() (n ast.ReturnStatement) {
 	p.setStart(&n)
 	defer p.setEnd(&n)
 
@@ -656,8 +645,7 @@ func (p *Parser) parseWithStatement() ast.Node {
 	return nil
 }
 
-func (p *Parser) parseThrowStatement() ast.Node {
-	n := ast.ThrowStatement{}
+func (p *Parser) parseThrowStatement() (n ast.ThrowStatement) {
 	p.setStart(&n)
 	defer p.setEnd(&n)
 
@@ -671,8 +659,7 @@ func (p *Parser) parseThrowStatement() ast.Node {
 	return n
 }
 
-func (p *Parser) parseTryStatement() ast.Node {
-	n := ast.TryStatement{}
+func (p *Parser) parseTryStatement() (n ast.TryStatement) {
 	p.setStart(&n)
 	defer p.setEnd(&n)
 
@@ -722,8 +709,7 @@ func (p *Parser) parseDebuggerStatement() ast.Node {
 	return nil
 }
 
-func (p *Parser) parseLabelledStatement() ast.Node {
-	n := ast.LabeledStatement{}
+func (p *Parser) parseLabelledStatement() (n ast.LabeledStatement) {
 	p.setStart(&n)
 	defer p.setEnd(&n)
 
-- 
2.43.0


From 11ea326385b7623e2d1ff4297fc642989d934722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:32 +0000
Subject: [PATCH 62/75] fix: record the end of comma expressions after their
 last element

---
 ecmascript/parser/expression.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ecmascript/parser/expression.go b/ecmascript/parser/expression.go
index 7522df3..002785b 100644
--- a/ecmascript/parser/expression.go
+++ b/ecmascript/parser/expression.go
@@ -707,12 +707,13 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 			p.s.ScanExpect(lexer.TokenPunctuatorComma, "expected `,` operator")
 			if seq, ok := n.(ast.SequenceExpression); ok {
 				seq.Expressions = append(seq.Expressions, p.parseExpression(exprOrderAssign, flags|head|maybeArrow))
+				seq.SetEnd(p.s.Location())
 				n = seq
 			} else {
 				seq := ast.SequenceExpression{Expressions: []ast.Node{n}}
 				seq.SetStart(s)
-				seq.SetEnd(p.s.Location())
 				seq.Expressions = append(seq.Expressions, p.parseExpression(exprOrderAssign, flags|head|maybeArrow))
+				seq.SetEnd(p.s.Location())
 				n = seq
 			}
 			continue
-- 
2.43.0


From e0d3c4ef71e063db7e3866a0046b07fc547ea34f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:34 +0000
Subject: [PATCH 63/75] fix: record the spans of expression statements and
 catch clauses

The span of an expression statement was that of its expression, and so was
missing for a name or a literal and left out the semicolon. The span of a
catch clause left out its keyword and its body.
---
 ecmascript/parser/statement.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/ecmascript/parser/statement.go b/ecmascript/parser/statement.go
index 5e5f2b2..e593abc 100644
--- a/ecmascript/parser/statement.go
+++ b/ecmascript/parser/statement.go
@@ -121,11 +121,11 @@ func (p *Parser) parseStatement() ast.Node {
 }
 
 func (p *Parser) parseExpressionStatement() ast.Node {
-	expr := p.parseExpression(exprOrderComma, 0)
-	n := ast.ExpressionStatement{Expression: expr}
-	n.SetStart(expr.Span().Start)
-	n.SetEnd(expr.Span().End)
+	n := ast.ExpressionStatement{}
+	p.setStart(&n)
+	n.Expression = p.parseExpression(exprOrderComma, 0)
 	p.expectSemicolon()
+	p.setEnd(&n)
 	return n
 }
 
@@ -666,16 +666,16 @@ func (p *Parser) parseTryStatement() (n ast.TryStatement) {
 	p.s.ScanExpect(lexer.TokenKeywordTry, "expected try statement")
 	n.Block = p.parseBlock()
 	if p.s.PeekAt(0).Type == lexer.TokenKeywordCatch {
-		p.s.ScanExpect(lexer.TokenKeywordCatch, "expected catch statement")
 		h := ast.CatchClause{}
 		h.SetStart(p.s.Location())
+		p.s.ScanExpect(lexer.TokenKeywordCatch, "expected catch statement")
 		if p.s.PeekAt(0).Type == lexer.TokenPunctuatorOpenParen {
 			p.s.ScanExpect(lexer.TokenPunctuatorOpenParen, "expected `(`")
 			h.Param = p.parseCatchParameter()
 			p.s.ScanExpect(lexer.TokenPunctuatorCloseParen, "expected `)`")
 		}
-		h.SetEnd(p.s.Location())
 		h.Body = p.parseBlock()
+		h.SetEnd(p.s.Location())
 		n.Handler = h
 	}
 	if p.s.PeekAt(0).Type == lexer.TokenKeywordFinally {
-- 
2.43.0


From 9ce8a8e4ec6637ad25dad3858f1b3ae9c2eed0c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:33 +0000
Subject: [PATCH 64/75] fix: record the spans of classes, methods, getters and
 setters

---
 ecmascript/parser/declaration.go | 4 ++++
 ecmascript/parser/expression.go  | 3 +++
 2 files changed, 7 insertions(+)

diff --git a/ecmascript/parser/declaration.go b/ecmascript/parser/declaration.go
index 59b6d8f..3313898 100644
--- a/ecmascript/parser/declaration.go
+++ b/ecmascript/parser/declaration.go
@@ -98,6 +98,7 @@ func (p *Parser) parseClassBody() []ast.Node {
 	n := []ast.Node{}
 
 	for {
+		pos := p.s.Location()
 		t := p.s.Scan()
 		if t.Type == lexer.TokenPunctuatorCloseBrace {
 			break
@@ -108,6 +109,7 @@ func (p *Parser) parseClassBody() []ast.Node {
 
 		// TODO: implement member variables...
 		m := ast.MethodDefinition{}
+		m.SetStart(pos)
 
 		// Specifiers are method names when they are followed by parameters.
 		isName := func() bool {
@@ -153,10 +155,12 @@ func (p *Parser) parseClassBody() []ast.Node {
 		ctx := p.ctx
 		p.ctx = ctx.function(false, false)
 		fn := ast.FunctionExpression{}
+		fn.SetStart(p.s.Location())
 		fn.Params = p.parseParameters()
 		fn.Body = p.parseFunctionBody()
 		fn.SetEnd(p.s.Location())
 		m.Value = fn
+		m.SetEnd(p.s.Location())
 		p.ctx = ctx
 
 		n = append(n, m)
diff --git a/ecmascript/parser/expression.go b/ecmascript/parser/expression.go
index 002785b..3bc17e1 100644
--- a/ecmascript/parser/expression.go
+++ b/ecmascript/parser/expression.go
@@ -250,6 +250,7 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 		p.ctx.strictMode = true
 
 		m := ast.ClassExpression{}
+		m.SetStart(s)
 		if p.ctx.keywordToIdentifier(p.s.PeekAt(0), false).Type == lexer.TokenIdentifier {
 			m.ID = p.scanIdent("expected class name")
 		}
@@ -258,6 +259,7 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 			m.SuperClass = p.parseExpression(exprOrderLHSExpr, 0)
 		}
 		m.Body = p.parseClassBody()
+		m.SetEnd(p.s.Location())
 		n = m
 		p.ctx.strictMode = strict
 	case lexer.TokenLiteralRegExp:
@@ -1111,6 +1113,7 @@ func (p *Parser) parseObjectTail(start ast.Location, flags exprFlags) (n ast.Obj
 			ctx := p.ctx
 			p.ctx = ctx.function(false, false)
 			fn := ast.FunctionExpression{}
+			fn.SetStart(p.s.Location())
 			fn.Params = p.parseParameters()
 			fn.Body = p.parseFunctionBody()
 			fn.SetEnd(p.s.Location())
-- 
2.43.0


From 5f3e4f7e64576995b3826ec4aaa304ad9778abb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:36 +0000
Subject: [PATCH 65/75] fix: record the spans of names, literals, spread
 arguments and calls of async

Most leaves of the tree had no span at all.
---
 ecmascript/parser/declaration.go | 18 +++++++--
 ecmascript/parser/expression.go  | 69 +++++++++++++++++++++++++++-----
 2 files changed, 74 insertions(+), 13 deletions(-)

diff --git a/ecmascript/parser/declaration.go b/ecmascript/parser/declaration.go
index 3313898..0d43b57 100644
--- a/ecmascript/parser/declaration.go
+++ b/ecmascript/parser/declaration.go
@@ -118,15 +118,18 @@ func (p *Parser) parseClassBody() []ast.Node {
 
 		// Static specifier
 		if t.Type == lexer.TokenKeywordStatic && !isName() {
+			pos = p.s.Location()
 			t = p.s.Scan()
 			m.Static = true
 		}
 
 		// Get/set specifier
 		if t.Type == lexer.TokenKeywordGet && !isName() {
+			pos = p.s.Location()
 			t = p.s.Scan()
 			m.Kind = ast.GetMethod
 		} else if t.Type == lexer.TokenKeywordSet && !isName() {
+			pos = p.s.Location()
 			t = p.s.Scan()
 			m.Kind = ast.SetMethod
 		}
@@ -135,13 +138,22 @@ func (p *Parser) parseClassBody() []ast.Node {
 		t = p.ctx.keywordToIdentifier(t, true)
 		switch t.Type {
 		case lexer.TokenIdentifier:
-			m.Key = ast.Identifier{Name: t.Literal}
+			id := ast.Identifier{Name: t.Literal}
+			id.SetStart(pos)
+			id.SetEnd(p.s.Location())
+			m.Key = id
 
 		case lexer.TokenLiteralString:
-			m.Key = ast.StringLiteral{Value: t.StringConstant(), Raw: t.Literal}
+			id := ast.StringLiteral{Value: t.StringConstant(), Raw: t.Literal}
+			id.SetStart(pos)
+			id.SetEnd(p.s.Location())
+			m.Key = id
 
 		case lexer.TokenLiteralNumber:
-			m.Key = ast.NumberLiteral{Value: t.NumberConstant(), Raw: t.Literal}
+			id := ast.NumberLiteral{Value: t.NumberConstant(), Raw: t.Literal}
+			id.SetStart(pos)
+			id.SetEnd(p.s.Location())
+			m.Key = id
 
 		case lexer.TokenPunctuatorOpenBracket:
 			m.Computed = true
diff --git a/ecmascript/parser/expression.go b/ecmascript/parser/expression.go
index 3bc17e1..0015ad1 100644
--- a/ecmascript/parser/expression.go
+++ b/ecmascript/parser/expression.go
@@ -193,6 +193,7 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 				// Async arrow function with parameter list
 				// OR
 				// Call to function named "async"
+				end := p.s.Location()
 				p.s.Scan()
 				inner := p.parseExpression(exprOrderComma, exprFlagMaybeArrow|exprFlagArrowHead)
 				p.s.ScanExpect(lexer.TokenPunctuatorCloseParen, "expected `)` operator")
@@ -205,10 +206,16 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 					})
 				} else {
 					// This was a call to a function named "async"
-					n = ast.CallExpression{
-						Callee:    ast.Identifier{Name: t.Literal},
+					callee := ast.Identifier{Name: t.Literal}
+					callee.SetStart(s)
+					callee.SetEnd(end)
+					m := ast.CallExpression{
+						Callee:    callee,
 						Arguments: p.convertExprToCallParams(inner),
 					}
+					m.SetStart(s)
+					m.SetEnd(p.s.Location())
+					n = m
 				}
 			} else {
 				// Async as a non-reserved identifier
@@ -308,6 +315,8 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 		invalidprimary()
 	}
 
+	n = p.spanPrimary(n, s)
+
 	// Handle single-parameter bare parameter list.
 	if i, ok := n.(ast.Identifier); ok && p.s.PeekAt(0).Type == lexer.TokenPunctuatorFatArrow {
 		n = parsearrow(ast.FunctionExpression{
@@ -355,9 +364,7 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 			m := ast.MemberExpression{
 				Object:   n,
 				Computed: false,
-				Property: ast.Identifier{
-					Name: p.forceScanIdent("expected property name after `.` operator"),
-				},
+				Property: p.parsePropertyName(),
 			}
 			m.SetStart(s)
 			m.SetEnd(p.s.Location())
@@ -421,9 +428,7 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 				m := ast.MemberExpression{
 					Object:   n,
 					Computed: false,
-					Property: ast.Identifier{
-						Name: p.forceScanIdent("expected property name after `.` operator"),
-					},
+					Property: p.parsePropertyName(),
 					Optional: true,
 				}
 				m.SetStart(s)
@@ -731,6 +736,37 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 	return n
 }
 
+// spanPrimary sets the span of a primary expression that does not have one yet.
+func (p *Parser) spanPrimary(n ast.Node, start ast.Location) ast.Node {
+	b := ast.BaseNode{}
+	b.SetStart(start)
+	b.SetEnd(p.s.Location())
+	switch m := n.(type) {
+	case ast.ThisExpression:
+		m.BaseNode = b
+		return m
+	case ast.Identifier:
+		m.BaseNode = b
+		return m
+	case ast.NullLiteral:
+		m.BaseNode = b
+		return m
+	case ast.BooleanLiteral:
+		m.BaseNode = b
+		return m
+	case ast.NumberLiteral:
+		m.BaseNode = b
+		return m
+	case ast.StringLiteral:
+		m.BaseNode = b
+		return m
+	case ast.TemporalFloatingRestElement:
+		m.BaseNode = b
+		return m
+	}
+	return n
+}
+
 // isAssignmentLevel returns true if the node is an expression that can not be
 // an operand of any operator other than the comma.
 func isAssignmentLevel(n ast.Node) bool {
@@ -906,7 +942,7 @@ func (p *Parser) convertExprToCallParams(inner ast.Node) []ast.Node {
 
 	for i, arg := range args {
 		if rest, ok := arg.(ast.TemporalFloatingRestElement); ok {
-			args[i] = ast.SpreadElement{Argument: rest.Argument}
+			args[i] = ast.SpreadElement{BaseNode: rest.BaseNode, Argument: rest.Argument}
 		} else if arg.ContainsTemporalNodes() {
 			p.s.SyntaxError("expected `=>` operator")
 		}
@@ -1231,6 +1267,15 @@ func (p *Parser) parseFunctionExpressionTail(start ast.Location, async bool) ast
 	return m
 }
 
+// Parses the name of a property after a `.` operator.
+func (p *Parser) parsePropertyName() ast.Identifier {
+	n := ast.Identifier{}
+	p.setStart(&n)
+	n.Name = p.forceScanIdent("expected property name after `.` operator")
+	p.setEnd(&n)
+	return n
+}
+
 // Parses arguments.
 func (p *Parser) parseArguments() []ast.Node {
 	n := []ast.Node{}
@@ -1241,6 +1286,7 @@ func (p *Parser) parseArguments() []ast.Node {
 		return n
 	}
 	for {
+		s := p.s.Location()
 		spread := false
 		if p.s.PeekAt(0).Type == lexer.TokenPunctuatorEllipsis {
 			p.s.Scan()
@@ -1248,7 +1294,10 @@ func (p *Parser) parseArguments() []ast.Node {
 		}
 		m := p.parseExpression(exprOrderAssign, 0)
 		if spread {
-			m = ast.SpreadElement{Argument: m}
+			e := ast.SpreadElement{Argument: m}
+			e.SetStart(s)
+			e.SetEnd(p.s.Location())
+			m = e
 		}
 		n = append(n, m)
 		if p.s.PeekAt(0).Type != lexer.TokenPunctuatorCloseParen {
-- 
2.43.0


From 6946e2b9a2bd841983a675cca8aeb20f1eae12f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:38 +0000
Subject: [PATCH 66/75] fix: record the spans of rest elements in destructuring
 assignments

---
 ecmascript/parser/expression.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/ecmascript/parser/expression.go b/ecmascript/parser/expression.go
index 0015ad1..810960a 100644
--- a/ecmascript/parser/expression.go
+++ b/ecmascript/parser/expression.go
@@ -965,8 +965,9 @@ func (p *Parser) parseArrayTail(start ast.Location, flags exprFlags) (n ast.Arra
 			break
 		}
 		if flags&exprFlagMaybeArrow != 0 && p.s.PeekAt(0).Type == lexer.TokenPunctuatorEllipsis {
-			p.s.ScanExpect(lexer.TokenPunctuatorEllipsis, "expected `...`")
 			rest := ast.TemporalArrayRestElement{}
+			p.setStart(&rest)
+			p.s.ScanExpect(lexer.TokenPunctuatorEllipsis, "expected `...`")
 			switch p.ctx.keywordToIdentifier(p.s.PeekAt(0), false).Type {
 			case lexer.TokenPunctuatorCloseBracket:
 				p.s.SyntaxError("expected expression, got ']'")
@@ -979,6 +980,7 @@ func (p *Parser) parseArrayTail(start ast.Location, flags exprFlags) (n ast.Arra
 			default:
 				p.s.SyntaxError("missing variable name")
 			}
+			p.setEnd(&rest)
 			n.Elements = append(n.Elements, rest)
 			break
 		} else {
@@ -1017,8 +1019,9 @@ func (p *Parser) parseObjectTail(start ast.Location, flags exprFlags) (n ast.Obj
 			t == lexer.TokenPunctuatorOpenParen
 	}
 
-	parseRest := func() ast.TemporalObjectRestElement {
+	parseRest := func(start ast.Location) ast.TemporalObjectRestElement {
 		rest := ast.TemporalObjectRestElement{}
+		rest.SetStart(start)
 		switch p.ctx.keywordToIdentifier(p.s.PeekAt(0), false).Type {
 		case lexer.TokenPunctuatorCloseBrace:
 			p.s.SyntaxError("expected expression, got '}'")
@@ -1027,6 +1030,7 @@ func (p *Parser) parseObjectTail(start ast.Location, flags exprFlags) (n ast.Obj
 		default:
 			p.s.SyntaxError("missing variable name")
 		}
+		p.setEnd(&rest)
 		return rest
 	}
 
@@ -1088,7 +1092,7 @@ func (p *Parser) parseObjectTail(start ast.Location, flags exprFlags) (n ast.Obj
 			case lexer.TokenPunctuatorEllipsis:
 				// For possible-arrow-function: parse rest binding.
 				if flags&exprFlagMaybeArrow != 0 {
-					n.Properties = append(n.Properties, ast.Property{Key: parseRest()})
+					n.Properties = append(n.Properties, ast.Property{Key: parseRest(pos)})
 					p.s.ScanExpect(lexer.TokenPunctuatorCloseBrace, "expected `}`")
 					return n
 				}
-- 
2.43.0


From 38f44fbbfde963ac7ac33d8ab8de6876c7c121c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:05 +0000
Subject: [PATCH 67/75] fix: clear the spans of the nodes held in interfaces in
 ClearSpans

Almost every node of a tree is held in a Node interface, where ClearSpans did
not look, so it left their spans in place.
---
 ecmascript/ast/node.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/ecmascript/ast/node.go b/ecmascript/ast/node.go
index 42bcc75..ba80e0e 100644
--- a/ecmascript/ast/node.go
+++ b/ecmascript/ast/node.go
@@ -75,6 +75,19 @@ func clearSpans(v reflect.Value) {
 			clearSpans(v.Field(i))
 		}
 
+	case reflect.Interface:
+		// What is in an interface can only be replaced.
+		if v.IsNil() || !v.CanSet() {
+			return
+		}
+		e := v.Elem()
+		if e.Kind() != reflect.Ptr {
+			e = reflect.New(e.Type()).Elem()
+			e.Set(v.Elem())
+		}
+		clearSpans(e)
+		v.Set(e)
+
 	default:
 		break
 	}
-- 
2.43.0


From 62915a6dc28a7c983222ab34e1625eef6ac8945a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:07 +0000
Subject: [PATCH 68/75] fix: read long numbers in time proportional to their
 length

---
 ecmascript/lexer/token.go | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/ecmascript/lexer/token.go b/ecmascript/lexer/token.go
index a7e7901..cf58114 100644
--- a/ecmascript/lexer/token.go
+++ b/ecmascript/lexer/token.go
@@ -3,6 +3,7 @@ package lexer
 import (
 	"errors"
 	"fmt"
+	"math"
 	"math/big"
 	"strconv"
 	"strings"
@@ -398,13 +399,29 @@ func (t Token) NumberConstant() float64 {
 	legacyOctal := len(lit) > 1 && lit[0] == '0' && strings.Trim(lit, "01234567") == ""
 	if !legacyOctal && (err == nil || errors.Is(err, strconv.ErrRange)) {
 		// strconv misplaces the decimal point after more than 800 digits.
-		if strings.IndexAny(lit+".", ".eE") > 800 {
-			if f, _, err := big.ParseFloat(lit, 10, uint(4*len(lit)+2048), big.ToNearestEven); err == nil {
-				v, _ = f.Float64()
+		// Write the number with a decimal point in front of all digits.
+		if n := strings.IndexAny(lit+".", ".eE"); n > 800 {
+			digits, exp := lit, 0
+			if i := strings.IndexAny(lit, "eE"); i >= 0 {
+				digits = lit[:i]
+				if exp, err = strconv.Atoi(lit[i+1:]); err != nil {
+					return v
+				}
 			}
+			digits = "." + lit[:n] + strings.TrimPrefix(digits[n:], ".")
+			v, _ = strconv.ParseFloat(digits+"e"+strconv.Itoa(exp+n), 64)
 		}
 		return v
 	}
+	// Numbers with more digits are out of range in every base. Reading all
+	// digits of a long number would take too long.
+	digits := lit[1:]
+	if !legacyOctal {
+		digits = lit[2:]
+	}
+	if len(strings.TrimLeft(digits, "0")) > 1024 {
+		return math.Inf(1)
+	}
 	i, ok := new(big.Int).SetString(lit, 0)
 	if !ok {
 		panic(err)
-- 
2.43.0


From 7b9dd0a727717ef6c4fca90a231992603a70f541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:13 +0000
Subject: [PATCH 69/75] fix: name the token that does not fit a pattern or a
 parameter list

---
 ecmascript/parser/expression.go | 2 +-
 ecmascript/parser/statement.go  | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/ecmascript/parser/expression.go b/ecmascript/parser/expression.go
index 810960a..1f9ad30 100644
--- a/ecmascript/parser/expression.go
+++ b/ecmascript/parser/expression.go
@@ -1347,7 +1347,7 @@ func (p *Parser) parseParametersTail() ast.FormalParameters {
 			return n
 
 		default:
-			p.s.SyntaxError(fmt.Sprintf("unexpected token in formal parameter list: %s", p.s.Scan().Source()))
+			p.s.SyntaxError(fmt.Sprintf("unexpected token in formal parameter list: %s", t.Source()))
 		}
 
 		// Default syntax
diff --git a/ecmascript/parser/statement.go b/ecmascript/parser/statement.go
index e593abc..3cf2747 100644
--- a/ecmascript/parser/statement.go
+++ b/ecmascript/parser/statement.go
@@ -304,7 +304,7 @@ func (p *Parser) parseArrayBindingPatternTail() *ast.ArrayBindingPattern {
 			return n
 
 		default:
-			p.s.SyntaxError(fmt.Sprintf("unexpected token in array binding pattern: %s", p.s.Scan().Source()))
+			p.s.SyntaxError(fmt.Sprintf("unexpected token in array binding pattern: %s", t.Source()))
 		}
 
 		// Default syntax
@@ -374,7 +374,7 @@ func (p *Parser) parseObjectBindingPatternTail() *ast.ObjectBindingPattern {
 				b.Value.ObjectPattern = p.parseObjectBindingPatternTail()
 
 			default:
-				p.s.SyntaxError(fmt.Sprintf("unexpected token in object binding pattern: %s", p.s.Scan().Source()))
+				p.s.SyntaxError(fmt.Sprintf("unexpected token in object binding pattern: %s", t.Source()))
 			}
 		}
 
-- 
2.43.0


From 160ce9a56ecade72e9db8458870d67cebbb2d637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:15 +0000
Subject: [PATCH 70/75] fix: reject a unary operand where it starts, not where
 it ends

---
 ecmascript/parser/expression.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/ecmascript/parser/expression.go b/ecmascript/parser/expression.go
index 1f9ad30..bceeec8 100644
--- a/ecmascript/parser/expression.go
+++ b/ecmascript/parser/expression.go
@@ -145,6 +145,11 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 		t = re.Token
 	}
 
+	// A unary expression can not be an operand of a tighter operator.
+	if order > exprOrderUnaryExpr && isUnaryOperator(t.Type) {
+		invalidprimary()
+	}
+
 	switch t.Type {
 	// Unary operators
 	case lexer.TokenPunctuatorIncrement:
@@ -779,6 +784,19 @@ func isAssignmentLevel(n ast.Node) bool {
 	return false
 }
 
+// isUnaryOperator returns true for the operators that begin a unary or an
+// update expression.
+func isUnaryOperator(t lexer.TokenType) bool {
+	switch t {
+	case lexer.TokenPunctuatorIncrement, lexer.TokenPunctuatorDecrement,
+		lexer.TokenKeywordDelete, lexer.TokenKeywordVoid, lexer.TokenKeywordTypeOf,
+		lexer.TokenPunctuatorPlus, lexer.TokenPunctuatorMinus,
+		lexer.TokenPunctuatorBitNot, lexer.TokenPunctuatorNot:
+		return true
+	}
+	return false
+}
+
 // isOperatorExpression returns true if the node is an expression that binds
 // less tightly than a left-hand side expression.
 func isOperatorExpression(n ast.Node) bool {
-- 
2.43.0


From 028f95fa4cf54829dd816e7e2f77d0ae324ac2e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:09 +0000
Subject: [PATCH 71/75] fix: reject getters with parameters and setters with
 several or a rest parameter

---
 ecmascript/parser/declaration.go |  6 +++++-
 ecmascript/parser/expression.go  | 18 +++++++++++++++++-
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/ecmascript/parser/declaration.go b/ecmascript/parser/declaration.go
index 0d43b57..1656823 100644
--- a/ecmascript/parser/declaration.go
+++ b/ecmascript/parser/declaration.go
@@ -168,7 +168,11 @@ func (p *Parser) parseClassBody() []ast.Node {
 		p.ctx = ctx.function(false, false)
 		fn := ast.FunctionExpression{}
 		fn.SetStart(p.s.Location())
-		fn.Params = p.parseParameters()
+		if m.Kind == ast.GetMethod || m.Kind == ast.SetMethod {
+			fn.Params = p.parseAccessorParameters(m.Kind == ast.GetMethod)
+		} else {
+			fn.Params = p.parseParameters()
+		}
 		fn.Body = p.parseFunctionBody()
 		fn.SetEnd(p.s.Location())
 		m.Value = fn
diff --git a/ecmascript/parser/expression.go b/ecmascript/parser/expression.go
index bceeec8..fe54fa8 100644
--- a/ecmascript/parser/expression.go
+++ b/ecmascript/parser/expression.go
@@ -1172,7 +1172,7 @@ func (p *Parser) parseObjectTail(start ast.Location, flags exprFlags) (n ast.Obj
 			p.ctx = ctx.function(false, false)
 			fn := ast.FunctionExpression{}
 			fn.SetStart(p.s.Location())
-			fn.Params = p.parseParameters()
+			fn.Params = p.parseAccessorParameters(prop.Kind == ast.GetProperty)
 			fn.Body = p.parseFunctionBody()
 			fn.SetEnd(p.s.Location())
 			prop.Value = fn
@@ -1338,6 +1338,22 @@ func (p *Parser) parseParameters() ast.FormalParameters {
 	return p.parseParametersTail()
 }
 
+// parseAccessorParameters parses the parameters of a getter or setter. Getters
+// have none, and setters have one, which is not a rest parameter.
+func (p *Parser) parseAccessorParameters(getter bool) ast.FormalParameters {
+	p.s.ScanExpect(lexer.TokenPunctuatorOpenParen, "expected `(`")
+	if getter {
+		p.s.ScanExpect(lexer.TokenPunctuatorCloseParen, "getters have no parameters")
+		return ast.FormalParameters{}
+	}
+
+	n := p.parseParametersTail()
+	if len(n.Parameters) > 1 || n.RestParameter != "" {
+		p.s.SyntaxError("setters have a single parameter, which is not a rest parameter")
+	}
+	return n
+}
+
 func (p *Parser) parseParametersTail() ast.FormalParameters {
 	defer p.leave(p.enter())
 
-- 
2.43.0


From c2e5bb2464fa8372a66577af6e4014f9225e59c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:05 +0000
Subject: [PATCH 72/75] fix: refuse `let [` at the start of a for statement,
 which is not a member expression

---
 ecmascript/parser/statement.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ecmascript/parser/statement.go b/ecmascript/parser/statement.go
index 3cf2747..6fe3580 100644
--- a/ecmascript/parser/statement.go
+++ b/ecmascript/parser/statement.go
@@ -469,6 +469,9 @@ func (p *Parser) parseForStatement() ast.Node {
 		var v ast.Node
 		if t.Type == lexer.TokenKeywordVar {
 			v = p.parseVariableStatementNoSemicolon(exprFlagDisallowIn)
+		} else if t.Type == lexer.TokenKeywordLet && p.s.PeekAt(1).Type == lexer.TokenPunctuatorOpenBracket {
+			// Not an element of a variable named let.
+			p.s.Unsupported("lexical declaration in for statement")
 		} else {
 			v = p.parseExpression(exprOrderComma, exprFlagDisallowIn)
 		}
-- 
2.43.0


From 21f4af12611d3013d9809c740aebd9deec475593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:36 +0000
Subject: [PATCH 73/75] fix: do not fail in the demo page while the parser is
 not loaded yet

---
 web/parser/index.html | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/web/parser/index.html b/web/parser/index.html
index 56776ab..83a0a63 100644
--- a/web/parser/index.html
+++ b/web/parser/index.html
@@ -82,7 +82,7 @@
         <script>
         (function() {
             // The Go binary will call parserLoaded to pass us the parser.
-            let parseES = () => {};
+            let parseES = () => ({});
             window["parserLoaded"] = function(parser) {
                 outputEl.value = "[Parser loaded, going to parse soon...]";
 
-- 
2.43.0


From a1ef37c07806bbee42f7177efca509b95826d706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:37 +0000
Subject: [PATCH 74/75] fix: show that the parser exited in the demo page,
 instead of a stale result

---
 web/parser/index.html | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/web/parser/index.html b/web/parser/index.html
index 83a0a63..a70ebe0 100644
--- a/web/parser/index.html
+++ b/web/parser/index.html
@@ -170,7 +170,11 @@ console.log("Hello, world.");`;
             const go = new Go();
 
             go.exit = (code) => {
-                errorEl.innerText = `WASM bundle unexpectedly exited! (exit code ${code}) - check console for more details`;
+                const error = `WASM bundle unexpectedly exited! (exit code ${code}) - check console for more details`;
+
+                // The parser is gone: show this from now on.
+                parseES = () => ({ error });
+                runParse();
             };
 
             // Polyfill for browsers who can't be assed to support APIs from as
-- 
2.43.0


From 56a92b23e4e7f177959b07cc8e818d0f4039377d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:38 +0000
Subject: [PATCH 75/75] fix: open shared links of an empty text in the demo
 page with that text

---
 web/parser/index.html | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/web/parser/index.html b/web/parser/index.html
index a70ebe0..e768d93 100644
--- a/web/parser/index.html
+++ b/web/parser/index.html
@@ -159,7 +159,7 @@ console.log("Hello, world.");`;
             window.addEventListener("hashchange", () => {
                 const url = new URL(window.location.href);
                 const code = url.searchParams.get("code");
-                if (code) {
+                if (code !== null) {
                     inputEl.value = code;
                     runParseDebounced();
                 }
-- 
2.43.0

