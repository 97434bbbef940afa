package main

import (
	"errors"
	"fmt"
	"io"
	"runtime/debug"
	"strconv"
	"strings"

	"github.com/jchv/cleansheets/ecmascript/ast"
	"github.com/jchv/cleansheets/ecmascript/errs"
	"github.com/jchv/cleansheets/ecmascript/lexer"
)

// An independent model of the lexical grammar: it works on the whole text with
// random access, token by token, and says what the next token must be.

var keywordTypes = map[string]lexer.TokenType{
	"as": lexer.TokenKeywordAs, "async": lexer.TokenKeywordAsync, "await": lexer.TokenKeywordAwait, "break": lexer.TokenKeywordBreak, "case": lexer.TokenKeywordCase, "catch": lexer.TokenKeywordCatch, "class": lexer.TokenKeywordClass, "const": lexer.TokenKeywordConst, "continue": lexer.TokenKeywordContinue, "debugger": lexer.TokenKeywordDebugger, "default": lexer.TokenKeywordDefault, "delete": lexer.TokenKeywordDelete, "do": lexer.TokenKeywordDo, "else": lexer.TokenKeywordElse, "enum": lexer.TokenKeywordEnum, "export": lexer.TokenKeywordExport, "extends": lexer.TokenKeywordExtends, "false": lexer.TokenKeywordFalse, "finally": lexer.TokenKeywordFinally, "for": lexer.TokenKeywordFor, "from": lexer.TokenKeywordFrom, "function": lexer.TokenKeywordFunction, "get": lexer.TokenKeywordGet, "if": lexer.TokenKeywordIf, "implements": lexer.TokenKeywordImplements, "import": lexer.TokenKeywordImport, "in": lexer.TokenKeywordIn, "instanceof": lexer.TokenKeywordInstanceOf, "interface": lexer.TokenKeywordInterface, "let": lexer.TokenKeywordLet, "meta": lexer.TokenKeywordMeta, "new": lexer.TokenKeywordNew, "null": lexer.TokenKeywordNull, "of": lexer.TokenKeywordOf, "package": lexer.TokenKeywordPackage, "private": lexer.TokenKeywordPrivate, "protected": lexer.TokenKeywordProtected, "public": lexer.TokenKeywordPublic, "return": lexer.TokenKeywordReturn, "set": lexer.TokenKeywordSet, "static": lexer.TokenKeywordStatic, "super": lexer.TokenKeywordSuper, "switch": lexer.TokenKeywordSwitch, "target": lexer.TokenKeywordTarget, "this": lexer.TokenKeywordThis, "throw": lexer.TokenKeywordThrow, "true": lexer.TokenKeywordTrue, "try": lexer.TokenKeywordTry, "typeof": lexer.TokenKeywordTypeOf, "var": lexer.TokenKeywordVar, "void": lexer.TokenKeywordVoid, "while": lexer.TokenKeywordWhile, "with": lexer.TokenKeywordWith, "yield": lexer.TokenKeywordYield,
}

var punctTypes = map[string]lexer.TokenType{
	"?.": lexer.TokenPunctuatorOptionalChain, "{": lexer.TokenPunctuatorOpenBrace, "(": lexer.TokenPunctuatorOpenParen, "[": lexer.TokenPunctuatorOpenBracket, "]": lexer.TokenPunctuatorCloseBracket, ")": lexer.TokenPunctuatorCloseParen, "}": lexer.TokenPunctuatorCloseBrace, ".": lexer.TokenPunctuatorDot, "...": lexer.TokenPunctuatorEllipsis, ";": lexer.TokenPunctuatorSemicolon, ",": lexer.TokenPunctuatorComma, "<": lexer.TokenPunctuatorLessThan, ">": lexer.TokenPunctuatorGreaterThan, "<=": lexer.TokenPunctuatorLessThanEqual, ">=": lexer.TokenPunctuatorGreaterThanEqual, "==": lexer.TokenPunctuatorEqual, "!=": lexer.TokenPunctuatorNotEqual, "===": lexer.TokenPunctuatorStrictEqual, "!==": lexer.TokenPunctuatorStrictNotEqual, "+": lexer.TokenPunctuatorPlus, "-": lexer.TokenPunctuatorMinus, "*": lexer.TokenPunctuatorMult, "/": lexer.TokenPunctuatorDiv, "%": lexer.TokenPunctuatorMod, "**": lexer.TokenPunctuatorExponent, "++": lexer.TokenPunctuatorIncrement, "--": lexer.TokenPunctuatorDecrement, "<<": lexer.TokenPunctuatorLShift, ">>": lexer.TokenPunctuatorRShift, ">>>": lexer.TokenPunctuatorUnsignedRShift, "&": lexer.TokenPunctuatorBitAnd, "|": lexer.TokenPunctuatorBitOr, "^": lexer.TokenPunctuatorBitXor, "!": lexer.TokenPunctuatorNot, "~": lexer.TokenPunctuatorBitNot, "&&": lexer.TokenPunctuatorLogicalAnd, "||": lexer.TokenPunctuatorLogicalOr, "??": lexer.TokenPunctuatorNullCoalesce, "?": lexer.TokenPunctuatorQuestionMark, ":": lexer.TokenPunctuatorColon, "=": lexer.TokenPunctuatorAssign, "+=": lexer.TokenPunctuatorPlusAssign, "-=": lexer.TokenPunctuatorMinusAssign, "*=": lexer.TokenPunctuatorMultAssign, "/=": lexer.TokenPunctuatorDivAssign, "%=": lexer.TokenPunctuatorModAssign, "**=": lexer.TokenPunctuatorExponentAssign, "<<=": lexer.TokenPunctuatorLShiftAssign, ">>=": lexer.TokenPunctuatorRShiftAssign, ">>>=": lexer.TokenPunctuatorUnsignedRShiftAssign, "&=": lexer.TokenPunctuatorBitAndAssign, "|=": lexer.TokenPunctuatorBitOrAssign, "^=": lexer.TokenPunctuatorBitXorAssign, "&&=": lexer.TokenPunctuatorLogicalAndAssign, "||=": lexer.TokenPunctuatorLogicalOrAssign, "??=": lexer.TokenPunctuatorNullCoalesceAssign, "=>": lexer.TokenPunctuatorFatArrow,
}

type lexClass int

const (
	lcEOF lexClass = iota
	lcName
	lcKeyword
	lcPrivate
	lcPunct
	lcNumber
	lcString
	lcRegexp
	lcError
	lcUndecided // the recorded deviations: ?. and two adjacent dots
)

// MTok is a token of the model.
type MTok struct {
	Class      lexClass
	Text       string
	NL         bool
	Start, End int // in runes
	Pat, Flags string
}

func isDec(c rune) bool { return c >= '0' && c <= '9' }

// Model reads tokens.
type Model struct {
	rs  []rune
	pos int
}

func (m *Model) at(i int) rune {
	if i < len(m.rs) {
		return m.rs[i]
	}
	return -1
}

// trivia skips white space and comments from i. It returns the position after
// them and whether a line terminator was skipped, or ok=false when a comment
// does not end.
func (m *Model) trivia(i int) (end int, nl, ok bool) {
	for i < len(m.rs) {
		c := m.rs[i]
		switch {
		case isLT(c):
			nl = true
			i++
		case isWS(c):
			i++
		case c == '/' && m.at(i+1) == '/':
			for i < len(m.rs) && !isLT(m.rs[i]) {
				i++
			}
		case c == '/' && m.at(i+1) == '*':
			j := i + 2
			for {
				if j+1 >= len(m.rs) {
					return len(m.rs), nl, false
				}
				if m.rs[j] == '*' && m.rs[j+1] == '/' {
					break
				}
				if isLT(m.rs[j]) {
					nl = true
				}
				j++
			}
			i = j + 2
		default:
			return i, nl, true
		}
	}
	return i, nl, true
}

// number returns the end of the numeric literal at i, or ok=false if the text
// is malformed there.
func (m *Model) number(i int) (int, bool) {
	// run reads digits with single separators between them.
	run := func(i int, digit func(rune) bool, seps bool) (int, bool) {
		if !digit(m.at(i)) {
			return i, false
		}
		for {
			switch {
			case digit(m.at(i)):
				i++
			case seps && m.at(i) == '_':
				if !digit(m.at(i + 1)) {
					return i, false
				}
				i++
			default:
				return i, true
			}
		}
	}
	finish := func(i int) (int, bool) {
		if c := m.at(i); isDec(c) || isIDStart(c) {
			return i, false
		}
		return i, true
	}
	exponent := func(i int) (int, bool) {
		if c := m.at(i); c == 'e' || c == 'E' {
			i++
			if c := m.at(i); c == '+' || c == '-' {
				i++
			}
			j, ok := run(i, isDec, true)
			if !ok {
				return j, false
			}
			i = j
		}
		return finish(i)
	}
	fraction := func(i int) (int, bool) { // i after the dot
		if isDec(m.at(i)) {
			j, ok := run(i, isDec, true)
			if !ok {
				return j, false
			}
			i = j
		}
		return exponent(i)
	}
	if m.at(i) == '.' {
		return fraction(i + 1)
	}
	if m.at(i) == '0' {
		base := func(digit func(rune) bool) (int, bool) {
			j, ok := run(i+2, digit, true)
			if !ok {
				return j, false
			}
			return finish(j)
		}
		switch c := m.at(i + 1); {
		case c == 'x' || c == 'X':
			return base(func(c rune) bool {
				return isDec(c) || c >= 'a' && c <= 'f' || c >= 'A' && c <= 'F'
			})
		case c == 'o' || c == 'O':
			return base(func(c rune) bool { return c >= '0' && c <= '7' })
		case c == 'b' || c == 'B':
			return base(func(c rune) bool { return c == '0' || c == '1' })
		case isDec(c):
			j := i
			octal := true
			for isDec(m.at(j)) {
				if m.at(j) >= '8' {
					octal = false
				}
				j++
			}
			if octal {
				return finish(j)
			}
			i = j
		default:
			i++
		}
	} else {
		j, ok := run(i, isDec, true)
		if !ok {
			return j, false
		}
		i = j
	}
	if m.at(i) == '.' {
		return fraction(i + 1)
	}
	return exponent(i)
}

// str returns the end of the string literal at i.
func (m *Model) str(i int) (int, bool) {
	q := m.at(i)
	for i++; i < len(m.rs); i++ {
		switch c := m.rs[i]; {
		case c == q:
			return i + 1, true
		case c == '\n' || c == '\r':
			return i, false
		case c == '\\':
			if m.at(i+1) == '\r' && m.at(i+2) == '\n' {
				i++
			}
			i++
		}
	}
	return len(m.rs), false
}

// regexp returns the end of the body and of the flags of the regular
// expression literal at i.
func (m *Model) regexp(i int) (body, end int, ok bool) {
	class := false
	for i++; ; i++ {
		c := m.at(i)
		switch {
		case c < 0 || isLT(c):
			return i, i, false
		case c == '\\':
			i++
			if c := m.at(i); c < 0 || isLT(c) {
				return i, i, false
			}
		case class:
			class = c != ']'
		case c == '[':
			class = true
		case c == '/':
			body = i
			for i++; isIDPart(m.at(i)); i++ {
			}
			return body, i, true
		}
	}
}

// next returns the next token. With regex, a slash starts a regular
// expression.
func (m *Model) next(regex bool) MTok {
	i, nl, ok := m.trivia(m.pos)
	t := MTok{NL: nl, Start: i, End: i}
	if !ok {
		t.Class = lcError
		return t
	}
	set := func(c lexClass, end int) MTok {
		t.Class, t.End, t.Text = c, end, string(m.rs[i:end])
		m.pos = end
		return t
	}
	if i >= len(m.rs) {
		return set(lcEOF, i)
	}
	c := m.rs[i]
	switch {
	case isIDStart(c) || c == '#' && isIDStart(m.at(i+1)):
		j := i + 1
		for isIDPart(m.at(j)) {
			j++
		}
		if c == '#' {
			return set(lcPrivate, j)
		}
		if _, kw := keywordTypes[string(m.rs[i:j])]; kw {
			return set(lcKeyword, j)
		}
		return set(lcName, j)
	case isDec(c) || c == '.' && isDec(m.at(i+1)):
		if j, ok := m.number(i); ok {
			return set(lcNumber, j)
		}
	case c == '"' || c == '\'':
		if j, ok := m.str(i); ok {
			return set(lcString, j)
		}
	case c == '/' && regex:
		if b, e, ok := m.regexp(i); ok {
			t.Pat, t.Flags = string(m.rs[i+1:b]), string(m.rs[b+1:e])
			return set(lcRegexp, e)
		}
	default:
		for n := 4; n > 0; n-- {
			if i+n > len(m.rs) {
				continue
			}
			s := string(m.rs[i : i+n])
			if _, ok := punctTypes[s]; !ok {
				continue
			}
			if s == "?." {
				if isDec(m.at(i + 2)) {
					continue
				}
				return set(lcUndecided, i+n)
			}
			if s == "." && m.at(i+1) == '.' {
				return set(lcUndecided, i+n)
			}
			return set(lcPunct, i+n)
		}
	}
	t.Class = lcError
	return t
}

// wantType returns the token type of a token.
func (t MTok) wantType() lexer.TokenType {
	switch t.Class {
	case lcName:
		return lexer.TokenIdentifier
	case lcPrivate:
		return lexer.TokenPrivateIdentifier
	case lcKeyword:
		return keywordTypes[t.Text]
	case lcPunct:
		return punctTypes[t.Text]
	case lcNumber:
		return lexer.TokenLiteralNumber
	case lcString:
		return lexer.TokenLiteralString
	case lcRegexp:
		return lexer.TokenLiteralRegExp
	}
	return lexer.TokenNone
}

// wantLiteral returns the literal text of a token.
func (t MTok) wantLiteral() string {
	switch t.Class {
	case lcPunct, lcEOF:
		return ""
	case lcPrivate:
		return t.Text[1:]
	}
	return t.Text
}

// LexStep is one call of the lexer.
type LexStep struct {
	Tok   lexer.Token
	Re    *lexer.ReToken
	Loc   ast.Location
	Err   error
	Panic any
	Stack string
}

// SutLexer drives the lexer under test token by token.
type SutLexer struct {
	l *lexer.Lexer
}

func newSutLexer(r io.RuneScanner) *SutLexer {
	return &SutLexer{lexer.NewLexer(lexer.NewScanner(r, testURL))}
}

// next lexes a token; with regex, a leading slash is lexed again.
func (s *SutLexer) next(regex bool) (st LexStep) {
	defer func() {
		if p := recover(); p != nil {
			switch e := p.(type) {
			case *errs.SyntaxError:
				st.Err = e
			case *errs.EncodingError:
				st.Err = e
			case *errs.ParserError:
				st.Err = e
			default:
				st.Panic, st.Stack = p, string(debug.Stack())
			}
			st.Loc = s.l.Location()
		}
	}()
	st.Tok = s.l.Lex()
	if regex && (st.Tok.Type == lexer.TokenPunctuatorDiv || st.Tok.Type == lexer.TokenPunctuatorDivAssign) {
		re := s.l.ReLex()
		st.Tok, st.Re = re.Token, &re
	}
	st.Loc = s.l.Location()
	return st
}

func (st LexStep) String() string {
	switch {
	case st.Panic != nil:
		return fmt.Sprintf("panic: %v", st.Panic)
	case st.Err != nil:
		return "error: " + st.Err.Error()
	case st.Re != nil:
		return fmt.Sprintf("%v pattern %q flags %q", st.Tok, st.Re.Pattern, st.Re.Flags)
	}
	return st.Tok.String()
}

// lexWhat says which aspects of a token are compared.
type lexWhat struct {
	kinds, nl, source, values, loc, print bool
}

var lexAll = lexWhat{true, true, true, true, true, true}

// Locator computes positions from offsets, independently of the scanner.
type Locator struct {
	rs       []rune
	pos      int
	row, col int
}

func newLocator(rs []rune) *Locator { return &Locator{rs: rs, row: 1, col: 1} }

// at returns row and column of an offset, which must not decrease.
func (l *Locator) at(off int) (int, int) {
	for ; l.pos < off; l.pos++ {
		c := l.rs[l.pos]
		switch {
		case c == '\n' && l.pos > 0 && l.rs[l.pos-1] == '\r':
		case isLT(c):
			l.row++
			l.col = 1
		default:
			l.col++
		}
	}
	return l.row, l.col
}

// LexStats counts what a comparison observed.
type LexStats struct {
	limit int // compare so many tokens only, if not 0

	tokens, nls, errs, undecided, regexps, locs, printed int
	classes                                              [lcUndecided + 1]int
}

// compareLex runs the lexer over a text next to the model. regex decides
// whether the k-th token is lexed as a regular expression if it begins with a
// slash. It returns a description of the first difference, or "".
func compareLex(src string, rd io.RuneScanner, regex func(k int, prev MTok) bool, what lexWhat, stats *LexStats) string {
	rs := []rune(src)
	m := &Model{rs: rs}
	s := newSutLexer(rd)
	loc := newLocator(rs)
	var prev MTok
	for k := 0; stats.limit == 0 || k < stats.limit; k++ {
		re := regex(k, prev)
		want := m.next(re)
		stats.classes[want.Class]++
		if want.Class == lcUndecided {
			stats.undecided++
			return ""
		}
		got := s.next(re)
		at := func() string {
			return fmt.Sprintf("token %d at rune %d (%q)", k, want.Start, clip(string(rs[want.Start:min(len(rs), max(want.End, want.Start+10))]), 60))
		}
		if got.Panic != nil {
			return fmt.Sprintf("%s: %s", at(), got)
		}
		if want.Class == lcError {
			stats.errs++
			if got.Err == nil {
				if what.kinds {
					return fmt.Sprintf("%s: malformed text lexed as %s", at(), got)
				}
				return ""
			}
			var se *errs.SyntaxError
			if !errors.As(got.Err, &se) && what.kinds {
				return fmt.Sprintf("%s: malformed text: %s", at(), got)
			}
			return ""
		}
		if got.Err != nil {
			if what.kinds {
				return fmt.Sprintf("%s: %s", at(), got)
			}
			return ""
		}
		stats.tokens++
		if want.NL {
			stats.nls++
		}
		if what.kinds {
			if got.Tok.Type != want.wantType() {
				return fmt.Sprintf("%s: got %s, want type %s", at(), got, want.wantType())
			}
			if got.Tok.Literal != want.wantLiteral() {
				return fmt.Sprintf("%s: got %s, want literal %q", at(), got, clip(want.wantLiteral(), 200))
			}
		}
		if what.nl && got.Tok.NewLine != want.NL {
			return fmt.Sprintf("%s: newline flag %v, want %v", at(), got.Tok.NewLine, want.NL)
		}
		if what.print {
			w := "{ Type: " + kindNames[want.wantType()]
			if l := want.wantLiteral(); l != "" {
				w += ", Literal: " + strconv.Quote(l)
			}
			if want.NL {
				w += ", NewLine: true"
			}
			w += " }"
			if g := got.Tok.String(); g != w {
				return fmt.Sprintf("%s: the token prints as %s, not %s", at(), clip(g, 200), clip(w, 200))
			}
			stats.printed++
		}
		if what.source && want.Class != lcEOF {
			if s := got.Tok.Source(); s != want.Text {
				return fmt.Sprintf("%s: source text %q, want %q", at(), clip(s, 200), clip(want.Text, 200))
			}
		}
		if what.values && got.Tok.Type == want.wantType() {
			switch want.Class {
			case lcNumber:
				if v, w := numberConstant(got.Tok), numValue(want.Text); v != w {
					return fmt.Sprintf("%s: value %v, want %v", at(), v, w)
				}
			case lcString:
				if !strings.Contains(want.Text, "\\") {
					if v, w := got.Tok.StringConstant(), want.Text[1:len(want.Text)-1]; v != w {
						return fmt.Sprintf("%s: value %q, want %q", at(), v, w)
					}
				}
			case lcRegexp:
				stats.regexps++
				if got.Re == nil || got.Re.Pattern != want.Pat || got.Re.Flags != want.Flags {
					return fmt.Sprintf("%s: got %s, want pattern %q flags %q", at(), got, want.Pat, want.Flags)
				}
			}
		}
		if what.loc {
			stats.locs++
			row, col := loc.at(want.End)
			if got.Loc.Row != row || got.Loc.Column != col {
				return fmt.Sprintf("%s: location %d:%d after the token, want %d:%d", at(), got.Loc.Row, got.Loc.Column, row, col)
			}
			if got.Loc.URI == nil || got.Loc.URI.String() != testURL.String() {
				return fmt.Sprintf("%s: location carries the URI %v", at(), got.Loc.URI)
			}
		}
		if want.Class == lcEOF {
			return ""
		}
		prev = want
	}
	return ""
}

// numberConstant is the value of a number token; a panic gives NaN.
func numberConstant(t lexer.Token) (v float64) {
	defer func() {
		if recover() != nil {
			v = nan
		}
	}()
	return t.NumberConstant()
}
