package main

import (
	"strings"
	"unicode"
	"unicode/utf8"
)

// Layout: from tokens to text. The separators between tokens are arbitrary
// white space, line terminators and comments, as far as the grammar leaves them
// free; optional semicolons are left out where insertion is certain.

type Style struct {
	Canonical bool    // one space between tokens, all semicolons written
	Minimal   bool    // separators only where needed
	NoASI     bool    // write all semicolons
	OnlyASI   bool    // leave out every semicolon that may be left out
	Newline   float64 // probability of a line terminator in a separator
	Comment   float64 // probability of a comment in a separator
	Wide      float64 // probability of unusual white space
}

func randomStyle(r *Rng) Style {
	switch r.Intn(8) {
	case 0:
		return Style{Minimal: true, NoASI: r.Chance(0.5)}
	case 1:
		return Style{Canonical: true}
	case 2:
		return Style{OnlyASI: true, Newline: 0.1, Comment: 0.1, Wide: 0.1}
	case 3:
		return Style{Newline: 0.9, Comment: 0.1, Wide: 0.2}
	case 4:
		return Style{Newline: 0.2, Comment: 0.8, Wide: 0.3}
	case 5:
		return Style{NoASI: true, Newline: 0.4, Comment: 0.3, Wide: 0.5}
	case 6:
		return Style{Minimal: true, OnlyASI: true}
	}
	return Style{Newline: r.Float() * 0.6, Comment: r.Float() * 0.5, Wide: r.Float() * 0.5}
}

var lineTerms = []string{"\n", "\r", "\r\n", "\u2028", "\u2029"}
var whiteSpaces = []rune{'\t', '\v', '\f', ' ', 0xa0, 0x1680, 0x2000, 0x2001, 0x2002, 0x2003, 0x2004, 0x2005, 0x2006, 0x2007, 0x2008, 0x2009, 0x200a, 0x202f, 0x205f, 0x3000, 0xfeff}

func isLT(r rune) bool { return r == '\n' || r == '\r' || r == 0x2028 || r == 0x2029 }

func isWS(r rune) bool {
	for _, w := range whiteSpaces {
		if r == w {
			return true
		}
	}
	return false
}

func isIDStart(r rune) bool {
	return r == '$' || r == '_' || unicode.In(r, unicode.L, unicode.Nl, unicode.Other_ID_Start) && !unicode.In(r, unicode.Pattern_Syntax, unicode.Pattern_White_Space)
}

func isIDPart(r rune) bool {
	return isIDStart(r) || r == 0x200c || r == 0x200d || unicode.In(r, unicode.Mn, unicode.Mc, unicode.Nd, unicode.Pc, unicode.Other_ID_Continue) && !unicode.In(r, unicode.Pattern_Syntax, unicode.Pattern_White_Space)
}

var punctuators = strings.Fields("{ } ( ) [ ] . ... ; , < > <= >= == != === !== + - * / % ** ++ -- << >> >>> & | ^ ! ~ && || ?? ? : = += -= *= /= %= **= <<= >>= >>>= &= |= ^= &&= ||= ??= => ?.")
var punctSet = map[string]bool{}

func init() {
	for _, p := range punctuators {
		punctSet[p] = true
	}
}

// needSpace tells whether two tokens must be separated to stay apart.
func needSpace(a, b Tok) bool {
	if a.Text == "" || b.Text == "" {
		return false
	}
	la, _ := utf8.DecodeLastRuneInString(a.Text)
	fb, _ := utf8.DecodeRuneInString(b.Text)
	if a.Kind == tkString {
		return false
	}
	if a.Kind == tkWord || a.Kind == tkNum || a.Kind == tkRegex {
		if isIDPart(fb) || fb == '\\' {
			return true
		}
	}
	if a.Kind == tkNum && fb == '.' {
		return true
	}
	if a.Kind == tkRegex || a.Kind == tkWord || a.Kind == tkNum {
		return false
	}
	// Punctuators, by longest match.
	if b.Kind == tkPunct || b.Kind == tkSemi || b.Kind == tkRegex || b.Kind == tkNum {
		for n := 1; n <= len(b.Text); n++ {
			if punctSet[a.Text+b.Text[:n]] {
				return true
			}
		}
		// Three characters that only together form a punctuator, such as the
		// dots of an ellipsis.
		if a.Text == "." && (fb == '.' || fb >= '0' && fb <= '9') {
			return true
		}
		if la == '/' && (fb == '/' || fb == '*') {
			return true
		}
		if a.Text == "<" && fb == '!' {
			return true // <!-- is a comment in sloppy scripts
		}
		if a.Text == "--" && fb == '>' {
			return true
		}
	}
	return false
}

// mayStartAfterNewline tells whether a token can not continue an expression, so
// that a semicolon is inserted before it if it is on a new line.
func mayStartAfterNewline(t Tok) bool {
	switch t.Kind {
	case tkWord:
		return t.Text != "in" && t.Text != "instanceof"
	case tkNum:
		return t.Text[0] != '.'
	case tkString:
		return true
	case tkRegex:
		return false
	case tkPunct:
		switch t.Text {
		case "{", "}", "!", "~", "++", "--":
			return true
		}
	}
	return false
}

// Placed is a token in a laid out text.
type Placed struct {
	Tok
	Start, End int  // byte offsets
	NL         bool // a line terminator precedes the token
}

type Layout struct {
	Src      string
	Toks     []Placed
	Comments int
	Newlines int
	Inserted int // semicolons left out
}

func layout(toks []Tok, st Style, r *Rng) *Layout {
	b := &strings.Builder{}
	out := &Layout{}
	nl := false
	var prev Tok
	mustNL := false
	for i, t := range toks {
		var next Tok
		if i+1 < len(toks) {
			next = toks[i+1]
		}
		if t.Kind == tkSemi && t.Semi != semiExplicit && !st.Canonical && !st.NoASI {
			last := i+1 == len(toks)
			omit := 0 // 1: without a line break, 2: with one
			switch {
			case last || next.Text == "}" && next.Kind == tkPunct:
				omit = 1
			case t.Semi == semiDoWhile:
				// "inserted if the parenthesis closes a do-while". Another
				// semicolon would be taken as this one.
				if next.Kind != tkSemi && !(next.Kind == tkPunct && next.Text == ";") {
					omit = 1
				}
			case next.NoNL || next.Kind == tkSemi:
			case mayStartAfterNewline(next):
				omit = 2
			case t.Semi == semiAny && next.Kind == tkPunct && (next.Text == "(" || next.Text == "[" || next.Text == "+" || next.Text == "-"):
				omit = 2
			}
			p := 0.5
			if st.OnlyASI {
				p = 1
			}
			if omit != 0 && r.Chance(p) {
				out.Inserted++
				if omit == 2 {
					mustNL = true
				}
				continue
			}
		}
		noNL := t.NoNL
		if mustNL {
			noNL = false
		}
		n0 := b.Len()
		if i > 0 || !st.Canonical && !st.Minimal {
			nl = separator(b, prev, t, st, r, noNL, mustNL, out)
		}
		_ = n0
		mustNL = false
		start := b.Len()
		b.WriteString(t.Text)
		out.Toks = append(out.Toks, Placed{Tok: t, Start: start, End: b.Len(), NL: nl})
		nl = false
		prev = t
	}
	// Something after the last token.
	if !st.Canonical && !st.Minimal {
		separator(b, prev, Tok{}, st, r, false, mustNL, out)
		if r.Chance(st.Comment) {
			if needSpace(prev, Tok{Text: "/", Kind: tkPunct}) {
				b.WriteByte(' ')
			}
			b.WriteString("//" + commentText(r, false))
			out.Comments++
		}
	}
	out.Src = b.String()
	return out
}

// separator writes the text between two tokens and tells whether it contains a
// line terminator.
func separator(b *strings.Builder, prev, t Tok, st Style, r *Rng, noNL, mustNL bool, out *Layout) bool {
	if st.Canonical {
		b.WriteByte(' ')
		return false
	}
	nl := false
	writeNL := func() {
		b.WriteString(pick(r, lineTerms))
		nl = true
		out.Newlines++
	}
	n0 := b.Len()
	// A separator must not begin with a slash right after a slash; other
	// tokens can be followed by a comment directly.
	slash := strings.HasSuffix(prev.Text, "/") && prev.Kind == tkPunct
	if slash && (st.Comment > 0) {
		b.WriteByte(' ')
	}
	for !st.Minimal {
		k := 0
		if r.Chance(st.Comment) {
			out.Comments++
			k++
			switch {
			case !noNL && r.Chance(0.3):
				b.WriteString("//" + commentText(r, false))
				writeNL()
			case !noNL && r.Chance(0.4):
				b.WriteString("/*" + commentText(r, false) + pick(r, lineTerms) + commentText(r, true) + "*/")
				nl = true
				out.Newlines++
			default:
				b.WriteString("/*" + strings.ReplaceAll(commentText(r, false), "*/", "* /") + pick(r, []string{"*/", "**/", " */", "***/"}))
			}
		}
		if !noNL && r.Chance(st.Newline) {
			writeNL()
			k++
		}
		if r.Chance(st.Wide) {
			b.WriteRune(pick(r, whiteSpaces))
			k++
		} else if r.Chance(0.3) {
			b.WriteString(pick(r, []string{" ", "  ", "\t"}))
			k++
		}
		if k == 0 || r.Chance(0.6) {
			break
		}
	}
	if mustNL && !nl {
		writeNL()
	}
	if b.Len() == n0 && needSpace(prev, t) {
		b.WriteByte(' ')
	}
	// `-->` at the start of a line is a comment in sloppy scripts; it can only
	// arise from `--` and `>` which are never adjacent on a fresh line.
	return nl
}

var commentBits = []string{"a", "x = 1", "*", "**", "/", "//", "'", "\"", "`", "\\", "é", "𝒳", "use strict", "{", "}", "(", "/* ", "=>", ";", " ", "\t", "\u00a0", "return", "function", "\u0000", "<!--", "# "}

// commentText returns text without line terminators that does not close a
// comment.
func commentText(r *Rng, multi bool) string {
	b := &strings.Builder{}
	for n := r.Intn(5); n > 0; n-- {
		if multi && r.Chance(0.2) {
			b.WriteString(pick(r, lineTerms))
		}
		b.WriteString(pick(r, commentBits))
	}
	s := b.String()
	s = strings.ReplaceAll(s, "*/", "* /")
	if strings.HasPrefix(s, "/") {
		s = " " + s // not "/*/"
	}
	return s
}
