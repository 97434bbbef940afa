package main

import (
	"errors"
	"fmt"
	"regexp"
	"strconv"
	"strings"
	"unicode/utf16"

	"github.com/jchv/cleansheets/ecmascript/errs"
)

func init() { checks["C26"] = c26 }

// aliens are tokens put where they do not belong. Words that are only reserved
// in some contexts and tokens that are allowed almost everywhere are left out.
var aliens = strings.Fields("enum ) ] } => else case catch finally : in instanceof 1 's' ? = ... extends export && ?? || * += const var if % . ( { [ zq9 function class for new typeof void ! ~ throw this super import ++ -- default while do switch try null true < == , ;")

// badTokens are no tokens at all: whatever comes before them, the error is in
// them.
var badTokens = []string{"@", "#1", "\x01", "\u00b7", "0b2", "0o8", "0x", "0xg", "1a", "3in", "1_", "1__0", "1e_", "1e+", ".5_", "`", "\u20ac", "\U0001f600", "\\", "\\x41", "\\u{110000}"}

// lookahead is how many tokens the parser may have read past the token at which
// an error is.
const lookahead = 2

// inHead tells whether position j is in parentheses that may turn out to be the
// parameters of an arrow function. What is in them can be a pattern or an
// expression until the parser sees what follows, so that an error there may be
// raised late.
func inHead(toks []Tok, j int) bool {
	depth := 0
	for i := j; i < len(toks); i++ {
		switch toks[i].Text {
		case "(", "[", "{":
			depth++
		case ")", "]", "}":
			if depth--; depth >= 0 {
				continue
			}
			depth = 0
			if toks[i].Text != ")" {
				continue
			}
			if i+1 < len(toks) && toks[i+1].Text == "=>" {
				return true
			}
			for d, q := 0, i; q > 0; q-- {
				if toks[q].Text == ")" {
					d++
				} else if toks[q].Text == "(" {
					d--
				}
				if d == 0 {
					if toks[q-1].Text == "async" {
						return true
					}
					break
				}
			}
		}
	}
	return false
}

// tokOf makes a token of a text.
func tokOf(s string) Tok {
	t := Tok{Text: s, Kind: tkPunct}
	switch c := s[0]; {
	case c == '\'' && len(s) > 1:
		t.Kind = tkString
	case c >= '0' && c <= '9' || c == '.' && len(s) > 1 && s[1] >= '0' && s[1] <= '9':
		t.Kind = tkNum
	case c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '_' || c == '$':
		t.Kind = tkWord
	case c == '/' && len(s) > 2:
		t.Kind = tkRegex
	}
	return t
}

func toksOf(l []string) []Tok {
	var o []Tok
	for _, s := range l {
		o = append(o, tokOf(s))
	}
	return o
}

// errText is a text that was rejected.
type errText struct {
	src  string
	rs   []rune
	err  error
	msg  string // without the location
	off  int    // of the error, in runes
	read int    // how many runes were read
}

// rejected parses a text. It returns nil if it is not rejected, which others
// check, or if its error has no place, which C17 checks.
func (w *Worker) rejected(src, mode string) *errText {
	rd := newReader(src)
	w.begin(mode, src)
	o := parseFrom(rd, testURL, mode)
	w.end()
	if o.Panic != nil || o.Err == nil {
		return nil
	}
	loc, ok := errorLocation(o.Err)
	if !ok {
		return nil
	}
	e := &errText{src: src, rs: rd.rs, err: o.Err, read: rd.maxPos}
	if e.off, ok = positions(rd.rs).off[[2]int{loc.Row, loc.Column}]; !ok {
		return nil
	}
	var s *errs.SyntaxError
	if errors.As(o.Err, &s) && s.Err != nil {
		e.msg = s.Err.Error()
	}
	return e
}

var (
	namedBacktick = regexp.MustCompile("(?s)^unexpected token `(.*)`, expected primary expression$")
	namedIn       = regexp.MustCompile(`(?s)^unexpected token (?:in|after) [a-z ]+: (.*)$`)
	namedBut      = regexp.MustCompile(`(?s), but got: (.*)$`)
	namedQuoted   = regexp.MustCompile(`(?s), got (".*)$`)
	namedEOF      = regexp.MustCompile(`, got eof(:|$)`)
)

// named returns what the token that a message says was found can be, or nothing
// if the message does not say. It is empty at the end of the input.
func named(msg string) []string {
	for _, re := range []*regexp.Regexp{namedBacktick, namedIn, namedBut} {
		if m := re.FindStringSubmatch(msg); m != nil {
			return []string{endless(m[1])}
		}
	}
	if rest, ok := strings.CutPrefix(msg, "expected identifier, got "); ok {
		// The token may contain the separator.
		var l []string
		for i := 0; ; {
			n := strings.Index(rest[i:], ": ")
			if n < 0 {
				return l
			}
			l = append(l, endless(rest[:i+n]))
			i += n + 1
		}
	}
	if m := namedQuoted.FindStringSubmatch(msg); m != nil {
		if q, err := strconv.QuotedPrefix(m[1]); err == nil {
			if s, err := strconv.Unquote(q); err == nil {
				return []string{endless(s)}
			}
		}
	}
	if namedEOF.MatchString(msg) {
		return []string{""}
	}
	return nil
}

// endless maps the name of no token to no token.
func endless(s string) string {
	if s == "TokenNone" {
		return ""
	}
	return s
}

// skipBlank returns the offset of the first character from off on that is not
// white space nor in a comment.
func skipBlank(rs []rune, off int) int {
	for off < len(rs) {
		c := rs[off]
		switch {
		case isWS(c) || isLT(c):
			off++
		case c == '/' && off+1 < len(rs) && rs[off+1] == '/':
			for off < len(rs) && !isLT(rs[off]) {
				off++
			}
		case c == '/' && off+1 < len(rs) && rs[off+1] == '*':
			end := off + 2
			for end+1 < len(rs) && !(rs[end] == '*' && rs[end+1] == '/') {
				end++
			}
			if end+1 >= len(rs) {
				return off
			}
			off = end + 2
		default:
			return off
		}
	}
	return off
}

// misnamed compares the token that the message names with the text: it must end
// where the error is or come right after.
func (e *errText) misnamed() (d, name string, ok bool) {
	names := named(e.msg)
	if names == nil {
		return "", "", false
	}
	here := e.rs[:e.off]
	next := e.rs[skipBlank(e.rs, e.off):]
	for _, name = range names {
		if name == "" && len(next) == 0 || name != "" && (strings.HasSuffix(string(here), name) || strings.HasPrefix(string(next), name)) {
			return "", name, true
		}
	}
	if name == "" {
		d = fmt.Sprintf("error says that the end of the input was found, but %q is left: %v", clip(string(next), 40), e.err)
	} else {
		a := max(0, len(here)-30)
		d = fmt.Sprintf("error names the token %q, which is not at its location: before it is %q, after it %q: %v", name, string(here[a:]), clip(string(next), 30), e.err)
	}
	return d, name, true
}

// u16len is the length of a text in UTF-16 units.
func u16len(s string) int { return len(utf16.Encode([]rune(s))) }

func runes(s string) int { return len([]rune(s)) }

// placed finds the token of a layout that is the marked one.
func placed(l *Layout, mark int) int {
	for i, t := range l.Toks {
		if t.Mark == mark {
			return i
		}
	}
	return -1
}

// atFault checks that the error of a text in which token j is the first that
// can not continue the program is at that token.
func (e *errText) atFault(l *Layout, j int, lexical bool) string {
	prevEnd := 0
	if j > 0 {
		prevEnd = runes(l.Src[:l.Toks[j-1].End])
	}
	start, end := runes(l.Src[:l.Toks[j].Start]), runes(l.Src[:l.Toks[j].End])
	text := l.Toks[j].Text
	if lexical && e.off > end {
		// The character that is missing.
		end++
		if end < len(e.rs) && e.rs[end-1] == '\r' && e.rs[end] == '\n' {
			end++
		}
	}
	switch {
	case e.off < prevEnd:
		return fmt.Sprintf("the error is before the end of the last good token, in front of %q (offset %d, want %d to %d): %v", text, e.off, prevEnd, end, e.err)
	case e.off > end:
		return fmt.Sprintf("the error is after the token at fault, %q (offset %d, want %d to %d): %v", text, e.off, prevEnd, end, e.err)
	case e.off > prevEnd && e.off < start:
		return fmt.Sprintf("the error is between two tokens, in front of %q (offset %d, want %d or %d to %d): %v", text, e.off, prevEnd, start, end, e.err)
	}
	if lexical {
		return ""
	}
	if d, name, ok := e.misnamed(); d != "" {
		return d
	} else if ok && name != text && (name == "" || !strings.HasPrefix(text, name)) && (e.off == prevEnd || e.off == end) {
		return fmt.Sprintf("the error names %q, not the token at fault, %q: %v", name, text, e.err)
	}
	// Lexing the last token takes one more character.
	if n := j + lookahead; n < len(l.Toks) {
		if max := runes(l.Src[:l.Toks[n].End]) + 2; e.read > max {
			return fmt.Sprintf("%d characters were read before the error at %q was raised, more than %d tokens past it (%d): %v", e.read, text, lookahead, max, e.err)
		}
	}
	return ""
}

// C26: errors are raised at the token at fault.
func c26(c *Check) {
	c.rule = "Tokens that can not be there are put into seeds that cover every production, at every position, and into random programs and modules in random layouts; where acorn agrees that the text up to there can be continued and that it can not be with the token, the error must be at the end of the token before, at the end of the token at fault or, if it is about characters, in it, must name no other token, and must be raised before more than two further tokens are read. Illegal characters and number forms are put everywhere likewise. Programs cut short are reported at their end. In any corrupted text a token that the message names is the one that ends at the location or the one after it, and an error is never before the tokens that were left intact. Non-trivial: rejected texts that were judged; distinct: by text."
	c.assume = append(c.assume, "acorn 8.19.0 decides which token is the first that can not continue a program", "parentheses that may be the parameters of an arrow function are exempt from the upper bound on where the error is: what is in them is only known to be wrong when they are closed")

	report := func(w *Worker, d, mode, src string, again func(string) string) {
		if again != nil {
			small := shrinkText(src, func(s string) bool { return again(s) != "" })
			if d2 := again(small); d2 != "" {
				w.violate(d2, mode, small, map[string]any{"original": clip(src, 1000), "original_failure": d})
				return
			}
		}
		w.violate(d, mode, src, nil)
	}
	// alien judges one text whose token with mark 1 is foreign.
	alien := func(w *Worker, l *Layout, mode string, lexical bool) {
		w.eval()
		j := placed(l, 1)
		e := w.rejected(l.Src, mode)
		if e == nil {
			w.count("accepted", 1)
			return
		}
		if !lexical {
			more := []string{" "}
			if j > 0 && l.Toks[j].Kind == tkWord && (l.Toks[j-1].Text == "{" || l.Toks[j-1].Text == ",") {
				// A reserved word can be the name of a property, of a method or
				// of something to import.
				more = []string{" :", " (", " as as"}
			}
			if l.Toks[j].Text == ")" {
				more = []string{" ", " =>"} // the end of empty parameters
			}
			for _, m := range more {
				a := w.acorn.parse(l.Src[:l.Toks[j].End]+m, mode)
				if a.OK || a.Internal || a.Pos != u16len(l.Src[:l.Toks[j].Start]) || a.early() || strings.HasPrefix(a.Err, "Assigning to rvalue") {
					w.count("not_at_fault", 1)
					return
				}
			}
		}
		if j > 0 {
			// The text up to there must be fine, which it is not if its layout
			// relied on what follows.
			pre := l.Src[:l.Toks[j-1].End]
			b := w.acorn.parse(pre+" ", mode)
			if b.Internal || !b.OK && b.Pos < u16len(pre) {
				w.count("not_at_fault", 1)
				return
			}
		}
		w.note(mode + l.Src)
		kind := "judged_tokens"
		if lexical {
			kind = "judged_characters"
		}
		w.count(kind, 1)
		if named(e.msg) != nil {
			w.count("named", 1)
		}
		if d := e.atFault(l, j, lexical); d != "" {
			w.violate(d, mode, l.Src, map[string]any{"token": l.Toks[j].Text, "number": j})
		}
	}
	// cut judges a text that stops short.
	cut := func(w *Worker, l *Layout, mode string) {
		w.eval()
		if len(l.Toks) == 0 {
			return
		}
		e := w.rejected(l.Src, mode)
		if e == nil {
			w.count("accepted", 1)
			return
		}
		last := l.Toks[len(l.Toks)-1].End
		a := w.acorn.parse(l.Src, mode)
		if a.OK || a.Internal || a.Pos < u16len(l.Src[:last]) || a.early() {
			w.count("not_at_fault", 1)
			return
		}
		w.note(mode + l.Src)
		w.count("judged_ends", 1)
		d := ""
		lo, hi := runes(l.Src[:last]), len(e.rs)
		if hi > 1 && e.rs[hi-2] == '\r' && e.rs[hi-1] == '\n' {
			hi-- // the row ends once, at the first of the two
		}
		if e.off != hi && e.off != lo {
			d = fmt.Sprintf("the program ends too early, but the error is at offset %d, not at the end (%d or %d): %v", e.off, lo, hi, e.err)
		} else {
			d, _, _ = e.misnamed()
		}
		if d != "" {
			w.violate(d, mode, l.Src, nil)
		}
	}
	// any judges any text; the error can not be before offset lo, in runes.
	any := func(w *Worker, src, mode string, lo int) {
		w.eval()
		e := w.rejected(src, mode)
		if e == nil {
			return
		}
		w.count("messages", 1)
		d, _, ok := e.misnamed()
		if ok {
			w.count("named", 1)
			w.note(mode + src)
		}
		if d != "" {
			report(w, d, mode, src, func(s string) string {
				if e := w.rejected(s, mode); e != nil {
					d, _, _ := e.misnamed()
					return d
				}
				return ""
			})
		}
		if e.off < lo {
			w.violate(fmt.Sprintf("the error is at offset %d, in front of intact text up to %d: %v", e.off, lo, e.err), mode, src, nil)
		}
	}

	type seed struct {
		mode string
		toks []Tok
	}
	var seeds []seed
	for _, s := range scriptSeeds {
		seeds = append(seeds, seed{"script", toksOf(tokenize(s))})
	}
	for _, s := range moduleSeeds {
		seeds = append(seeds, seed{"module", toksOf(tokenize(s))})
	}
	for _, s := range exprSeeds {
		seeds = append(seeds, seed{"expression", toksOf(tokenize(s))})
	}
	// insert puts a marked token in front of token j.
	insert := func(toks []Tok, j int, text string, replace bool) []Tok {
		t := tokOf(text)
		t.Mark = 1
		m := append(append([]Tok{}, toks[:j]...), t)
		if replace && j < len(toks) {
			j++
		}
		return append(m, toks[j:]...)
	}
	// exempt tells of tokens that may be fine where acorn says they are not.
	exempt := func(toks []Tok, j int, text string) bool {
		// On another line, let can be a name.
		if j > 0 && toks[j-1].Text == "let" && tokOf(text).Kind == tkWord {
			return true
		}
		// A constant without a value is reported after the list.
		if text == "," || text == ";" {
			for i := j - 1; i >= 0; i-- {
				if toks[i].Text == "const" {
					return true
				}
			}
		}
		return inHead(toks, j)
	}
	c.run("seeds", len(seeds), func(w *Worker, i int, r *Rng) {
		s := seeds[i]
		for j := 0; j <= len(s.toks); j++ {
			for _, t := range aliens {
				if exempt(s.toks, j, t) {
					w.count("exempt", 1)
					continue
				}
				alien(w, layout(insert(s.toks, j, t, false), Style{Canonical: true}, r), s.mode, false)
				alien(w, layout(insert(s.toks, j, t, true), Style{Minimal: true, NoASI: r.Chance(0.5)}, r), s.mode, false)
			}
			for _, t := range badTokens {
				alien(w, layout(insert(s.toks, j, t, r.Chance(0.5)), Style{Minimal: true}, r), s.mode, true)
			}
			cut(w, layout(s.toks[:j], Style{Canonical: true}, r), s.mode)
			cut(w, layout(s.toks[:j], Style{Minimal: true}, r), s.mode)
			lo := 0
			if j > 0 {
				lo = runes(layout(s.toks[:j-1], Style{Canonical: true}, r).Src)
			}
			for _, v := range vocabulary {
				any(w, layout(insert(s.toks, j, v, r.Chance(0.5)), Style{Canonical: true}, r).Src, s.mode, lo)
			}
		}
	})
	c.run("programs", c.n(25000), func(w *Worker, i int, r *Rng) {
		p := defaultProfile(5 + r.Intn(40))
		p.Stmt = r.Float()
		p.Module = r.Chance(0.3)
		tree := genProgram(r, p, 1+r.Intn(4))
		mode := modeOf(tree)
		toks, _, err := printTree(tree, r, r.Float()*0.1)
		if err != nil || len(toks) == 0 {
			return
		}
		if i%5000 == 0 {
			w.sample(clip(layout(toks, Style{Canonical: true}, r).Src, 300))
		}
		for k := 0; k < 6; k++ {
			j := r.Intn(len(toks) + 1)
			if t := pick(r, aliens); !exempt(toks, j, t) {
				m := insert(toks, j, t, r.Chance(0.4))
				if r.Chance(0.2) {
					// What follows does not matter.
					o := pick(r, seeds).toks
					m = append(m[:j+1:j+1], o[r.Intn(len(o)):]...)
				}
				alien(w, layout(m, randomStyle(r), r), mode, false)
			} else {
				w.count("exempt", 1)
			}
		}
		j := r.Intn(len(toks) + 1)
		alien(w, layout(insert(toks, j, pick(r, badTokens), r.Chance(0.4)), randomStyle(r), r), mode, true)
		for k := 0; k < 2; k++ {
			cut(w, layout(toks[:r.Intn(len(toks)+1)], randomStyle(r), r), mode)
		}
		for k := 0; k < 6; k++ {
			m := append([]Tok{}, toks...)
			lo := len(m)
			for n := 1 + r.Intn(2); n > 0 && len(m) > 0; n-- {
				j := r.Intn(len(m))
				if j < lo {
					lo = j
				}
				switch r.Intn(4) {
				case 0:
					m = append(m[:j:j], m[j+1:]...)
				case 1:
					m[j] = tokOf(pick(r, vocabulary))
				case 2:
					m = append(m[:j:j], append([]Tok{tokOf(pick(r, vocabulary))}, m[j:]...)...)
				case 3:
					h := r.Intn(len(m))
					m[j], m[h] = m[h], m[j]
					if h < lo {
						lo = h
					}
				}
			}
			// The last intact token may be read together with what follows.
			pre := 0
			if lo > 0 {
				pre = runes(layout(toks[:lo-1], Style{Canonical: true}, r).Src)
			}
			any(w, layout(m, Style{Canonical: true}, r).Src, mode, pre)
			any(w, layout(m, randomStyle(r), r).Src, mode, 0)
		}
	})
	shapes := wideShapes("all")
	c.run("wide and deep", c.n(1000), func(w *Worker, i int, r *Rng) {
		tree := randomWide(r, shapes, 1000)
		mode := modeOf(tree)
		toks, _, err := printTree(tree, r, 0)
		if err != nil || len(toks) == 0 {
			return
		}
		for k := 0; k < 3; k++ {
			j := r.Intn(len(toks) + 1)
			if r.Chance(0.3) {
				j = len(toks) - r.Intn(min(len(toks), 4))
			}
			if t := pick(r, aliens); !exempt(toks, j, t) {
				alien(w, layout(insert(toks, j, t, r.Chance(0.4)), randomStyle(r), r), mode, false)
				w.count("wide_checked", 1)
			}
		}
		cut(w, layout(toks[:r.Intn(len(toks)+1)], randomStyle(r), r), mode)
	})
	c.require("judged_tokens", 50000, "judged_characters", 5000, "judged_ends", 5000, "messages", 50000, "named", 30000)
}
