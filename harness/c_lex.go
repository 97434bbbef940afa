package main

import (
	"errors"
	"fmt"
	"net/url"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"unicode/utf16"

	"github.com/jchv/cleansheets/ecmascript/ast"
	"github.com/jchv/cleansheets/ecmascript/errs"
	"github.com/jchv/cleansheets/ecmascript/lexer"
)

func init() {
	checks["C04"] = c04
	checks["C05"] = c05
	checks["C17"] = c17
}

// lexCase is one text and a way to decide where regular expressions start.
type lexCase struct {
	src   string
	regex func(k int, prev MTok) bool
}

func never(int, MTok) bool  { return false }
func always(int, MTok) bool { return true }

// heuristic is where real programs have regular expressions, mostly.
func heuristic(_ int, prev MTok) bool {
	switch prev.Class {
	case lcNumber, lcString, lcRegexp, lcName, lcPrivate:
		return false
	case lcKeyword:
		switch prev.Text {
		case "this", "null", "true", "false", "super":
			return false
		}
		return reservedAlways[prev.Text]
	case lcPunct:
		return prev.Text != ")" && prev.Text != "]" && prev.Text != "}"
	}
	return true
}

func (r *Rng) policy() func(int, MTok) bool {
	switch r.Intn(4) {
	case 0:
		return never
	case 1:
		return always
	case 2:
		return heuristic
	}
	bits := r.U64()
	return func(k int, _ MTok) bool { return bits>>(uint(k)%64)&1 == 1 }
}

// strings over an alphabet, by index.
func wordOf(alphabet []string, n, i int) string {
	var b strings.Builder
	for ; n > 0; n-- {
		b.WriteString(alphabet[i%len(alphabet)])
		i /= len(alphabet)
	}
	return b.String()
}

func power(b, e int) int {
	p := 1
	for ; e > 0; e-- {
		p *= b
	}
	return p
}

// one sample of every kind of token.
func sampleTokens(r *Rng) []string {
	var l []string
	l = append(l, punctuators...)
	for k := range keywordTypes {
		l = append(l, k)
	}
	sort.Strings(l[len(punctuators):])
	l = append(l, plainNames...)
	l = append(l, "#a", "#in", "#constructor", "#é", "#$", "a1", "ina", "asinc", "let1", "$let", "_if", "If", "IN", "\u2118", "\U0002F800x")
	l = append(l, "0", "1", "12", "1.5", ".5", "5.", "1e3", "1E-3", "1.e+3", ".5e1", "1_000", "0x1F", "0Xff", "0b11", "0B1", "0o17", "0O7", "017", "089", "08.5", "0.0", "1_0.0_1e1_0")
	l = append(l, "'a'", "\"a\"", "''", "\"\"", "'\\''", "\"\\\"\"", "'\\\\'", "'\\\n'", "'\\\r\n'", "'\u2028'", "'//'", "\"/*\"", "'é𝒳'", "'\\n'")
	l = append(l, "/a/", "/a/g", "/[/]/", "/\\//", "/[\\]/]/", "/=/", "/=a/", "/(/", "/'/", "/\"/", "/[[]/", "/ /", "/*/"[:1]+"a*/", "/é/u", "/a/gimsuy")
	return l
}

var triviaBits = []string{"", " ", "\n", "\r", "\r\n", "\u2028", "\u2029", "\t", "\u00a0", "\ufeff", "/**/", "/* a */", "/*\n*/", "/*\u2028*/", "/*\r\n*/", "//\n", "//a\r", "// /* \n", "/***/", "/*\n**/", "/**\n*/", "/*a*/ /*b*/", "/*//*/", " \n ", "\n\n", "/*'*/", "//'\n", "/*/*/", "/*\r*/", "//\u2029", "/*x*\n*/", "/*\n*x*/"}

// lexSources runs f over all sources shared by the lexical checks.
func lexSources(c *Check, f func(w *Worker, cs lexCase)) {
	both := func(w *Worker, src string, r *Rng) {
		f(w, lexCase{src, never})
		if strings.Contains(src, "/") {
			f(w, lexCase{src, always})
			f(w, lexCase{src, heuristic})
			f(w, lexCase{src, r.policy()})
		}
	}
	// All short strings of punctuation.
	alpha := []string{".", "<", ">", "=", "!", "+", "-", "*", "/", "&", "|", "^", "?", "%", "a", "1", "0", "'", " ", "\n"}
	n := 4
	if c.Thorough {
		n = 5
	}
	for k := 0; k <= n; k++ {
		k := k
		chunk := len(alpha) * len(alpha)
		total := power(len(alpha), k)
		c.run(fmt.Sprintf("strings of %d symbols", k), (total+chunk-1)/chunk, func(w *Worker, i int, r *Rng) {
			for j := i * chunk; j < total && j < (i+1)*chunk; j++ {
				both(w, wordOf(alpha, k, j), r)
			}
		})
	}
	// All short strings of trivia, between two tokens.
	tri := []string{"\n", "\r", "\u2028", " ", "/*", "*/", "//", "*", "/", "x"}
	n = 5
	if c.Thorough {
		n = 6
	}
	for k := 1; k <= n; k++ {
		k := k
		total := power(len(tri), k)
		c.run(fmt.Sprintf("trivia of %d symbols", k), (total+99)/100, func(w *Worker, i int, r *Rng) {
			for j := i * 100; j < total && j < (i+1)*100; j++ {
				f(w, lexCase{wordOf(tri, k, j) + "z", never})
				f(w, lexCase{"y" + wordOf(tri, k, j) + "z", never})
			}
		})
	}
	// All pairs of tokens with all separators.
	toks := sampleTokens(nil)
	c.run("pairs", len(toks), func(w *Worker, i int, r *Rng) {
		for _, b := range toks {
			for _, s := range triviaBits {
				both(w, toks[i]+s+b, r)
			}
		}
	})
	// Long random texts.
	c.run("token soup", c.n(2500), func(w *Worker, i int, r *Rng) {
		var b strings.Builder
		for k := r.Intn(200); k > 0; k-- {
			switch r.Intn(12) {
			case 0:
				b.WriteString(genNumber(r, true))
			case 1:
				b.WriteString(genString(r, true))
			case 2:
				p, fl := genRegex(r)
				b.WriteString("/" + p + "/" + fl)
			default:
				b.WriteString(pick(r, toks))
			}
			for r.Chance(0.8) {
				b.WriteString(pick(r, triviaBits))
				if r.Chance(0.7) {
					break
				}
			}
		}
		both(w, b.String(), r)
	})
	// Random characters.
	chars := []rune("(){}[];,.:?=+-*/<>!&|^~%'\"`\\@#$_aefinorst0189 xXbBoO\n\r\t\v\f\u00a0\u00b7\u0301\u2028\u2029\u200c\u200d\ufeff\u3000\u1680\u180e\u0085\u0000é变𝒳𠮷\u2118\u309b\U0010ffff\ufffd")
	c.run("characters", c.n(30000), func(w *Worker, i int, r *Rng) {
		rs := make([]rune, r.Intn(30))
		for k := range rs {
			rs[k] = pick(r, chars)
		}
		both(w, string(rs), r)
	})
	// Tokens around the places where a reader's buffer may end, and long ones.
	c.run("boundaries", c.n(1500), func(w *Worker, i int, r *Rng) {
		var b strings.Builder
		for k := 1 + r.Intn(3); k > 0; k-- {
			end := (1 + r.Intn(4)) * pick(r, []int{256, 512, 1024, 4096, 4096, 4096})
			piece := pick(r, []string{" ", "x ", "\n", "/**/", "a,", "é ", "𝒳;", "'s' ", "\r\n", "1 "})
			for b.Len() < end-r.Intn(12) {
				b.WriteString(piece)
			}
			for j := 0; j < 6; j++ {
				b.WriteString(pick(r, toks))
				b.WriteString(pick(r, triviaBits))
			}
		}
		both(w, b.String(), r)
	})
	c.run("long tokens", c.n(400), func(w *Worker, i int, r *Rng) {
		n := wideSize(r, 70000)
		if r.Chance(0.3) {
			n = 1<<(8+r.Intn(9)) + r.Intn(3) - 1
		}
		unit := pick(r, []string{"a", "é", "𝒳", "x1"})
		rep := func(s string) string { return strings.Repeat(s, n/len(s)+1) }
		long := pick(r, []string{rep(unit), "'" + rep(unit) + "'", "\"" + rep("\\u0061") + "\"", "'" + rep("\\\n") + "'", "/" + rep(unit) + "/gi", "/[" + rep("/") + "]/", "1" + rep("0"), "0x" + rep("f"), "0b" + rep("10"), "0." + rep("7"), "1" + rep("_1"), "/*" + rep("*") + "/", "//" + rep(unit) + "\n", "#" + rep(unit), rep("\\u0061"), rep("("), rep("..."), rep(">>>="), rep(" "), rep("\n"), rep("\r\n"), rep("a\n"), rep("'s',")})
		both(w, pick(r, toks)+" "+long+pick(r, triviaBits)+pick(r, toks)+pick(r, triviaBits)+pick(r, toks), r)
	})
	shapes := wideShapes("all")
	c.run("wide and deep", c.n(150), func(w *Worker, i int, r *Rng) {
		tk, _, err := printTree(randomWide(r, shapes, 1500), r, 0)
		if err != nil {
			return
		}
		both(w, layout(tk, randomStyle(r), r).Src, r)
	})
	// Generated programs with everything laid out.
	c.run("programs", c.n(1500), func(w *Worker, i int, r *Rng) {
		p := defaultProfile(10 + r.Intn(150))
		p.Stmt = r.Float()
		t := genProgram(r, p, 1+r.Intn(6))
		tk, _, err := printTree(t, r, 0)
		if err != nil {
			return
		}
		both(w, layout(tk, randomStyle(r), r).Src, r)
	})
}

func (w *Worker) lexCompare(cs lexCase, what lexWhat, st *LexStats) bool {
	w.eval()
	w.begin("lex", cs.src)
	d := compareLex(cs.src, strings.NewReader(cs.src), cs.regex, what, st)
	w.end()
	if d == "" {
		return true
	}
	src := cs.src
	// Shorten by dropping lines or halves while it still fails with a fixed
	// policy.
	for _, pol := range []func(int, MTok) bool{never, always, heuristic} {
		bad := func(s string) string { return compareLex(s, strings.NewReader(s), pol, what, &LexStats{}) }
		if bad(src) == "" {
			continue
		}
		src = shrinkText(src, func(s string) bool { return bad(s) != "" })
		d = bad(src)
		break
	}
	w.violate(d, "lex", src, nil)
	return false
}

// shrinkText removes pieces of a failing text.
func shrinkText(src string, bad func(string) bool) string {
	rs := []rune(src)
	budget := 4000
	for n := len(rs) / 2; n > 0; n /= 2 {
		for i := 0; i+n <= len(rs) && budget > 0; {
			budget--
			t := append(append([]rune{}, rs[:i]...), rs[i+n:]...)
			if bad(string(t)) {
				rs = t
			} else {
				i += n
			}
		}
	}
	return string(rs)
}

var lexNames = strings.Fields("tokens_eof tokens_names tokens_keywords tokens_private_names tokens_punctuators tokens_numbers tokens_strings tokens_regexps tokens_malformed tokens_undecided")

func (w *Worker) addLex(st *LexStats) {
	for i, n := range st.classes {
		if n > 0 {
			w.count(lexNames[i], n)
		}
	}
	w.count("tokens_compared", st.tokens)
	w.count("tokens_after_newline", st.nls)
	w.count("malformed_texts_rejected", st.errs)
	w.count("locations_compared", st.locs)
	w.count("tokens_printed", st.printed)
}

// corpus returns real programs: the libraries in the repository's test data
// and, if they are there, JavaScript files of the installed tools.
func corpus(max int, limit int64) []string {
	var l []string
	m, _ := filepath.Glob("/repo/ecmascript/parser/testdata/*.js")
	l = append(l, m...)
	var more []string
	root := "/opt/veriftools/node/node_modules"
	filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !fi.Mode().IsRegular() {
			return nil
		}
		switch filepath.Ext(p) {
		case ".js", ".cjs", ".mjs":
			if fi.Size() > 0 && fi.Size() <= limit {
				more = append(more, p)
			}
		}
		return nil
	})
	sort.Strings(more)
	if len(more) > max {
		// An even selection.
		sel := make([]string, 0, max)
		for i := 0; i < max; i++ {
			sel = append(sel, more[i*len(more)/max])
		}
		more = sel
	}
	return append(l, more...)
}

// C04: tokens.
func c04(c *Check) {
	c.rule = "the lexer runs next to an independent model of the lexical grammar on all short strings over punctuation and trivia alphabets, all pairs of sample tokens with all kinds of separators, token and character soups and printed programs, with several policies for re-lexing slashes; kinds, literals and newline flags of all tokens are compared, and malformed text must be rejected. Every code point is tried as identifier start and part against the JavaScript engine's tables. On real programs the model itself is compared with acorn's tokenizer. Non-trivial: at least two tokens; distinct: by text and policy run."
	c.assume = append(c.assume, "the harness's lexical model and, on real programs, acorn's tokenizer are the oracle; ?. and two adjacent dots are recorded findings and end a comparison")
	lexSources(c, func(w *Worker, cs lexCase) {
		st := &LexStats{}
		w.lexCompare(cs, lexWhat{kinds: true, nl: true, print: true}, st)
		w.addLex(st)
		if st.tokens > 2 {
			w.note(cs.src)
		}
	})
	// The kinds print as their names, those that no text has included.
	c.run("names of kinds", 1, func(w *Worker, _ int, r *Rng) {
		for k, name := range kindNames {
			w.eval()
			w.count("kinds_named", 1)
			if g := k.String(); g != name {
				w.violate(fmt.Sprintf("the kind %s prints as %s", name, g), "lex", "", nil)
			}
			tok := lexer.Token{Type: k}
			if g := tok.String(); g != "{ Type: "+name+" }" {
				w.violate(fmt.Sprintf("a token of kind %s prints as %s", name, g), "lex", "", nil)
			}
		}
	})
	// Identifier characters.
	tab := c.worker(0).acorn.do(AcornReq{IDTable: true}).Err
	if len(tab) != 0x110000 {
		fatalf("identifier table of %d entries", len(tab))
	}
	c.run("code points", 0x110, func(w *Worker, i int, r *Rng) {
		for cp := rune(i * 0x1000); cp < rune((i+1)*0x1000); cp++ {
			if cp >= 0xd800 && cp < 0xe000 {
				continue
			}
			w.eval()
			start, part := tab[cp]&1 != 0, tab[cp]&2 != 0
			if start != isIDStart(cp) || part != isIDPart(cp) {
				// The Unicode versions differ.
				w.count("code_points_not_judged", 1)
				continue
			}
			st := &LexStats{}
			for _, src := range []string{string(cp), "a" + string(cp), "a" + string(cp) + "b", "#" + string(cp), "#a" + string(cp), "1" + string(cp), "/a/" + string(cp), "x" + string(cp) + "\ny", "/a" + string(cp) + "b/", "'" + string(cp) + "'", "//" + string(cp) + "\nz", "/*" + string(cp) + "*/z", "." + string(cp)} {
				w.lexCompare(lexCase{src, always}, lexAll, st)
			}
			w.count("code_points_judged", 1)
			if start {
				w.count("identifier_starts", 1)
			}
			if part {
				w.count("identifier_parts", 1)
			}
		}
	})
	// Real programs, with acorn's tokens.
	files := corpus(c.n(150), 200000)
	c.run("real programs", len(files), func(w *Worker, i int, r *Rng) {
		b, err := os.ReadFile(files[i])
		if err != nil {
			return
		}
		w.compareAcornTokens(string(b))
	})
	c.run("real program pieces", c.n(400), func(w *Worker, i int, r *Rng) {
		p := defaultProfile(10 + r.Intn(150))
		t := genProgram(r, p, 1+r.Intn(6))
		tk, _, err := printTree(t, r, 0)
		if err != nil {
			return
		}
		w.compareAcornTokens(layout(tk, randomStyle(r), r).Src)
	})
	c.probeKnownLex()
	c.require("tokens_compared", 500000, "malformed_texts_rejected", 10000, "code_points_judged", 1000000, "acorn_tokens_compared", 50000, "tokens_printed", 500000)
}

// compareAcornTokens lexes a program with regular expressions where acorn
// finds them, and compares token boundaries with acorn's.
func (w *Worker) compareAcornTokens(src string) {
	if strings.HasPrefix(src, "#!") || strings.ContainsRune(src, 0xfffd) {
		w.count("programs_not_compared", 1)
		return
	}
	a := w.acorn.do(AcornReq{Src: src, Mode: "script", NoAST: true, Tokens: true, AllowReturn: true})
	if !a.OK {
		a = w.acorn.do(AcornReq{Src: src, Mode: "module", NoAST: true, Tokens: true})
	}
	if !a.OK {
		if os.Getenv("VERIF_VERBOSE") == "2" {
			fmt.Fprintln(os.Stderr, "NOTCOMPARED", a.Err, clip(src, 200))
		}
		w.count("programs_not_compared", 1)
		return
	}
	w.eval()
	// UTF-16 offsets to rune offsets.
	rs := []rune(src)
	off := map[int]int{}
	u := 0
	for i, r := range rs {
		off[u] = i
		u += len(utf16.Encode([]rune{r}))
	}
	off[u] = len(rs)
	re := map[int]bool{}
	for _, t := range a.Tokens {
		if t[2].(string) == "regexp" {
			re[off[int(t[0].(float64))]] = true
		}
	}
	st := &LexStats{}
	m := &Model{rs: rs}
	k := 0
	pol := func(_ int, _ MTok) bool {
		e, _, _ := m.trivia(m.pos)
		return re[e]
	}
	// The model and acorn must agree first.
	for ; k < len(a.Tokens); k++ {
		t := m.next(pol(0, MTok{}))
		s, e := off[int(a.Tokens[k][0].(float64))], off[int(a.Tokens[k][1].(float64))]
		if t.Class == lcEOF && s == e {
			break
		}
		if t.Start != s || t.End != e {
			// A template or another construct that is not tokens to the lexer:
			// only what comes before is compared.
			w.count("programs_cut_where_model_and_acorn_disagree", 1)
			if k == 0 {
				return
			}
			st.limit = k
			break
		}
	}
	m2 := &Model{rs: rs}
	pol2 := func(_ int, prev MTok) bool {
		m2.pos = prev.End
		e, _, _ := m2.trivia(m2.pos)
		return re[e]
	}
	if w.lexCompare(lexCase{src, pol2}, lexAll, st) {
		w.count("acorn_tokens_compared", st.tokens)
		w.count("acorn_programs", 1)
		w.note(src)
	}
	w.addLex(st)
}

// probeKnownLex runs the recorded findings on token level.
func (c *Check) probeKnownLex() {
	w := c.worker(0)
	for _, k := range c.known {
		if k.Mode != "lex" {
			continue
		}
		// Lexed as the specification says, tokens in a row.
		c.eval()
		m := &Model{rs: []rune(k.Src)}
		s := newSutLexer(strings.NewReader(k.Src))
		same := true
		for {
			t := m.next(false)
			g := s.next(false)
			if g.Err != nil || g.Panic != nil || g.Tok.Source() != t.Text && t.Class != lcEOF {
				same = false
				break
			}
			if t.Class == lcEOF || t.Class == lcError {
				break
			}
		}
		if same {
			w.count("known_findings_that_no_longer_fail", 1)
			continue
		}
		c.mu.Lock()
		c.knownHits[k.line()] = k.line()
		c.mu.Unlock()
	}
}

// C05: tiling.
func c05(c *Check) {
	c.rule = "the lexer's tokens are laid against the text they came from: after skipping white space and comments the text must continue with the token's source text, and nothing may remain at the end; on the same texts as C04, plus texts with invalid bytes, with the reader's rune sequence as reference. Non-trivial: at least three tokens; distinct: by text."
	c.assume = append(c.assume, "the reference is the input itself; only the recognition of white space and comments is modelled")
	lexSources(c, func(w *Worker, cs lexCase) { w.tile(cs) })
	c.run("invalid bytes", c.n(20000), func(w *Worker, i int, r *Rng) {
		b := make([]byte, 0, 60)
		for k := r.Intn(12); k > 0; k-- {
			switch r.Intn(5) {
			case 0:
				b = append(b, byte(128+r.Intn(128)))
			case 1:
				b = append(b, pick(r, triviaBits)...)
			case 2:
				b = append(b, "'"+string([]byte{byte(128 + r.Intn(128))})+"'"...)
			default:
				b = append(b, pick(r, sampleToks)...)
			}
		}
		w.tile(lexCase{string(b), r.policy()})
	})
	files := corpus(c.n(150), 200000)
	c.run("real programs", len(files), func(w *Worker, i int, r *Rng) {
		b, err := os.ReadFile(files[i])
		if err == nil {
			w.tile(lexCase{string(b), heuristic})
		}
	})
	c.require("tokens_tiled", 500000, "texts_tiled_to_the_end", 100000, "distinct", 50000)
}

var sampleToks = sampleTokens(nil)

// tile lays the tokens against the text.
func (w *Worker) tile(cs lexCase) {
	w.eval()
	rs := []rune(cs.src)
	m := &Model{rs: rs}
	s := newSutLexer(strings.NewReader(cs.src))
	pos := 0
	var prev MTok
	n := 0
	fail := func(d string) {
		src := cs.src
		w.violate(fmt.Sprintf("token %d: %s", n, d), "lex", src, nil)
	}
	w.begin("lex", cs.src)
	defer w.end()
	// The policy sees the kind of the previous token through the model.
	for ; ; n++ {
		st := s.next(cs.regex(n, prev))
		if st.Panic != nil {
			fail(st.String())
			return
		}
		if st.Err != nil {
			w.count("texts_that_end_in_an_error", 1)
			break
		}
		i, _, ok := m.trivia(pos)
		if !ok {
			fail(fmt.Sprintf("%s after a comment that does not end", st))
			return
		}
		if st.Tok.Type == lexer.TokenNone {
			if i != len(rs) {
				fail(fmt.Sprintf("end of input reported with %q left", clip(string(rs[i:]), 60)))
				return
			}
			w.count("texts_tiled_to_the_end", 1)
			break
		}
		src := []rune(st.Tok.Source())
		if len(src) == 0 || i+len(src) > len(rs) || string(rs[i:i+len(src)]) != string(src) {
			fail(fmt.Sprintf("source text %q, but the input continues with %q", clip(string(src), 100), clip(string(rs[i:min(len(rs), i+60)]), 100)))
			return
		}
		// A name or keyword is not cut short or continued.
		if e := i + len(src); isIDPart(src[len(src)-1]) && isIDStart(src[0]) && e < len(rs) && isIDPart(rs[e]) {
			fail(fmt.Sprintf("source text %q, but the word goes on in the input: %q", string(src), clip(string(rs[i:min(len(rs), i+60)]), 100)))
			return
		}
		pos = i + len(src)
		mm := &Model{rs: src}
		prev = mm.next(st.Re != nil)
		w.count("tokens_tiled", 1)
	}
	if n > 2 {
		w.note(cs.src)
		if n == 17 {
			w.sample(clip(cs.src, 200))
		}
	}
}

// posOf maps rows and columns to the lowest offset there.
type posMap struct {
	off map[[2]int]int
}

func positions(rs []rune) posMap {
	p := posMap{map[[2]int]int{}}
	l := newLocator(rs)
	for i := 0; i <= len(rs); i++ {
		r, c := l.at(i)
		if _, ok := p.off[[2]int{r, c}]; !ok {
			p.off[[2]int{r, c}] = i
		}
	}
	return p
}

// errorLocation returns the location that an error carries.
func errorLocation(err error) (ast.Location, bool) {
	var s *errs.SyntaxError
	var e *errs.EncodingError
	var p *errs.ParserError
	switch {
	case errors.As(err, &s):
		return s.Location, true
	case errors.As(err, &e):
		return e.Location, true
	case errors.As(err, &p):
		return p.Location, true
	}
	return ast.Location{}, false
}

// checkErrorLocation checks an error against the input and how much of it was
// read.
func checkErrorLocation(err error, uri *url.URL, rs []rune, read int) string {
	loc, ok := errorLocation(err)
	if !ok {
		return fmt.Sprintf("error of type %T carries no location", err)
	}
	off, ok := positions(rs).off[[2]int{loc.Row, loc.Column}]
	if !ok {
		return fmt.Sprintf("error location %d:%d is not in the input: %v", loc.Row, loc.Column, err)
	}
	if off > read {
		return fmt.Sprintf("error location %d:%d is past the text read (offset %d of %d): %v", loc.Row, loc.Column, off, read, err)
	}
	if loc.URI != uri {
		return fmt.Sprintf("error location carries the URI %v, not %v: %v", loc.URI, uri, err)
	}
	// What it says: where, which kind of error, and the cause.
	kind := "parser"
	switch err.(type) {
	case *errs.SyntaxError:
		kind = "syntax"
	case *errs.EncodingError:
		kind = "encoding"
	}
	cause := errors.Unwrap(err)
	if cause == nil || cause.Error() == "" {
		return fmt.Sprintf("the error %q does not wrap a cause", err.Error())
	}
	at := "<nil>"
	if uri != nil {
		at = uri.String()
	}
	if want := at + ":" + strconv.Itoa(loc.Row) + ":" + strconv.Itoa(loc.Column) + ": " + kind + " error: " + cause.Error(); err.Error() != want {
		return fmt.Sprintf("the error message is %q, not %q", err.Error(), want)
	}
	return ""
}

// manyURIs are what a caller may name its text. Some are made of what a format
// or a pattern would take for a directive.
var manyURIs = func() (l []*url.URL) {
	for _, s := range []string{"file:///input.js", "https://user@example.org:8080/a/b.js?x=%25s&y=1:2#L3", "a%20b.js", "%25d%25s%25!.js", "//host/p", "", ".", "?q", "#f", "file:a:1:2", "urn:isbn:0", "http://[::1]:80/%E2%80%A8.js", "/" + strings.Repeat("long/", 300)} {
		u, err := url.Parse(s)
		if err != nil {
			fatalf("%v", err)
		}
		l = append(l, u)
	}
	return append(l, nil, testURL)
}()

// rendering compares how locations and spans present themselves with what they
// hold.
func (w *Worker) rendering(r *Rng) {
	num := func() int {
		if r.Chance(0.2) {
			return pick(r, []int{0, 1, 9, 10, 99, 1 << 31, 1<<62 + 3})
		}
		return 1 + r.Intn(1+r.Intn(100000))
	}
	at := func(u *url.URL) ast.Location { return ast.Location{URI: u, Row: num(), Column: num()} }
	name := func(u *url.URL) string {
		if u == nil {
			return "<nil>"
		}
		return u.String()
	}
	u := pick(r, manyURIs)
	a, b := at(u), at(u)
	switch r.Intn(5) {
	case 0:
		b = a
	case 1:
		b.Row = a.Row
	case 2:
		b.Column = a.Column
	case 3:
		b.URI = pick(r, manyURIs)
	}
	w.eval()
	w.count("rendered", 1)
	bad := func(what, got, want string) {
		w.violate(fmt.Sprintf("%s is rendered as %q, not %q", what, got, want), "location", fmt.Sprintf("%v %d:%d, %v %d:%d", a.URI, a.Row, a.Column, b.URI, b.Row, b.Column), nil)
	}
	where := func(l ast.Location) string {
		return name(l.URI) + ":" + strconv.Itoa(l.Row) + ":" + strconv.Itoa(l.Column)
	}
	if g, want := a.String(), where(a); g != want {
		bad("a location", g, want)
	}
	if s := a.Span(); s.Start != a || s.End != a {
		bad("the span of a location", s.String(), where(a))
	}
	s := ast.Span{Start: a, End: b}
	want := where(a)
	switch {
	case a.URI != b.URI:
		want += "-" + name(b.URI) + "-" + strconv.Itoa(b.Row) + "-" + strconv.Itoa(b.Column)
	case a.Row != b.Row:
		want += "-" + strconv.Itoa(b.Row) + "-" + strconv.Itoa(b.Column)
	case a.Column != b.Column:
		want += "-" + strconv.Itoa(b.Column)
	}
	if g := s.String(); g != want {
		bad("a span", g, want)
	}
	if s.Start != a || s.End != b {
		bad("a span", "another span", "itself")
	}
	cause := errors.New(pick(r, []string{"fault", "%d %s", "", "a: b", "\n"}))
	for kind, err := range map[string]error{"syntax": &errs.SyntaxError{Location: a, Err: cause}, "encoding": &errs.EncodingError{Location: a, Err: cause}, "parser": &errs.ParserError{Location: a, Err: cause}} {
		if g, want := err.Error(), where(a)+": "+kind+" error: "+cause.Error(); g != want {
			bad("an error", g, want)
		}
		if errors.Unwrap(err) != cause {
			bad("an error", "not wrapping its cause", "wrapping it")
		}
	}
	w.note(where(a) + where(b))
}

// C17: locations.
func c17(c *Check) {
	c.rule = "after every token the lexer's location is compared with row and column counted independently in the text, on the same texts as C04; at every read offset of texts of mixed line terminators; and the location of every error from corrupted programs in all modes must exist in the input, not lie past what the reader handed out, carry the URI and start the message. Non-trivial: texts with at least two rows, and errors; distinct: by text."
	c.assume = append(c.assume, "positions are counted by the harness: rows end at LF, CR, CRLF, LS and PS, columns are code points from 1")
	lexSources(c, func(w *Worker, cs lexCase) {
		st := &LexStats{}
		w.lexCompare(cs, lexWhat{loc: true}, st)
		w.addLex(st)
		if st.nls > 0 {
			w.note(cs.src)
		}
		w.lexErrorLocation(cs)
	})
	// The scanner itself: every mix of line terminators, every pushback.
	alpha := []string{"\n", "\r", "\u2028", "\u2029", "a", "𝒳", "\t"}
	n := 6
	if c.Thorough {
		n = 8
	}
	for k := 0; k <= n; k++ {
		k := k
		total := power(len(alpha), k)
		c.run(fmt.Sprintf("scanner, %d symbols", k), (total+99)/100, func(w *Worker, i int, r *Rng) {
			for j := i * 100; j < total && j < (i+1)*100; j++ {
				w.scannerLocations(wordOf(alpha, k, j), r)
			}
		})
	}
	c.run("scanner, long", c.n(2000), func(w *Worker, i int, r *Rng) {
		var b strings.Builder
		for k := r.Intn(400); k > 0; k-- {
			b.WriteString(pick(r, alpha))
		}
		w.scannerLocations(b.String(), r)
	})
	// Errors of the parser.
	c.run("parser errors", c.n(12000), func(w *Worker, i int, r *Rng) {
		p := defaultProfile(5 + r.Intn(40))
		p.Stmt = r.Float()
		p.Module = r.Chance(0.3)
		toks, _, err := printTree(genProgram(r, p, 1+r.Intn(4)), r, 0)
		if err != nil || len(toks) == 0 {
			return
		}
		for k := 0; k < 6; k++ {
			m := append([]Tok{}, toks...)
			j := r.Intn(len(m))
			switch r.Intn(5) {
			case 0:
				m = append(m[:j:j], m[j+1:]...)
			case 1:
				m[j] = Tok{Text: pick(r, vocabulary), Kind: tkPunct}
			case 2:
				m = append(m[:j:j], append([]Tok{{Text: pick(r, vocabulary), Kind: tkPunct}}, m[j:]...)...)
			case 3:
				m = m[:j]
			case 4:
				h := r.Intn(len(m))
				m[j], m[h] = m[h], m[j]
			}
			st := randomStyle(r)
			if r.Chance(0.5) {
				st.Newline = 0.6
			}
			w.parseErrorLocation(layout(m, st, r).Src, pick(r, modeNames), pick(r, manyURIs))
		}
	})
	c.run("seed errors", len(scriptSeeds), func(w *Worker, i int, r *Rng) {
		l := tokenize(scriptSeeds[i])
		for p := 0; p <= len(l); p++ {
			for _, v := range vocabulary {
				for _, sep := range []string{" ", "\n", "\r\n"} {
					w.parseErrorLocation(strings.Join(append(append(append([]string{}, l[:p]...), v), l[p:]...), sep), "script", pick(r, manyURIs))
				}
			}
		}
	})
	c.run("rendering", c.n(2000), func(w *Worker, i int, r *Rng) {
		for k := 0; k < 50; k++ {
			w.rendering(r)
		}
	})
	c.require("rendered", 50000, "locations_compared", 500000, "scanner_locations", 500000, "error_locations", 50000)
}

// lexErrorLocation checks the error that ends the lexing of a text, if any.
func (w *Worker) lexErrorLocation(cs lexCase) {
	rd := newReader(cs.src)
	s := newSutLexer(rd)
	var prev MTok
	for k := 0; ; k++ {
		st := s.next(cs.regex(k, prev))
		if st.Panic != nil || st.Err == nil && st.Tok.Type == lexer.TokenNone {
			return
		}
		if st.Err != nil {
			w.count("error_locations", 1)
			if d := checkErrorLocation(st.Err, testURL, rd.rs, rd.maxPos); d != "" {
				w.violate(d, "lex", cs.src, nil)
			}
			return
		}
		mm := &Model{rs: []rune(st.Tok.Source())}
		prev = mm.next(st.Re != nil)
	}
}

func (w *Worker) parseErrorLocation(src, mode string, uri *url.URL) {
	w.eval()
	rd := newReader(src)
	w.begin(mode, src)
	o := parseFrom(rd, uri, mode)
	w.end()
	if o.Panic != nil || o.Err == nil {
		return
	}
	w.count("error_locations", 1)
	w.note(mode + src)
	if d := checkErrorLocation(o.Err, uri, rd.rs, rd.maxPos); d != "" {
		src = shrinkText(src, func(s string) bool {
			rd := newReader(s)
			o := parseFrom(rd, uri, mode)
			return o.Panic == nil && o.Err != nil && checkErrorLocation(o.Err, uri, rd.rs, rd.maxPos) != ""
		})
		w.violate(d, mode, src, nil)
	}
}

// scannerLocations reads a text rune by rune through the scanner, with
// pushback here and there, also of the end of input, and compares every
// location.
func (w *Worker) scannerLocations(src string, r *Rng) {
	w.eval()
	rs := []rune(src)
	s := lexer.NewScanner(newReader(src), testURL)
	loc := newLocator(rs)
	// Locations are asked for going back and forth: keep them all.
	want := make([][2]int, len(rs)+1)
	for i := range want {
		a, b := loc.at(i)
		want[i] = [2]int{a, b}
	}
	bits := r.U64()
	check := func(off int, what string) bool {
		w.count("scanner_locations", 1)
		l := s.Location()
		if l.Row != want[off][0] || l.Column != want[off][1] || l.URI == nil || l.URI.String() != testURL.String() {
			w.violate(fmt.Sprintf("scanner at offset %d %s: location %v, want %d:%d", off, what, &l, want[off][0], want[off][1]), "scan", src, nil)
			return false
		}
		return true
	}
	if !check(0, "before any read") {
		return
	}
	for i := 0; i <= len(rs); i++ {
		rounds := int(bits>>(uint(i)%60)&3) % 3
		for k := 0; k <= rounds; k++ {
			c := s.Read()
			if i == len(rs) && c != lexer.EOFRune || i < len(rs) && c != rs[i] {
				w.violate(fmt.Sprintf("scanner at offset %d: read %q", i, c), "scan", src, nil)
				return
			}
			if !check(min(i+1, len(rs)), "after a read") {
				return
			}
			if k < rounds {
				s.Unread()
				if !check(i, "after a pushback") {
					return
				}
			}
		}
	}
	// The end of input can be read again and again.
	for k := 0; k < 3; k++ {
		if c := s.Read(); c != lexer.EOFRune {
			w.violate(fmt.Sprintf("scanner after the end: read %q", c), "scan", src, nil)
			return
		}
		if !check(len(rs), "after the end") {
			return
		}
	}
	w.note(src)
}
