package main

import (
	"errors"
	"fmt"
	"os"
	"reflect"
	"strings"
	"unicode/utf8"

	"github.com/jchv/cleansheets/ecmascript/ast"
	"github.com/jchv/cleansheets/ecmascript/errs"
	"github.com/jchv/cleansheets/ecmascript/lexer"
	"github.com/jchv/cleansheets/ecmascript/parser"
)

func init() { checks["C24"] = c24 }

// peekOp is one call of the look-ahead scanner.
type peekOp struct {
	op  string
	arg int
}

func (o peekOp) String() string {
	if o.op == "PeekAt" {
		return fmt.Sprintf("PeekAt(%d)", o.arg)
	}
	return o.op
}

// caught runs f and returns what it panicked with, or nil.
func caught(f func()) (p any) {
	defer func() { p = recover() }()
	f()
	return nil
}

// refTokens is the history of a lexer that is only ever asked for the next
// token: what the scanner must make visible, however far it is peeked ahead.
type refTokens struct {
	l    *lexer.Lexer
	toks []lexer.Token
	locs []ast.Location // after each token
	fail any            // what the lexer panicked with after the last token
}

// get lexes up to token i. It returns false if the lexer fails first.
func (r *refTokens) get(i int) bool {
	for len(r.toks) <= i && r.fail == nil {
		r.fail = caught(func() {
			t := r.l.Lex()
			r.toks = append(r.toks, t)
			r.locs = append(r.locs, r.l.Location())
		})
	}
	return len(r.toks) > i
}

func sameFailure(a, b any) bool {
	ea, ok1 := a.(error)
	eb, ok2 := b.(error)
	if ok1 && ok2 {
		return reflect.TypeOf(a) == reflect.TypeOf(b) && ea.Error() == eb.Error()
	}
	return reflect.DeepEqual(a, b)
}

// peekRun applies operations to a look-ahead scanner and compares every answer
// with a plain lexer's. It returns a description of the first difference.
func peekRun(src string, ops func(k int, ahead int, last lexer.Token) (peekOp, bool), stats map[string]int) string {
	sut := parser.NewScanner(lexer.NewLexer(lexer.NewScanner(strings.NewReader(src), testURL)))
	ref := &refTokens{l: lexer.NewLexer(lexer.NewScanner(strings.NewReader(src), testURL))}
	loc0 := ref.l.Location()
	pos := 0   // tokens scanned
	ahead := 0 // tokens peeked beyond pos
	var last lexer.Token
	var trace []string
	fail := func(f string, a ...any) string {
		if len(trace) > 40 {
			trace = append([]string{"..."}, trace[len(trace)-40:]...)
		}
		return strings.Join(trace, " ") + ": " + fmt.Sprintf(f, a...)
	}
	for k := 0; ; k++ {
		op, ok := ops(k, ahead, last)
		if !ok {
			return ""
		}
		trace = append(trace, op.String())
		stats[op.op]++
		var got lexer.Token
		var p any
		switch op.op {
		case "PeekAt":
			// Not checked further after a failure of the lexer.
			p = caught(func() { got = sut.PeekAt(op.arg) })
			if !ref.get(pos + op.arg) {
				if p == nil {
					return fail("got %v, but the lexer fails: %v", got, ref.fail)
				}
				if !sameFailure(p, ref.fail) {
					return fail("failed with %v, but the lexer with %v", p, ref.fail)
				}
				stats["failures"]++
				return ""
			}
			if p != nil {
				return fail("failed with %v, want %v", p, ref.toks[pos+op.arg])
			}
			if want := ref.toks[pos+op.arg]; !reflect.DeepEqual(got, want) {
				return fail("got %v, want %v (new line %v, %v)", got, want, got.NewLine, want.NewLine)
			}
			if op.arg+1 > ahead {
				ahead = op.arg + 1
			}
			if ahead > 1 {
				stats["peeked_ahead_2"]++
			}
			if ahead > 100 {
				stats["peeked_ahead_100"]++
			}
		case "Scan", "ScanExpect", "ScanExpectOther":
			have := ref.get(pos)
			switch op.op {
			case "Scan":
				p = caught(func() { got = sut.Scan() })
			case "ScanExpect":
				typ := lexer.TokenPunctuatorComma
				if have {
					typ = ref.toks[pos].Type
				}
				p = caught(func() { got = sut.ScanExpect(typ, "verif") })
			case "ScanExpectOther":
				typ := lexer.TokenPunctuatorComma
				if have && ref.toks[pos].Type == typ {
					typ = lexer.TokenPunctuatorSemicolon
				}
				p = caught(func() { got = sut.ScanExpect(typ, "verif") })
				if have {
					e, ok := p.(*errs.SyntaxError)
					if !ok {
						return fail("%v accepted %v in place of %v (%v)", op, ref.toks[pos], typ, p)
					}
					if e.Location != ref.locs[pos] {
						return fail("the syntax error is at %v, but the token ends at %v", &e.Location, &ref.locs[pos])
					}
					stats["unexpected_tokens"]++
					p, got = nil, ref.toks[pos]
				}
			}
			if !have {
				if p == nil {
					return fail("got %v, but the lexer fails: %v", got, ref.fail)
				}
				if !sameFailure(p, ref.fail) {
					return fail("failed with %v, but the lexer with %v", p, ref.fail)
				}
				stats["failures"]++
				return ""
			}
			if p != nil {
				return fail("failed with %v, want %v", p, ref.toks[pos])
			}
			if want := ref.toks[pos]; !reflect.DeepEqual(got, want) {
				return fail("got %v, want %v (new line %v, %v)", got, want, got.NewLine, want.NewLine)
			}
			last = ref.toks[pos]
			pos++
			if ahead > 0 {
				ahead--
				stats["scanned_peeked_tokens"]++
			}
			if last.Type == lexer.TokenNone {
				stats["ends_of_input"]++
			}
		case "ReScan":
			if ahead > 0 {
				p = caught(func() { sut.ReScan() })
				if p == nil {
					return fail("no panic, though peeked ahead")
				}
				stats["refused"]++
				continue // and it must not have changed anything
			}
			var re, want lexer.ReToken
			p = caught(func() { re = sut.ReScan() })
			q := caught(func() { want = ref.l.ReLex() })
			if (p != nil) != (q != nil) || p != nil && !sameFailure(p, q) {
				return fail("failed with %v, but the lexer with %v", p, q)
			}
			if p != nil {
				stats["failures"]++
				return ""
			}
			if !reflect.DeepEqual(re, want) {
				return fail("got %v, want %v", re, want)
			}
			last = want.Token
			ref.toks[pos-1], ref.locs[pos-1] = want.Token, ref.l.Location()
			stats["regexps"]++
		case "SyntaxError", "Unsupported":
			p = caught(func() {
				if op.op == "SyntaxError" {
					sut.SyntaxError("verif")
				} else {
					sut.Unsupported("verif")
				}
			})
			err, _ := p.(error)
			var l ast.Location
			var se *errs.SyntaxError
			var pe *errs.ParserError
			switch {
			case op.op == "SyntaxError" && errors.As(err, &se):
				l = se.Location
			case op.op == "Unsupported" && errors.As(err, &pe):
				l = pe.Location
			default:
				return fail("panicked with %T %v", p, p)
			}
			if !strings.Contains(err.Error(), "verif") {
				return fail("the error does not tell what is wrong: %v", err)
			}
			want := loc0
			if pos > 0 {
				want = ref.locs[pos-1]
			}
			if l != want {
				return fail("the error is at %v, but the last token ends at %v", &l, &want)
			}
		}
		// Whatever was called, the state is that of the plain lexer.
		if n := sut.PeekLen(); n != ahead {
			return fail("PeekLen is %d, want %d", n, ahead)
		}
		want := loc0
		if pos > 0 {
			want = ref.locs[pos-1]
		}
		if l := sut.Location(); l != want {
			return fail("Location is %v, but the last token scanned ends at %v", &l, &want)
		}
	}
}

func c24(c *Check) {
	c.rule = "Random sequences of calls of the look-ahead scanner over random, real and malformed texts; every token, location, length and failure is compared with a second lexer that is never peeked. Non-trivial: a run in which tokens were scanned that had been peeked; distinct: by text and calls."
	c.assume = append(c.assume, "the tokens themselves are decided by C04 to C07; here only that looking ahead does not change them")
	one := func(w *Worker, src string, r *Rng) {
		w.eval()
		n := 3 + r.Intn(60)
		far := 1 + r.Intn(5)
		if r.Chance(0.15) {
			// As far as a parser that tries something before it decides would.
			far = 1 << r.Intn(11)
		}
		seed := r.U64()
		gen := func() func(int, int, lexer.Token) (peekOp, bool) {
			q := newRng(seed)
			return func(k, ahead int, last lexer.Token) (peekOp, bool) {
				if k >= n {
					return peekOp{}, false
				}
				slash := last.Type == lexer.TokenPunctuatorDiv || last.Type == lexer.TokenPunctuatorDivAssign
				if slash && ahead == 0 && q.Chance(0.6) {
					return peekOp{op: "ReScan"}, true
				}
				switch x := q.Intn(20); {
				case x < 8:
					return peekOp{op: "PeekAt", arg: q.Intn(far)}, true
				case x < 16:
					return peekOp{op: "Scan"}, true
				case x < 18:
					return peekOp{op: "ScanExpect"}, true
				case x == 18:
					return peekOp{op: pick(q, []string{"SyntaxError", "Unsupported", "ScanExpectOther"})}, true
				}
				if ahead > 0 {
					return peekOp{op: "ReScan"}, true
				}
				return peekOp{op: "Scan"}, true
			}
		}
		stats := map[string]int{}
		w.begin("peek", src)
		d := peekRun(src, gen(), stats)
		w.end()
		for k, v := range stats {
			w.count(k, v)
		}
		if stats["scanned_peeked_tokens"] > 0 {
			w.note(fmt.Sprint(seed, n, far) + src)
		}
		if d != "" {
			small := shrinkText(src, func(s string) bool { return peekRun(s, gen(), map[string]int{}) != "" })
			if d2 := peekRun(small, gen(), map[string]int{}); d2 != "" {
				src, d = small, d2
			}
			w.violate(d, "peek", src, nil)
		}
	}
	toks := sampleTokens(nil)
	c.run("token soup", c.n(240000), func(w *Worker, i int, r *Rng) {
		var b strings.Builder
		for k := r.Intn(40); k > 0; k-- {
			b.WriteString(pick(r, toks))
			if r.Chance(0.9) {
				b.WriteString(pick(r, triviaBits))
			}
		}
		one(w, b.String(), r)
		if i%24000 == 0 {
			w.sample(clip(b.String(), 200))
		}
	})
	c.run("programs", c.n(16000), func(w *Worker, i int, r *Rng) {
		t := genProgram(r, defaultProfile(10+r.Intn(60)), 1+r.Intn(4))
		tk, _, err := printTree(t, r, 0)
		if err != nil {
			return
		}
		src := layout(tk, randomStyle(r), r).Src
		for k := 0; k < 5; k++ {
			one(w, src, r)
		}
	})
	// Far ahead: the queue grows, shrinks and grows again.
	c.run("far ahead", c.n(1500), func(w *Worker, i int, r *Rng) {
		var b strings.Builder
		for k := 50 + r.Intn(1<<(6+r.Intn(7))); k > 0; k-- {
			b.WriteString(pick(r, toks))
			b.WriteString(pick(r, triviaBits))
			if k%7 == 0 {
				b.WriteString("\n")
			}
		}
		for k := 0; k < 3; k++ {
			one(w, b.String(), r)
		}
	})
	shapes := wideShapes("all")
	c.run("wide and deep", c.n(600), func(w *Worker, i int, r *Rng) {
		tk, _, err := printTree(randomWide(r, shapes, 1200), r, 0)
		if err != nil {
			return
		}
		one(w, layout(tk, randomStyle(r), r).Src, r)
	})
	files := corpus(c.n(40), 200000)
	c.run("real programs", len(files), func(w *Worker, i int, r *Rng) {
		b, err := os.ReadFile(files[i])
		if err != nil || !utf8.Valid(b) {
			return
		}
		l := strings.SplitAfter(string(b), "\n")
		for k := 0; k < 30; k++ {
			j := r.Intn(len(l))
			one(w, clip(strings.Join(l[j:min(len(l), j+1+r.Intn(6))], ""), 3000), r)
		}
	})
	c.run("characters", c.n(200000), func(w *Worker, i int, r *Rng) {
		chars := []rune("(){}[];,.:?=+-*/<>!&|'\"`\\#$_ae01 \n\r\u2028é𝒳")
		rs := make([]rune, r.Intn(30))
		for k := range rs {
			rs[k] = pick(r, chars)
		}
		one(w, string(rs), r)
	})
	c.require("evaluations", 20000, "scanned_peeked_tokens", 50000, "peeked_ahead_2", 50000, "regexps", 500, "peeked_ahead_100", 2000, "refused", 500, "failures", 500, "ends_of_input", 5000)
}
