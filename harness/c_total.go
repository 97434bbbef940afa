package main

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"io"
	"net/url"
	"os"
	"strings"
	"sync/atomic"
	"testing/iotest"
	"time"
	"unicode/utf8"

	"github.com/jchv/cleansheets/ecmascript/errs"
)

func init() {
	checks["C01"] = c01
	checks["C02"] = c02
}

// The budget of reads: the parser looks at most a few runes ahead.
const (
	readsPerRune = 16
	readsSlack   = 1000
)

// total parses a text under the totality monitor: the reads are bounded, the
// result is exactly one of a tree and a typed error, and the tree converts. The
// supervisor watches for hangs, crashes and memory. It returns the outcome.
func (w *Worker) total(src, mode string, uri *url.URL) *Outcome {
	w.eval()
	rd := newReader(src)
	rd.budget = readsPerRune*len(rd.rs) + readsSlack
	w.begin(mode, src)
	t0 := time.Now()
	o := parseFrom(rd, uri, mode).convert()
	if os.Getenv("VERIF_VERBOSE") == "2" && time.Since(t0) > 300*time.Millisecond {
		fmt.Fprintf(os.Stderr, "SLOW %v %s %d bytes, %d reads: %s: %s\n", time.Since(t0), mode, len(src), rd.reads, clip(src, 30), clip(o.String(), 100))
	}
	w.end()
	if d := totality(o, rd); d != "" {
		min := src
		if len(src) < 3000 {
			min = shrinkText(src, func(s string) bool {
				r := newReader(s)
				r.budget = readsPerRune*len(r.rs) + readsSlack
				w.begin(mode, s)
				o := parseFrom(r, uri, mode).convert()
				w.end()
				return totality(o, r) != ""
			})
		}
		w.violate(d, mode, min, map[string]any{"stack": clip(o.Stack, 3000)})
		return o
	}
	switch {
	case o.Node != nil:
		w.count("trees", 1)
	default:
		w.count(o.kind()+"_errors", 1)
	}
	if len(rd.rs) > 0 {
		w.note(mode + src)
	}
	if len(rd.rs) > 100 {
		for q := int64(rd.reads * 100 / len(rd.rs)); ; {
			m := atomic.LoadInt64(&maxReads)
			if q <= m || atomic.CompareAndSwapInt64(&maxReads, m, q) {
				break
			}
		}
	}
	return o
}

var maxReads int64

const byteSoup = "(){}[];,.:?=+-*/<>!&|^~'\"`\\@#$_a0 9\n%\tbcexnuif1"

func totality(o *Outcome, rd *Reader) string {
	if rd.overBudget {
		return fmt.Sprintf("more than %d reads of an input of %d runes", rd.budget, len(rd.rs))
	}
	switch k := o.kind(); k {
	case "panic":
		return fmt.Sprintf("panic: %v", o.Panic)
	case "nothing":
		return "neither a tree nor an error"
	case "tree":
		if o.TreeErr != "" {
			return "the tree does not convert: " + o.TreeErr
		}
	case "encoding":
		return "encoding error though the reader did not fail: " + o.Err.Error()
	case "syntax", "parser":
		if !nilNode(o.Node) {
			return "both a tree and an error"
		}
		if m := o.message(); m == "" {
			return "error without a message"
		}
	default:
		return "undocumented kind of error: " + k
	}
	return ""
}

// Constructs that are valid ECMAScript 2022 and that the parser may not
// implement, and Annex B oddities.
var unimplemented = strings.Split("`a`|`a${b}c`|a`b`|`${`${a}`}`|`|`${|`${a|a?.b|a?.[b]|a?.(b)|a?.b.c?.d|1n|0x1fn|for (let a of b);|for (const a of b);|for (let a = 1; a < 2; a++);|for (let a in b);|for (let [a] of b);|for (let of of b);|for (let in b);|function* g() { yield 1; yield* a; yield }|async function f() { await a; for await (a of b); }|(function* () { yield })|(function* () { yield a })|(async function () { await a })|async () => await a|async () => { for await (let a of b); }|[...a]|[a, ...b, c]|({...a})|({a, ...b})|[...a] = b|({...a} = b)|({a = 1} = b)|[a = 1] = b|({a: [b]} = c)|class A { a = 1 }|class A { a; }|class A { static a = 1 }|class A { #a = 1; m() { return this.#a } }|class A { static { a; } }|class A { async m() { } }|class A { *m() { } }|class A { async *m() { } }|class A { #m() { } }|class A { get #a() { } }|class A { constructor() { super() } m() { super.m() } }|class A { static async m() { } }|class A { static *m() { } }|class A { 'a'() { } 1() { } [a]() { } }|class A { m() { #a in this } }|var {'a': b} = c|var {1: b} = c|var {[a]: b} = c|var {a: {b}} = c|function f(...[a]) { }|function f(...{a}) { }|new.target|function f() { new.target }|super.a|super()|import('a')|import.meta|import {'a' as b} from 'c'|import a, {default as b} from 'c'|import json from 'a' with {type: 'json'}|import json from 'a' assert {type: 'json'}|import defer * as a from 'b'|export default a|export {a}|export {a as b}|export * from 'a'|export * as b from 'a'|export var a|export function f() { }|export default class { }|with (a) b|with (a) { }|debugger|debugger;|if (a) function f() { }|a: function f() { }|for (var a = 1 in b);|for (a of b);|for (async of b);|for (async of => a;;);|<!-- a|--> a|a --> b|#!/bin/sh|#! a|\\u0061|a\\u0062|\\u{61}|var \\u0061|'\\u{110000}'|'\\x4'|'\\u12'|'\\8'|'a\\|'|@a class { }|@a() class A { @b m() { } }|a ? b|a ?? b || c|-a ** b|(-a) ** b|await a|yield a|async a|let|let let|let [|enum A { }|async function f|async (|async (a|async (a) =>|async =>|async|get|set|static|of|from|as|a => {}()|a => {}.b|() => {} || a|() + 1|(a, b) = 1|(...a)|(a, ...b)|(,)|()|{|}|[|]|(|)|'|\"|/|/a|/a/|/[|/\\|//|/*|/**|*/|.|..|...|@|#|#a|\\|$|0|0.|.0|0x|0b|0o|1e|1_|08|1.e+|=>|=|==|!|~|++|--|?|:|,|;|;;|\x00|\ufeff|\u2028|\ufffd|\U0001F600|a\U0001F600", "|")

// nestings are ways to nest code: before, after and what is in the middle.
type nesting struct{ open, mid, close string }

var nestings = []nesting{
	{"(", "a", ")"}, {"[", "", "]"}, {"[", "a", "]"}, {"[a,", "b", "]"}, {"[,", "", "]"}, {"{", "", "}"}, {"({a:", "b", "})"}, {"({a:[", "b", "]})"},
	{"a(", "", ")"}, {"a(...", "b", ")"}, {"a[", "b", "]"}, {"a.b(", "", ")"}, {"new ", "a", ""}, {"new A(", "", ")"}, {"!", "a", ""}, {"-", "a", ""}, {"- ", "a", ""}, {"+ ", "a", ""}, {"~", "a", ""}, {"typeof ", "a", ""}, {"void ", "a", ""}, {"delete ", "a", ""},
	{"++", "a", ""}, {"a++ ", "", ""}, {"a+", "b", ""}, {"a*", "b", ""}, {"a**", "b", ""}, {"a=", "b", ""}, {"a+=", "b", ""}, {"a,", "b", ""}, {"a?b:", "c", ""}, {"a?", "b", ":c"}, {"a&&", "b", ""}, {"a||", "b", ""}, {"a??", "b", ""}, {"a|", "b", ""}, {"a<", "b", ""}, {"a in ", "b", ""}, {"a instanceof ", "b", ""}, {"a+(", "b", ")"}, {"a==", "b", ""},
	{"a=>", "b", ""}, {"(a)=>", "b", ""}, {"()=>", "b", ""}, {"a=>{", "", "}"}, {"(a=", "b", ")=>c"}, {"(a=(", "b", "))=>c"}, {"([", "a", "])=>b"}, {"(", "a", ")=>b"}, {"async a=>", "b", ""}, {"async()=>", "b", ""}, {"async(", "a", ")"}, {"(...", "a", ")=>b"}, {"([a=", "b", "])=>c"}, {"({a=", "b", "})=>c"}, {"(a,", "b", ")"},
	{"(function(){", "", "})"}, {"function a(){", "", "}"}, {"(function(a=", "b", "){})"}, {"(function*(){", "", "})"}, {"(async function(){", "", "})"}, {"class A{m(){", "", "}}"}, {"(class{m(){", "", "}})"}, {"(class extends ", "a", "{})"}, {"class A extends class {", "", "}{}"}, {"({m(){", "", "}})"}, {"({get a(){", "", "}})"}, {"({[", "a", "]:b})"}, {"({set a(b=", "c", "){}})"}, {"class A{[", "a", "](){}}"}, {"class A{static m(){", "", "}}"},
	{"if(a)", ";", ""}, {"if(a);else ", ";", ""}, {"if(a){", "", "}"}, {"while(a)", ";", ""}, {"do ", ";", " while(a)"}, {"for(;;)", ";", ""}, {"for(a in b)", ";", ""}, {"for(a of b)", ";", ""}, {"for(var a of b){", "", "}"}, {"a:", ";", ""}, {"try{", "", "}catch(a){}"}, {"try{}catch(a){", "", "}"}, {"try{}finally{", "", "}"}, {"switch(a){case b:", "", "}"}, {"switch(a){default:", "", "}"}, {"switch(", "a", "){}"},
	{"var [", "a", "]=b"}, {"var {a:", "b", "}=c"}, {"var {a=", "b", "}=c"}, {"let [", "a", "]=b"}, {"[a=", "b", "]=c"}, {"[", "a", "]=b"}, {"({a:", "b", "}={})"}, {"function f([", "a", "]){}"}, {"function f({a:", "b", "}){}"}, {"try{}catch([", "a", "]){}"}, {"var[[", "a", "]]=b"},
	{"a=b?", "c", ":d"}, {"a[b](", "c", ")"}, {"!(", "a", ")"}, {"throw ", "a", ";"}, {"return ", "a", ""}, {"`${", "a", "}`"}, {"yield ", "a", ""}, {"await ", "a", ""}, {"...", "a", ""}, {"a?.b", "", ""}, {"case a:", "", ""}, {"else ", "", ""}, {"/a/", "", ""}, {"/*", "", "*/"}, {"a/", "b", "/c"}, {"<!--", "", ""}, {"#a.", "b", ""},
}

// Patterns whose wrapping matters: var with repeated opening inside.
var deepMid = []nesting{
	{"var ", "[", "]=a"}, {"var {a:", "{a:", "}}=b"}, {"(", "[", "])=>a"}, {"(", "{a:", "})=>b"}, {"function f(", "[", "]){}"}, {"function f(a=", "[", "]){}"}, {"[", "{a:", "}]=b"}, {"(a=", "(", "))=>b"}, {"for(", "[", "] of a);"}, {"for(var ", "[", "] of a);"}, {"try{}catch(", "[", "]){}"}, {"async(", "[", "])=>a"}, {"class A{m(", "[", "]){}}"}, {"({m(", "[", "]){}})"}, {"({set a(", "[", "]){}})"},
}

// flat inputs repeat something without nesting.
var flats = []string{"a;", "a\n", ";", "a,", "a+", "a.b", ".a", "()", "[]", "{}", " ", "\n", "/**/", "//\n", "'a';", "'use strict';", "1,", "1.5e3 ", "0x1 ", "a ", "/a/;", "a/b/", "(a)", "[a]", "a=", "a=>", "a=>b;", "var a;", "var a,", "let a;", "if(a)b;", "else", "case a:", "a:", "a:b;", "function f(){}", "class A{}", "class A{m(){}}", "({m(){}});", "import a from 'b';", "import {a} from 'b';", "\r\n", "\u2028", "\x00", "\ufffd", "#", "@", "`", "\\", "'", "\"", "'a", "${", "!", "~", "?", ":", "a?", "a?b:", "...", "=", "=>", "&&", "a&&", "a||", "a??", "a**", "-", "--", "- ", "a--", "a++;", "new ", "new a;", "typeof ", "async ", "async a=>", "async(", "async function f(){}", "await ", "yield ", "get ", "set ", "static ", "of ", "try{}catch{}", "switch(a){}", "throw a;", "return;", "break;", "continue;", "do;while(a)", "for(;;);", "for(a of b);", "while(a);", "debugger;", "0_", "1_1", "1e", "0x", "\U0001F600", "𠮷", "a[b]", "a(b)", "a`b`", "b,[a]=", "({a}=", "/*", "*/", "//", "/", "/[", "<!--"}

func c01(c *Check) {
	c.rule = "random bytes, runes and tokens, truncations of programs at every rune, token corruptions, valid but unimplemented constructs in every place, deep nesting of every construct up to 3 million levels, long flat inputs and arbitrary files are parsed in all modes under a monitor: bounded reads (a counting reader that aborts beyond 16 per rune), recovered panics, one of tree and typed error, conversion of the tree; a supervising process watches CPU time, memory and crashes. Non-trivial: non-empty input; distinct: by mode and source text."
	all := func(w *Worker, src string) {
		for _, m := range modeNames {
			w.total(src, m, testURL)
		}
	}
	seeds := append(append(append([]string{}, scriptSeeds...), moduleSeeds...), exprSeeds...)
	// Every unimplemented construct alone, in statements and in expressions.
	holes := []string{"%", "%;", "% a", "a %", "(%)", "a = %", "a + %", "% + a", "[%]", "({a: %})", "f(%)", "a => %", "(a = %) => b", "if (a) %", "if (%) a", "{ % }", "function f() { % }", "async () => { % }", "(async function () { % })", "(function* () { % })", "class A { m() { % } }", "class A { % }", "({ % })", "var a = %", "var %", "for (%;;);", "for (% of a);", "for (% in a);", "'use strict'; %", "x: %", "switch (a) { case %: % }", "while (%) %", "try { % } catch (%) { % }", "%\n%", "%\na", "a\n%", "function f(%) { }", "(%) => a", "import % from 'a'", "import {%} from 'a'", "new %", "%()", "%.a", "%[0]", "%`a`", "typeof %", "% => a", "/* % */", "'%'", "//%", "%//", "%/*", "%'", "async %", "throw %", "do % while (%)"}
	c.run("constructs", len(unimplemented)*len(holes), func(w *Worker, i int, r *Rng) {
		all(w, strings.ReplaceAll(holes[i/len(unimplemented)], "%", unimplemented[i%len(unimplemented)]))
	})
	c.run("hosts", len(seeds), func(w *Worker, i int, r *Rng) {
		toks := tokenize(seeds[i])
		for p := 0; p <= len(toks); p++ {
			pre, post := strings.Join(toks[:p], " "), strings.Join(toks[p:], " ")
			for _, u := range append(unimplemented, vocabulary...) {
				w.total(pre+" "+u+" "+post, pick(r, modeNames), testURL)
				if p < len(toks) {
					w.total(pre+" "+u+" "+strings.Join(toks[p+1:], " "), pick(r, modeNames), testURL)
				}
			}
		}
		// Truncation and single runes.
		rs := []rune(seeds[i])
		for p := 0; p <= len(rs); p++ {
			all(w, string(rs[:p]))
			all(w, string(rs[p:]))
			for _, x := range "(){}[];,.:?=+-*/<>!&|^~'\"`\\@#$_a0 9\n%\t\u00b7\u2028\u0000\ufffd\U0010ffff" {
				w.total(string(rs[:p])+string(x), pick(r, modeNames), nil)
				if p < len(rs) {
					w.total(string(rs[:p])+string(x)+string(rs[p+1:]), pick(r, modeNames), testURL)
				}
			}
		}
	})
	// Bytes.
	c.run("bytes", c.n(40000), func(w *Worker, i int, r *Rng) {
		n := r.Intn(40)
		if r.Chance(0.02) {
			n = r.Intn(2000)
		}
		b := make([]byte, n)
		for k := range b {
			switch r.Intn(4) {
			case 0:
				b[k] = byte(r.U64())
			case 1:
				b[k] = byte(0x80 + r.Intn(0x80))
			default:
				b[k] = byteSoup[r.Intn(len(byteSoup))]
			}
		}
		src := string(b)
		mode := pick(r, modeNames)
		o := w.total(src, mode, testURL)
		// Byte readers see the same.
		w.begin(mode, src)
		p := parseFrom(bytes.NewReader(b), testURL, mode).convert()
		w.end()
		if !sameOutcome(o, p) {
			w.violate("another result from a bytes.Reader: "+p.String()+", not "+o.String(), mode, src, nil)
		}
		if !utf8.Valid(b) {
			w.count("invalid_utf8", 1)
		}
	})
	// Tokens.
	vocab := append(append([]string{}, vocabulary...), "a", "b", "(", ")", "{", "}", "[", "]", "=>", ",", "=", "\n", "'use strict'", "yield", "await", "async", "function", "class", "import", "`", "${", "/", "?.", "#a", "1n")
	c.run("soup", c.n(100000), func(w *Worker, i int, r *Rng) {
		n := 1 + r.Intn(14)
		if r.Chance(0.01) {
			n = r.Intn(500)
		}
		var b strings.Builder
		for k := 0; k < n; k++ {
			b.WriteString(pick(r, vocab))
			if r.Chance(0.7) {
				b.WriteByte(' ')
			}
		}
		w.total(b.String(), pick(r, modeNames), testURL)
	})
	// Programs: whole, corrupted, truncated.
	c.run("programs", c.n(3000), func(w *Worker, i int, r *Rng) {
		p := defaultProfile(5 + r.Intn(100))
		p.Stmt = r.Float()
		p.Module = r.Chance(0.3)
		t := genProgram(r, p, 1+r.Intn(4))
		toks, _, err := printTree(t, r, 0.1*r.Float())
		if err != nil {
			return
		}
		rs := []rune(layout(toks, randomStyle(r), r).Src)
		all(w, string(rs))
		mode := modeOf(t)
		for k := 0; k < 40 && len(rs) > 0; k++ {
			w.total(string(rs[:r.Intn(len(rs))]), mode, testURL)
		}
		txt := make([]string, len(toks))
		for k := range toks {
			txt[k] = toks[k].Text
		}
		for k := 0; k < 30; k++ {
			w.total(strings.Join(corrupt(txt, r), " "), mode, testURL)
		}
		for k := 0; k < 30; k++ {
			m := append([]rune{}, rs...)
			for e := 1 + r.Intn(3); e > 0 && len(m) > 0; e-- {
				j := r.Intn(len(m))
				switch r.Intn(3) {
				case 0:
					m = append(m[:j], m[j+1:]...)
				case 1:
					m[j] = rune(r.Intn(0x180))
				case 2:
					m = append(m[:j:j], append([]rune(pick(r, vocab)), m[j:]...)...)
				}
			}
			w.total(string(m), mode, testURL)
		}
	})
	// Nesting.
	depths := []int{10, 100, 400, 800, 1000, 1500, 2400, 2500, 5000, 20000, 200000}
	limit := 1 << 20
	if c.Thorough {
		limit = 3 << 20
	}
	type deep struct {
		n nesting
		d int
	}
	var jobs []deep
	for _, n := range nestings {
		for _, d := range depths {
			jobs = append(jobs, deep{n, d})
		}
		jobs = append(jobs, deep{n, limit / (len(n.open) + len(n.close))})
	}
	c.count("nestings", len(nestings)+len(deepMid))
	c.run("nesting", len(jobs), func(w *Worker, i int, r *Rng) {
		n, d := jobs[len(jobs)-1-i].n, jobs[len(jobs)-1-i].d
		for d*(len(n.open)+len(n.close)) > limit {
			d--
		}
		srcs := []string{
			strings.Repeat(n.open, d) + n.mid + strings.Repeat(n.close, d),
			strings.Repeat(n.open, d),
		}
		if d <= 5000 {
			// Alternate with another nesting.
			for k := 0; k < 3; k++ {
				m := pick(r, nestings)
				srcs = append(srcs, strings.Repeat(n.open+m.open, d/2)+n.mid+strings.Repeat(m.close+n.close, d/2))
			}
			srcs = append(srcs, strings.Repeat(n.open, d)+n.mid)
		}
		for k, s := range srcs {
			mode := modeNames[(i+k)%3]
			if k == 0 || d <= 5000 {
				for _, m := range modeNames {
					if m != mode {
						w.total(s, m, testURL)
					}
				}
			}
			w.total(s, mode, testURL)
		}
		w.count("nested_inputs", len(srcs))
	})
	c.run("nested patterns", len(deepMid)*len(depths), func(w *Worker, i int, r *Rng) {
		n, d := deepMid[i/len(depths)], depths[len(depths)-1-i%len(depths)]
		end := strings.TrimSuffix(strings.Repeat(")", strings.Count(n.mid, "("))+strings.Repeat("]", strings.Count(n.mid, "["))+strings.Repeat("}", strings.Count(n.mid, "{")), " ")
		// The closing of one level is the first closing character of n.close.
		rest := strings.TrimPrefix(n.close, end)
		s := n.open + strings.Repeat(n.mid, d) + "a" + strings.Repeat(end, d) + rest
		all(w, s)
		all(w, n.open+strings.Repeat(n.mid, d))
		w.count("nested_inputs", 2)
	})
	// Long flat inputs: each must be answered too.
	sizes := []int{50, 3000, 20000}
	if c.Thorough {
		sizes = []int{50, 3000, 20000, 100000, 300000}
	}
	c.run("flat", len(flats)*len(sizes), func(w *Worker, i int, r *Rng) {
		f, n := flats[i%len(flats)], sizes[i/len(flats)]
		s := strings.Repeat(f, n)
		all(w, s)
		w.total(s+"a", "script", testURL)
		w.total("("+s+")", "script", testURL)
		w.total("x = "+s, "module", nil)
		w.total("function f() {"+s+"}", "script", testURL)
		w.count("flat_inputs", 1)
	})
	files := corpus(c.n(400), 150000)
	c.run("files", len(files), func(w *Worker, i int, r *Rng) {
		b, err := os.ReadFile(files[i])
		if err != nil {
			return
		}
		all(w, string(b))
		rs := []rune(string(b))
		for k := 0; k < 6 && len(rs) > 10; k++ {
			a := r.Intn(len(rs))
			z := a + r.Intn(min(len(rs)-a, 3000))
			w.total(string(rs[a:z]), pick(r, modeNames), testURL)
		}
		w.count("files", 1)
	})
	// Any file is text.
	var any []string
	for _, g := range []string{"/bin/ls", "/bin/true", "/etc/passwd", "/repo/go.sum", "/repo/go.mod", "/repo/README.md", "/etc/ssl/certs/ca-certificates.crt"} {
		any = append(any, g)
	}
	c.run("other files", len(any), func(w *Worker, i int, r *Rng) {
		f, err := os.Open(any[i])
		if err != nil {
			return
		}
		defer f.Close()
		b, _ := io.ReadAll(io.LimitReader(f, 1<<20))
		all(w, string(b))
		for k := 0; k < 200 && len(b) > 0; k++ {
			a := r.Intn(len(b))
			w.total(string(b[a:min(len(b), a+200)]), pick(r, modeNames), testURL)
		}
	})
	c.count("max_reads_per_100_runes", int(maxReads))
	c.require("trees", 20000, "syntax_errors", 200000, "distinct", 200000, "nested_inputs", 500)
}

func nilNode(n any) bool { return n == nil }

// sameOutcome compares results, not addresses.
func sameOutcome(a, b *Outcome) bool {
	return a.kind() == b.kind() && a.message() == b.message() && bytes.Equal(a.JSON, b.JSON) && a.TreeErr == b.TreeErr
}

// fmtFault is an error type of its own, compared by identity.
type fmtFault struct{ s string }

func (f *fmtFault) Error() string { return f.s }

// fault parses with a reader that fails at one read.
func (w *Worker) fault(src, mode string, at int, fail error) bool {
	w.eval()
	rd := newReader(src)
	rd.failAt, rd.failErr = at, fail
	rd.budget = readsPerRune*len(rd.rs) + readsSlack
	w.begin(mode, src)
	o := parseFrom(rd, testURL, mode)
	w.end()
	if !rd.failed {
		return false // fewer reads than that
	}
	bad := ""
	var ee *errs.EncodingError
	switch {
	case o.Panic != nil:
		bad = fmt.Sprintf("panic: %v", o.Panic)
	case o.Err == nil:
		bad = "the reader failed, but the result is " + o.String()
	case !errors.As(o.Err, &ee):
		bad = "not an encoding error: " + o.String()
	case !errors.Is(o.Err, fail):
		bad = "the error does not wrap the reader's: " + o.String()
	case !nilNode(o.Node):
		bad = "a tree together with the error"
	case rd.afterFail > 0:
		bad = fmt.Sprintf("%d calls of the reader after its failure", rd.afterFail)
	}
	if bad != "" {
		w.violate(bad, mode, src, map[string]any{"fault at read": at, "error": fail.Error(), "stack": clip(o.Stack, 2000)})
		return true
	}
	w.count("faults", 1)
	w.note(fmt.Sprint(mode, at, src))
	return true
}

// onlyRunes hides everything but the two methods of io.RuneScanner.
type onlyRunes struct{ io.RuneScanner }

// readers compares the result over different readers of the same text.
func (w *Worker) readers(src, mode string, r *Rng) {
	rd := newReader(src)
	w.begin(mode, src)
	o := parseFrom(rd, testURL, mode).convert()
	w.end()
	w.eval()
	if rd.badUnread > 0 {
		w.violate(fmt.Sprintf("%d pushbacks of a rune that was not just read", rd.badUnread), mode, src, nil)
		return
	}
	if o.Panic != nil {
		w.violate(fmt.Sprintf("panic: %v", o.Panic), mode, src, clip(o.Stack, 2000))
		return
	}
	if o.kind() == "encoding" {
		w.violate("encoding error though the reader did not fail: "+o.message(), mode, src, nil)
		return
	}
	w.count("reads", rd.reads)
	w.count("pushbacks", rd.unreads)
	w.count("end_of_file_reads", rd.eofReads)
	rs := []struct {
		name string
		r    io.RuneScanner
	}{
		{"strings.Reader", strings.NewReader(src)},
		{"bytes.Reader", bytes.NewReader([]byte(src))},
		{"bytes.Buffer", bytes.NewBufferString(src)},
		{"bufio.Reader of 16 bytes", bufio.NewReaderSize(strings.NewReader(src), 16)},
		{"bufio.Reader of a random size", bufio.NewReaderSize(strings.NewReader(src), 16+r.Intn(100))},
		{"bufio.Reader, one byte at a time", bufio.NewReaderSize(iotest.OneByteReader(strings.NewReader(src)), 16)},
		{"bufio.Reader, data with the end", bufio.NewReader(iotest.DataErrReader(strings.NewReader(src)))},
		{"bufio.Reader, half reads", bufio.NewReader(iotest.HalfReader(strings.NewReader(src)))},
		{"bare interface", onlyRunes{strings.NewReader(src)}},
	}
	for _, x := range rs {
		w.eval()
		w.begin(mode, src)
		p := parseFrom(x.r, testURL, mode).convert()
		w.end()
		if !sameOutcome(o, p) {
			w.violate("another result over a "+x.name+": "+p.String()+", not "+o.String(), mode, src, nil)
			return
		}
	}
	w.count("readers_compared", len(rs))
}

func c02(c *Check) {
	c.rule = "for each text, the reader is made to fail at every single read (or a sample of the reads of long texts), at the first read at the end of the text too, with several errors; the result must be an encoding error wrapping exactly that error, without a tree, and without another call of the reader. Without faults, a contract-checking reader records pushbacks, and the result over nine kinds of readers is compared. Non-trivial: a fault that was delivered; distinct: by mode, text and read."
	faults := []error{errors.New("fault"), io.ErrUnexpectedEOF, io.ErrNoProgress, os.ErrClosed, &fmtFault{"own"}, fmt.Errorf("wrapped: %w", io.ErrClosedPipe), bufio.ErrInvalidUnreadRune, &errs.SyntaxError{Err: errors.New("fault")}, errors.New("EOF"), errors.New("")}
	seeds := append(append(append([]string{}, scriptSeeds...), moduleSeeds...), exprSeeds...)
	seeds = append(seeds, unimplemented...)
	seeds = append(seeds, "a /* b */ c", "a // b\n", "'a\\\nb'", "/[a\\]/]/g", "1.5e+3", "0x1F", "a\r\nb", "a>>>=b", "...a", "a ? .5 : b", "=>", "<!--", "'\\u0041'", "\ufeffa", "a\\u0061", "𠮷 + 変数", "\xff\xfe", "a\xc3", "/* \xe2\x80 */")
	every := func(w *Worker, src, mode string, r *Rng, step int) {
		k := r.Intn(len(faults))
		for at := 1; ; at += step {
			if !w.fault(src, mode, at, faults[(at+k)%len(faults)]) {
				break
			}
		}
	}
	c.run("seeds", len(seeds), func(w *Worker, i int, r *Rng) {
		for _, m := range modeNames {
			for k := range faults {
				for at := 1; ; at++ {
					if !w.fault(seeds[i], m, at, faults[k]) {
						break
					}
				}
			}
			w.readers(seeds[i], m, r)
		}
		if i%16 == 0 {
			w.sample(map[string]any{"src": seeds[i], "faults": "at every read"})
		}
	})
	c.run("programs", c.n(3000), func(w *Worker, i int, r *Rng) {
		p := defaultProfile(5 + r.Intn(40))
		p.Stmt = r.Float()
		p.Module = r.Chance(0.3)
		t := genProgram(r, p, 1+r.Intn(3))
		toks, _, err := printTree(t, r, 0.1*r.Float())
		if err != nil {
			return
		}
		src := layout(toks, randomStyle(r), r).Src
		mode := modeOf(t)
		every(w, src, mode, r, 1+len(src)/400)
		w.readers(src, mode, r)
		txt := make([]string, len(toks))
		for k := range toks {
			txt[k] = toks[k].Text
		}
		bad := strings.Join(corrupt(txt, r), " ")
		every(w, bad, mode, r, 1+len(bad)/200)
		w.readers(bad, mode, r)
	})
	c.run("soup", c.n(20000), func(w *Worker, i int, r *Rng) {
		var b strings.Builder
		for n := 1 + r.Intn(10); n > 0; n-- {
			if r.Chance(0.3) {
				b.WriteString(pick(r, unimplemented))
			} else {
				b.WriteString(pick(r, vocabulary))
			}
			if r.Chance(0.5) {
				b.WriteByte(" \n\r"[r.Intn(3)])
			}
			if r.Chance(0.05) {
				b.WriteString(pick(r, []string{"\xff", "\xed\xa0\x80", "\xc3", "\ufffd", "'\ufffd'", "'\xff'", "/*\xff*/", "//\ufffd\n", "\x00", "\ufffe", "\U0010ffff", "/\xf0/"}))
			}
		}
		mode := pick(r, modeNames)
		every(w, b.String(), mode, r, 1)
		w.readers(b.String(), mode, r)
	})
	// Long inputs: faults far into the text, buffers of many sizes.
	files := corpus(c.n(40), 60000)
	c.run("files", len(files), func(w *Worker, i int, r *Rng) {
		b, err := os.ReadFile(files[i])
		if err != nil || len(b) > 200000 {
			return
		}
		for k := 0; k < 15; k++ {
			w.fault(string(b), "script", 1+r.Intn(len(b)), pick(r, faults))
		}
		w.readers(string(b), "script", r)
	})
	c.require("faults", 200000, "distinct", 100000, "readers_compared", 50000)
}
