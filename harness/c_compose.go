package main

import (
	"fmt"
	"strings"

	"github.com/jchv/cleansheets/ecmascript/ast"
)

func init() { checks["C28"] = c28 }

// What a construct means is decided by the construct: a text is parsed on its
// own and again in front of, behind and inside of other constructs. The parser
// is compared with itself, so that no reference parser is needed and every text
// counts, also what no other parser would judge.

// hole stands for the text in a frame.
const hole = "zzHole"

// frame is what goes before and after the text.
type frame struct{ pre, post string }

func frames(s string) (l []frame) {
	for _, x := range strings.Split(strings.TrimSpace(s), "\n") {
		a, b, _ := strings.Cut(x, "%")
		l = append(l, frame{strings.TrimRight(a, " "), "\n" + b})
	}
	return
}

// What statements are put in. A frame ends right before the first token of the
// text and goes on, on another line, with a token that ends a statement list.
var (
	blockFrames = frames(`{%}
if (a) {%}
if (a) {} else {%}
while (a) {%} b
do {%} while (a)
for (;;) {%}
for (var a in b) {%} 'c'
for (a of b) {%}
for (var a = function () {}, b; c in d; e) {%}
try {%} catch {}
try {%} catch (a) {} finally {}
try {} catch (a) {%}
try {} catch ({a, b: [c]}) {%} finally {}
try {} finally {%}
zzLabel: {%}
b1: c1: for (;;) {%}
a; b = /[/]}/; {%}
(a, b) => {}; {%}
({a = 1, ...b} = c); [a, ...b] = c; {%} d
/* { */ {%} // }`)
	lineFrames = frames(`%var zzNext;
%if (a) b; else c
%{ }
%const zzNext = 1
%throw a
%class A { }
%for (;;) ;`)
	switchFrames = frames(`switch (a) {case b:%}
switch (a) {default:%case 1: c }
switch (a) { case c: case (d, e):%default: }`)
	functionFrames = frames(`function a() {%}
function a(b, {c = 1}, [d], ...e) {%} f
(function () {%})
(function a(b = function () { }) {%}).c
() => {%}
a => {%}; b
(a, b = 1, {c}, ...d) => {%}
(a, b, () => {%})
a(b, (c) => {%}, d)
[a, function () {%}]
({ a() {%} })
({ get a() {%}, b })
({ a: 1, set [b](c) {%}, ...d })
({ a: () => {%} })
a = (b) => (c) => {%}
if (a) (b ? function () {%} : c)
x: for (a = () => {%}; b; c) ;
function a() { 'use strict'; } function b() {%}
async () => {}; function b() {%}
function* a() { } () => {%}
(class { a() { } }, function () {%})
(async function () {%})
(function* () {%})
a = async function* b(c) {%}
async () => {%}
async a => {%}
async (a, b) => {%}
({ async a() {%} })
({ *a() {%}, b })
({ async *a() {%} })`)
	// In strict code only.
	classFrames = frames(`class A { b() {%} }
class A extends B { static c(d) {%} e() { } }
(class { get a() {%} })
(class { constructor() {%} })
class A { static [b]() {%} set c(d) { } }`)
)

// What expressions are put in.
var (
	commaFrames = frames(`(%)
(a, (%), b)
a = (%);
if (%) b
if (%) { } else c
while (%) ;
do ; while (%)
for (;%;) ;
for (;;%) ;
for (a in(%)) ;
switch (%) { case 1: }
switch (a) { case(%): b; default: }
a[%]
a[%] = b
new (%)
(%)()
-(%)
(%).b
typeof (%) + c
a => (%)
throw (%)
function b() { return (%) }
var a = (%), b`)
	strictFrames = frames(`class A extends (%) { }
(class { [(%)]() { } })
class B { static get [a + (%)]() { } }
class C { a(b = (%)) { } }
(class extends (class extends (%) { }) { })`)
	assignFrames = frames(`[%]
[a, %, b]
[a, , %, , ]
a = b =%
a += [%];
f(%)
f(a, %, b)
f(...%)
new F(%)
(a, %, b)
({ a:%})
({ a: 1, 'b':%, c })
({ [%]: a })
({ [%]() { } })
a ?%: b
var a =%, c
let {a =%} = b
const [a, b =%] = c
({ a =%} = b);
[a =%] = b
function f(a =%) { }
(a =%, b) => c
(function (a, {b =%}) { })
({ a({b: [c =%]}) { } })
for (a of[%]) ;
for (var a of[b, %]) ;
a, b,%, c
x ? (y) : (a, b) => [%]`)
)

// firstChar returns the character a text's first token begins with, or 0.
func firstChar(s string) rune {
	rs := []rune(s)
	for i := 0; i < len(rs); i++ {
		switch c := rs[i]; {
		case isWS(c) || isLT(c):
		case c == '/' && i+1 < len(rs) && rs[i+1] == '/':
			for i < len(rs) && !isLT(rs[i]) {
				i++
			}
		case c == '/' && i+1 < len(rs) && rs[i+1] == '*':
			for i += 3; i < len(rs) && !(rs[i-1] == '*' && rs[i] == '/'); i++ {
			}
		default:
			return c
		}
	}
	return 0
}

// directiveStart tells whether a text begins with a string: in front of other
// statements it is a directive, behind them it is not. Nor is there much to be
// said of a text without tokens.
func directiveStart(s string) bool {
	c := firstChar(s)
	return c == 0 || c == '\'' || c == '"'
}

// addLoc moves a location in a text to where it is when the text begins at base.
func addLoc(base, l ast.Location) ast.Location {
	if l.Row == 1 {
		l.Column += base.Column - 1
	}
	l.Row += base.Row - 1
	return l
}

// whereEnds returns the location of the end of a text.
func whereEnds(s string) ast.Location {
	rs := []rune(s)
	r, c := newLocator(rs).at(len(rs))
	return ast.Location{URI: testURL, Row: r, Column: c}
}

// alone is a text that was parsed on its own.
type alone struct {
	mode, src string
	o         *Outcome
	nodes     []*spanNode
	end       ast.Location
	read      int
}

func (w *Worker) alone(src, mode string) *alone {
	rd := newReader(src)
	w.begin(mode, src)
	a := &alone{mode: mode, src: src, o: parseFrom(rd, testURL, mode).convert(), end: whereEnds(src)}
	w.end()
	a.read = rd.maxPos
	if a.o.TreeErr != "" || a.o.Panic != nil {
		return nil // C01 and C03 report that
	}
	if a.o.Accepted() {
		a.nodes = nodesOf(a.o.Node)
		if mode != "expression" {
			a.nodes = a.nodes[1:]
		}
	}
	return a
}

// plug puts what was parsed alone in place of the hole of a tree.
func plug(v any, with any, list bool) any {
	switch t := v.(type) {
	case []any:
		o := []any{}
		for _, x := range t {
			if m, ok := x.(M); ok && list && m["type"] == "ExpressionStatement" && isHole(m["expression"]) {
				o = append(o, with.([]any)...)
				continue
			}
			o = append(o, plug(x, with, list))
		}
		return o
	case M:
		if isHole(t) && !list {
			return with
		}
		o := M{}
		for k, x := range t {
			o[k] = plug(x, with, list)
		}
		return o
	}
	return v
}

func isHole(v any) bool {
	m, ok := v.(M)
	return ok && m["type"] == "Identifier" && m["name"] == hole
}

// inFrame describes how the meaning of a text in a frame differs from what it
// means alone and what the frame means around something else; it is "" when it
// does not. The second result tells whether anything was compared.
func (w *Worker) inFrame(a *alone, f frame, mode string) (string, bool) {
	stmts := a.mode != "expression"
	fill := hole
	if stmts {
		fill += ";"
	}
	src := f.pre + a.src + f.post
	// The frame around the hole.
	h := w.alone(f.pre+fill+f.post, mode)
	if h == nil || !h.o.Accepted() {
		return "", false
	}
	base := whereEnds(f.pre)
	w.begin(mode, src)
	o := parseFrom(strings.NewReader(src), testURL, mode).convert()
	w.end()
	if !a.o.Accepted() {
		if a.o.Err == nil || o.Panic != nil {
			return "", false
		}
		if o.Err == nil {
			return fmt.Sprintf("rejected alone (%v), but accepted after %q", a.o.Err, clip(f.pre, 200)), true
		}
		l1, ok1 := errorLocation(a.o.Err)
		l2, ok2 := errorLocation(o.Err)
		if !ok1 || !ok2 {
			return "", false
		}
		want := addLoc(base, l1)
		cause := func(e error, l ast.Location) string {
			return strings.TrimPrefix(e.Error(), fmt.Sprintf("%v:%d:%d: ", l.URI, l.Row, l.Column))
		}
		if x, y := cause(a.o.Err, l1), cause(o.Err, l2); x != y {
			return fmt.Sprintf("alone the error is %q, in its surroundings it is %q", x, y), true
		}
		if want.Row != l2.Row || want.Column != l2.Column {
			return fmt.Sprintf("alone the error (%v) is at %d:%d, which is %d:%d in its surroundings, but it is at %d:%d", a.o.Err, l1.Row, l1.Column, want.Row, want.Column, l2.Row, l2.Column), true
		}
		return "", true
	}
	if !o.Accepted() {
		return fmt.Sprintf("accepted alone, but in its surroundings: %v", o), true
	}
	if o.TreeErr != "" {
		return "accepted, but the tree does not convert: " + o.TreeErr, true
	}
	var with any = a.o.Tree
	if stmts {
		with = list(a.o.Tree.(M), "body")
	}
	if d := diff("", plug(h.o.Tree, with, stmts), o.Tree); d != "" {
		return "the tree is not the one it has alone: " + d, true
	}
	// Spans.
	at, skip := -1, 1
	for i, n := range h.nodes {
		if n.typ == "Identifier" && n.detail == hole {
			at = i
		}
	}
	if at < 0 {
		return "", true
	}
	if stmts {
		at, skip = at-1, 2
	}
	got := nodesOf(o.Node)
	if mode != "expression" {
		got = got[1:]
	}
	if len(got) != len(h.nodes)-skip+len(a.nodes) {
		return fmt.Sprintf("the tree has %d nodes; alone there are %d, and %d around them", len(got), len(a.nodes), len(h.nodes)-skip), true
	}
	holeEnd := whereEnds(f.pre + fill)
	textEnd := addLoc(base, a.end)
	// moved tells where a location of the frame is when the text is in it.
	moved := func(l ast.Location) (ast.Location, bool) {
		if l.Row < base.Row || l.Row == base.Row && l.Column <= base.Column {
			return l, true
		}
		if l.Row < holeEnd.Row || l.Row == holeEnd.Row && l.Column <= holeEnd.Column {
			return l, false // where the text ends depends on the text
		}
		if l.Row == holeEnd.Row {
			l.Column += textEnd.Column - holeEnd.Column
		}
		l.Row += textEnd.Row - holeEnd.Row
		return l, true
	}
	same := func(x, y ast.Location) bool { return x.Row == y.Row && x.Column == y.Column && x.URI == y.URI }
	check := func(n *spanNode, start, end ast.Location, useStart, useEnd bool, g *spanNode, where string) string {
		if n.typ != g.typ || n.detail != g.detail {
			return fmt.Sprintf("%s: %s %s instead of %s %s", where, g.typ, g.detail, n.typ, n.detail)
		}
		if s := g.node.Span(); useStart && !same(start, s.Start) || useEnd && !same(end, s.End) {
			return fmt.Sprintf("%s: the span of %s %s is %d:%d to %d:%d, which should be %d:%d to %d:%d", where, g.typ, g.detail, s.Start.Row, s.Start.Column, s.End.Row, s.End.Column, start.Row, start.Column, end.Row, end.Column)
		}
		return ""
	}
	for i, n := range a.nodes {
		s := n.node.Span()
		if d := check(n, addLoc(base, s.Start), addLoc(base, s.End), true, true, got[at+i], "in the text"); d != "" {
			return d, true
		}
	}
	for i, n := range h.nodes {
		j := i
		if i >= at && i < at+skip {
			continue
		} else if i >= at+skip {
			j += len(a.nodes) - skip
		}
		s := n.node.Span()
		start, ok1 := moved(s.Start)
		end, ok2 := moved(s.End)
		if d := check(n, start, end, ok1, ok2, got[j], "around the text"); d != "" {
			return d, true
		}
	}
	return "", true
}

// nested puts frames into each other.
func nested(l []frame) (f frame) {
	for i := len(l) - 1; i >= 0; i-- {
		f.pre = l[i].pre + f.pre
		f.post += l[i].post
	}
	return
}

// stirring statements use everything the parser keeps track of: contexts,
// look-ahead, heads that may become parameters.
var stirring = lines(`function f() { 'use strict'; return 1 }
(function () { 'use strict' })
() => { 'use strict' };
({ a() { 'use strict' } });
function* g() { }
(function* () { })
async () => { };
async a => { };
async (a, b) => { 'use strict' };
(async function () { })
class A { static a() { } get b() { } set c(d) { } 'constructor'() { } }
class A extends (class { }) { static static() { } }
(a, b) => a;
(a, {b, c = 1}, [d, , ...e], ...f) => { };
((a, b), (c) => d, {e: 1});
async (a, b);
async (a, {b: c}) ;
async
async ()
a = /[/}]/g
a / b / c
a /= /=/g
{ }
{ { } { } }
x: y: z: for (;;) { continue x }
x: { break x }
for (var a = 0; a < 1; a++) ;
for (var a in b) ;
for (a in b in c) ;
for (a of b) for (c of d) ;
for (let in a) ;
for (var a = (b in c); ;) ;
for (var a = [b in c], d = function () { e in f } ;;) break
for (a = (b in c) ? (d in e) : f; ;) ;
for (a = () => { b in c }; ;) ;
({a: b = 1} = c)
[a, b = 1, ...c] = d
var {a, b: {c = 1}} = d
let
let = 1
let [a] = b
switch (a) { case 1: default: case 2: break }
switch (a) { }
try { } catch { }
try { } catch (a) { } finally { }
if (a) b; else c
if (a) if (b) c; else d
do ; while (a)
do { } while (a) b
return
return a
throw a
yield
yield = 1
await
static, implements
a ? b : c ? d : e
a ? (b) : (c) => d
a ? (b, c) : d => e
(((((((((((a)))))))))))
function f(a, b = 1, {c, ...d}, [e, , ...g], ...h) { return this }
(function a({b: {c: [d = 1]}}, ...e) { })
var [a, ...b] = c, {d, ...e} = f
[[[[[[[[[[[a]]]]]]]]]]]
({a: {b: {c: {d: function () { return function () { } } } } }})
'use strict'
"a"
1
;;;
a = function () { return /* { */ } // }
a => b => c => d
(a = b => c, d = (e, f) => { }) => g
((a) => { })()
new new A
new A()()
new (A())
a.b.c[d](e)
typeof void delete !a
a ** b ** c
a ?? b
-(-a) - -b
a++
--b
x = {get: 1, set: 2, static: 3, async: 4}
x = {get a() { }, set b(c) { }, async() { }, get() { }}
x = {[a]: b, 'c': d, 1: e}
x = {...a}
f(...a, ...b)`)

func c28(c *Check) {
	nf := len(blockFrames) + len(lineFrames) + len(switchFrames) + len(functionFrames) + len(classFrames) + len(strictFrames) + len(commaFrames) + len(assignFrames)
	c.rule = fmt.Sprintf("Random programs, expressions, and texts made from them by inserting, replacing, deleting and swapping tokens, are parsed on their own, and again behind other random programs and statements that use all the parser keeps track of (%d of them), and inside of %d frames, also nested in each other: the ESTree must be that of the surroundings with that of the text in it, node for node with the same spans, moved; and a text that is rejected must be rejected with the same message at the same place of it. Non-trivial: a text with at least three nodes, or at least five characters that are rejected; distinct: by text with surroundings.", len(stirring), nf)
	c.assume = append(c.assume, "a text is compared only in surroundings in which the language gives it the same meaning: directives, import declarations, words whose meaning depends on the kind of function, and closing braces of the surroundings are left out", "in surroundings, a rejected text is compared if the parser rejected it before reading its end")
	compare := func(w *Worker, a *alone, fs []frame, mode string) bool {
		w.eval()
		f := nested(fs)
		d, ok := w.inFrame(a, f, mode)
		if !ok {
			w.count("not_compared", 1)
			return false
		}
		what := "accepted"
		if !a.o.Accepted() {
			what = "rejected"
		}
		w.count(what+"_texts_compared", 1)
		w.count("nodes_compared", len(a.nodes))
		if d == "" {
			if len(a.nodes) >= 3 || !a.o.Accepted() && len(a.src) >= 5 {
				w.note(mode + f.pre + "\x00" + a.src + "\x00" + f.post)
			}
			return true
		}
		// Fewer frames, and less text.
		bad := func(fs []frame, s string) string {
			if s != a.src && a.mode != "expression" && directiveStart(s) {
				return ""
			}
			b := w.alone(s, a.mode)
			if b == nil || b.o.Accepted() != a.o.Accepted() || !a.o.Accepted() && f.post != "" && b.read >= len([]rune(s)) {
				return ""
			}
			d, _ := w.inFrame(b, nested(fs), mode)
			return d
		}
		for i := 0; i < len(fs); {
			less := append(append([]frame{}, fs[:i]...), fs[i+1:]...)
			if len(less) > 0 && bad(less, a.src) != "" {
				fs = less
			} else {
				i++
			}
		}
		s := a.src
		if a.o.Accepted() || f.post == "" {
			s = shrinkText(s, func(s string) bool { return bad(fs, s) != "" })
		}
		d2 := bad(fs, s)
		if d2 == "" {
			s, d2 = a.src, d
		}
		f2 := nested(fs)
		w.violate(d2, mode, f2.pre+s+f2.post, map[string]any{"text": s, "before": clip(f2.pre, 1000), "after": clip(f2.post, 1000)})
		return false
	}
	// before gives a program to put in front of a text.
	before := func(r *Rng, mode string) string {
		var s string
		switch r.Intn(3) {
		case 0:
			for n := 1 + r.Intn(4); n > 0; n-- {
				s += pick(r, stirring) + pick(r, []string{"\n", "\n;", ";", "\r\n\t", "; ; "})
			}
		case 1:
			s = pick(r, stirring)
		default:
			p := defaultProfile(5 + r.Intn(60))
			p.Stmt = r.Float()
			p.Module = mode == "module"
			toks, _, err := printTree(genProgram(r, p, 1+r.Intn(5)), r, r.Float()*0.2)
			if err != nil {
				return ""
			}
			s = layout(toks, randomStyle(r), r).Src
		}
		if directiveStart(s) {
			s = ";" + s
		}
		return s + pick(r, []string{"\n;;", "\r\n \t; ;", "/**/\n;\n;", "\u2028;;"})
	}
	words := func(s string, l ...string) bool {
		for _, x := range l {
			if strings.Contains(s, x) {
				return true
			}
		}
		return false
	}
	// fit gives frames for statements.
	fit := func(r *Rng, s, mode string, rejected bool) (l []frame) {
		function := !words(s, "await", "yield")
		n := 1 + r.Intn(3)
		if r.Chance(0.05) {
			n = 10 + r.Intn(50)
		}
		for ; n > 0; n-- {
			switch k := r.Intn(10); {
			case k < 4 && function:
				l = append(l, pick(r, functionFrames))
			case k < 5 && function && mode == "module":
				l = append(l, pick(r, classFrames))
			case k < 6 && !rejected:
				l = append(l, pick(r, switchFrames))
			default:
				l = append(l, pick(r, blockFrames))
			}
		}
		if !rejected && r.Chance(0.3) && !words(s, "let") {
			l = append(l, pick(r, lineFrames))
		}
		return
	}
	inFrames := func(w *Worker, r *Rng, s, mode string, toks []Tok) {
		if directiveStart(s) || strings.HasSuffix(s, "\r") {
			return
		}
		a := w.alone(s, mode)
		if a == nil {
			return
		}
		compare(w, a, []frame{{before(r, mode), ""}}, mode)
		if words(s, "import", "export") {
			return
		}
		if !a.o.Accepted() {
			if a.read >= len([]rune(s)) || toks == nil {
				return
			}
			// Nothing in it closes the frame.
			depth := 0
			for _, t := range toks {
				switch t.Text[0] {
				case '{':
					depth++
				case '}':
					depth--
				case '/', '\'', '"', '`', '$', '\\', '#', '@':
					if t.Kind != tkString && t.Kind != tkWord {
						return
					}
				}
				if depth < 0 {
					return
				}
			}
		}
		fs := fit(r, s, mode, !a.o.Accepted())
		if r.Chance(0.3) {
			fs = append([]frame{{before(r, mode), ""}}, fs...)
		}
		compare(w, a, fs, mode)
	}
	mutate := func(toks []Tok, r *Rng) []Tok {
		m := append([]Tok{}, toks...)
		for n := 1 + r.Intn(2); n > 0 && len(m) > 0; n-- {
			j := r.Intn(len(m))
			switch r.Intn(4) {
			case 0:
				m = append(m[:j:j], m[j+1:]...)
			case 1:
				m[j] = tokOf(pick(r, vocabulary))
			case 2:
				m = append(m[:j:j], append([]Tok{tokOf(pick(r, vocabulary))}, m[j:]...)...)
			case 3:
				h := r.Intn(len(m))
				m[j], m[h] = m[h], m[j]
			}
		}
		return m
	}
	c.run("stirring", len(stirring), func(w *Worker, i int, r *Rng) {
		// Every pair, and every one in every frame.
		if directiveStart(stirring[i]) {
			return
		}
		a := w.alone(stirring[i], "script")
		if a == nil {
			return
		}
		for _, s := range stirring {
			if directiveStart(s) {
				s = ";" + s
			}
			compare(w, a, []frame{{s + "\n;;", ""}}, "script")
		}
		if a.o.Accepted() {
			for _, l := range [][]frame{blockFrames, switchFrames, functionFrames, lineFrames} {
				for _, f := range l {
					if !words(stirring[i], "await", "yield") && !(len(f.pre) == 0 && stirring[i] == "let") {
						compare(w, a, []frame{f}, "script")
					}
				}
			}
		}
	})
	// The same, but a great many times.
	c.run("long", len(stirring)+c.n(60), func(w *Worker, i int, r *Rng) {
		block := func() string {
			if i < len(stirring) {
				return "{" + stirring[i] + "\n}\n"
			}
			p := defaultProfile(2 + r.Intn(8))
			p.Stmt = r.Float()
			toks, _, err := printTree(genProgram(r, p, 1), r, r.Float()*0.2)
			if err != nil {
				return ""
			}
			return "{" + layout(toks, Style{Minimal: true}, r).Src + "\n}\n"
		}
		x := block()
		if i >= len(stirring) {
			x += block()
		}
		if len(x) > 200 {
			return
		}
		one := w.alone(x, "script")
		if one == nil || !one.o.Accepted() {
			return
		}
		want := list(one.o.Tree.(M), "body")
		n := 10000 + r.Intn(1000)
		src := strings.Repeat(x, n)
		w.eval()
		w.begin("script", src)
		o := parseFrom(strings.NewReader(src), testURL, "script")
		w.end()
		d := ""
		if s, ok := o.Node.(ast.ScriptNode); !ok || !o.Accepted() {
			d = o.String()
		} else if len(s.Body) != n*len(want) {
			d = fmt.Sprintf("%d statements", len(s.Body))
		} else {
			for k := 0; k < 200 && d == ""; k++ {
				j := r.Intn(len(s.Body))
				if k < 2*len(want) {
					j = len(s.Body) - 1 - k
				}
				if x := diff("", want[j%len(want)], (&Outcome{Node: s.Body[j]}).convert().Tree); x != "" {
					d = fmt.Sprintf("statement %d differs: %s", j+1, x)
				}
			}
		}
		if d != "" {
			w.violate(fmt.Sprintf("%q is accepted, but %d of them in a row are not %d of what it is: %s", x, n, n, d), "script", src, nil)
			return
		}
		w.count("long_texts_compared", 1)
		w.count("repetitions", n)
	})
	c.run("programs", c.n(25000), func(w *Worker, i int, r *Rng) {
		p := defaultProfile(5 + r.Intn(50))
		p.Stmt = r.Float()
		p.Module = r.Chance(0.3)
		t := genProgram(r, p, 1+r.Intn(4))
		toks, _, err := printTree(t, r, r.Float()*0.1)
		if err != nil || len(toks) == 0 {
			return
		}
		mode := modeOf(t)
		l := layout(toks, randomStyle(r), r)
		if i%10000 == 0 {
			w.sample(clip(l.Src, 300))
		}
		inFrames(w, r, l.Src, mode, toks)
		for k := 0; k < 3; k++ {
			m := mutate(toks, r)
			inFrames(w, r, layout(m, randomStyle(r), r).Src, mode, m)
		}
	})
	c.run("unimplemented", len(unimplementedStmts)*c.n(150), func(w *Worker, i int, r *Rng) {
		s := fill(unimplementedStmts[i%len(unimplementedStmts)], r, 1, "script")
		inFrames(w, r, s, "script", nil)
		inFrames(w, r, s, "module", nil)
	})
	c.run("expressions", c.n(40000), func(w *Worker, i int, r *Rng) {
		p := defaultProfile(3 + r.Intn(50))
		p.Fn = r.Intn(4)
		p.Legacy = r.Chance(0.5)
		toks, _, err := printTree(newGen(r, p).seq(), r, r.Float()*0.1)
		if err != nil || len(toks) == 0 {
			return
		}
		if r.Chance(0.3) {
			toks = mutate(toks, r)
		}
		s := layout(toks, randomStyle(r), r).Src
		a := w.alone(s, "expression")
		if a == nil || strings.HasSuffix(s, "\r") || !a.o.Accepted() {
			return
		}
		// What means the same in strict code, too.
		strict := !p.Legacy && !words(s, append([]string{"await", "yield"}, reservedStrictList...)...)
		for k := 0; k < 4; k++ {
			f := []frame{pick(r, commaFrames)}
			if r.Chance(0.6) && a.o.Tree.(M)["type"] != "SequenceExpression" {
				f = []frame{pick(r, assignFrames)}
			}
			if strict && r.Chance(0.3) {
				f = []frame{pick(r, strictFrames)}
			}
			if !words(s, "await", "yield") && r.Chance(0.5) {
				f = append(fit(r, s, "script", true), f...)
			}
			if r.Chance(0.3) {
				f = append([]frame{{before(r, "script"), ""}}, f...)
			}
			compare(w, a, f, "script")
		}
	})
	c.require("long_texts_compared", 60, "accepted_texts_compared", 100000, "rejected_texts_compared", 50000, "distinct", 150000)
}
