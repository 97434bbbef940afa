package main

import "strings"

func init() { checks["C30"] = c30 }

// inFrames are constructs with an operand: an `in` in the operand of an open
// one belongs to the for head that the construct is in, and in a closed one to
// the operand.
var inOpen = lines(`%
a = %
a += %
a = b = %
[a] = %
({a} = %)
a ? b : %
a ? b ? c : d : %
a ? b : c ? d : %
a || %
a && %
a ?? %
a | % 
a ^ %
a & %
a == %
a !== %
a < %
a instanceof %
a << %
a >>> %
a + %
a - %
a * %
a / %
a % %
a ** %
!%
-%
+ %
~%
typeof %
void %
delete %
new a, %
a, %
% , a
% || a
% && b
% ?? b
% | a
% ^ a
% & a
% == a
% !== a
% < a
% instanceof a
% ? a : b
a => %
(a) => %
(a, {b}, [c] = d) => %
async => %
async a => %
async (a) => %
a => b => %
a.b = %
a[b] = %
a().c = %
x(a) / %
++a, %
a++ + %
/r/ + %
'in' + %
{}.a + %
function () {} , %`)

var inClosed = lines(`(%)
[%]
[a, %, b]
[, %]
({a: %})
({[%]: a})
({a, b: %, c})
a[%]
a[%] = b
a(%)
a(b, %, c)
a(...%)
new a(%)
new a[%]
new (%)
(a, %)
(%) => a
(a = %) => b
([a = %]) => b
({a = %}) => b
a => { % }
a => { return % }
(a) => { b; % }
async a => { % }
function () { % }
(function (a = %) { })
(function (a, {b = %}) { })
(function () { return % })
(function () { for (%;;) ; })
(function () { for (;%;) ; })
(function () { for (a of %) ; })
(function () { for (a in %) ; })
(function () { if (%) ; })
({a() { % }})
({get a() { % }})
({a(b = %) { }})
(class { a() { % } })
(class { [%]() { } })
(class extends (%) { })
a ? % : b
a ? b ? % : c : d
a ? (%) : b
a[b](%).c
a.b(%)[c]
[a = %] = b
({a: b = %} = c)
/[(]/[%]`)

// What is in for heads: % is the expression.
var inHeads = lines(`for (%;;) ;
for (%; a; b) ;
for (;%;) ;
for (;;%) ;
for (a;%;%) ;
for (var x = %;;) ;
for (var x = a, y = %;;) ;
for (var x = %, y = a;;) ;
for (var [x] = %;;) ;
for (var {x} = %;;) ;
for (var {x = %} = a;;) ;
for (var [x = %] = a;;) ;
for (var [x = %] in a) ;
for (var {x = %} in a) ;
for (var {x, y: [z = %]} of a) ;
for (%) ;
for (% of a) ;
for (% in a) ;
for (x in %) ;
for (var x in %) ;
for (var x in % of a) ;
for (x of %) ;
for (var x of %) ;
for (var x = % of a) ;
for (var x = % in a) ;
for (var x = a, y = % in a) ;
for (a[%] in b) ;
for (a(%).b in c) ;
for (a[%] of b) ;
for ((a[%]) in b) ;
for ([a[%]] of b) ;
for ({a: b[%]} of c) ;
for ([a = %] of b) ;
for ([a = %] in b) ;
for (x = %;;) for (y = a in b;;) ;
for (;;) for (%;;) ;
for (a in b) for (%;;) ;
for (a of b) for (;;%) ;
if (a) for (%;;) ; else b in c
for (%;;) { a in b }
for (;;) { for (%;;) ; } a in b
for (a;;) ; x = %;
var x = %; for (a;;) ;
while (%) for (a;;) ;
a: for (%;;) continue a;
switch (a) { case %: for (;;) break }
x => { for (%;;) ; }
for (var x = function () { % };;) ;
for (x = () => { for (%;;) ; };;) ;
for (x = a => { b in c }, %;;) ;`)

var inLeaves = lines(`a in b
a in b in c
a in b < c
a < b in c
'a' in b
/a/ in b
a.b in c
a[0] in b()
[] in a
{} in a
a + b in c + d
!a in b
a in {}
a in function () {}
a in b ? c : d
a++ in b
0 in a
this in a
a instanceof b
a
a.in
{in: a}
'in'`)

// The tokens of short for heads.
var headTokens = strings.Fields("var let of in async a b = ; , ( ) [ ] { } . => : ... 1 'c' const + new function/**/()/**/{}")

func c30(c *Check) {
	c.rule = "for statements whose heads hold expressions with `in` behind and inside of every kind of operand, to any depth, and every short sequence of tokens in the head; acorn (and V8, before anything is reported) decides which kind of loop each is, what its parts are, and which are none. Non-trivial: texts on which a decision was made; distinct: by source text."
	c.assume = append(c.assume, "acorn 8.19.0 is the oracle for trees and ill-formedness; its static-semantics errors are not judged; a text is only reported as wrongly accepted or rejected if V8 agrees with acorn")
	check := func(w *Worker, mode, src string) {
		got, d, a := w.judge(src, mode)
		if d != "" {
			w.violate(d, mode, src, nil)
			return
		}
		if got == notJudged {
			return
		}
		w.note(mode + src)
		if got == judgedReject {
			return
		}
		walkTree(a.AST, func(n M) {
			switch typeOf(n) {
			case "ForStatement", "ForInStatement", "ForOfStatement":
				w.count(typeOf(n), 1)
			case "BinaryExpression":
				if str(n, "operator") == "in" {
					w.count("in_operators", 1)
				}
			}
		})
	}
	put := func(f, e string) string { return strings.ReplaceAll(f, "%", e) }
	// "a % %" is the remainder.
	frame := func(f, e string) string {
		if f == "a % %" {
			return "a % " + e
		}
		return put(f, e)
	}
	all := append(append([]string{}, inOpen...), inClosed...)
	// Every frame in every frame, in a few heads each; every frame in every head.
	c.run("pairs of frames", len(all), func(w *Worker, i int, r *Rng) {
		for _, f := range all {
			e := frame(all[i], frame(f, "a in b"))
			for _, h := range []string{inHeads[0], "for (var x = %;;) ;", "for (var x = % in c) ;"} {
				check(w, "script", put(h, e))
			}
			check(w, "script", put(pick(r, inHeads), frame(all[i], frame(f, pick(r, inLeaves)))))
		}
	})
	c.run("frames in heads", len(all), func(w *Worker, i int, r *Rng) {
		for _, h := range inHeads {
			for _, l := range []string{"a in b", pick(r, inLeaves), pick(r, inLeaves)} {
				check(w, pick(r, []string{"script", "module"}), put(h, frame(all[i], l)))
			}
		}
	})
	c.run("deep", c.n(60000), func(w *Worker, i int, r *Rng) {
		e := pick(r, inLeaves)
		open := r.Chance(0.6)
		for k := 1 + r.Intn(7); k > 0; k-- {
			if open || r.Chance(0.5) {
				e = frame(pick(r, inOpen), e)
			} else {
				e = frame(pick(r, inClosed), e)
			}
		}
		if r.Chance(0.3) {
			e = frame(pick(r, inOpen), e)
		}
		src := put(pick(r, inHeads), e)
		if r.Chance(0.2) {
			src = put(pick(r, inHeads), "function () { "+src+" }")
		}
		if r.Chance(0.1) {
			src = strings.ReplaceAll(src, " in ", "\nin\n")
		}
		check(w, "script", src)
		if i%6000 == 0 {
			w.sample(clip(src, 200))
		}
	})
	// Every head of up to four tokens, and random longer ones.
	n := len(headTokens)
	c.run("short heads", n*n, func(w *Worker, i int, r *Rng) {
		a, b := headTokens[i/n], headTokens[i%n]
		tail := []string{") ;", ";;) ;", "in b) ;", "of b) ;", "= a in b) ;", "= a of b) ;", "= a;;) ;"}
		for _, t := range tail {
			check(w, "script", strings.Join([]string{"for (", a, t}, " "))
			check(w, "script", strings.Join([]string{"for (", a, b, t}, " "))
		}
		for _, x := range headTokens {
			for _, t := range tail {
				check(w, "script", strings.Join([]string{"for (", a, b, x, t}, " "))
			}
		}
	})
	c.run("random heads", c.n(60000), func(w *Worker, i int, r *Rng) {
		var t []string
		for k := 2 + r.Intn(9); k > 0; k-- {
			x := pick(r, headTokens)
			if r.Chance(0.3) {
				x = pick(r, []string{"a", "b", "in", "of", "var", "=", "[a]", "{a}", "{a: b}", "(a)", "(a, b)", "a.b", "a[b]", "a()", "[a = b]"})
			}
			if r.Chance(0.05) {
				x += "\n"
			}
			t = append(t, x)
		}
		check(w, "script", "for ( "+strings.Join(t, " ")+" "+pick(r, []string{")", ";;)", "; a; b)", "in a)", "of a)"})+" "+pick(r, []string{";", "{ }", "a in b", "", "for (;;) ;"}))
	})
	c.require("evaluations", 100000, "judged_accepted", 20000, "judged_rejected", 20000, "ForStatement", 5000, "ForInStatement", 2000, "ForOfStatement", 1000, "in_operators", 10000)
}

// walkTree calls f with every node of a tree.
func walkTree(v any, f func(M)) {
	switch t := v.(type) {
	case []any:
		for _, e := range t {
			walkTree(e, f)
		}
	case M:
		if typeOf(t) != "" {
			f(t)
		}
		for _, e := range t {
			walkTree(e, f)
		}
	}
}
