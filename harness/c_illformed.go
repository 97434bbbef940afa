package main

import "strings"

func init() { checks["C14"] = c14 }

// seeds cover every production of the supported grammar in few tokens, so that
// every token of every production is corrupted systematically.
var scriptSeeds = strings.Split(`x;
var a = 1, b;
let a = 1, b;
const a = 1, b = 2;
var [a, , b = 1, ...c] = d;
var {a, b: c, d = 1, e: f = 2, ...g} = h;
if (a) b; else c;
if (a) { b }
do a; while (b);
while (a) b;
for (;;) a;
for (a; b; c) d;
for (var a = 1, b = 2; c; d) e;
for (a in b) c;
for (a of b) c;
for (var a in b) c;
for (var a of b) c;
for (var [a] of b) c;
for ([a, b] of c) d;
for (a.b in c) d;
switch (a) { case b: c; case d: break; default: e }
L: while (a) { continue L; break L; }
(function () { return a; });
throw a;
try { a } catch (b) { c }
try { a } finally { b }
try { a } catch { b } finally { c }
try { a } catch ({b, c: [d]}) { e }
function f(a, b = 1, ...c) { d }
function f([a, b], {c, d: e}) { }
class A { }
class A extends B { constructor(a) { b } static c() { } get d() { } set e(f) { } }
class A { 'a'() { } 1() { } [b]() { } ; static get c() { } }
(class A extends B { });
(class { static async() { } get() { } set() { } static() { } });
(function f(a) { });
(function* f(a) { });
(async function f(a) { });
(async function* (a) { });
a => b;
(a, b) => c;
(a = 1, [b, c], {d, e: f}, ...g) => h;
() => { };
async a => b;
async (a, b) => { c };
async (a, ...b) => c;
x = a => b, c;
a ? b => c : d;
(a, b, c);
a = b = c;
a += b;
a **= b;
a ??= b;
a ? b : c ? d : e;
a || b && c;
a ?? b;
a | b ^ c & d;
a == b != c;
a < b instanceof c in d;
a << b >> c >>> d;
a + b - c;
a * b / c % d;
a ** b ** c;
-a;
!typeof void a;
delete a.b;
++a;
a++;
a--;
new A;
new A(b, c);
new A.B();
new new A(b)(c);
a.b.c;
a[b][c];
a[b, c];
a();
a(b, ...c, d);
a(b)(c)[d].e;
[a, , b];
[, ];
[];
[a, b,];
[a, b] = c;
[a = 1, [b]] = c;
({a: b, c} = d);
({});
({a, b: c, 'd': e, 1: f, [g]: h});
({a() { }, get b() { }, set c(d) { }, async e() { }, *f() { }, async *g() { }});
({get, set, async, get: 1, set: 2, async: 3});
({get a() { }, get [b]() { }, get 'c'() { }, get 1() { }});
this;
null;
true;
'a';
1.5e3;
/a/g;
a / b / c;
{ a; { b } }
{ }
;
'use strict'; a;
a
b
a; function f() { 'use strict'; b }`, "\n")

var moduleSeeds = strings.Split(`import 'a';
import a from 'b';
import * as a from 'b';
import {a, b as c, default as d} from 'e';
import {} from 'a';
import {a,} from 'b';
import a, {b} from 'c';
import a, * as b from 'c';
import a from 'b'; import c from 'd'; e;`, "\n")

var exprSeeds = []string{"a, b", "a + b * c", "a ? b : c", "(a)", "a => b", "[a, b]", "{a: b}", "new A(b)", "a[b](c)", "function () { }", "class { }", "async () => a", "a = b"}

var vocabulary = strings.Fields("{ } ( ) [ ] . ... ; , < >= == === + - * / % ** ++ -- << & | ! ~ && || ?? ? : = += &&= -= *= /= %= **= <<= >>= >>>= &= ^= |= ||= ??= => a 1 's' /r/ if else do while for in of var let const function class extends new return break continue switch case default throw try catch finally this null true typeof delete instanceof import from as async get set static @ # \\ ` ' \" ${ 0x 1e 08 3in 1_ ..  enum export super with debugger yield await")

// Several tokens that belong together: what one more clause, operand, element,
// or header would be where the grammar has no room for it.
var phrases = func() (out [][]string) {
	for _, s := range strings.Split(`, x
x ,
; x
; ;
= x
= x , y
+= x
+ x
. x
. x ( )
=> x
=> { }
? x : x
: x
? x
of x
in x
of x of y
( )
( x )
( x , )
[ ]
[ x ]
{ }
{ x }
{ x ; y }
{ x , y }
... x
... [ x ]
... x = 1
... ... x
, ... x
case x :
case x , y : z
default :
default : default :
default : case x : default :
else x
else { }
else if ( x ) y
catch { }
catch ( x ) { }
catch ( x , y ) { }
finally { }
finally { } finally { }
as x
as x as y
* as x
from 's'
x :
x : y
x : y :
* x
* ( ) { }
async x
async * x
async function x ( ) { }
async x => y
async ( x ) => y
get x ( ) { }
set x ( y ) { }
static x ( ) { }
new x
new . x
extends x
extends x , y
extends { }
function x ( ) { }
function ( ) { }
function * x ( ) { }
class x { }
class { }
var x
var x = 1
let x
const x
const x = 1
var x of y
/ x /
/ x / g
++ x
-- x
x ++
x ++ ++
! x
- x ** y
x ?? y || z
x && y ?? z
if ( x ) y
while ( x )
while ( x ) y
do x while ( y )
for ( ; ; ) x
for ( ; ; ; ) x
for ( x of y , z ) a
for ( x in y ; z ) a
for ( ; ) x
L : x
L : function x ( ) { }
return x
throw x
break L
continue L
import 's'
import x from 's'
import ( 's' )
, { x }
, * as x
, x from 's'
( x ) => y
( x , y ) =>
( x , ( y ) ) => z
( ... x )
( ... x , y ) => z
( x ) ( y ) => z
[ x ] = y
{ x } = y
[ ... x , y ]
{ ... x , y }
{ x = 1 }
( { x = 1 } )
{ get x }
{ set }
{ async x }
{ * x }
{ x ( ) }
{ x : }
this = x
1 = x
x ( ) = y
( x , y ) = z
x ? y : z = a = b
x => y + z
x => { } + z
( x => y ) z
x => y ? z : a
typeof x ** y
delete x y
new x . y ( ) z
' '
1 . x
1 x`, "\n") {
		out = append(out, strings.Fields(s))
	}
	return
}()

func tokenize(src string) []string {
	// The seeds are written with white space and unambiguous tokens.
	var out []string
	rs := []rune(src)
	for i := 0; i < len(rs); {
		c := rs[i]
		switch {
		case c == ' ' || c == '\n':
			i++
			continue
		case isIDStart(c):
			j := i
			for j < len(rs) && isIDPart(rs[j]) {
				j++
			}
			out = append(out, string(rs[i:j]))
			i = j
		case c >= '0' && c <= '9':
			j := i
			for j < len(rs) && (isIDPart(rs[j]) || rs[j] == '.') {
				j++
			}
			out = append(out, string(rs[i:j]))
			i = j
		case c == '\'':
			j := i + 1
			for rs[j] != '\'' {
				j++
			}
			out = append(out, string(rs[i:j+1]))
			i = j + 1
		case c == '/' && strings.HasPrefix(string(rs[i:]), "/a/g"):
			out = append(out, "/a/g")
			i += 4
		default:
			n := 1
			for k := 4; k > 1; k-- {
				if i+k <= len(rs) && punctSet[string(rs[i:i+k])] {
					n = k
					break
				}
			}
			out = append(out, string(rs[i:i+n]))
			i += n
		}
	}
	return out
}

// C14: ill-formed programs.
func c14(c *Check) {
	c.rule = "systematic token corruptions of seed programs that cover every production (each token deleted, duplicated, swapped, replaced by and preceded by every word of a vocabulary, truncations), and random token and character corruptions of random programs; acorn decides which results match no production, and these must be rejected. Non-trivial: corruptions on which acorn and V8 decide; distinct: by source text."
	c.assume = append(c.assume, "acorn 8.19.0 is the oracle for ill-formedness; its static-semantics errors are not judged; a text is only reported if V8 rejects it too")
	type seed struct {
		mode string
		toks []string
	}
	var seeds []seed
	for _, s := range scriptSeeds {
		seeds = append(seeds, seed{"script", tokenize(s)})
	}
	for _, s := range moduleSeeds {
		seeds = append(seeds, seed{"module", tokenize(s)})
	}
	for _, s := range exprSeeds {
		seeds = append(seeds, seed{"expression", tokenize(s)})
	}
	type job struct{ s, pos int }
	var jobs []job
	for k, s := range seeds {
		for p := 0; p <= len(s.toks); p++ {
			jobs = append(jobs, job{k, p})
		}
	}
	c.count("seeds", len(seeds))
	c.count("seed_tokens", len(jobs))
	check := func(w *Worker, mode, src string, how string) {
		got, d, _ := w.judge(src, mode)
		if d != "" {
			w.violate(d, mode, src, map[string]any{"corruption": how})
			return
		}
		if got == judgedReject {
			w.note(mode + src)
		}
	}
	c.run("systematic", len(jobs), func(w *Worker, i int, r *Rng) {
		s, p := seeds[jobs[i].s], jobs[i].pos
		join := func(l ...[]string) string {
			var o []string
			for _, x := range l {
				o = append(o, x...)
			}
			return strings.Join(o, " ")
		}
		pre, post := s.toks[:p], s.toks[p:]
		check(w, s.mode, join(pre), "truncated")
		if p > 0 {
			check(w, s.mode, join(post), "beginning removed")
		}
		for _, v := range vocabulary {
			check(w, s.mode, join(pre, []string{v}, post), "inserted "+v)
			if len(post) > 0 {
				check(w, s.mode, join(pre, []string{v}, post[1:]), "replaced by "+v)
			}
		}
		for _, v := range phrases {
			t := strings.Join(v, " ")
			check(w, s.mode, join(pre, v, post), "inserted "+t)
			if len(post) > 0 {
				check(w, s.mode, join(pre, v, post[1:]), "replaced by "+t)
			}
		}
		if len(post) > 0 {
			check(w, s.mode, join(pre, post[1:]), "deleted")
			check(w, s.mode, join(pre, post[:1], post), "duplicated")
			for n := 2; n <= 4 && n <= len(post); n++ {
				check(w, s.mode, join(pre, post[n:]), "deleted several")
				check(w, s.mode, join(pre, post[:n], post), "duplicated several")
			}
		}
		if len(post) > 1 {
			check(w, s.mode, join(pre, post[1:2], post[:1], post[2:]), "swapped")
			check(w, s.mode, join(pre, []string{"\n"}, post), "line break")
		}
		// The rest of another seed.
		for n := 0; n < 6; n++ {
			o := pick(r, seeds)
			q := r.Intn(len(o.toks))
			check(w, s.mode, join(pre, o.toks[q:]), "spliced")
		}
		if i%211 == 0 {
			w.sample(join(pre, post[min(1, len(post)):]))
		}
	})
	c.run("random", c.n(6000), func(w *Worker, i int, r *Rng) {
		p := defaultProfile(8 + r.Intn(40))
		p.Stmt = r.Float()
		p.Module = r.Chance(0.2)
		t := genProgram(r, p, 1+r.Intn(3))
		toks, _, err := printTree(t, r, 0)
		if err != nil || len(toks) == 0 {
			return
		}
		for k := 0; k < 12; k++ {
			m := append([]Tok{}, toks...)
			for n := 1 + r.Intn(2)*r.Intn(3); n > 0 && len(m) > 0; n-- {
				j := r.Intn(len(m))
				switch r.Intn(8) {
				case 6, 7:
					rest := append([]Tok{}, m[j:]...)
					if len(rest) > 0 && r.Chance(0.4) {
						rest = rest[1:]
					}
					m = m[:j:j]
					for _, x := range pick(r, phrases) {
						m = append(m, Tok{Text: x, Kind: tkPunct})
					}
					m = append(m, rest...)
				case 0:
					m = append(m[:j:j], m[j+1:]...)
				case 1:
					m = append(m[:j+1:j+1], m[j:]...)
				case 2:
					h := r.Intn(len(m))
					m[j], m[h] = m[h], m[j]
				case 3:
					m[j] = Tok{Text: pick(r, vocabulary), Kind: tkPunct}
				case 4:
					m = append(m[:j:j], append([]Tok{{Text: pick(r, vocabulary), Kind: tkPunct}}, m[j:]...)...)
				case 5:
					if r.Chance(0.5) {
						m = m[:j]
					} else {
						m = m[j:]
					}
				}
			}
			st := Style{Canonical: true}
			if r.Chance(0.2) {
				st = Style{Minimal: true, NoASI: true}
			}
			check(w, modeOf(t), layout(m, st, r).Src, "tokens")
		}
		// Characters.
		src := []rune(layout(toks, Style{Minimal: r.Chance(0.5), Canonical: true, NoASI: true}, r).Src)
		const chars = "(){}[];,.:?=+-*/<>!&|^~'\"`\\@#$_a0 9\n%\t\u00b7\u2028\u0000"
		cs := []rune(chars)
		for k := 0; k < 6 && len(src) > 0; k++ {
			m := append([]rune{}, src...)
			j := r.Intn(len(m))
			switch r.Intn(3) {
			case 0:
				m = append(m[:j], m[j+1:]...)
			case 1:
				m[j] = pick(r, cs)
			case 2:
				m = append(m[:j:j], append([]rune{pick(r, cs)}, m[j:]...)...)
			}
			check(w, modeOf(t), string(m), "character")
		}
	})
	shapes := wideShapes("all")
	c.run("wide and deep", c.n(1500), func(w *Worker, i int, r *Rng) {
		t := randomWide(r, shapes, 1000)
		toks, _, err := printTree(t, r, 0)
		if err != nil || len(toks) == 0 {
			return
		}
		for k := 0; k < 4; k++ {
			m := append([]Tok{}, toks...)
			j := r.Intn(len(m))
			if r.Chance(0.3) {
				j = max(0, len(m)-1-r.Intn(8))
			}
			switch r.Intn(5) {
			case 0:
				m = append(m[:j:j], m[j+1:]...)
			case 1:
				m = append(m[:j+1:j+1], m[j:]...)
			case 2:
				m[j] = Tok{Text: pick(r, vocabulary), Kind: tkPunct}
			case 3:
				m = append(m[:j:j], append([]Tok{{Text: pick(r, vocabulary), Kind: tkPunct}}, m[j:]...)...)
			case 4:
				m = m[:j]
			}
			check(w, modeOf(t), layout(m, Style{Canonical: true}, r).Src, "tokens of a wide tree")
			w.count("wide_checked", 1)
		}
	})
	// What is wrong and what makes it wrong, or a list's other elements, are
	// far apart.
	c.run("far apart", 260, func(w *Worker, i int, r *Rng) {
		n := i
		if i >= 200 {
			n = 200 + r.Intn(3000)
		}
		at := r.Intn(n + 1)
		list := func(sep, item, bad string) string {
			l := make([]string, n+1)
			for k := range l {
				l[k] = item
			}
			l[at] = bad
			return strings.Join(l, sep)
		}
		gap := strings.Repeat(pick(r, []string{"case a: ", "case a: b; ", "case a: b; break; "}), n)
		front := strings.Repeat("case a: ", r.Intn(5))
		op := pick(r, strings.Fields("+= -= *= /= %= **= <<= >>= >>>= &= ^= |= &&= ||= ??="))
		for _, src := range []string{
			"switch (x) { " + front + "default: " + gap + "default: }",
			"switch (x) { " + front + "default: " + gap + "default: " + front + "}",
			"const " + list(", ", "a = 1", "b") + ";",
			"var " + list(", ", "a", "[b]") + ";",
			"let " + list(", ", "[a] = 1", "{b}") + ";",
			"[" + list(", ", "a", "b "+op+" 1") + "] = c;",
			"[" + list(", ", "a = 1", "b()") + "] = c;",
			"[" + list(", ", "a", "[b "+op+" 1]") + "] = c;",
			"({" + list(", ", "a: b", "c: d "+op+" 1") + "} = e);",
			"({" + list(", ", "a: b", "c() { }") + "} = e);",
			"({" + list(", ", "a", "get c() { }") + "} = e);",
			"({" + list(", ", "a", "if") + "});",
			"(" + list(", ", "a", "b "+op+" 1") + ") => c;",
			"(" + list(", ", "a", "(b)") + ") => c;",
			"(" + list(", ", "a", "[b.c]") + ") => c;",
			"(" + list(", ", "a", "...b") + ", c) => d;",
			"async (" + list(", ", "a", "b "+op+" 1") + ") => c;",
			"function f(" + list(", ", "a", "b "+op+" 1") + ") { }",
			"x = " + list(" || ", "a", "a ?? b") + ";",
			"x = " + list(" ?? ", "a", "a && b") + ";",
			"x = " + list(" * ", "a", "-a ** b") + ";",
			list(" = ", "a", "a + b") + " = c;",
			"({m(" + list(", ", "a", "...b") + ", c) { }});",
			"try { " + list("; ", "a", "b") + " }",
		} {
			check(w, "script", src, "far apart")
		}
		w.count("far_apart", 1)
	})
	p := c.gather(realFiles(c.n(600), 60000), 60, 600)
	if len(p.stmts) > 0 && len(p.exprs) > 0 {
		c.run("real programs", c.n(150000), func(w *Worker, i int, r *Rng) {
			if r.Chance(0.3) {
				check(w, "expression", p.mutate(pick(r, p.exprs), r), "real expression")
			} else {
				check(w, pick(r, []string{"script", "script", "module"}), p.mutate(pick(r, p.stmts), r), "real statement")
			}
		})
	}
	c.probeKnown()
	c.require("judged_rejected", 200000, "distinct", 150000)
}
