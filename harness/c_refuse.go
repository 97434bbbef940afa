package main

import (
	"fmt"
	"os"
	"regexp"
	"strings"
)

func init() { checks["C27"] = c27 }

// Valid ECMAScript that the parser does not implement. %e is an expression, %s
// a statement, %m a member expression, %n a name, and the words from z0 to z9
// are left alone.
var unimplementedExprs = lines(`´%n´
´a${%e}b´
´${%e}${%e}´
´a${´b${%e}´}´
´¶${%e}¶´
´$´
´{}´
´´
´\´´
%m´a´
%m´a${%e}´
%m´a´´b´
new %n´a´
%m?.%n
%m?.[%e]
%m?.(%e)
%m?.()
%m?.%n.%n
%m?.%n(%e)[%e]
%m.%n?.%n?.[%e]?.(%e)
%m[%e]?.%n
%m(%e)?.(%e)
delete %m?.%n
%m?.%n + %e
%m?.%n?.5:%e
%m?.in
(%m?.%n).%n
(%m?.%n)(%e)
!%m?.%n
1n
0n
0xFn
0b1n
0o7n
1_0n
-1n
1n + %e
[...%e]
[%e, ...%e]
[...%e, %e]
[...%e, ...%e]
[, ...%e, ]
[...[...%e]]
({...%e})
({%n: %e, ...%e})
({...%e, %n: %e})
({...%e, ...%e})
({%n, ...%e, get z1() { %s }})
({...{...%e}})
[...%n] = %e
[%n, ...%m.%n] = %e
[...[%n]] = %e
({...%n} = %e)
({%n, ...%m.%n} = %e)
({%n = %e} = %e)
({%n: z1, z2 = %e} = %e)
[{%n = %e}] = %e
(%n, {z1 = %e} = {}) => %e
({z1, ...z2}) => %e
([...[z1]]) => %e
(...[z1]) => %e
(...{z1}) => %e
(z1, ...[z2, z3]) => %e
async (...[z1]) => %e
({'a': z1}) => %e
({1: z1}) => %e
({[%e]: z1}) => %e
({[%e]: z1 = %e, z2}) => %e
({a: {'b': z1}}) => %e
(function ({'a': z1}) { %s })
(function ({[%e]: z1}) { %s })
(function (z1, ...[z2]) { %s })
(function (...{z1}) { %s })
/[a--b]/v
/(?<a>b)|(?<a>c)/
/(?i:a)/
(function () { new.target })
(function () { return new.target.%n })
(function () { new new.target(%e) })
(function () { () => new.target })
import(%e)
import(%e).%n(%e)
import('a').then(z1 => %e)
({ z1() { super.%n } })
({ z1() { super[%e](%e) } })
({ get z1() { return super.%n } })
({ z1() { return () => super.%n } })
(function* () { yield })
(function* () { yield %e })
(function* () { yield* %e })
(function* () { %n = yield })
(function* () { %n(yield, yield %e) })
(function* () { const z1 = yield; %s })
(function* () { yield¶%s })
(function* () { (yield %e).%n })
({ *z1() { yield %e } })
(async function () { await %e })
(async function () { (await %e).%n })
(async function () { %n(await %e) })
(async function () { await (%e) })
(async function () { await [%e] })
(async function () { await -%n })
(async function () { await +%n })
(async function () { await /a/g })
(async function () { return await %e })
(async function () { for await (z1 of %e) %s })
(async function () { for await (var z1 of %e) %s })
(async function () { for await (const z1 of %e) %s })
(async () => await %e)
(async () => { await %e })
async z1 => await %e
async z1 => { await (%e) }
async () => { await¶%n }
({ async z1() { await %e } })
({ async *z1() { yield await %e } })
(async function* () { yield await %e })
(async function* () { yield* %e })
(class { z1 })
(class { z1; })
(class { z1 = %e })
(class { z1 = %e; z2 })
(class { z1 = %e¶z2 = %e })
(class { z1¶z2() { %s } })
(class { static z1 })
(class { static z1 = %e; })
(class { 'z1' = %e })
(class { 1 = %e })
(class { [%e] = %e })
(class { get })
(class { set = %e })
(class { static })
(class { async; z1() { %s } })
(class { get¶z1() { %s } })
(class { static async = %e })
(class { #z1 })
(class { #z1 = %e; z2() { return this.#z1 } })
(class { #z1() { %s } z2() { this.#z1() } })
(class { static #z1() { %s } })
(class { get #z1() { %s } })
(class { #z1; z2(z3) { return #z1 in z3 } })
(class { static { %s } })
(class { static { } })
(class { z1() { %s } static { %s } z2() { %s } })
(class { async z1() { %s } })
(class { *z1() { %s } })
(class { async *z1() { %s } })
(class { static async z1() { %s } })
(class { static *z1() { %s } })
(class { static async *[%e]() { %s } })
(class { *'z1'() { %s } })
(class { async 1() { %s } })
(class { *get() { %s } })
(class { async static() { %s } })
(class { static async *static() { %s } })
(class extends %m { constructor() { super(%e) } })
(class extends %m { z1() { super.z1(%e) } })
(class { z1() { return super.z2 } })
(class { static z1() { super[%e] } })
\u0061b
z1\u0062
\u{7a}1
%m.\u0061
({\u0061: %e})
(function \u0061() { %s })
(class { \u0061() { %s } })
\u0061 => %e
(z1\u0062) => %e`)

// lines splits a list that is written one per line, in which ´ stands for a
// backquote and ¶ for a line feed.
func lines(s string) []string {
	var o []string
	for _, l := range strings.Split(s, "\n") {
		o = append(o, strings.NewReplacer("´", "`", "¶", "\n").Replace(l))
	}
	return o
}

var unimplementedStmts = []string{
	"for (let z1 of %e) %s", "for (const z1 of %e) %s", "for (let [z1, z2] of %e) { %s }", "for (const {z1, z2: z3} of %e) { %s }", "for (let z1 in %e) %s", "for (const z1 in %e) { %s }",
	"for (let z1 = 0; z1 < 9; z1++) %s", "for (let z1 = %e, z2; ; ) { %s }", "for (const z1 = %e; %n; ) %s", "for (let z1; ; ) %s", "for (var z1 = %e in %e) %s", "for (let [z1] = %e; ; ) %s", "for (let in %e) %s", "for (let.z1 in %e) %s", "for (let of %e; ; ) %s", "for (let z1, z2; %n; %n) %s", "for (let let1 of %e) %s", "for (let of of %e) %s", "for (let async of %e) %s",
	"async function z1() { %s }", "async function z1() { await %e }", "async function z1(z2 = %e) { return await %e }", "function* z1() { %s }", "function* z1() { yield %e }", "function *z1() { const z2 = yield* %e; }", "async function* z1() { %s }", "async function* z1() { for await (const z2 of %e) yield z2 }", "async function z1() { for await (z2 of %e); }",
	"debugger;", "debugger", "if (%e) debugger; else %s", "with (%e) %s", "with (%e) { %s }",
	"if (%e) function z1() { %s }", "if (%e) function z1() { } else function z2() { }", "if (%e) %s else function z1() { %s }", "z1: function z2() { %s }", "z1: z2: function z3() { }",
	"var {'a': z1} = %e;", "var {1: z1} = %e;", "var {[%e]: z1} = %e;", "var {z1: {'b': z2}} = %e;", "let {'a': z1 = %e} = %e;", "const [{[%e]: z1}] = %e;", "var [...[z1]] = %e, [...{z2}] = %e;", "try { %s } catch ({'a': z1}) { %s }", "try { %s } catch ({[%e]: z1}) { %s }", "try { %s } catch ([...[z1, z2]]) { %s }",
	"function z1({'a': z2}) { %s }", "function z1(...[z2]) { %s }", "function z1({[%e]: z2}) { %s }",
	"class z1 { z2 = %e; }", "class z1 { z2; z3() { %s } }", "class z1 { #z2; get z3() { return this.#z2 } }", "class z1 { static { %s } }", "class z1 { async z2() { %s } }", "class z1 { *z2() { %s } }", "class z1 extends %m { constructor() { super(%e); %s } }", "class z1 { static z2 = %e\nstatic z3 = %e }", "class z1 { static async *z2() { yield %e } }",
	"<!-- %n\n%s", "%s\n--> %n\n", "%s <!-- a", "/*\n*/ --> a\n%s", "var \\u0061 = %e;", "v\\u0061r1: %s", "l\\u0065t: %s",
	"`a`;", "`a${%e}`;", "%m`a`;", "%m?.%n;", "%m?.();", "import(%e);", "[...%n] = %e;", "({...%n} = %e);", "({%n = %e} = %e);", "return1: { debugger }", "using z1 = %e;", "{ using z1 = %e, z2 = %e; }", "for (using z1 of %e) %s", "async function z1() { await using z2 = %e; }", "async function z1() { for (await using z2 of %e) { %s } }",
}

var unimplementedItems = []string{
	"export default %e;", "export default function () { %s }", "export default function z1() { %s }", "export default class { }", "export default class z1 extends %m { }", "export default async function () { %s }", "export default async () => %e;", "export default [%e];", "export default {%n: %e};", "export default (%e, %e);",
	"export var z1 = %e;", "export let z1;", "export const z1 = %e, z2 = %e;", "export const {z1, z2: [z3]} = %e;", "export function z1() { %s }", "export function* z1() { %s }", "export async function z1() { %s }", "export class z1 { }",
	"export {};", "var z1; export {z1};", "var z1, z2; export {z1, z2 as z3};", "var z1; export {z1 as default};", "export * from 'a';", "export * as z1 from 'a';", "export {z1} from 'a';", "export {z1 as z2} from 'a';", "export {default} from 'a';", "export {default as z1, z2,} from 'a';", "export {'a' as z1} from 'b';", "export {z1 as 'a'} from 'b';", "export * as 'a' from 'b';", "var z1; export {z1 as 'a b'};",
	"import {'a' as z1} from 'b';", "import z1, {'a' as z2, z3} from 'b';", "import.meta;", "import.meta.%n;", "z1 = import.meta.url;", "import(%e);", "import('a');", "await %e;", "const z1 = await %e;", "for await (const z1 of %e) %s", "for await (z1 of %e) { %s }", "await (%e);", "await [%e];", "await import('a');", "import z1 from 'a' with {type: 'json'};", "import 'a' with {};", "import {z1} from 'a' with {'b': 'c',};", "export * from 'a' with {b: 'c'};", "export {z1} from 'a' with {};", "await using z1 = %e;", "import('a', {with: {}});",
}

var holeRE = regexp.MustCompile(`%[esmn]`)

// fragment prints a tree of the generator.
func fragment(tree M, r *Rng) string {
	toks, _, err := printTree(tree, r, 0)
	if err != nil {
		return "0"
	}
	return layout(toks, Style{Canonical: true}, r).Src
}

// fill fills the holes of a construct.
func fill(s string, r *Rng, depth int, mode string) string {
	return holeRE.ReplaceAllStringFunc(s, func(h string) string {
		p := defaultProfile(1 + r.Intn(5))
		p.Module = mode == "module"
		p.Words = 0
		g := newGen(r, p)
		switch h {
		case "%n":
			return pick(r, plainNames)
		case "%m":
			switch r.Intn(5) {
			case 0:
				return "this"
			case 1:
				return "a.b"
			case 2:
				return "(" + fragment(g.expr(), r) + ")"
			case 3:
				return "a[" + fragment(g.expr(), r) + "]"
			}
			return pick(r, plainNames)
		case "%e":
			if depth > 0 && r.Chance(0.25) {
				return "(" + fill(pick(r, unimplementedExprs), r, depth-1, mode) + ")"
			}
			if r.Chance(0.5) {
				return pick(r, []string{"a", "b.c", "1", "'s'", "/r/g", "[]", "{}.a", "(a, b)", "x => x", "f()", "-a", "a + b", "a ? b : c", "a = b", "function () { }", "class { }"})
			}
			return fragment(g.expr(), r)
		}
		if depth > 0 && r.Chance(0.25) {
			return fill(pick(r, unimplementedStmts), r, depth-1, mode)
		}
		if r.Chance(0.6) {
			return pick(r, []string{";", "a;", "{ }", "{ a; }", "if (a) b;", "a = 1;"})
		}
		return fragment(M{"type": "Program", "sourceType": "script", "body": []any{g.stmt()}}, r)
	})
}

// places are where an expression can be put.
var places = lines(`%
a = %
a, %, b
(%)
((%))
f(%)
f(a, %, b)
f(...%)
a[%]
(%).a
(%)(b)
new A(%)
[%]
[a, %, b]
({a: %})
({[%]: a})
({a, b: %, c})
% + a
a + %
a * %
a ** %
-(%)
!%
typeof %
void %
% ? a : b
a ? % : b
a ? b : %
% && a
a || %
a ?? %
a < %
% in a
a = b = %
a += %
x => %
(x = %) => a
(x, [y = %]) => a
({x = %}) => a
async x => %
x => { % }
(function (x = %) { })
(function () { return % })
(function* () { % })
(async function () { % })
(class { a() { % } })
(class extends (%) { })
(class { [%]() { } })
(class { a(x = %) { } })
({ a() { % } })
({ get a() { return % } })
({ a(x = %) { } })
[a = %] = b
[a[%]] = b
({a: b = %} = c)
if (%) a
if (a) %
if (a) b; else %
while (%) a
do %; while (a)
do a; while (%)
for (%; a; b) c
for (; %; ) a
for (; ; %) a
for (a in %) b
for (a of %) b
for (var a of %) b
for (a[%] of b) c
switch (%) { }
switch (a) { case %: b }
switch (a) { case b: % }
switch (a) { default: %; case b: }
throw %
try { % } catch { }
try { } catch (e) { % }
try { } catch ({a = %}) { }
try { } finally { % }
{ % }
{ a; % }
L: %
var x = %
var a, x = %, b
let x = %
const x = %
var [x = %] = a
var {x = %} = a
var {x: y = %} = a
function f() { % }
function f(x = %) { }
function f() { return % }
class A extends (%) { }
class A { a() { % } }
class A { [%]() { } }
'use strict'; %
a¶%
a++¶%
(%)¶(a)
a = (%) / b
(%) / a / b
// c¶%
/* c */ % /* d */`)

// containsType tells whether there is a node of a type in a tree.
func containsType(v any, typ string) bool {
	switch t := v.(type) {
	case []any:
		for _, e := range t {
			if containsType(e, typ) {
				return true
			}
		}
	case M:
		if typeOf(t) == typ {
			return true
		}
		for _, e := range t {
			if containsType(e, typ) {
				return true
			}
		}
	}
	return false
}

// dropEmptyAttributes makes trees of later versions comparable.
func dropEmptyAttributes(v any) {
	switch t := v.(type) {
	case []any:
		for _, e := range t {
			dropEmptyAttributes(e)
		}
	case M:
		if l, ok := t["attributes"].([]any); ok && len(l) == 0 {
			delete(t, "attributes")
		}
		for _, e := range t {
			dropEmptyAttributes(e)
		}
	}
}

// modern asks acorn for what a text means, in ECMAScript 2022 or, if it is not
// valid there, in the latest version acorn knows.
func (w *Worker) modern(src, mode string) *AcornRes {
	a := w.acorn.parse(src, mode)
	if !a.OK && !a.Internal {
		if b := w.acorn.do(AcornReq{Src: src, Mode: mode, Version: 100000000}); b.OK {
			dropEmptyAttributes(b.AST)
			return b
		}
	}
	return a
}

// refuse decides one text that may contain constructs that are not
// implemented.
func (w *Worker) refuse(src, mode, what string) {
	w.eval()
	a := w.modern(src, mode)
	if a.Internal || !a.OK {
		w.count("not_valid", 1)
		return
	}
	if a.HTML {
		// Without Annex B, <!-- is three operators.
		w.count("not_judged_html_like_comment", 1)
		return
	}
	why := unsupportedText(src, a)
	if why == "" {
		why = supported(a.AST)
	}
	if why == "" && !w.acorn.parse(src, mode).OK {
		why = "later than ECMAScript 2022"
	}
	o := w.parse(src, mode)
	d := misread(o, a)
	switch {
	case d != "":
		if mode == "module" && containsType(a.AST, "AwaitExpression") && o.Accepted() {
			// The recorded finding of C15: await is a name in modules.
			w.count("not_judged_await_in_module", 1)
			return
		}
		if !w.acorn.v8(src, mode).OK {
			w.count("not_judged_v8_disagrees", 1)
			return
		}
		min := src
		if len(src) < 2000 {
			min = shrinkText(src, func(s string) bool {
				a := w.modern(s, mode)
				return a.OK && !a.HTML && misread(w.parse(s, mode), a) != "" && w.acorn.v8(s, mode).OK && !(mode == "module" && containsType(a.AST, "AwaitExpression"))
			})
		}
		w.violate(d, mode, min, map[string]any{"construct": what, "not implemented": why})
		return
	case why == "":
		w.count("all_implemented", 1)
		return
	case o.Accepted():
		w.count("accepted_with_the_right_tree", 1)
	default:
		w.count("refused", 1)
		if o.kind() == "parser" {
			w.count("refused_as_unsupported", 1)
		}
	}
	w.note(mode + src)
	w.count("refused: "+why, 1)
}

// misread describes how an outcome misrepresents a valid text, or is "".
func misread(o *Outcome, a *AcornRes) string {
	switch k := o.kind(); k {
	case "tree":
		if o.TreeErr != "" {
			return "accepted, but the tree does not convert: " + o.TreeErr
		}
		if d := diff("", a.AST, o.Tree); d != "" {
			return "accepted, but misread: " + d
		}
	case "syntax", "parser":
		if !nilNode(o.Node) {
			return "an error together with a tree: " + o.String()
		}
		if o.message() == "" {
			return "an error without a message"
		}
	default:
		return "neither a tree nor a syntax or parser error: " + o.String()
	}
	return ""
}

// C27: what is not implemented is refused.
func c27(c *Check) {
	c.rule = fmt.Sprintf("%d expressions, %d statements and %d module items of ECMAScript 2022 that the parser does not implement, with random parts and nested in each other, are put in %d places, in place of names and between the statements of random programs, and into real programs; acorn tells whether the text is valid and what it means: the parser must refuse it with a syntax or parser error and no tree, or give acorn's tree. Non-trivial: a valid text with an unimplemented construct; distinct: by mode and text.", len(unimplementedExprs), len(unimplementedStmts), len(unimplementedItems), len(places))
	c.assume = append(c.assume, "acorn 8.19.0 (ECMAScript 2022, or the latest version for what is not valid there) is the oracle for what a text means; a text is only reported if V8 accepts it too", "that await is a name in modules is a recorded finding of C15", "HTML-like comments, which are optional (Annex B), are not judged")
	mode := func(r *Rng) string { return pick(r, []string{"script", "script", "module"}) }
	c.run("expressions", len(unimplementedExprs)*len(places), func(w *Worker, i int, r *Rng) {
		x, p := unimplementedExprs[i%len(unimplementedExprs)], places[i/len(unimplementedExprs)]
		for k := 0; k < 6; k++ {
			m := mode(r)
			w.refuse(strings.ReplaceAll(p, "%", fill(x, r, k, m)), m, x)
		}
		w.refuse(fill(x, r, 1, "expression"), "expression", x)
	})
	c.run("statements", len(unimplementedStmts)*c.n(400), func(w *Worker, i int, r *Rng) {
		x := unimplementedStmts[i%len(unimplementedStmts)]
		m := mode(r)
		s := fill(x, r, 1, m)
		w.refuse(s, m, x)
		w.refuse(strings.ReplaceAll(pick(r, []string{"a; %", "{ % }", "if (a) { % }", "while (a) { % }", "function f() { % }", "(function () { a; % })", "() => { % }", "switch (a) { case b: % }", "switch (a) { default: % }", "try { % } catch { }", "try { } finally { % }", "(class { a() { % } })", "({ get a() { % } })", "'use strict'; %", "function f() { 'use strict'; % }", "% a", "%\na", "do { % } while (a)", "L: { % }", "for (;;) { % }", "if (a) %", "if (a) b; else %", "while (a) %", "L: %", "do % while (a)", "async () => { % }", "(function* () { % })"}), "%", s), m, x)
	})
	c.run("module items", len(unimplementedItems)*c.n(300), func(w *Worker, i int, r *Rng) {
		x := unimplementedItems[i%len(unimplementedItems)]
		s := fill(x, r, 1, "module")
		w.refuse(s, "module", x)
		w.refuse(strings.ReplaceAll(pick(r, []string{"a; %", "import b from 'c'; %", "% import b from 'c';", "%\na", "function f() { } %", "'use strict'; %", "% %", "/* a */ % // b"}), "%", s), "module", x)
	})
	c.run("programs", c.n(40000), func(w *Worker, i int, r *Rng) {
		p := defaultProfile(5 + r.Intn(40))
		p.Stmt = r.Float()
		p.Module = r.Chance(0.3)
		t := genProgram(r, p, 1+r.Intn(4))
		toks, _, err := printTree(t, r, 0)
		if err != nil || len(toks) == 0 {
			return
		}
		m := modeOf(t)
		for k := 0; k < 6; k++ {
			l := append([]Tok{}, toks...)
			var what string
			j := r.Intn(len(l))
			if r.Chance(0.6) {
				// In place of a name.
				for n := 0; n < 20 && l[j].Kind != tkWord; n++ {
					j = r.Intn(len(l))
				}
				what = pick(r, unimplementedExprs)
				s := fill(what, r, 1, m)
				if r.Chance(0.4) {
					s = "(" + s + ")"
				}
				l[j] = Tok{Text: s, Kind: tkPunct}
			} else {
				// Between statements.
				for n := 0; n < 20 && l[j].Text != ";" && l[j].Text != "{" && l[j].Text != "}"; n++ {
					j = r.Intn(len(l))
				}
				what = pick(r, unimplementedStmts)
				if m == "module" && r.Chance(0.5) {
					what = pick(r, unimplementedItems)
				}
				l = append(l[:j+1:j+1], append([]Tok{{Text: fill(what, r, 1, m), Kind: tkPunct}}, l[j+1:]...)...)
			}
			w.refuse(layout(l, Style{Canonical: true}, r).Src, m, what)
		}
	})
	files := realFiles(c.n(4000), 200000)
	c.run("files", len(files), func(w *Worker, i int, r *Rng) {
		b, err := os.ReadFile(files[i])
		if err != nil {
			return
		}
		w.refuse(string(b), "script", files[i])
		w.refuse(string(b), "module", files[i])
	})
	p := c.gatherAll(files[:min(len(files), c.n(500))], 60, 600)
	if len(p.stmts) > 0 {
		c.run("pieces", c.n(150000), func(w *Worker, i int, r *Rng) {
			if len(p.exprs) > 0 && r.Chance(0.3) {
				w.refuse(p.mutate(pick(r, p.exprs), r), "expression", "")
			} else {
				w.refuse(p.mutate(pick(r, p.stmts), r), mode(r), "")
			}
		})
	}
	c.require("refused", 150000, "distinct", 120000)
}
