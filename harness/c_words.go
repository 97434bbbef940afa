package main

import (
	"encoding/json"
	"strings"
)

func init() { checks["C15"] = c15 }

// W stands for the word.
var namePositions = strings.Split(`(W);
W;
x = W;
W = 1;
W += 1;
W + 1;
1 + W;
[W];
[W, 1];
f(W);
f(...W);
({W});
({a, W});
({a: W});
({W} = x);
({a: W} = x);
[W] = x;
[a, W = 1] = x;
W++;
++W;
typeof W;
!W;
new W;
new W();
W.x;
W[0];
x[W];
W();
x ? W : y;
x ? y : W;
W ? x : y;
x, W;
W, x;
W => 0;
(W) => 0;
x => W;
async W => 0;
async (W) => 0;
async (a, W) => 0;
(a, W) => 0;
(W, a) => 0;
(...W) => 0;
async (...W) => 0;
([W]) => 0;
({W}) => 0;
({a: W}) => 0;
({W = 1}) => 0;
(W = 1) => 0;
(a = W) => 0;
for (W in x);
for (W of x);
for (W.y of x);
for (W;;);
for (;W;);
for (;;W);
for (x in W);
for (x of W);
for (var W in x);
for (var W of x);
for (var W = 1;;);
var W;
var W = 1;
var a, W = 1;
var a = W;
let W;
let W = 1;
const W = 1;
var [W] = x;
var [a, ...W] = x;
var [W = 1] = x;
var {W} = x;
var {W = 1} = x;
var {a: W} = x;
var {a, ...W} = x;
let {W} = x;
function W() { }
(function W() { });
(function* W() { });
(async function W() { });
function f(W) { }
function f(a, W) { }
function f(W = 1) { }
function f(a, ...W) { }
function f([W]) { }
function f({W}) { }
function f({a: W}) { }
function f(a = W) { }
(function (W) { });
(function* (W) { });
(async function (W) { });
class W { }
(class W { });
class A extends W { }
class A { m(W) { } }
({m(W) { }});
({set x(W) { }});
({*m(W) { }});
({async m(W) { }});
({[W]: 1});
class A { [W]() { } }
try { } catch (W) { }
try { } catch ([W]) { }
try { } catch ({a: W}) { }
W: ;
W: x;
W: { break W; }
W: while (x) continue W;
if (W) ;
while (W) ;
do ; while (W)
switch (W) { case W: }
throw W;
(function () { return W; });
W instanceof W;
W in W;
if (x) W;
W
x
x
W`, "\n")

func init() {
	// The last two pairs are on two lines.
	n := len(namePositions)
	namePositions = append(namePositions[:n-4:n-4], "W\nx", "x\nW")
}

var moduleNamePositions = []string{
	"import W from 'x';", "import {W} from 'x';", "import {a as W} from 'x';", "import * as W from 'x';", "import a, {W} from 'x';", "import W, * as a from 'x';", "import W, {a} from 'x';", "import {a, b as W,} from 'x';",
}

var propPositions = strings.Split(`x.W;
x.W.y;
x.W = 1;
x.W();
x.W++;
new x.W;
delete x.W;
x
.W
({W: 1});
({a, W: 1});
({W() { }});
({get W() { }});
({set W(v) { }});
({async W() { }});
({*W() { }});
({async *W() { }});
({W: a} = x);
({W: a}) => 0;
(class { W() { } });
(class { static W() { } });
(class { get W() { } });
(class { set W(v) { } });
(class { static get W() { } });
(class { static set W(v) { } });
var {W: a} = x;
var {W: [a]} = x;
let {W: a = 1} = x;
function f({W: a}) { }
try { } catch ({W: a}) { }
for (x.W in y);
for (x.W of y);
[x.W] = y;`, "\n")

var modulePropPositions = []string{"import {W as a} from 'x';", "import b, {W as a} from 'x';", "import {a, W as b} from 'x';"}

type wordCtx struct {
	name                   string
	mode                   string
	pre, post              string
	strict, inGen, inAsync bool
}

var wordCtxs = []wordCtx{
	{"sloppy", "script", "", "", false, false, false},
	{"strict script", "script", "'use strict';", "", true, false, false},
	{"strict script, second directive", "script", "'a'; \"use strict\"\n", "", true, false, false},
	{"not a directive", "script", "('use strict');", "", false, false, false},
	{"escaped directive", "script", "'use\\x20strict';", "", false, false, false},
	{"directive too late", "script", "x; 'use strict';", "", false, false, false},
	{"module", "module", "", "", true, false, false},
	{"sloppy function", "script", "function f0(){", "}", false, false, false},
	{"strict function", "script", "function f0(){'use strict';", "}", true, false, false},
	{"after strict function", "script", "function f0(){'use strict';}", "", false, false, false},
	{"after strict function expression", "script", "x=function(){'use strict';};", "", false, false, false},
	{"after strict arrow", "script", "x=()=>{'use strict';};", "", false, false, false},
	{"after strict method", "script", "({m(){'use strict';}});", "", false, false, false},
	{"after class", "script", "class A0{m(){}}", "", false, false, false},
	{"after class expression", "script", "x=class extends y{};", "", false, false, false},
	{"nested in strict", "script", "function f0(){'use strict'; function g0(){", "}}", true, false, false},
	{"nested after strict", "script", "function f0(){ function g0(){'use strict';} ", "}", false, false, false},
	{"arrow", "script", "()=>{", "}", false, false, false},
	{"strict arrow", "script", "()=>{'use strict';", "}", true, false, false},
	{"object method", "script", "({m(){", "}})", false, false, false},
	{"strict object method", "script", "({m(){'use strict';", "}})", true, false, false},
	{"getter", "script", "({get m(){", "}})", false, false, false},
	{"class method", "script", "class A0{m(){", "}}", true, false, false},
	{"class getter", "script", "(class{get m(){", "}})", true, false, false},
	{"constructor", "script", "class A0 extends B0{constructor(){", "}}", true, false, false},
	{"generator", "script", "(function*(){", "})", false, true, false},
	{"generator method", "script", "({*m(){", "}})", false, true, false},
	{"async function", "script", "(async function(){", "})", false, false, true},
	{"async method", "script", "({async m(){", "}})", false, false, true},
	{"async arrow", "script", "async()=>{", "}", false, false, true},
	{"async generator", "script", "(async function*(){", "})", false, true, true},
	{"async generator method", "script", "({async*m(){", "}})", false, true, true},
	{"function in generator", "script", "(function*(){function g0(){", "}})", false, false, false},
	{"function in async", "script", "(async function(){(function(){", "})})", false, false, false},
	{"arrow in generator", "script", "(function*(){()=>{", "}})", false, false, false},
	{"arrow in async", "script", "(async function(){()=>{", "}})", false, false, false},
	{"method in generator", "script", "(function*(){({m(){", "}})})", false, false, false},
	{"method in async", "script", "(async()=>{({m(){", "}})})", false, false, false},
	{"generator in async", "script", "(async function(){(function*(){", "})})", false, true, false},
	{"async in generator", "script", "(function*(){(async function(){", "})})", false, false, true},
	{"after generator", "script", "(function*(){});", "", false, false, false},
	{"after async", "script", "(async function(){});", "", false, false, false},
	{"after async arrow", "script", "x=async()=>{};", "", false, false, false},
	{"after async arrow expression", "script", "x=async y=>y;", "", false, false, false},
	{"after async method", "script", "({async m(){}});", "", false, false, false},
	{"after generator method", "script", "({*m(){}});", "", false, false, false},
	{"generator after nested function", "script", "(function*(){function g0(){}", "})", false, true, false},
	{"async after nested arrow", "script", "(async function(){()=>{};", "})", false, false, true},
	{"block", "script", "{", "}", false, false, false},
	{"strict block", "script", "'use strict';{", "}", true, false, false},
	{"function in module", "module", "function f0(){", "}", true, false, false},
	{"strict generator", "script", "(function*(){'use strict';", "})", true, true, false},
	{"module async", "module", "(async()=>{", "})", true, false, true},
}

// wordLayer is a construct around statements.
type wordLayer struct {
	pre, post string
	function  bool // what it holds is the body of a function
	gen       bool
	async     bool
	strict    bool // strict whatever is around it
}

var wordLayers = []wordLayer{
	{"function f0(){", "}", true, false, false, false},
	{"(function(){", "});", true, false, false, false},
	{"(function n0(a,b){", "})();", true, false, false, false},
	{"x=function(a=1,...c){", "};", true, false, false, false},
	{"(function*(){", "});", true, true, false, false},
	{"x=[function*n0(){", "}];", true, true, false, false},
	{"(async function(){", "});", true, false, true, false},
	{"x=async function n0(a){", "};", true, false, true, false},
	{"(async function*(){", "});", true, true, true, false},
	{"x=()=>{", "};", true, false, false, false},
	{"f((a,b)=>{", "});", true, false, false, false},
	{"x=a=>{", "};", true, false, false, false},
	{"x=async()=>{", "};", true, false, true, false},
	{"f(async a=>{", "},1);", true, false, true, false},
	{"x=async({a},[b]=[])=>{", "};", true, false, true, false},
	{"({m(){", "}});", true, false, false, false},
	{"x={a:1,*m(){", "},b:2};", true, true, false, false},
	{"({async m(){", "}});", true, false, true, false},
	{"({async*m(){", "}});", true, true, true, false},
	{"({get m(){", "}});", true, false, false, false},
	{"({set m(v){", "}});", true, false, false, false},
	{"({[k](){", "}});", true, false, false, false},
	{"class A0{m(){", "}}", true, false, false, true},
	{"(class{static m(){", "}});", true, false, false, true},
	{"(class{get m(){", "}n(){}});", true, false, false, true},
	{"class A0 extends B0{constructor(){", "}}", true, false, false, true},
	{"(class extends(function(){", "}){});", true, false, false, true},
	{"(class{[function(){", "}](){}});", true, false, false, true},
	{"function f0(a=function(){", "}){}", true, false, false, false},
	{"x=(a=function(){", "})=>0;", true, false, false, false},
	{"var {a=()=>{", "}}=x;", true, false, false, false},
	{"x={[()=>{", "}]:1};", true, false, false, false},
	{"{", "}", false, false, false, false},
	{"if(x){", "}", false, false, false, false},
	{"if(x);else{", "}", false, false, false, false},
	{"for(;;){", "}", false, false, false, false},
	{"for(var i0 in x){", "}", false, false, false, false},
	{"for(var i0 of x){", "}", false, false, false, false},
	{"while(x){", "}", false, false, false, false},
	{"do{", "}while(x);", false, false, false, false},
	{"try{", "}finally{}", false, false, false, false},
	{"try{}catch(e){", "}", false, false, false, false},
	{"try{}catch{", "}", false, false, false, false},
	{"try{}finally{", "}", false, false, false, false},
	{"switch(x){case 1:", "}", false, false, false, false},
	{"switch(x){case 1:default:x;", "}", false, false, false, false},
	{"l0:{", "}", false, false, false, false},
}

// randomWordCtx composes a context of layers, with other layers before it and
// in each of them.
func randomWordCtx(r *Rng) wordCtx {
	x := wordCtx{name: "random", mode: "script"}
	directive := func() string {
		switch r.Intn(8) {
		case 0:
			x.strict = true
			return pick(r, []string{"'use strict';", "\"use strict\"\n", "'a';'use strict';", "'use strict';'b';"})
		case 1:
			return pick(r, []string{"('use strict');", "'use\\x20strict';", "'use strict'+1;", "'use strict',x;", "'use strict '; ", "'use strict'.x;", "x;'use strict';", ";'use strict';"})
		}
		return ""
	}
	before := func() string {
		var b strings.Builder
		for k := r.Intn(3) * r.Intn(2); k > 0; k-- {
			l := pick(r, wordLayers)
			in := ""
			if l.function && r.Chance(0.4) {
				in = "'use strict';"
			}
			if r.Chance(0.4) {
				o := pick(r, wordLayers)
				in += o.pre + o.post
			}
			b.WriteString(l.pre + in + l.post)
		}
		return b.String()
	}
	if r.Chance(0.1) {
		x.mode, x.strict = "module", true
	}
	var pre, post strings.Builder
	pre.WriteString(directive())
	pre.WriteString(before())
	var posts []string
	for k := r.Intn(5); k > 0; k-- {
		l := pick(r, wordLayers)
		pre.WriteString(l.pre)
		posts = append(posts, l.post)
		x.strict = x.strict || l.strict
		if l.function {
			x.inGen, x.inAsync = l.gen, l.async
			pre.WriteString(directive())
		}
		pre.WriteString(before())
	}
	for i := len(posts) - 1; i >= 0; i-- {
		post.WriteString(posts[i])
		if r.Chance(0.2) {
			post.WriteString(before())
		}
	}
	x.pre, x.post = pre.String(), post.String()
	return x
}

func (x wordCtx) reserved(w string) bool {
	switch {
	case reservedAlways[w]:
		return true
	case w == "yield":
		return x.inGen
	case w == "await":
		return x.inAsync
	}
	for _, s := range reservedStrictList {
		if s == w {
			return x.strict
		}
	}
	return false
}

// C15: words.
func c15(c *Check) {
	c.rule = "the full table of words (every reserved, strict-only, contextual word, yield, await, and ordinary names) x positions (references, bindings, labels, property names, import names) x contexts (modes, directives, functions, generators, async functions, nested and preceding ones); acceptance and tree compared with acorn's, rejections only judged where the reservation rule of the property agrees. Non-trivial: judged entries; distinct: by source text."
	c.assume = append(c.assume, "acorn 8.19.0 and the reservation table of the harness are the oracle; static-semantics errors are not judged")
	words := append(append(append([]string{}, reservedAlwaysList...), reservedStrictList...), neverReservedList...)
	words = append(words, "yield", "await", "foo", "yields", "undefined", "constructor", "prototype")
	type pos struct {
		tpl  string
		name bool
		mod  bool
	}
	var ps []pos
	for _, p := range namePositions {
		ps = append(ps, pos{p, true, false})
	}
	for _, p := range propPositions {
		ps = append(ps, pos{p, false, false})
	}
	for _, p := range moduleNamePositions {
		ps = append(ps, pos{p, true, true})
	}
	for _, p := range modulePropPositions {
		ps = append(ps, pos{p, false, true})
	}
	c.count("words", len(words))
	c.count("positions", len(ps))
	c.count("contexts", len(wordCtxs))
	place := func(tpl, w string) string {
		var b strings.Builder
		rs := []rune(tpl)
		for i, ch := range rs {
			if ch == 'W' && (i+1 == len(rs) || !isIDPart(rs[i+1])) && (i == 0 || !isIDPart(rs[i-1])) {
				b.WriteString(w)
			} else {
				b.WriteRune(ch)
			}
		}
		return b.String()
	}
	one := func(w *Worker, word string, p pos, x wordCtx) bool {
		src := x.pre + place(p.tpl, word) + x.post
		ya := word == "yield" || word == "await"
		got, d, a := w.judgeYA(src, x.mode, !ya || x.reserved(word) && !x.strict && p.tpl != "class A { m(W) { } }")
		if got == judgedReject && p.name && x.reserved(word) {
			w.count("reserved_names_rejected", 1)
		}
		if got == judgedAccept && d == "" {
			if p.name {
				w.count("names_accepted", 1)
			} else {
				w.count("property_names_accepted", 1)
			}
		}
		if d != "" {
			w.violate(d, x.mode, src, map[string]any{"word": word, "position": p.tpl, "context": x.name, "acorn": a.Err})
			if w.stop() {
				return false
			}
		}
		if got != notJudged {
			w.note(x.mode + src)
		}
		return true
	}
	c.run("table", len(words)*len(ps), func(w *Worker, i int, r *Rng) {
		word, p := words[i/len(ps)], ps[i%len(ps)]
		for _, x := range wordCtxs {
			if p.mod && (x.mode != "module" || x.pre != "") {
				continue
			}
			if !one(w, word, p, x) {
				return
			}
		}
		if i%733 == 0 {
			w.sample(place(p.tpl, word))
		}
	})
	// Contexts in contexts, with things before.
	c.run("random contexts", c.n(60000), func(w *Worker, i int, r *Rng) {
		x := randomWordCtx(r)
		for k := 0; k < 5; k++ {
			p := pick(r, ps)
			if p.mod {
				continue
			}
			if !one(w, pick(r, words), p, x) {
				return
			}
			w.count("random_contexts", 1)
		}
	})
	// Names that only look like words, and expression mode.
	c.run("expression mode", len(words), func(w *Worker, i int, r *Rng) {
		for _, tpl := range []string{"W", "(W)", "x + W", "x.W", "{W: 1}", "{W}", "W => W", "(W) => 0", "function () { W; }", "function () { 'use strict'; W; }", "function* () { W; }", "async function () { W; }"} {
			src := place(tpl, words[i])
			ya := words[i] == "yield" && strings.Contains(tpl, "*") || words[i] == "await" && strings.Contains(tpl, "async") || words[i] != "yield" && words[i] != "await"
			_, d, _ := w.judgeYA(src, "expression", ya)
			if d != "" {
				w.violate(d, "expression", src, nil)
			}
		}
	})
	c.probeKnown()
	c.require("reserved_names_rejected", 100000, "names_accepted", 50000, "random_contexts", 100000, "property_names_accepted", 50000)
}

// probeKnown runs the recorded findings of this property: each must still fail
// in the recorded way; it is then reported as a known finding.
func (c *Check) probeKnown() {
	for _, k := range c.known {
		w := c.worker(0)
		o := w.parse(k.Src, k.Mode)
		a := w.acorn.parse(k.Src, k.Mode)
		c.eval()
		if k.Value != "" {
			var l struct{ Value any }
			json.Unmarshal(o.JSON, &l)
			if l.Value != k.Value {
				c.mu.Lock()
				c.knownHits[k.line()] = k.line()
				c.mu.Unlock()
			} else {
				c.count("known_findings_that_no_longer_fail", 1)
			}
			continue
		}
		if o.Accepted() != a.OK || o.Accepted() && diff("", a.AST, o.Tree) != "" {
			c.mu.Lock()
			c.knownHits[k.line()] = k.line()
			c.mu.Unlock()
		} else {
			c.count("known_findings_that_no_longer_fail", 1)
		}
	}
}
