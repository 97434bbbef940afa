package main

import "strings"

func init() { checks["C12"] = c12 }

var asiEndings = strings.Split(`x
x++
x--
--x
f()
a.b
a[0]
1
1.5
's'
/r/g
this
null
true
y=function(){}
y=class{}
y=()=>{}
y=()=>z
y={}
y=[]
!x
new X
new X()
typeof x
x,y
a?b:c
a=b
a+b
(a)
var v
var v=1
var v,w
let l1
let l1=1
const c1=1
var [p]=q
return
return x
throw x
break
break M
continue
continue M
do;while(x)
do{}while(x)
do x;while(y)
{}
{x}
if(x);
if(x)y
if(x){}
while(x)y
while(x){}
for(;;)y
for(a in b)y
for(var a of b){}
function g(){}
class K{}
switch(x){}
try{}finally{}
try{}catch{}
N:x
;
async
let
of
get
static
async x=>x
async()=>{}
async(x)
y=async function(){}
y=async
if(x)y;else z
if(x){}else{}
x=
x+
a.
x?y:
if(x)
if(x);else
while(x)
do
N:
return x+
return(x)
throw
new
typeof
var
({a:b})
delete x.y
(x)=>
x=>
[x]=
for(;;)
y=x=>({})
y=!function(){}()
y=/a/`, "\n")

var asiStarts = strings.Split(`y
1
't'
.5
.p
(y)
()
(y)=>z
[0]
[a]=b
{}
{a}
{a}=b
+y
-y
++y
--y
++
--
++y++
!y
~y
*y
**y
/y
/y/z
/y/g.z
/=y
,y
;y
;
=y
+=y
==y
<y
>y
?y:z
:y
in y
instanceof Y
of y
=>y
=>{}
&&y
??y
...y
if(y);
else y
while(y);
while(y)z
for(;;);
do;while(y)
var w2
let l2
let
let [l3]=y
const c2=1
function h(){}
function(){}
class J{}
return
return z
throw y
break
continue
case y:
default:
catch{}
finally{}
switch(y){}
try{}catch{}
this
null
new Y
typeof y
void y
delete y.z
async y=>y
async
async()=>y
async function(){}
async function h(){}
get
M2:y
M
)
]
}
as
from
set
static
yield
await
extends
@
y z
y.z()
'u'.v
"use strict"`, "\n")

var asiSeps = []string{"", " ", "\n", "\r", "\r\n", "\u2028", "\u2029", "/**/", "/*\n*/", "/*x\r*/", "//c\n", " ; ", "\n;\n", "\t/*\u2028*/ ", "\n\n", "/**/\n/**/"}

type asiCtx struct{ name, mode, pre, post string }

var asiCtxs = []asiCtx{
	{"loop body", "script", "function f(){M:while(1){", "}}"},
	{"loop body, more", "script", "function f(){M:while(1){", "\nq}}"},
	{"top", "script", "", ""},
	{"top, more", "script", "", "\nq"},
	{"module", "module", "", ""},
	{"after statement", "script", "k;", ""},
	{"arrow body", "script", "(()=>{", "})"},
	{"switch case", "script", "switch(k){case 1:", "}"},
	{"if", "script", "if(k)", ""},
	{"if else", "script", "if(k)", "\nelse q"},
	{"do", "script", "do ", "\nwhile(q)"},
	{"object method", "script", "({m(){", "}})"},
	{"class method", "script", "class C0{m(){", "}}"},
}

// C12: automatic semicolon insertion.
func c12(c *Check) {
	c.rule = "every joint of a statement ending, a separator (nothing, blanks, each line terminator, comments with and without line breaks, semicolons) and a following token sequence, in several contexts; acceptance and tree are compared with acorn's. Also random programs with every optional semicolon left out, compared with the generated tree. Non-trivial: joints on which acorn decides; distinct: by source text."
	c.assume = append(c.assume, "acorn 8.19.0 is the oracle for joints; its static-semantics errors are not judged", acornNote)
	nE, nS, nP := len(asiEndings), len(asiStarts)+1, len(asiSeps)
	c.count("endings", nE)
	c.count("starts", nS)
	c.count("separators", nP)
	full := c.Thorough
	c.run("joints", nE*nS, func(w *Worker, i int, r *Rng) {
		e := asiEndings[i/nS]
		s := ""
		if k := i % nS; k > 0 {
			s = asiStarts[k-1]
		}
		if strings.Contains(e, "async function") && strings.HasPrefix(s, "/") {
			// acorn 8.19.0 reads a regular expression here where the grammar
			// has a division.
			c.count("joints_skipped_acorn_bug", 1)
			return
		}
		for si, sep := range asiSeps {
			for ci, ctx := range asiCtxs {
				// In the quick tier, each joint with each separator gets three
				// of the contexts.
				if !full && (ci+si+i+int(c.Seed))%5 != 0 && ci > 1 {
					continue
				}
				src := ctx.pre + e + sep + s + ctx.post
				got, d, _ := w.judge(src, ctx.mode)
				if d != "" {
					w.violate(d, ctx.mode, src, map[string]any{"ending": e, "separator": sep, "next": s, "context": ctx.name})
					if w.stop() {
						return
					}
				}
				if got != notJudged {
					w.note(ctx.mode + src)
					w.count("joints_judged", 1)
				}
			}
		}
		if i%997 == 0 {
			w.sample(asiEndings[i/nS] + "\n" + s)
		}
	})
	randomTrees(c, "no semicolons", c.n(12000), func(r *Rng) (M, float64) {
		p := defaultProfile(20 + r.Intn(100))
		p.Stmt = 0.5 + r.Float()/2
		p.Module = r.Chance(0.2)
		return genProgram(r, p, 2+r.Intn(10)), 0
	})
	c.run("asi only", c.n(24000), func(w *Worker, i int, r *Rng) {
		p := defaultProfile(20 + r.Intn(100))
		p.Stmt = 0.5 + r.Float()/2
		p.Module = r.Chance(0.2)
		t := genProgram(r, p, 2+r.Intn(10))
		st := Style{OnlyASI: true}
		if r.Chance(0.5) {
			st = Style{OnlyASI: true, Newline: r.Float() * 0.5, Comment: r.Float() * 0.4}
		}
		if r.Chance(0.2) {
			st = Style{OnlyASI: true, Minimal: true}
		}
		w.observe(t, w.checkTree(t, r, 0, st), 3)
	})
	c.wide(c.n(1000))
	c.require("joints_judged", 100000, "semicolons_left_out", c.n(20000), "judged_accepted", 20000, "judged_rejected", 20000)
}
