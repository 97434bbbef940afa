package main

import (
	"fmt"
	"math"
	"math/big"
	"strconv"
	"strings"
)

func init() {
	checks["C06"] = c06
	checks["C07"] = c07
}

var litWhat = lexWhat{kinds: true, source: true, values: true}

// numCase lexes a text that starts with a number, and what follows.
func (w *Worker) numCase(src string, st *LexStats) {
	w.lexCompare(lexCase{src, never}, litWhat, st)
}

// estreeNumber parses the literal as an expression and compares the node.
func (w *Worker) estreeNumber(raw string) {
	v := numValue(raw)
	for _, f := range []struct{ pre, post, path string }{{"", "", ""}, {"[", "]", "elements"}, {"-", "", "argument"}, {"({", ": 1})", "key"}} {
		if f.path == "key" && strings.HasPrefix(raw, "0") && len(raw) > 1 && raw[1] >= '0' && raw[1] <= '9' {
			continue
		}
		src := f.pre + raw + f.post
		w.eval()
		o := w.parse(src, "expression")
		bad := func(d string) { w.violate(d, "expression", src, map[string]any{"want_value": fmt.Sprint(v)}) }
		if !o.Accepted() || o.TreeErr != "" {
			bad("valid number not accepted: " + o.String())
			continue
		}
		n, _ := o.Tree.(M)
		switch f.path {
		case "elements":
			if l := list(n, "elements"); len(l) == 1 {
				n, _ = l[0].(M)
			}
		case "argument":
			n = sub(n, "argument")
		case "key":
			if l := list(n, "properties"); len(l) == 1 {
				n = sub(l[0].(M), "key")
			}
		}
		if typeOf(n) != "Literal" {
			bad("not a literal: " + short(n))
			continue
		}
		if str(n, "raw") != raw {
			bad(fmt.Sprintf("raw text %v, want %s", n["raw"], raw))
		}
		got, isNum := n["value"].(float64)
		switch {
		case math.IsInf(v, 1):
			// JSON has no infinity.
			if n["value"] != nil {
				bad(fmt.Sprintf("value %v, want the JSON null that stands for infinity", n["value"]))
			}
		case !isNum || got != v:
			bad(fmt.Sprintf("value %v, want %v", n["value"], v))
		}
		w.count("estree_numbers", 1)
	}
}

// exactDecimal writes a non-negative double, or the point between it and the
// next one, exactly.
func exactDecimal(bits uint64, half bool) *big.Rat {
	a := new(big.Rat)
	a.SetFloat64(math.Float64frombits(bits))
	if !half {
		return a
	}
	b := new(big.Rat)
	next := math.Float64frombits(bits + 1)
	if math.IsInf(next, 1) {
		// Past the largest double: as if the next one were 2^1024.
		b.SetInt(new(big.Int).Lsh(big.NewInt(1), 1024))
	} else {
		b.SetFloat64(next)
	}
	return a.Add(a, b).Mul(a, big.NewRat(1, 2))
}

// decimalText writes a rational with a power of two as denominator exactly, in
// one of several notations.
func decimalText(r *Rng, x *big.Rat) string {
	// digits * 10^-scale
	den := x.Denom().BitLen() - 1
	n := new(big.Int).Mul(x.Num(), new(big.Int).Exp(big.NewInt(5), big.NewInt(int64(den)), nil))
	ds := n.String()
	return notation(r, ds, -den)
}

// notation writes digits*10^exp.
func notation(r *Rng, ds string, exp int) string {
	ds = strings.TrimLeft(ds, "0")
	if ds == "" {
		return "0"
	}
	e := pick(r, []string{"e", "E"})
	switch r.Intn(4) {
	case 0:
		return fmt.Sprintf("%s%s%d", ds, e, exp)
	case 1:
		k := 1 + r.Intn(len(ds))
		s := ds[:k] + "." + ds[k:]
		sign := ""
		if exp+len(ds)-k >= 0 && r.Chance(0.5) {
			sign = "+"
		}
		return fmt.Sprintf("%s%s%s%d", s, e, sign, exp+len(ds)-k)
	case 2:
		z := r.Intn(4)
		return fmt.Sprintf("0.%s%s%s%d", strings.Repeat("0", z), ds, e, exp+len(ds)+z)
	}
	// Positional.
	switch {
	case exp >= 0 && exp < 400:
		return ds + strings.Repeat("0", exp)
	case exp < 0 && len(ds) > -exp:
		return ds[:len(ds)+exp] + "." + ds[len(ds)+exp:]
	case exp < 0 && exp > -1200:
		return "." + strings.Repeat("0", -exp-len(ds)) + ds
	}
	return fmt.Sprintf("%s%s%d", ds, e, exp)
}

// separated inserts numeric separators between digits.
func separated(r *Rng, s string) string {
	if len(s) > 1 && s[0] == '0' && s[1] >= '0' && s[1] <= '9' {
		return s
	}
	var b strings.Builder
	dec := !(len(s) > 1 && s[0] == '0' && strings.ContainsRune("xXoObB", rune(s[1])))
	isD := func(c byte) bool {
		return c >= '0' && c <= '9' || !dec && (c >= 'a' && c <= 'f' || c >= 'A' && c <= 'F')
	}
	for i := 0; i < len(s); i++ {
		if i > 0 && isD(s[i]) && isD(s[i-1]) && (dec && !(i == 1 && s[0] == '0') || !dec && i > 2) && r.Chance(0.2) {
			b.WriteByte('_')
		}
		b.WriteByte(s[i])
	}
	return b.String()
}

// C06: numbers.
func c06(c *Check) {
	c.rule = "all strings up to length 5 (thorough: 6) over the characters that can occur in numbers, after a digit or a dot, against an independent recogniser of the literal grammar; values of random literals of all forms, of exact decimal, hexadecimal, octal and binary expansions of doubles and of the midpoints between neighbouring doubles with their neighbours, of extreme exponents and long digit strings, against exact rational arithmetic; lexer, ESTree value and raw text are compared. Non-trivial: every numeric token; distinct: by text."
	c.assume = append(c.assume, "values are computed with exact rationals and rounded by the harness, and cross-checked with strconv; BigInt literals are not supported and rejected; JSON null stands for infinity")
	alpha := strings.Split("0 1 7 8 9 _ . e E + - x X o b B a f n g", " ")
	n := 4
	if c.Thorough {
		n = 5
	}
	for k := 0; k <= n; k++ {
		k := k
		total := power(len(alpha), k)
		c.run(fmt.Sprintf("strings of %d characters", k+1), (total+399)/400, func(w *Worker, i int, r *Rng) {
			st := &LexStats{}
			for j := i * 400; j < total && j < (i+1)*400; j++ {
				s := wordOf(alpha, k, j)
				for _, f := range []string{"0", "1", "8", ".", ".0", "0x", "00", "09"} {
					w.numCase(f+s, st)
					w.count("short_strings", 1)
				}
			}
			w.addLex(st)
		})
	}
	valid := func(w *Worker, raw string, r *Rng) {
		st := &LexStats{}
		for _, post := range []string{"", ";", " ", "+1", ")", "\n", "/2", "*.5", "==1", "/*x*/"} {
			w.numCase(raw+post, st)
		}
		w.addLex(st)
		w.estreeNumber(raw)
		w.note(raw)
		w.count("literals", 1)
		// The oracle against the library's own decimal conversion.
		s := strings.ReplaceAll(raw, "_", "")
		if strings.ContainsAny(s, "xXoObB") || len(s) > 1 && s[0] == '0' && s[1] >= '0' && s[1] <= '9' {
			return
		}
		if strings.IndexAny(s+".", ".eE") > 800 {
			return // strconv is wrong there, see DESIGN.md
		}
		v, _ := strconv.ParseFloat(s, 64)
		if v != numValue(raw) {
			fatalf("oracles disagree on %q: %v and %v", raw, v, numValue(raw))
		}
		w.count("oracle_cross_checks", 1)
	}
	// Small integers and decimals in every form.
	c.run("small", 300, func(w *Worker, i int, r *Rng) {
		for k := i * 10; k < i*10+10; k++ {
			for _, f := range []string{"%d", "0x%x", "0X%X", "0b%b", "0B%b", "0o%o", "0O%o", "%d.", ".%d", "%d.5", "0.%d", "%de0", "%de1", "%dE-3", "%d.25e+2", "0%o", "00%o", "1_%d", "0x1_%x", "08%d", "09%d.5", "%d.0e00"} {
				valid(w, fmt.Sprintf(f, k), r)
			}
		}
	})
	c.run("random literals", c.n(25000), func(w *Worker, i int, r *Rng) {
		s := genNumber(r, true)
		valid(w, s, r)
		if i%2999 == 0 {
			w.sample(s)
		}
	})
	// Rounding.
	c.run("rounding", c.n(6000), func(w *Worker, i int, r *Rng) {
		var bits uint64
		switch r.Intn(8) {
		case 0: // subnormal
			bits = r.U64() >> (12 + uint(r.Intn(52)))
		case 1: // near one
			bits = math.Float64bits(1) + uint64(r.Intn(5)) - 2
		case 2: // largest
			bits = math.Float64bits(math.MaxFloat64) - uint64(r.Intn(3))
		case 3: // integers beyond 2^53
			bits = math.Float64bits(float64(r.U64()>>1) * math.Pow(2, float64(r.Intn(60))))
		case 4: // powers of two
			bits = uint64(r.Intn(2047)) << 52
		case 5:
			bits = uint64(r.Intn(2046))<<52 | (1<<52 - 1)
		default:
			bits = r.U64() >> 1
		}
		if bits >= 2047<<52 {
			bits %= 2047 << 52
		}
		x := exactDecimal(bits, r.Chance(0.7))
		switch r.Intn(3) {
		case 0: // just above
			x.Add(x, new(big.Rat).SetFrac(big.NewInt(1), new(big.Int).Lsh(big.NewInt(1), uint(1080+r.Intn(40)))))
		case 1:
			if d := new(big.Rat).SetFrac(big.NewInt(1), new(big.Int).Lsh(big.NewInt(1), uint(1080+r.Intn(40)))); x.Cmp(d) > 0 {
				x.Sub(x, d)
			}
		}
		s := decimalText(r, x)
		if r.Chance(0.2) {
			s = separated(r, s)
		}
		valid(w, s, r)
		w.count("rounding_cases", 1)
	})
	// Integers in other bases, around midpoints.
	c.run("bases", c.n(6000), func(w *Worker, i int, r *Rng) {
		n := new(big.Int).SetUint64(r.U64() | 1<<63)
		n.Rsh(n, uint(r.Intn(11)))
		n.Lsh(n, uint(r.Intn(12)))
		sh := r.Intn(80)
		if r.Chance(0.15) {
			sh = 940 + r.Intn(60)
		}
		n.Lsh(n, uint(sh))
		if r.Chance(0.6) {
			n.Add(n, big.NewInt(int64(r.Intn(3)-1)))
		}
		base := pick(r, []int{2, 8, 16, 8})
		t := n.Text(base)
		var s string
		switch base {
		case 2:
			s = pick(r, []string{"0b", "0B"}) + t
		case 16:
			s = pick(r, []string{"0x", "0X"}) + t
			if r.Chance(0.5) {
				s = s[:2] + strings.ToUpper(t)
			}
		case 8:
			s = pick(r, []string{"0o", "0O", "0", "00"}) + t
		}
		if r.Chance(0.3) {
			s = separated(r, s)
		}
		valid(w, s, r)
		w.count("rounding_cases", 1)
	})
	// Extremes.
	ext := []string{"1e308", "1e309", "1e-323", "1e-324", "2e-324", "3e-324", "1.7976931348623157e308", "1.7976931348623158e308", "1.7976931348623159e308", "179769313486231580793e289", "5e-324", "2.4703282292062327e-324", "2.4703282292062328e-324", "2.2250738585072011e-308", "2.2250738585072014e-308",
		"1e400", "1e-400", "1e1000000000", "1e-1000000000", "1e99999999999999999999", "1e-99999999999999999999", "0e99999999999999999999", "0.0e-99999999999999999999", "1e+0000000000000000000000000001", "0.000e5", "9007199254740993", "9007199254740992.5", "9007199254740993.0", "0x20000000000001", "0x20000000000002", "0x20000000000003", "0400000000000000001", "0400000000000000002", "0400000000000000003", "0b" + strings.Repeat("1", 53), "0b" + strings.Repeat("1", 54), "0b1" + strings.Repeat("0", 53) + "1", "0b1" + strings.Repeat("0", 1022), "0b1" + strings.Repeat("0", 1024), "0b" + strings.Repeat("1", 1024), "0b" + strings.Repeat("1", 1025), "0x" + strings.Repeat("f", 255), "0x" + strings.Repeat("f", 256), "0x" + strings.Repeat("f", 257), "0x" + strings.Repeat("0", 1000) + "1", "0" + strings.Repeat("7", 500), "08" + strings.Repeat("9", 400),
		strings.Repeat("9", 308), strings.Repeat("9", 309), strings.Repeat("9", 310), "1" + strings.Repeat("0", 308), "1" + strings.Repeat("0", 309), "0." + strings.Repeat("0", 322) + "1", "0." + strings.Repeat("0", 324) + "1", "." + strings.Repeat("0", 1000) + "1e1001", "1" + strings.Repeat("0", 1000) + "e-1000", strings.Repeat("1_", 300) + "1", "4.35", "0.1", "0.2", "0.3", "1e23", "8.5e22", "9.5e-7", "123456789012345678901234567890", "0.1e1", "5e-1", "5e+1", "00", "000", "01", "0777", "0778", "08", "09", "08.", "08.5", "09e1", "00.5", "07.5"[:2]}
	c.run("extremes", len(ext), func(w *Worker, i int, r *Rng) {
		if len(ext[i]) > 10 && strings.HasPrefix(ext[i], "00.") {
			return
		}
		if m := (&Model{rs: []rune(ext[i])}); true {
			if e, ok := m.number(0); !ok || e != len(ext[i]) {
				return
			}
		}
		valid(w, ext[i], r)
		for k := 0; k < 3; k++ {
			valid(w, separated(r, ext[i]), r)
		}
	})
	c.run("long", c.n(1000), func(w *Worker, i int, r *Rng) {
		n := pick(r, []int{200, 300, 309, 310, 700, 799, 800, 801, 1023, 1024, 1025, 3000})
		zeros := strings.Repeat("0", pick(r, []int{0, 0, 1, 300, 800, 1025, 2000}))
		var s string
		switch b := r.Intn(6); b {
		case 0: // 2, 8 and 16, and legacy octal
			s = pick(r, []string{"0b", "0B"}) + zeros + digits(r, "01", 1, n, false)
		case 1:
			s = pick(r, []string{"0o", "0O", "0"}) + zeros + digits(r, "01234567", 1, n/3+1, false)
		case 2:
			s = pick(r, []string{"0x", "0X"}) + zeros + digits(r, "0123456789abcdefABCDEF", 1, n/4+1, false)
		default:
			s = pick(r, []string{"1", "9", "17976931348623157", "17976931348623159", "49"}) + zeros + digits(r, "0123456789", 1, n, false)
			k := len(s)
			if r.Intn(2) == 0 {
				k = 1 + r.Intn(len(s)-1)
				s = s[:k] + "." + s[k:]
			}
			switch r.Intn(3) {
			case 0:
				s = fmt.Sprintf("%se-%d", s, r.Intn(3400))
			case 1: // near the smallest and the largest doubles
				s = fmt.Sprintf("%se%+d", s, pick(r, []int{309, 308, 1, 0, -323, -308, -340})-k+r.Intn(4))
			}
		}
		if r.Intn(4) == 0 && len(s) > 4 && s[0] != '0' {
			for k := r.Intn(5); k >= 0; k-- {
				j := 1 + r.Intn(len(s)-1)
				if isDigit(s[j-1]) && isDigit(s[j]) {
					s = s[:j] + "_" + s[j:]
				}
			}
		}
		valid(w, s, r)
	})
	// Malformed numbers: one corruption of a literal.
	c.run("corrupted literals", c.n(40000), func(w *Worker, i int, r *Rng) {
		s := []byte(genNumber(r, true))
		for n := 1 + r.Intn(2); n > 0; n-- {
			j := r.Intn(len(s) + 1)
			ch := pick(r, []byte("0189_.eExXobBO+-nafgz$ \n"))
			switch r.Intn(3) {
			case 0:
				s = append(s[:j:j], append([]byte{ch}, s[j:]...)...)
			case 1:
				if j < len(s) {
					s[j] = ch
				}
			case 2:
				if j < len(s) && len(s) > 1 {
					s = append(s[:j:j], s[j+1:]...)
				}
			}
		}
		st := &LexStats{}
		w.numCase(string(s), st)
		w.addLex(st)
	})
	c.require("short_strings", 1000000, "literals", 50000, "rounding_cases", 10000, "malformed_texts_rejected", 100000, "oracle_cross_checks", 10000)
}

// Places where a slash can stand. @ is the slash and what follows.
var slashContexts = strings.Split(`@
;@
{}@
{a}@
{a;}@
{{}}@
a;@
a@
(a)@
a
@
a++@
a++
@
a
++
@
++a@
--@
!@
~@
+@
-@
typeof @
void @
delete @
a+@
a*@
a/@
a / @
a%@
a**@
a<@
a>@
a<<@
a>>>@
a==@
a!==@
a&@
a||@
a??@
a in @
a instanceof @
a=@
a+=@
a/=@
a /= @
a**=@
a,@
a?@
a?@:b
a?b:@
a?@
(@)
((@))
(a,@)
[@]
[a,@]
[,@]
[@,]
[]@
[a]@
a[@]
a[0]@
a()@
a(@)
a(b,@)
a(...@)
a(b)@
new a@
new a()@
new A(@)
a.b@
a.if@
a.return@
a.typeof@
a.in@
a.of@
a.case@
a.else@
({})@
({}@)
({a})@
({a}@)
({a:@})
({a:b}@)
({a:b,c:@})
({[@]:a})
({[a]:@})
({a(){@}})
({a(){}}@)
({get a(){@}})
({a=@}=b)
x={}@
x={a}@
x=[]@
x=a=>{}@
x=a=>{}
@
x=a=>@
x=(a)=>@
x=a=>b@
x=(a=@)=>b
x=async a=>@
x=async()=>@
x=async()@
x=async@
a=>{}@
a=>{}
@
a=>{@}
()=>{}@
()=>{}
@
()=>@
function f(){}@
function f(){}
@
function f(){@}
function f(){a}@
function f(a=@){}
(function(){}@)
(function(){})@
(function(){})()@
x=function(){}@
x=function(){}
@
x=function(){@}
x=function f(){}@
class A{}@
class A{}
@
class A extends @{}
class A{m(){@}}
class A{m(){}@}
class A{[@](){}}
(class{}@)
(class{})@
x=class{}@
x=class A{}@
if(a)@
if(a)b;else @
if(a){}@
if(a){}else{}@
if(@);
if(a)
@
while(a)@
while(@);
while(a){}@
for(;;)@
for(@;;);
for(;@;);
for(;;@);
for(a in @);
for(a of @);
for(a of b)@
for(var a=@;;);
for(var a in @);
for(var a of @);
for(a in b){}@
do @;while(a)
do{}while(a)@
do{}while(a);@
do{}while(@)
do ;while(a)
@
switch(@){}
switch(a){case @:}
switch(a){case b:@}
switch(a){default:@}
switch(a){}@
switch(a){case b:}@
(function(){return @})
(function(){return@})
(function(){return
@})
(function(){return a@})
throw @
throw a@
try{}finally{}@
try{}catch{}@
try{}catch(a){}@
try{@}catch{}
a:@
a:{}@
a:b@
while(1)break@
while(1){break
@}
b:while(1){break b
@}
b:while(1){break b@}
while(1){continue
@}
var a=@
var a
@
var a=b@
var a=b
@
var a,b=@
var {a=@}=b
var [a=@]=b
let a=@
let a
@
const a=@
this@
this
@
null@
true@
false@
1@
1.@
.5@
1.5@
0x1@
1e3@
'a'@
"a"
@
/x/@
/x/g@
/x/ @
/x/g
@
of@
as@
from@
get@
set@
async@
static@
let@
meta@
target@
x=of@
x=get@
x=set@
x=static@
x=as@
a.get@
a.this@
a.null@
'use strict'@
'use strict'
@
'use strict';@
({a:1,@})
({get@})
({get(){}}@)
(a)
@
(a=>b)@
(a,b)@
[a]
@
a[b]
@
f(a)
@
}@
)@
]@
a?b@:c
(a)?@:b
a=b?c:d@
{}
@
{}{}@
{}[]@
;{}@
if(a){}[@]
import 'x'@`, "\n\n")

func init() {
	// The contexts are written one per line; those that span lines follow a
	// line break in the list above. Split by hand: a line that does not contain
	// the mark continues on the next.
	var out []string
	var cur []string
	for _, l := range strings.Split(strings.Join(slashContexts, "\n"), "\n") {
		cur = append(cur, l)
		if strings.Contains(l, "@") {
			out = append(out, strings.Join(cur, "\n"))
			cur = nil
		}
	}
	slashContexts = out
}

var slashFills = []string{"/b/", "/b/g", "/b/g.c", "/ b", "/ b / c", "/b", "/=b", "/=b/", "/= b", "/=/", "/=/g", "/[/]/", "/[/]/g", "/\\//", "/(/", "/)/", "/}/", "/{/", "/'/", "/\"/", "/;/", "/b/ /c/", "/b//c/", "/b/.test(c)", "/b/[c]", "/b/(c)", "/b/g/c", "/b/g/c/d", "/b/+1", "/b/\n/c/", "/b\n/c", "/\nb", "/ /b/", "/ /b/ /c", "/*x*/ /b/", "//x\n/b/", "/*x*/b", "/b/i", "/b/in c", "/b/ in c", "/b/ instanceof c", "/b/;", "/b/,c", "/b/?c:d", "/b/=>c", "/b/++", "/(?:b)/", "/[^/]+/g", "/[\\]/]/", "/b/gimsuy", "/b/a1", "/b/G", "/b/gg", "/ + /b/", "/ - b", "/a/b/c/d/e", "/ function(){} / 1", "/ {}", "/ [] /1", "/é𝒳/", "/[/", "/(", "/b\\/", "/b\\", "/\\", "/", "/=", "/*", "/[]/]/", "/[^]/]/", "/b/\\u0067"}

// C07: strings and regular expressions.
func c07(c *Check) {
	c.rule = "all short strings over the characters that matter in string and regular-expression literals, against an independent scanner of their grammar (bounds, raw text, value, pattern, flags); random literals of both kinds lexed and parsed, compared with the generated node; and every kind of text that starts with a slash in every syntactic position, where acorn and V8 decide whether it is a division or a regular expression or ill-formed. Non-trivial: literals and judged slashes; distinct: by text."
	c.assume = append(c.assume, acornNote, "the value of a string that contains an escape and the inner grammar of regular expressions are not judged")
	strA := []string{"'", "\"", "\\", "a", "\n", "\r", "\u2028", "x", "/"}
	reA := []string{"/", "[", "]", "\\", "a", "\n", "*", "=", "\u2029", "g", " "}
	n := 5
	if c.Thorough {
		n = 6
	}
	for k := 0; k <= n; k++ {
		k := k
		tot := power(len(strA), k)
		c.run(fmt.Sprintf("strings with %d symbols", k), (tot+399)/400, func(w *Worker, i int, r *Rng) {
			st := &LexStats{}
			for j := i * 400; j < tot && j < (i+1)*400; j++ {
				w.lexCompare(lexCase{"'" + wordOf(strA, k, j), never}, litWhat, st)
				w.lexCompare(lexCase{"\"" + wordOf(strA, k, j) + "\"z", never}, litWhat, st)
				w.count("short_strings", 2)
			}
			w.addLex(st)
		})
		tot2 := power(len(reA), k)
		c.run(fmt.Sprintf("regular expressions with %d symbols", k), (tot2+399)/400, func(w *Worker, i int, r *Rng) {
			st := &LexStats{}
			for j := i * 400; j < tot2 && j < (i+1)*400; j++ {
				s := wordOf(reA, k, j)
				w.lexCompare(lexCase{"/" + s, always}, litWhat, st)
				w.lexCompare(lexCase{"/" + s + "/g z", always}, litWhat, st)
				w.count("short_regexps", 2)
			}
			w.addLex(st)
		})
	}
	// Random literals, with a following token.
	c.run("literals", c.n(40000), func(w *Worker, i int, r *Rng) {
		st := &LexStats{}
		var raw string
		var want M
		if r.Chance(0.5) {
			raw = genString(r, r.Chance(0.6))
			if r.Chance(0.02) {
				raw = raw[:1] + strings.Repeat(pick(r, []string{"a", "é", "\\n", "\u2028", "//", "\\\\"}), 1000+r.Intn(5000)) + raw[:1]
			}
			want = strLit(raw)
			w.count("string_literals", 1)
		} else {
			p, f := genRegex(r)
			if strings.HasPrefix(p, "*") || strings.HasPrefix(p, "/") || p == "" {
				p = "a" + p
			}
			raw = "/" + p + "/" + f
			want = reLit(p, f)
			w.count("regexp_literals", 1)
		}
		for _, post := range []string{"", ";", " a", "/b", "\n", "'x'", "/**/", ".c"} {
			w.lexCompare(lexCase{raw + post, func(k int, _ MTok) bool { return k == 0 }}, litWhat, st)
		}
		w.addLex(st)
		// As a node.
		for _, f := range []struct{ pre, post string }{{"x = ", ""}, {"f(", ")"}, {"[", "]"}, {"a + ", " + b"}} {
			src := f.pre + raw + f.post
			w.eval()
			o := w.parse(src, "expression")
			if !o.Accepted() || o.TreeErr != "" {
				if a := w.acorn.parse(src, "expression"); a.OK {
					w.violate("valid literal not accepted: "+o.String(), "expression", src, nil)
				} else {
					w.count("not_judged_acorn_disagrees", 1)
				}
				continue
			}
			if !containsNode(o.Tree, normalise(clone(want)).(M)) {
				w.violate("the literal is not in the tree", "expression", src, map[string]any{"want": want, "got": o.Tree})
			}
		}
		w.note(raw)
		if i%3999 == 0 {
			w.sample(clip(raw, 100))
		}
	})
	// Slashes in context.
	c.count("slash_contexts", len(slashContexts))
	c.count("slash_fills", len(slashFills))
	c.run("slashes", len(slashContexts)*len(slashFills), func(w *Worker, i int, r *Rng) {
		ctx, fill := slashContexts[i/len(slashFills)], slashFills[i%len(slashFills)]
		mode := "script"
		if strings.HasPrefix(ctx, "import") {
			mode = "module"
		}
		for _, pad := range []string{"", " ", "\n", "/**/", "/*\n*/"} {
			for _, v := range []string{strings.Replace(ctx, "@", pad+fill, 1), strings.Replace(ctx, "@", fill+pad, 1)} {
				got, d, _ := w.judge(v, mode)
				if d != "" {
					w.violate(d, mode, v, map[string]any{"context": ctx, "fill": fill})
					continue
				}
				if got != notJudged {
					w.count("slashes_judged", 1)
					w.note(v)
				}
			}
		}
	})
	// Two slashes after another in random programs.
	c.run("programs", c.n(3000), func(w *Worker, i int, r *Rng) {
		p := defaultProfile(10 + r.Intn(60))
		p.Stmt = r.Float()
		p.Prim = 8
		t := genProgram(r, p, 1+r.Intn(4))
		slashify(t, r)
		l := w.checkTree(t, r, 0.05, randomStyle(r))
		w.observe(t, l, 3)
	})
	c.probeKnown()
	c.require("short_strings", 100000, "short_regexps", 100000, "string_literals", 10000, "regexp_literals", 10000, "slashes_judged", 50000, "tokens_regexps", 10000, "tokens_strings", 10000, "malformed_texts_rejected", 20000)
}

// slashify replaces operators by division and literals by strings and regular
// expressions.
func slashify(v any, r *Rng) {
	switch t := v.(type) {
	case []any:
		for i, e := range t {
			if m, ok := e.(M); ok && typeOf(m) == "Literal" && m["directive"] == nil && r.Chance(0.5) {
				t[i] = newSlash(r)
				continue
			}
			slashify(e, r)
		}
	case M:
		if typeOf(t) == "BinaryExpression" && r.Chance(0.5) && str(t, "operator") != "**" {
			op := pick(r, []string{"/", "/", "*", "%"})
			t["operator"] = op
		}
		if typeOf(t) == "AssignmentExpression" && str(t, "operator") == "=" && isTarget(sub(t, "left")) && r.Chance(0.3) {
			t["operator"] = "/="
		}
		for k, e := range t {
			if k == "key" || k == "source" || k == "expression" && t["directive"] != nil {
				continue
			}
			if m, ok := e.(M); ok && typeOf(m) == "Literal" && r.Chance(0.5) && typeOf(t) != "ExpressionStatement" {
				t[k] = newSlash(r)
				continue
			}
			slashify(e, r)
		}
	}
}

func newSlash(r *Rng) M {
	if r.Chance(0.4) {
		return strLit(genString(r, true))
	}
	p, f := genRegex(r)
	if strings.HasPrefix(p, "*") || strings.HasPrefix(p, "/") || p == "" {
		p = "a" + p
	}
	return reLit(p, f)
}

// containsNode tells whether a tree contains a node equal to another.
func containsNode(v any, want M) bool {
	switch t := v.(type) {
	case []any:
		for _, e := range t {
			if containsNode(e, want) {
				return true
			}
		}
	case M:
		if typeOf(t) == typeOf(want) && diff("", want, t) == "" {
			return true
		}
		for _, e := range t {
			if containsNode(e, want) {
				return true
			}
		}
	}
	return false
}

func isDigit(c byte) bool { return c >= '0' && c <= '9' }
