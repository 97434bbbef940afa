package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

func init() { checks["C25"] = c25 }

// Costs are measured in processes of their own, one per worker, that do nothing
// else: what the runtime counts there is what the library allocated.

// cost is what parsing a text and converting its tree took.
type cost struct {
	Outcome     string  `json:"outcome"`
	Mallocs     float64 `json:"mallocs"` // parsing
	Bytes       float64 `json:"bytes"`
	CPU         float64 `json:"cpu"`      // seconds
	TreeMallocs float64 `json:"tmallocs"` // converting to ESTree
	TreeBytes   float64 `json:"tbytes"`
	TreeCPU     float64 `json:"tcpu"`
}

type costReq struct {
	Mode string `json:"mode"`
	Src  string `json:"src"`
}

func threadCPU() float64 {
	var ru syscall.Rusage
	const rusageThread = 1
	if err := syscall.Getrusage(rusageThread, &ru); err != nil {
		return 0
	}
	return float64(ru.Utime.Sec+ru.Stime.Sec) + float64(ru.Utime.Usec+ru.Stime.Usec)/1e6
}

func measure(mode, src string) cost {
	runtime.GC()
	var a, b, d runtime.MemStats
	r := strings.NewReader(src)
	runtime.ReadMemStats(&a)
	t0 := threadCPU()
	o := parseFrom(r, testURL, mode)
	t1 := threadCPU()
	runtime.ReadMemStats(&b)
	k := cost{Mallocs: float64(b.Mallocs - a.Mallocs), Bytes: float64(b.TotalAlloc - a.TotalAlloc), CPU: t1 - t0, Outcome: o.kind()}
	if o.Accepted() {
		func() {
			defer func() {
				if recover() != nil {
					k.Outcome = "panic in ESTree"
				}
			}()
			t0 := threadCPU()
			o.Node.ESTree()
			k.TreeCPU = threadCPU() - t0
			runtime.ReadMemStats(&d)
			k.TreeMallocs, k.TreeBytes = float64(d.Mallocs-b.Mallocs), float64(d.TotalAlloc-b.TotalAlloc)
		}()
	}
	return k
}

// costServer answers requests on standard input.
func costServer() int {
	runtime.GOMAXPROCS(1)
	runtime.LockOSThread()
	debug.SetGCPercent(-1)
	debug.SetMemoryLimit(3 << 30)
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	measure("script", "a;") // what is initialised once
	for {
		l, err := in.ReadBytes('\n')
		if err != nil {
			return 0
		}
		var q costReq
		if err := json.Unmarshal(l, &q); err != nil {
			return 2
		}
		b, _ := json.Marshal(measure(q.Mode, q.Src))
		os.Stdout.Write(append(b, '\n'))
	}
}

type costProc struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
}

var costProcs sync.Map // worker id: *costProc

// How long a text may take before it counts as a hang, in seconds of processor
// time and by the clock. The texts of this check take at most a second.
const (
	costCPU  = 12.0
	costWall = 100 * time.Second
)

// cost measures a text. It returns false if the process died or was too slow.
func (w *Worker) cost(mode, src string) (k cost, ok bool) {
	var p *costProc
	if v, have := costProcs.Load(w.id); have {
		p = v.(*costProc)
	} else {
		p = &costProc{cmd: exec.Command(os.Args[0], "cost")}
		p.cmd.Env = os.Environ()
		p.in, _ = p.cmd.StdinPipe()
		out, _ := p.cmd.StdoutPipe()
		p.out = bufio.NewReader(out)
		p.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
		if err := p.cmd.Start(); err != nil {
			fatalf("cost: %v", err)
		}
		costProcs.Store(w.id, p)
	}
	done := make(chan struct{})
	defer close(done)
	go func() {
		t0, cpu := time.Now(), cpuTime(p.cmd.Process.Pid)
		for {
			select {
			case <-done:
				return
			case <-time.After(200 * time.Millisecond):
				if time.Since(t0) > costWall || cpuTime(p.cmd.Process.Pid)-cpu > costCPU {
					p.cmd.Process.Kill()
					return
				}
			}
		}
	}()
	b, _ := json.Marshal(costReq{mode, src})
	_, err := p.in.Write(append(b, '\n'))
	var l []byte
	if err == nil {
		l, err = p.out.ReadBytes('\n')
	}
	if err == nil {
		err = json.Unmarshal(l, &k)
	}
	if err != nil {
		p.cmd.Process.Kill()
		p.cmd.Wait()
		costProcs.Delete(w.id)
		return k, false
	}
	return k, true
}

// A growth is a text that can be made longer.
type growth struct {
	name string
	mode string
	text func(n int) string
	// a and b are the sizes compared.
	a, b int
	// deep tells that n is the depth of nesting: time may grow with its square.
	deep bool
}

// grows compares the costs of two sizes of a text. It returns a description of
// a cost that grows faster than the text, and whether smaller sizes are worth
// looking at.
func (w *Worker) grows(g growth) (string, bool) {
	sa, sb := g.text(g.a), g.text(g.b)
	f := float64(len(sb)) / float64(len(sa)) // how much longer
	w.eval()
	slow := func(s string) string {
		return fmt.Sprintf("the process parsing %d bytes of it (%s) died or took more than %v s", len(s), g.name, costCPU)
	}
	var ks [2]cost
	for i, src := range []string{sa, sb} {
		k, ok := w.cost(g.mode, src)
		if !ok {
			if k, ok = w.cost(g.mode, src); !ok {
				return slow(src), false
			}
		}
		ks[i] = k
	}
	ka, kb := ks[0], ks[1]
	if ka.Outcome != kb.Outcome {
		// The longer one is nested too deep.
		w.count("different_outcomes", 1)
		return "", true
	}
	w.note(g.mode + g.name)
	w.count("costs_compared_"+ka.Outcome, 1)
	w.count("bytes_measured", len(sa)+len(sb))
	// Slices grow by doubling while small and by a quarter when large, which
	// makes up to 2.5 times the allocation per element.
	over := func(x, y, limit, abs float64) bool {
		return y > x*f*limit && y-x*f > abs*float64(len(sb))
	}
	type m struct {
		what  string
		x, y  float64
		limit float64
		abs   float64
	}
	for _, m := range []m{
		{"allocations of the parser", ka.Mallocs, kb.Mallocs, 1.5, 0.05},
		{"bytes allocated by the parser", ka.Bytes, kb.Bytes, 3.5, 4},
		{"allocations of the conversion", ka.TreeMallocs, kb.TreeMallocs, 1.5, 0.05},
		{"bytes allocated by the conversion", ka.TreeBytes, kb.TreeBytes, 3.5, 4},
	} {
		if over(m.x, m.y, m.limit, m.abs) {
			return fmt.Sprintf("%s: %.0f for %d bytes of text, but %.0f for %d bytes (%s)", m.what, m.x, len(sa), m.y, len(sb), g.name), true
		}
	}
	// Time is measured again before it is believed.
	limit := 6.0
	if g.deep {
		limit *= f
	}
	cpu := func(parser bool, a, b cost) bool {
		x, y := a.CPU, b.CPU
		if !parser {
			x, y = a.TreeCPU, b.TreeCPU
		}
		return y > 0.1 && y > x*f*limit && y > float64(len(sb))*3e-6
	}
	for _, parser := range []bool{true, false} {
		bad := cpu(parser, ka, kb)
		ma, mb := ka, kb
		for i := 0; bad && i < 4; i++ {
			a, ok1 := w.cost(g.mode, sa)
			b, ok2 := w.cost(g.mode, sb)
			if !ok1 || !ok2 {
				bad = false
				break
			}
			// The longest time of the short text, the shortest of the long one.
			ma.CPU, ma.TreeCPU = max(ma.CPU, a.CPU), max(ma.TreeCPU, a.TreeCPU)
			mb.CPU, mb.TreeCPU = min(mb.CPU, b.CPU), min(mb.TreeCPU, b.TreeCPU)
			bad = cpu(parser, ma, mb)
		}
		if bad {
			x, y, what := ma.CPU, mb.CPU, "parser"
			if !parser {
				x, y, what = ma.TreeCPU, mb.TreeCPU, "conversion"
			}
			return fmt.Sprintf("processor time of the %s: %.3f s for %d bytes of text, but %.3f s for %d bytes (%s)", what, x, len(sa), y, len(sb), g.name), true
		}
	}
	return "", true
}

// lists are constructs with a list in them: before, one element, after.
var lists = [][3]string{
	{"f(", "a,", "a)"}, {"f(", "...a,", "a)"}, {"new F(", "a,", "a)"}, {"async(", "a,", "a)"}, {"async(", "...a,", "a)"}, {"async(", "a,", "a)=>b"}, {"x=[", "a,", "]"}, {"x=[", ",", "]"}, {"x={", "a:1,", "}"}, {"x={", "a,", "}"}, {"x={", "a(){},", "}"}, {"x={", "get a(){},", "}"}, {"x={", "'a':b,", "}"}, {"x={", "[a]:b,", "}"}, {"x={", "0:b,", "}"},
	{"class A{", "a(){}", "}"}, {"class A{", "static a(){}", "}"}, {"class A{", "set a(b){}", "}"}, {"class A{", ";", "}"}, {"switch(a){", "case b:", "}"}, {"switch(a){", "case b:c;", "}"}, {"switch(a){default:", "b;", "}"}, {"var ", "a,", "a"}, {"var ", "a=b,", "a"}, {"let ", "a,", "a"}, {"const ", "a=b,", "a=b"}, {"var [", "a,", "]=b"}, {"var [", ",", "]=b"}, {"var {", "a,", "}=b"}, {"var {", "a:b,", "}=b"}, {"var {", "a=b,", "}=b"}, {"[", "a,", "]=b"}, {"[", "a=b,", "]=b"}, {"({", "a,", "}=b)"}, {"({", "a=b,", "}=b)"}, {"({", "a:b=c,", "}=b)"},
	{"(", "a,", "a)"}, {"(", "a,", "a)=>b"}, {"(", "a=b,", "a)=>b"}, {"(", "[a],", "a)=>b"}, {"(", "{a},", "a)=>b"}, {"([", "a,", "])=>b"}, {"({", "a,", "})=>b"}, {"function f(", "a,", "a){}"}, {"function f(", "a=b,", "a){}"}, {"function f(", "[a],", "a){}"}, {"function f(", "{a},", "a){}"}, {"function f(){", "a;", "}"}, {"(function(", "a,", "a){})"}, {"class A{m(", "a,", "a){}}"}, {"x={m(", "a,", "a){}}"}, {"a=>{", "b;", "}"}, {"{", "a;", "}"}, {"try{", "a;", "}catch{}"}, {"try{}catch(a){", "a;", "}"}, {"try{}finally{", "a;", "}"},
	{"x=", "a,", "a"}, {"", "a;", ""}, {"", "a\n", ""}, {"", "'use strict';", ""}, {"for(", "a,", "a;;);"}, {"for(var ", "a,", "a;;);"}, {"for(;", "a,", "a;);"}, {"while(", "a,", "a);"}, {"a[", "b,", "c]"}, {"a?", "b?c:d,", "e:f"}, {"", "if(a);else;", ""}, {"", "function f(){}", ""}, {"", "class A{}", ""}, {"", "(a=>b);", ""}, {"", "(function(){});", ""}, {"", "var a=b;", ""}, {"", "a:b;", ""}, {"", "for(a in b);", ""}, {"", "for(a of b);", ""}, {"", "for(;;);", ""}, {"", "do;while(a)", ""}, {"", "{}", ""}, {"", ";", ""}, {"", "throw a;", ""}, {"", "a=/b/g;", ""}, {"", "a++;", ""}, {"", "a.b.c(d)[e];", ""}, {"", "x=a+b*c**d;", ""}, {"", "x={a:[b,{c}]};", ""}, {"", "[a,{b}]=c;", ""}, {"", "async a=>b;", ""},
	{"'", "a", "'"}, {"'", "\\n", "'"}, {"'", "\\x41", "'"}, {"'", "é", "'"}, {"'", "😀", "'"}, {"'", "\\\n", "'"}, {"/", "a", "/"}, {"/", "\\/", "/"}, {"/[", "/", "]/"}, {"/a/", "g", ""}, {"", "a", ""}, {"", "é", ""}, {"$", "_", ""}, {"", "1", ""}, {"0", "1", ""}, {"0x", "f", ""}, {"0o", "7", ""}, {"0b", "1", ""}, {".", "1", ""}, {"1.", "1", ""}, {"1e", "1", ""}, {"1e-", "1", ""}, {"1", "_1", ""}, {"0x1", "_1", ""}, {"", "1", "e-99"}, {"0.", "0", "1"}, {"", " ", "a"}, {"", "\n", "a"}, {"", "\r\n", "a"}, {"", "\u2028", "a"}, {"", "\u3000", "a"}, {"", "/**/", "a"}, {"", "//\n", "a"}, {"/*", "a", "*/a"}, {"/*", "*", "*/a"}, {"/*", "\n", "*/a"}, {"//", "a", "\na"}, {"a", "/**/", ""}, {"a", "\n", ""}, {"a", "/**/", "b"}, {"a", " ", ")"}, {"break", "/**/", ";"}, {"'", "a", ""}, {"/", "a", ""}, {"/*", "a", ""}, {"0x", "_", ""},
	{"x=", "a+", "a"}, {"x=", "a-b*", "c"}, {"x=", "a.b", ""}, {"x=a", ".b", ""}, {"x=a", "[b]", ""}, {"x=a", "()", ""}, {"x=a", ".b(c)", ""},
}

// moduleLists are those of modules.
var moduleLists = [][3]string{
	{"", "import a from 'b';", ""}, {"", "import 'b';", ""}, {"", "import*as a from 'b';", ""}, {"import{", "a,", "}from 'b'"}, {"import{", "a as b,", "}from 'b'"}, {"import a,{", "default as b,", "}from 'b'"}, {"import{", "if,", "}from 'b'"},
}

func c25(c *Check) {
	c.rule = "Texts of two sizes that differ only in how often a construct is repeated or nested are parsed and converted in processes that do nothing else. The number of allocations, the bytes allocated and the processor time of the thread, as the runtime and the kernel count them, may not grow faster than the text (the time for nested constructs: than its square). Non-trivial: both sizes have the same outcome; distinct: by construct and mode."
	c.assume = append(c.assume, "growth is judged between two sizes of at most 400 kB; time is judged with a margin of 6 and only if four repetitions agree")
	defer costProcs.Range(func(k, v any) bool {
		p := v.(*costProc)
		p.in.Close()
		p.cmd.Process.Kill()
		p.cmd.Wait()
		return true
	})
	var hung atomic.Bool // hangs take long; one is enough
	check := func(w *Worker, g growth) {
		if hung.Load() {
			return
		}
		d, more := "", true
		if !g.deep && g.b > 3000 {
			// What is quadratic shows, and does not take so long, when it is small.
			h := g
			h.a, h.b = max(g.a/8, 1), g.b/8
			if d, more = w.grows(h); d != "" {
				g = h
			}
		}
		if d == "" {
			d, more = w.grows(g)
		}
		if d == "" {
			return
		}
		// Shorter texts say the same.
		for k := 0; k < 6 && more && g.b > 64 && !g.deep; k++ {
			h := g
			h.a, h.b = g.a/2, g.b/2
			if h.a == 0 {
				break
			}
			e, _ := w.grows(h)
			if e == "" {
				break
			}
			g, d = h, e
		}
		if !more {
			hung.Store(true)
		}
		w.violate(d, g.mode, g.text(g.b), map[string]any{"shorter": clip(g.text(g.a), 100)})
	}
	rep := strings.Repeat
	total := 200 << 10 // bytes of the longer text
	if c.Thorough {
		total = 2 << 20
	}
	flat := func(name, mode, pre, unit, post string) growth {
		b := total/len(unit) + 1
		return growth{name: name, mode: mode, a: max(b/16, 1), b: b, text: func(n int) string { return pre + rep(unit, n) + post }}
	}
	// Nesting, of one construct and of several in turn.
	deep := func(name, mode string, open, mid, close string, a, b int) growth {
		return growth{name: name, mode: mode, a: a, b: b, deep: true, text: func(n int) string { return rep(open, n) + mid + rep(close, n) }}
	}
	// What is exponential shows at once.
	c.run("shallow nesting", len(nestings)*3, func(w *Worker, i int, r *Rng) {
		n := nestings[i%len(nestings)]
		name := fmt.Sprintf("%q nested", n.open+"..."+n.close)
		a := []int{4, 7, 10}[i/len(nestings)]
		for _, mode := range modeNames {
			check(w, deep(name, mode, n.open, n.mid, n.close, a, 2*a))
		}
		check(w, deep(name+" and not closed", "script", n.open, n.mid, "", a, 2*a))
	})
	turns := func(name string, n, from, to, by int) {
		c.run(name, n, func(w *Worker, i int, r *Rng) {
			k := 2 + r.Intn(3)
			var open, close, mid string
			for ; k > 0; k-- {
				n := pick(r, nestings)
				if open != "" && r.Intn(2) == 0 && n.mid == "" {
					continue // expressions go into expressions more often
				}
				open += n.open
				close = n.close + close
				if n.mid != "" {
					mid = n.mid
				}
			}
			if open == "" {
				return
			}
			a := from + r.Intn(to-from+1)
			check(w, deep(fmt.Sprintf("%q nested", open+"..."+close), pick(r, modeNames), open, mid, close, a, by*a))
		})
	}
	turns("shallow nesting in turn", c.n(3000), 3, 8, 2)
	// Constructs with lists, alone and inside of others.
	type job struct {
		l    [3]string
		mode string
		wrap int
	}
	var jobs []job
	wraps := [][2]string{{"", ""}, {"(", ")"}, {"function f(){", "}"}, {"x=>{", "}"}, {"x={a:", "}"}, {"[", "]"}, {"f(", ")"}, {"", "\n)"}, {"a;\n", ";b"}}
	for _, l := range lists {
		for k := range wraps {
			jobs = append(jobs, job{l, "script", k})
		}
		jobs = append(jobs, job{l, "module", 0}, job{l, "expression", 0}, job{l, "expression", 1})
	}
	for _, l := range moduleLists {
		jobs = append(jobs, job{l, "module", 0}, job{l, "module", 7}, job{l, "module", 8})
	}
	c.run("lists", len(jobs), func(w *Worker, i int, r *Rng) {
		j := jobs[i]
		p := wraps[j.wrap]
		if j.wrap > 1 && j.mode == "script" && !c.Thorough && (i+int(c.Seed))%2 == 0 {
			return // half of them in the quick tier
		}
		check(w, flat(fmt.Sprintf("%q repeated in %q", j.l[1], p[0]+j.l[0]+"..."+j.l[2]+p[1]), j.mode, p[0]+j.l[0], j.l[1], j.l[2]+p[1]))
	})
	// Anything repeated, with or without sense.
	c.run("repetitions", len(flats), func(w *Worker, i int, r *Rng) {
		f := flats[i]
		for k, p := range [][2]string{{"", ""}, {"x=", ""}, {"(", ")"}, {"f(", "a)"}} {
			check(w, flat(fmt.Sprintf("%q repeated in %q", f, p[0]+"..."+p[1]), modeNames[(i+k)%3], p[0], f, p[1]))
		}
	})
	c.run("nesting", len(nestings)*3, func(w *Worker, i int, r *Rng) {
		n := nestings[i%len(nestings)]
		name := fmt.Sprintf("%q nested", n.open+"..."+n.close)
		ab := [][2]int{{50, 200}, {150, 600}, {500, 2000}}[i/len(nestings)]
		check(w, deep(name, "script", n.open, n.mid, n.close, ab[0], ab[1]))
		check(w, deep(name+" and not closed", "script", n.open, n.mid, "", ab[0], ab[1]))
		check(w, deep(name, "expression", n.open, n.mid, n.close, ab[0], ab[1]))
	})
	turns("nesting in turn", c.n(4000), 8, 48, 4)
	// Random code repeated.
	c.run("programs", c.n(600), func(w *Worker, i int, r *Rng) {
		p := defaultProfile(10 + r.Intn(60))
		var src, mode string
		if i%2 == 0 {
			toks, _, err := printTree(genProgram(r, p, 1+r.Intn(3)), r, 0.05)
			if err != nil {
				return
			}
			src, mode = layout(toks, randomStyle(r), r).Src+"\n;\n", "script"
		} else {
			toks, _, err := printTree(newGen(r, p).expr(), r, 0.05)
			if err != nil {
				return
			}
			src, mode = "("+layout(toks, randomStyle(r), r).Src+"\n)", "script"
		}
		if len(src) > total/8 {
			return
		}
		if i%2 == 0 {
			check(w, flat("a program repeated", mode, "", src, ""))
			return
		}
		src += pick(r, []string{",", ";", "\n;", ","})
		q := pick(r, [][2]string{{"", "a"}, {"f(", "a)"}, {"[", "]"}, {"(", "a)"}, {"async(", "a)"}})
		check(w, flat("an expression repeated", mode, q[0], src, q[1]))
	})
	c.require("costs_compared_tree", 1500, "costs_compared_syntax", 1000, "bytes_measured", 100000000)
}
