package main

import (
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"io"
	"math/bits"
	"net/url"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strings"
	"sync"
	"syscall"
	"time"
	"unicode/utf8"

	"github.com/jchv/cleansheets/ecmascript/ast"
	"github.com/jchv/cleansheets/ecmascript/lexer"
	"github.com/jchv/cleansheets/ecmascript/parser"
)

func init() { checks["C18"] = c18 }

// isoCase is a text with the result it gave when it was parsed first.
type isoCase struct {
	mode, src string
	failAt    int // the reader fails at this read; 0: never
	first     *Outcome
	tokens    string
}

type steppedReader struct {
	*Reader
	step func()
}

func (s *steppedReader) ReadRune() (rune, int, error) { s.step(); return s.Reader.ReadRune() }
func (s *steppedReader) UnreadRune() error            { s.step(); return s.Reader.UnreadRune() }

func (x *isoCase) reader() *Reader {
	r := newReader(x.src)
	if x.failAt > 0 {
		r.failAt, r.failErr = x.failAt, io.ErrUnexpectedEOF
	}
	return r
}

func (x *isoCase) run(step func(), u *url.URL) *Outcome {
	if step == nil {
		return parseFrom(x.reader(), u, x.mode).convert()
	}
	return parseFrom(&steppedReader{x.reader(), step}, u, x.mode).convert()
}

// lexDump lexes a text and returns everything observable about the tokens.
func lexDump(r io.RuneScanner) (s string) {
	var b strings.Builder
	defer func() {
		if p := recover(); p != nil {
			fmt.Fprintf(&b, "!%v", p)
		}
		s = b.String()
	}()
	l := lexer.NewLexer(lexer.NewScanner(r, testURL))
	for n := 0; n < 100000; n++ {
		t := l.Lex()
		fmt.Fprintf(&b, "%d %q %v %q %v|", t.Type, t.Literal, t.NewLine, t.Source(), l.Location())
		if t.Type == lexer.TokenNone {
			break
		}
	}
	return
}

// capture diverts standard output and standard error into a file.
type capture struct {
	f      *os.File
	o1, o2 int
}

func startCapture() *capture {
	path := os.Getenv("VERIF_CAPTURE")
	f, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE|os.O_APPEND, 0o666)
	if err != nil {
		fatalf("capture: %v", err)
	}
	k := &capture{f: f}
	k.o1, _ = syscall.Dup(1)
	k.o2, _ = syscall.Dup(2)
	syscall.CloseOnExec(k.o1)
	syscall.CloseOnExec(k.o2)
	if syscall.Dup3(int(f.Fd()), 1, 0) != nil || syscall.Dup3(int(f.Fd()), 2, 0) != nil {
		fatalf("capture: can not divert output")
	}
	return k
}

func (k *capture) size() int64 {
	fi, err := k.f.Stat()
	if err != nil {
		return 0
	}
	return fi.Size()
}

func (k *capture) stop() string {
	syscall.Dup3(k.o1, 1, 0)
	syscall.Dup3(k.o2, 2, 0)
	syscall.Close(k.o1)
	syscall.Close(k.o2)
	b := make([]byte, min(int(k.size()), 4000))
	k.f.ReadAt(b, 0)
	return string(b)
}

// raceReports returns the reports of the race detector that involve the system
// under test.
func raceReports() (mine []string, other int) {
	m, _ := filepath.Glob(os.Getenv("VERIF_RACELOG") + "*")
	for _, p := range m {
		b, _ := os.ReadFile(p)
		for _, r := range strings.Split(string(b), "==================") {
			if !strings.Contains(r, "DATA RACE") {
				continue
			}
			if strings.Contains(r, "jchv/cleansheets/") {
				mine = append(mine, strings.TrimSpace(r))
			} else {
				other++
			}
		}
	}
	return
}

// isoHash summarises an outcome.
func isoHash(o *Outcome) string {
	sum := sha256.Sum256([]byte(o.kind() + "\x00" + o.message() + "\x00" + string(o.JSON) + "\x00" + o.TreeErr))
	return fmt.Sprintf("%x", sum[:12])
}

type isoJob struct {
	Mode, Src string
	FailAt    int
}

// isoMain parses the texts of a file in order, in this fresh process, and
// prints the summary of each result.
func isoMain(file string) {
	b, err := os.ReadFile(file)
	if err != nil {
		fatalf("%v", err)
	}
	var jobs []isoJob
	if err := json.Unmarshal(b, &jobs); err != nil {
		fatalf("%v", err)
	}
	out := make([]string, len(jobs))
	for i, j := range jobs {
		x := &isoCase{mode: j.Mode, src: j.Src, failAt: j.FailAt}
		out[i] = isoHash(x.run(nil, testURL))
	}
	b, _ = json.Marshal(out)
	os.Stdout.Write(b)
}

// fresh runs texts in a process of their own, in the given order.
func fresh(texts []isoCase, order []int) ([]string, error) {
	var jobs []isoJob
	for _, i := range order {
		jobs = append(jobs, isoJob{texts[i].mode, texts[i].src, texts[i].failAt})
	}
	f, err := os.CreateTemp("", "verif-iso")
	if err != nil {
		return nil, err
	}
	defer os.Remove(f.Name())
	b, _ := json.Marshal(jobs)
	f.Write(b)
	f.Close()
	cmd := exec.Command(os.Args[0], "iso", f.Name())
	cmd.Env = append(os.Environ(), "VERIF_CHILD=", "GORACE=exitcode=0")
	b, err = cmd.Output()
	if err != nil {
		return nil, err
	}
	var out []string
	if err := json.Unmarshal(b, &out); err != nil || len(out) != len(order) {
		return nil, fmt.Errorf("%v: %s", err, clip(string(b), 200))
	}
	return out, nil
}

func c18(c *Check) {
	c.rule = "the same texts - programs, corrupted programs, unimplemented constructs, failing readers, deep nesting - are parsed one after another, again, in reverse and random orders, repeatedly, in lock-step interleavings of 2 to 4 parsers at every rune (chosen by a controlled scheduler), and freely by up to 32 goroutines with yields and delays injected into the readers, in a binary built with the race detector; every result is compared with the first one, trees and conversions made earlier are converted again later, and file descriptors 1 and 2 are watched. Non-trivial: a text parsed again under another history; distinct: by text and history (order, interleaving)."
	c.assume = append(c.assume, "the race detector sees only races on executed paths")
	var texts []isoCase
	add := func(mode, src string) { texts = append(texts, isoCase{mode: mode, src: src}) }
	for _, s := range scriptSeeds {
		add("script", s)
		add("module", s)
	}
	for _, s := range moduleSeeds {
		add("module", s)
		add("script", s)
	}
	for _, s := range exprSeeds {
		add("expression", s)
	}
	for i, s := range unimplemented {
		add(modeNames[i%3], s)
	}
	for i, p := range namePositions {
		add(modeNames[i%2], strings.ReplaceAll(p, "W", []string{"let", "a", "async", "yield", "static", "await", "of", "if"}[i%8]))
	}
	for _, n := range []nesting{{"(", "a", ")"}, {"[", "", "]"}, {"a=>", "b", ""}, {"{", "", "}"}, {"if(a)", ";", ""}} {
		for _, d := range []int{50, 3000} {
			add("script", strings.Repeat(n.open, d)+n.mid+strings.Repeat(n.close, d))
		}
	}
	gr := newRng(c.Seed, "c18")
	for i := 0; i < c.n(500); i++ {
		p := defaultProfile(5 + gr.Intn(60))
		p.Stmt = gr.Float()
		p.Module = gr.Chance(0.3)
		t := genProgram(gr, p, 1+gr.Intn(4))
		toks, _, err := printTree(t, gr, 0.1*gr.Float())
		if err != nil {
			continue
		}
		add(modeOf(t), layout(toks, randomStyle(gr), gr).Src)
		txt := make([]string, len(toks))
		for k := range toks {
			txt[k] = toks[k].Text
		}
		add(modeOf(t), strings.Join(corrupt(txt, gr), " "))
		x := texts[len(texts)-2]
		if n := len([]rune(x.src)); n > 0 {
			x.failAt = 1 + gr.Intn(n)
			texts = append(texts, x)
		}
	}
	// Numbers, strings and names that a shared table or buffer would mix up.
	for i := 0; i < 60; i++ {
		add("script", fmt.Sprintf("var v%d = %d + 0x%x + '%s' + /%s/g + %q;", i, i*7919, i*104729, strings.Repeat("s", i), strings.Repeat("r", i+1), fmt.Sprint("q", i)))
	}
	// Many names of one length.
	for i := 0; i < 40; i++ {
		var b strings.Builder
		for j := 0; j < 60; j++ {
			fmt.Fprintf(&b, "%s = '%s';", randomName(gr, 4), randomName(gr, 5))
		}
		add("script", b.String())
	}
	for _, f := range corpus(6, 20000) {
		if b, err := os.ReadFile(f); err == nil && len(b) < 100000 {
			add("script", string(b))
		}
	}
	w := c.worker(0)
	var mu sync.Mutex
	diverted := false
	var deferred []func()
	// Violations are reported once the output is no longer diverted.
	violate := func(what, mode, src string, detail any) {
		mu.Lock()
		defer mu.Unlock()
		if diverted {
			deferred = append(deferred, func() { w.violate(what, mode, src, detail) })
			return
		}
		w.violate(what, mode, src, detail)
	}
	enough := func() bool { mu.Lock(); defer mu.Unlock(); return len(deferred) >= maxViolations }
	compare := func(x *isoCase, o *Outcome, history string) bool {
		c.eval()
		if sameOutcome(x.first, o) {
			return true
		}
		violate("another result than at first: "+describeDiff(x.first, o), x.mode, x.src, map[string]any{"history": history})
		return false
	}
	t0 := time.Now()
	phase := func(name string) {
		c.count("ms_"+name, int(time.Since(t0).Milliseconds()))
		t0 = time.Now()
	}
	k := startCapture()
	diverted = true

	// First parse of everything, watching the output after each.
	size := k.size()
	for i := range texts {
		x := &texts[i]
		w.begin(x.mode, x.src)
		x.first = x.run(nil, testURL)
		if x.failAt == 0 {
			x.tokens = lexDump(newReader(x.src))
		}
		w.end()
		c.eval()
		if n := k.size(); n != size {
			b := make([]byte, min(int(n-size), 300))
			k.f.ReadAt(b, size)
			violate("parsing writes to standard output or standard error", x.mode, x.src, string(b))
			size = n
		}
		if enough() {
			// The rest was not parsed.
			texts = texts[:i+1]
			break
		}
	}
	c.count("texts", len(texts))
	kept := make([]ast.Node, len(texts))
	keptTree := make([]any, len(texts))
	for i := range texts {
		kept[i] = texts[i].first.Node
		if texts[i].first.Accepted() && texts[i].first.TreeErr == "" {
			keptTree[i] = texts[i].first.Node.ESTree()
		}
	}
	phase("first")
	// Again, in other orders and repeatedly.
	orders := []string{"same order", "reverse", "random", "repeated"}
	for oi, name := range orders {
		if enough() {
			break
		}
		for n := range texts {
			i := n
			switch name {
			case "reverse":
				i = len(texts) - 1 - n
			case "random":
				i = gr.Intn(len(texts))
			}
			x := &texts[i]
			reps := 1
			if name == "repeated" {
				reps = 6
				if len(x.src) > 1000 {
					continue
				}
			}
			for ; reps > 0; reps-- {
				w.begin(x.mode, x.src)
				o := x.run(nil, testURL)
				w.end()
				if !compare(x, o, name) {
					break
				}
			}
			w.note(fmt.Sprint(name, oi, i))
		}
	}
	c.count("reparses_in_order", len(orders)*len(texts))
	phase("orders")
	// In fresh processes, so that nothing was parsed before, or other things.
	valid := []int{}
	for i := range texts {
		// JSON does not carry invalid UTF-8.
		if utf8.ValidString(texts[i].src) && len(texts[i].src) < 2000 {
			valid = append(valid, i)
		}
	}
	var fwg sync.WaitGroup
	freshOrder := func(order []int) {
		fwg.Add(1)
		go func() {
			defer fwg.Done()
			out, err := fresh(texts, order)
			if err != nil {
				c.count("fresh_processes_failed", 1)
				return
			}
			c.count("fresh_processes", 1)
			for n, i := range order {
				c.eval()
				if out[n] != isoHash(texts[i].first) {
					before := ""
					if n > 0 {
						before = clip(texts[order[n-1]].src, 200)
					}
					violate("another result in a fresh process", texts[i].mode, texts[i].src, map[string]any{"parsed before it there": n, "the last": before, "here": texts[i].first.String()})
					return
				}
			}
		}()
	}
	if !enough() && len(valid) > 0 {
		rev := make([]int, len(valid))
		for i := range valid {
			rev[i] = valid[len(valid)-1-i]
		}
		freshOrder(rev)
		for n := 0; n < c.n(6); n++ {
			sh := append([]int{}, valid...)
			for i := len(sh) - 1; i > 0; i-- {
				j := gr.Intn(i + 1)
				sh[i], sh[j] = sh[j], sh[i]
			}
			freshOrder(sh[:len(sh)/2])
			if n%6 == 5 {
				fwg.Wait()
			}
		}
		// Alone.
		for n := 0; n < c.n(24); n++ {
			freshOrder([]int{pick(gr, valid)})
			if n%8 == 7 {
				fwg.Wait()
			}
		}
		fwg.Wait()
	}
	phase("fresh")
	// Lock-step interleavings: one of several parsers runs at any time, and the
	// scheduler may switch at every call of a reader.
	switches, schedules := 0, map[uint64]bool{}
	small := []int{}
	for i := range texts {
		if len(texts[i].src) < 400 {
			small = append(small, i)
		}
	}
	for n := 0; n < c.n(2500) && !enough() && len(small) > 0; n++ {
		g := 2 + gr.Intn(3)
		stick := gr.Float()
		var idx []int
		for j := 0; j < g; j++ {
			idx = append(idx, pick(gr, small))
		}
		if gr.Chance(0.2) {
			idx[1] = idx[0]
		}
		outs := make([]*Outcome, g)
		toks := make([]string, g)
		lexing := gr.Chance(0.3)
		turn := make([]chan bool, g)
		back := make(chan bool)
		for j := range idx {
			turn[j] = make(chan bool)
			go func(j int) {
				<-turn[j]
				x := &texts[idx[j]]
				step := func() { back <- true; <-turn[j] }
				if lexing && x.failAt == 0 {
					toks[j] = lexDump(&steppedReader{newReader(x.src), step})
				} else {
					outs[j] = x.run(step, testURL)
				}
				back <- false
			}(j)
		}
		var live []int
		for j := 0; j < g; j++ {
			live = append(live, j)
		}
		cur, h := 0, uint64(1469598103934665603)
		w.begin(texts[idx[0]].mode, texts[idx[0]].src)
		for len(live) > 0 {
			if !gr.Chance(stick) {
				nx := gr.Intn(len(live))
				if nx != cur {
					switches++
				}
				cur = nx
			}
			cur %= len(live)
			h = bits.RotateLeft64(h^uint64(live[cur]+1), 7) * 1099511628211
			turn[live[cur]] <- true
			if !<-back {
				live = append(live[:cur:cur], live[cur+1:]...)
				cur = 0
			}
		}
		w.end()
		schedules[h] = true
		for j := range idx {
			x := &texts[idx[j]]
			hist := fmt.Sprintf("interleaved with %q", clip(texts[idx[(j+1)%g]].src, 200))
			if outs[j] == nil {
				c.eval()
				if toks[j] != x.tokens {
					violate("other tokens than at first", x.mode, x.src, map[string]any{"history": hist, "first": clip(x.tokens, 500), "now": clip(toks[j], 500)})
				}
			} else {
				compare(x, outs[j], hist)
			}
		}
		w.note(fmt.Sprint("interleaving", h))
	}
	c.count("interleavings", len(schedules))
	c.count("switches_between_parsers", switches)
	phase("interleavings")
	// Free concurrency, with yields and delays in the readers.
	for round, g := range []int{2, 4, 8, 16, 32, 8, 32} {
		if enough() || len(small) == 0 {
			break
		}
		var wg sync.WaitGroup
		start := make(chan bool)
		per := c.n(3200) / g
		rngs := make([]*Rng, g)
		for j := range rngs {
			rngs[j] = newRng(c.Seed, "free", round, j)
		}
		hot := pick(gr, small)
		slots := make([]*Slot, g)
		for j := range slots {
			slots[j] = theSlots.get(j % numSlots)
		}
		for j := 0; j < g; j++ {
			wg.Add(1)
			go func(j int) {
				defer wg.Done()
				r := rngs[j]
				u := testURL
				if r.Chance(0.5) {
					v := *testURL
					u = &v
				}
				<-start
				for n := 0; n < per; n++ {
					i := r.Intn(len(texts))
					if r.Chance(0.3) {
						i = hot
					}
					x := &texts[i]
					q := 0.3 * r.Float()
					step := func() {
						if r.Chance(q) {
							runtime.Gosched()
						} else if q > 0.2 && len(x.src) < 200 && r.Chance(0.01) {
							time.Sleep(time.Microsecond * time.Duration(1+r.Intn(50)))
						}
					}
					if r.Chance(0.3) {
						step = nil
					}
					slots[j].begin(x.mode, x.src)
					var o *Outcome
					var toks string
					lexing := r.Chance(0.2) && x.failAt == 0
					if lexing {
						toks = lexDump(newReader(x.src))
					} else {
						o = x.run(step, u)
					}
					slots[j].end()
					if lexing {
						c.eval()
						if toks != x.tokens {
							violate("other tokens than at first", x.mode, x.src, map[string]any{"history": fmt.Sprintf("%d goroutines", g)})
							return
						}
						continue
					}
					if !compare(x, o, fmt.Sprintf("%d goroutines", g)) {
						return
					}
				}
			}(j)
		}
		close(start)
		wg.Wait()
		c.count("concurrent_parses", g*per)
	}
	phase("concurrent")
	// Parsers created before others run, used after; sharing nothing.
	for n := 0; n < 200 && !enough() && len(small) > 0; n++ {
		a, b := &texts[pick(gr, small)], &texts[pick(gr, small)]
		w.begin(a.mode, a.src)
		pa := parser.NewParser(lexer.NewLexer(lexer.NewScanner(a.reader(), testURL)))
		ob := b.run(nil, testURL)
		oa := &Outcome{}
		func() {
			defer func() { oa.Panic = recover() }()
			oa.Node, oa.Err = pa.Parse(parser.ParseOptions{Mode: modes[a.mode]})
		}()
		oa.convert()
		w.end()
		compare(a, oa, "parser made before another ran")
		compare(b, ob, "another parser was waiting")
	}
	// What was produced first is still the same.
	for i := range texts {
		if keptTree[i] == nil || enough() {
			continue
		}
		x := &texts[i]
		c.eval()
		o := &Outcome{Node: kept[i]}
		w.begin(x.mode, x.src)
		o.convert()
		b, err := json.Marshal(keptTree[i])
		w.end()
		if err != nil || string(b) != string(x.first.JSON) {
			violate("the ESTree made at first has changed", x.mode, x.src, nil)
		}
		if o.TreeErr != "" || string(o.JSON) != string(x.first.JSON) {
			violate("the tree parsed at first has changed", x.mode, x.src, nil)
		}
		c.count("old_trees_unchanged", 1)
	}
	if n := k.size(); n != size {
		b := make([]byte, min(int(n-size), 1000))
		k.f.ReadAt(b, size)
		violate("concurrent parsing writes to standard output or standard error", "", "", string(b))
	}
	c.count("bytes_written_to_output", int(k.size()))
	k.stop()
	diverted = false
	for _, f := range deferred {
		f()
	}
	mine, other := raceReports()
	c.count("race_reports", len(mine))
	c.count("race_reports_elsewhere", other)
	if raceEnabled {
		c.count("race_detector", 1)
	}
	for i, r := range mine {
		if i < 3 {
			w.violate("data race: "+raceSite(r), "", "", clip(r, 4000))
		}
	}
	for _, i := range []int{0, 40, 90} {
		w.sample(map[string]any{"mode": texts[i].mode, "src": clip(texts[i].src, 200), "result": texts[i].first.String()})
	}
	c.require("race_detector", 1, "interleavings", 1000, "switches_between_parsers", 20000, "concurrent_parses", 10000, "fresh_processes", 6, "old_trees_unchanged", 300)
}

func describeDiff(a, b *Outcome) string {
	if a.kind() == "tree" && b.kind() == "tree" {
		if d := diff("", a.Tree, b.Tree); d != "" {
			return d
		}
		return "the JSON differs"
	}
	return fmt.Sprintf("%s, not %s", clip(b.String(), 300), clip(a.String(), 300))
}

// raceSite names the first frame of the system under test.
func raceSite(r string) string {
	for _, l := range strings.Split(r, "\n") {
		if i := strings.Index(l, "jchv/cleansheets/"); i >= 0 {
			return strings.TrimSpace(l[i:])
		}
	}
	return ""
}

func randomName(r *Rng, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ$_"[r.Intn(54)]
	}
	return string(b)
}
