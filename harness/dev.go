package main

import (
	"fmt"
	"os"
	"strings"
)

// devMain checks the generator and printer against acorn, without the system
// under test.
func devMain(args []string) {
	c := newCheck("dev")
	useAcorn["dev"] = true
	bad := map[string]int{}
	total, early := 0, 0
	c.run("dev", c.n(4000), func(w *Worker, i int, r *Rng) {
		p := defaultProfile(10 + r.Intn(150))
		p.Module = i%5 == 0
		p.Stmt = r.Float()
		g := newGen(r, p)
		t := g.program(1 + r.Intn(8))
		toks, _, err := printTree(t, r, 0.05)
		if err != nil {
			c.mu.Lock()
			bad[err.Error()]++
			c.mu.Unlock()
			return
		}
		l := layout(toks, randomStyle(r), r)
		mode := str(t, "sourceType")
		a := w.acorn.parse(l.Src, mode)
		c.mu.Lock()
		defer c.mu.Unlock()
		total++
		if !a.OK {
			if a.early() {
				early++
			}
			bad[strings.Split(a.Err, "(")[0]]++
			if bad["_printed"] < 5 {
				bad["_printed"]++
				fmt.Printf("--- %d %s %s\n%q\n", i, mode, a.Err, around(l.Src, a.Pos))
			}
			return
		}
		want := normalise(clone(t))
		if d := diff("", want, a.AST); d != "" {
			bad["diff"]++
			if bad["_printed"] < 10 {
				bad["_printed"]++
				fmt.Printf("--- %d %s DIFF %s\n%q\n", i, mode, d, clip(l.Src, 700))
			}
		}
	})
	fmt.Println(total, early)
	for k, n := range bad {
		fmt.Println(n, k)
	}
	_ = os.Args
}

// around returns the text around a UTF-16 offset.
func around(src string, pos int) string {
	u := []rune(src)
	off := 0
	for i, c := range u {
		if off >= pos {
			lo, hi := i-150, i+40
			if lo < 0 {
				lo = 0
			}
			if hi > len(u) {
				hi = len(u)
			}
			return string(u[lo:i]) + " <<<HERE>>> " + string(u[i:hi])
		}
		off++
		if c > 0xffff {
			off++
		}
	}
	return "end"
}
