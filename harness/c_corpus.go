package main

import (
	"os"
	"path/filepath"
	"strings"
	"sync"
	"unicode/utf8"
)

func init() { checks["C22"] = c22 }

// realPrograms is a pool of pieces of real programs.
type realPrograms struct {
	mu     sync.Mutex
	stmts  []Piece
	exprs  []Piece
	broken int
}

// gather reads files and cuts them into pieces.
func (c *Check) gather(files []string, perFile, maxLen int) *realPrograms {
	p := c.gatherAll(files, perFile, maxLen)
	// Few templates, chains and so on: they are not judged.
	old := func(l []Piece) (o []Piece) {
		for _, x := range l {
			if t := strings.Join(x.Toks, ""); !strings.ContainsAny(t, "`") && (!strings.Contains(t, "?.") || strings.Contains(t, "?.5")) {
				o = append(o, x)
			}
		}
		return
	}
	p.stmts, p.exprs = old(p.stmts), old(p.exprs)
	return p
}

func (c *Check) gatherAll(files []string, perFile, maxLen int) *realPrograms {
	p := &realPrograms{}
	lists := make([][]Piece, len(files))
	c.run("gather", len(files), func(w *Worker, i int, r *Rng) {
		b, err := os.ReadFile(files[i])
		if err != nil || !utf8.Valid(b) {
			return
		}
		for _, mode := range []string{"script", "module"} {
			a := w.acorn.do(AcornReq{Src: string(b), Mode: mode, Pieces: true, Max: maxLen, Count: perFile, Seed: uint32(r.U64())})
			if a.OK {
				lists[i] = a.Pieces
				return
			}
		}
		w.count("files_acorn_rejects", 1)
	})
	seen := map[string]bool{}
	for _, l := range lists {
		for _, x := range l {
			t := strings.Join(x.Toks, "")
			if seen[t] {
				continue
			}
			seen[t] = true
			if x.Stmt {
				p.stmts = append(p.stmts, x)
			} else {
				p.exprs = append(p.exprs, x)
			}
		}
	}
	return p
}

var gaps = []string{"\n", " ", "\t", "/**/", "/*\n*/", "//\n", "\r\n", "\u2028", "  \n  ", "\n\n", "/* a */ ", "// b\n"}

var realWords = append(append([]string{}, vocabulary...), "async", "of", "get", "set", "static", "let", "yield", "await", "from", "as", "target", "arguments", "eval", "enum", "implements")

// mutate changes a piece; the other pieces lend it tokens and expressions.
func (p *realPrograms) mutate(x Piece, r *Rng) string {
	t := append([]string{}, x.Toks...)
	n := len(t) / 2
	splice := func(from, to int, with []string) {
		t = append(append(append([]string{}, t[:2*from]...), with...), t[2*to:]...)
		n = len(t) / 2
	}
	foreign := func() []string {
		o := pick(r, p.exprs)
		if r.Chance(0.6) {
			if l := pick(r, p.stmts); len(l.Exprs) > 0 {
				e := pick(r, l.Exprs)
				return append([]string{}, l.Toks[2*e[0]:2*e[1]]...)
			}
		}
		return append([]string{}, o.Toks...)
	}
	k := r.Intn(10)
	for m := 1 + r.Intn(3)*r.Intn(2); m > 0 && n > 0; m-- {
		i := r.Intn(n)
		switch k {
		case 0: // other gaps
			for q := 1 + r.Intn(1+n/2); q > 0; q-- {
				j := r.Intn(n)
				if g := t[2*j]; g != "" {
					t[2*j] = pick(r, gaps)
				} else if r.Chance(0.3) {
					t[2*j] = pick(r, gaps)
				}
			}
		case 1: // one line break in place of white space
			t[2*i] = pick(r, []string{"\n", "\r\n", "/*\n*/", "//\n"})
		case 2: // all line breaks gone
			for j := range t {
				if j%2 == 0 && strings.ContainsAny(t[j], "\n\r\u2028\u2029") {
					t[j] = " "
				}
			}
			m = 0
		case 3: // another expression in place of one
			if len(x.Exprs) > 0 {
				e := pick(r, x.Exprs)
				if e[1] <= n {
					w := foreign()
					if r.Chance(0.5) {
						w = append(append([]string{"", "("}, w...), "", ")")
					}
					if len(w) > 0 {
						w[0] = t[2*e[0]]
						splice(e[0], e[1], w)
					}
				}
				m = 0
			}
		case 4: // parentheses around an expression
			if len(x.Exprs) > 0 {
				e := pick(r, x.Exprs)
				if e[1] <= n {
					w := append([]string{t[2*e[0]], "("}, t[2*e[0]:2*e[1]]...)
					w[2] = ""
					splice(e[0], e[1], append(w, "", ")"))
				}
				m = 0
			}
		case 5: // a token gone: often a semicolon
			if r.Chance(0.5) {
				for q := 0; q < n; q++ {
					if j := (i + q) % n; t[2*j+1] == ";" {
						i = j
						break
					}
				}
			}
			g := t[2*i]
			splice(i, i+1, nil)
			if i < n && g != "" && t[2*i] == "" {
				t[2*i] = g
			}
		case 6:
			splice(i, i, []string{" ", pick(r, realWords)})
			if i+1 < n && t[2*i+2] == "" {
				t[2*i+2] = " "
			}
		case 7:
			t[2*i+1] = pick(r, realWords)
			if t[2*i] == "" {
				t[2*i] = " "
			}
			if i+1 < n && t[2*i+2] == "" {
				t[2*i+2] = " "
			}
		case 8:
			j := r.Intn(n)
			t[2*i+1], t[2*j+1] = t[2*j+1], t[2*i+1]
		case 9: // an operator in place of a comma or an operator, a name for a name
			for q := 0; q < n; q++ {
				j := (i + q) % n
				if x := t[2*j+1]; punctSet[x] && !strings.Contains("(){}[];", x) {
					t[2*j] += " "
					t[2*j+1] = pick(r, []string{"+", "-", "*", "**", "/", "%", "<", ">>>", "==", "!==", "&", "|", "^", "&&", "||", "??", ",", "?", ":", "=", "+=", "**=", "??=", "in", "instanceof", "=>", "."}) + " "
					break
				}
			}
		}
	}
	return strings.Join(t, "")
}

// realFiles lists JavaScript files that real tools are made of.
func realFiles(max int, limit int64) []string {
	l := corpus(max, limit)
	m, _ := filepath.Glob("/usr/share/javascript/*/*.js")
	for _, f := range m {
		if fi, err := os.Stat(f); err == nil && fi.Mode().IsRegular() && fi.Size() <= limit {
			l = append(l, f)
		}
	}
	return l
}

func c22(c *Check) {
	c.rule = "JavaScript files of the repository's test data and of the installed tools are parsed whole, as scripts and modules, and their statements and expressions one by one, then with changed white space, line breaks, parentheses and semicolons, with expressions exchanged between programs, and with tokens changed; every accepted text must give acorn's tree, and every text acorn accepts within the supported subset must be accepted. Non-trivial: a text whose tree was compared; distinct: by text."
	c.assume = append(c.assume, "acorn 8.19.0 is the reference; a text it accepts and the parser does not is only reported if V8 accepts it too, and only within the supported subset", "the installed tools' files stand for real programs")
	files := realFiles(c.n(3000), 100000)
	check := func(w *Worker, src, mode, how string) {
		got, d, _ := w.judge(src, mode)
		if got == judgedReject {
			return // C14 is about these
		}
		if d != "" {
			small := src
			if len(src) < 20000 {
				small = shrinkText(src, func(s string) bool {
					g, d, _ := w.judge(s, mode)
					return g == judgedAccept && d != ""
				})
			}
			_, d2, _ := w.judge(small, mode)
			if d2 == "" {
				small, d2 = src, d
			}
			w.violate(d2, mode, small, map[string]any{"source": how})
			return
		}
		if got == judgedAccept {
			w.count("trees_"+strings.Fields(how)[0], 1)
			w.note(mode + src)
		}
	}
	c.run("files", len(files), func(w *Worker, i int, r *Rng) {
		b, err := os.ReadFile(files[i])
		if err != nil || !utf8.Valid(b) {
			return
		}
		src := string(b)
		mode := "script"
		if w.acorn.do(AcornReq{Src: src, Mode: "module", NoAST: true}).OK && !w.acorn.do(AcornReq{Src: src, Mode: "script", NoAST: true}).OK {
			mode = "module"
		}
		check(w, src, mode, "file "+files[i])
		if i%50 == 0 {
			w.sample(files[i])
		}
	})
	p := c.gather(files, 120, 1500)
	c.count("statement_pieces", len(p.stmts))
	c.count("expression_pieces", len(p.exprs))
	if len(p.stmts) == 0 || len(p.exprs) == 0 {
		return
	}
	// A statement of a function or a loop only fits into one.
	frame := func(w *Worker, src string, r *Rng) string {
		if strings.Contains(src, "return") || strings.Contains(src, "break") || strings.Contains(src, "continue") {
			if a := w.acorn.do(AcornReq{Src: src, Mode: "script", NoAST: true}); !a.OK && a.early() {
				return "function f() { for (;;) { " + src + "\n} }"
			}
		}
		return src
	}
	c.run("statements", min(len(p.stmts), c.n(40000)), func(w *Worker, i int, r *Rng) {
		src := frame(w, strings.Join(p.stmts[i].Toks, ""), r)
		mode := "script"
		if r.Chance(0.3) {
			mode = "module"
		}
		check(w, src, mode, "statement")
	})
	c.run("expressions", min(len(p.exprs), c.n(40000)), func(w *Worker, i int, r *Rng) {
		src := strings.Join(p.exprs[i].Toks, "")
		check(w, src, "expression", "expression")
		if r.Chance(0.3) {
			check(w, src, "script", "expression-statement")
		}
	})
	c.run("mutants", c.n(300000), func(w *Worker, i int, r *Rng) {
		if r.Chance(0.3) {
			check(w, p.mutate(pick(r, p.exprs), r), "expression", "mutated expression")
			return
		}
		mode := "script"
		if r.Chance(0.1) {
			mode = "module"
		}
		src := p.mutate(pick(r, p.stmts), r)
		check(w, frame(w, src, r), mode, "mutated statement")
		if i%5000 == 0 {
			w.sample(src)
		}
	})
	c.require("trees_file", 4)
}
