package main

import (
	"fmt"
	"strings"

	"github.com/jchv/cleansheets/ecmascript/ast"
)

func init() { checks["C16"] = c16 }

// imp describes one import declaration.
type imp struct {
	def   string
	ns    string
	named [][2]string // imported, local
	brace bool        // named list, even if empty
	src   string      // raw module specifier
}

func (d imp) tree() M {
	n := nd("ImportDeclaration", "source", strLit(d.src))
	sp := []any{}
	if d.def != "" {
		sp = append(sp, nd("ImportDefaultSpecifier", "local", ident(d.def)))
	}
	if d.ns != "" {
		sp = append(sp, nd("ImportNamespaceSpecifier", "local", ident(d.ns)))
	}
	for _, x := range d.named {
		sp = append(sp, nd("ImportSpecifier", "imported", ident(x[0]), "local", ident(x[1])))
	}
	if d.brace && len(d.named) == 0 {
		n["emptyBraces"] = true
	}
	n["specifiers"] = sp
	return n
}

// matches compares the declaration with the parser's own node.
func (d imp) matches(n ast.Node) string {
	var v ast.ImportDeclNode
	switch t := n.(type) {
	case ast.ImportDeclNode:
		v = t
	case *ast.ImportDeclNode:
		v = *t
	default:
		return fmt.Sprintf("node of type %T", n)
	}
	def, ns := "", ""
	if v.DefaultBinding != nil {
		def = v.DefaultBinding.Identifier
	}
	if v.NameSpace != nil {
		ns = v.NameSpace.Identifier
	}
	switch {
	case (v.DefaultBinding != nil) != (d.def != "") || def != d.def:
		return fmt.Sprintf("default binding %q, want %q", def, d.def)
	case (v.NameSpace != nil) != (d.ns != "") || ns != d.ns:
		return fmt.Sprintf("namespace binding %q, want %q", ns, d.ns)
	case len(v.NamedImports) != len(d.named):
		return fmt.Sprintf("%d named imports, want %d", len(v.NamedImports), len(d.named))
	case v.Module != d.src[1:len(d.src)-1] && !strings.Contains(d.src, "\\"):
		return fmt.Sprintf("module specifier %q, want %s", v.Module, d.src)
	}
	for i, x := range v.NamedImports {
		l := x.AsBinding
		if l == "" {
			l = x.Identifier
		}
		if x.Identifier != d.named[i][0] || l != d.named[i][1] {
			return fmt.Sprintf("named import %d is %q as %q, want %q as %q", i, x.Identifier, x.AsBinding, d.named[i][0], d.named[i][1])
		}
	}
	return ""
}

// importWords can name what is imported; those that are not reserved can also
// name the local binding.
var importWords = append(append(append([]string{"a", "b", "foo", "$", "_", "éa", "变量", "constructor", "undefined", "of1", "asx", "fromx"}, neverReservedList...), reservedAlwaysList...), "let", "static", "yield", "await", "public")

func localWord(w string) bool {
	if reservedAlways[w] || w == "yield" || w == "await" {
		return false
	}
	for _, s := range reservedStrictList {
		if s == w {
			return false
		}
	}
	return true
}

// checkImports runs a module that consists of the declarations and other
// statements.
func (w *Worker) checkImports(ds []imp, rest []any, r *Rng, st Style) {
	body := []any{}
	for _, d := range ds {
		body = append(body, d.tree())
	}
	// Imports may stand anywhere at the top level.
	for _, s := range rest {
		j := r.Intn(len(body) + 1)
		body = append(body[:j:j], append([]any{s}, body[j:]...)...)
	}
	t := program("module", body...)
	l := w.checkTree(t, r, 0, st)
	if l == nil {
		return
	}
	w.observe(t, l, 2)
	w.count("imports", len(ds))
	for _, d := range ds {
		w.count("bindings", len(d.tree()["specifiers"].([]any)))
	}
	// The parser's own nodes.
	o := parseFrom(strings.NewReader(l.Src), testURL, "module")
	m, ok := o.Node.(ast.ModuleNode)
	if !ok {
		if p, isPtr := o.Node.(*ast.ModuleNode); isPtr {
			m, ok = *p, true
		}
	}
	if !ok {
		w.violate(fmt.Sprintf("module parsed to %T", o.Node), "module", l.Src, nil)
		return
	}
	k := 0
	for _, n := range m.Body {
		switch n.(type) {
		case ast.ImportDeclNode, *ast.ImportDeclNode:
			if k < len(ds) {
				if d := ds[k].matches(n); d != "" {
					w.violate("import node: "+d, "module", l.Src, ds[k])
				}
			}
			k++
		}
	}
	if k != len(ds) {
		w.violate(fmt.Sprintf("%d import nodes, want %d", k, len(ds)), "module", l.Src, nil)
	}
	w.count("import_nodes_compared", k)
}

// C16: imports.
func c16(c *Check) {
	c.rule = "import declarations enumerated (default binding x namespace or named list of 0 to 3 entries over every word that may name a binding, with and without trailing comma) and generated, in all layouts and between other statements, compared with the declaration both as ESTree and as the parser's own nodes; and every one- and many two-token corruptions of import declarations, which must be rejected when acorn finds no production. Non-trivial: modules with an import, judged corruptions; distinct: by source text."
	c.assume = append(c.assume, acornNote)
	canon := Style{Canonical: true}
	mini := Style{Minimal: true, NoASI: true}
	styles := []Style{canon, mini, {NoASI: true, Newline: 0.7}, {NoASI: true, Comment: 0.7, Newline: 0.1}}
	// Words in each place.
	c.run("words", len(importWords), func(w *Worker, i int, r *Rng) {
		a := importWords[i]
		var ds []imp
		s := "'m'"
		if localWord(a) {
			ds = append(ds, imp{def: a, src: s}, imp{ns: a, src: s}, imp{def: "q", ns: a, src: s}, imp{def: a, ns: "q", src: s},
				imp{def: a, brace: true, src: s}, imp{named: [][2]string{{a, a}}, brace: true, src: s},
				imp{def: a, named: [][2]string{{a, "q"}}, brace: true, src: s},
				imp{named: [][2]string{{"x", a}}, brace: true, src: s}, imp{named: [][2]string{{"x", "y"}, {a, a}, {"z", "z"}}, brace: true, src: s})
		}
		ds = append(ds, imp{named: [][2]string{{a, "q"}}, brace: true, src: s}, imp{def: "d", named: [][2]string{{"x", "x"}, {a, "q"}}, brace: true, src: s})
		for _, b := range importWords {
			if b == a {
				continue
			}
			if localWord(b) {
				ds = append(ds, imp{named: [][2]string{{a, b}}, brace: true, src: s})
				if localWord(a) {
					ds = append(ds, imp{named: [][2]string{{b, a}, {a, b}}, brace: true, src: s}, imp{def: a, ns: b, src: s}, imp{def: b, named: [][2]string{{a, a}}, brace: true, src: s})
				}
			}
		}
		for _, d := range ds {
			for _, st := range styles {
				w.checkImports([]imp{d}, nil, r, st)
			}
		}
	})
	// Shapes.
	c.run("shapes", c.n(60000), func(w *Worker, i int, r *Rng) {
		g := newGen(r, Profile{Module: true, Fuel: 10, Op: 1, Prim: 1, Stmt: 0.5})
		used := map[string]bool{}
		local := func() string {
			for {
				s := pick(r, importWords)
				if r.Chance(0.4) {
					s = g.fresh("I")
				}
				if localWord(s) && !used[s] {
					used[s] = true
					return s
				}
			}
		}
		var ds []imp
		for n := 1 + r.Intn(4); n > 0; n-- {
			d := imp{src: genString(r, r.Chance(0.2))}
			if r.Chance(0.5) {
				d.def = local()
			}
			switch r.Intn(4) {
			case 0:
				d.ns = local()
			case 1, 2:
				d.brace = true
				for k := r.Intn(6); k > 0 && len(used) < 14; k-- {
					l := local()
					im := l
					if r.Chance(0.6) {
						im = pick(r, importWords)
					}
					d.named = append(d.named, [2]string{im, l})
				}
			}
			ds = append(ds, d)
		}
		var rest []any
		if r.Chance(0.4) {
			for n := 1 + r.Intn(3); n > 0; n-- {
				rest = append(rest, exprStatement(pick(r, []M{ident("x"), nd("CallExpression", "callee", ident("f"), "arguments", []any{}), numLit("1")})))
			}
		}
		st := randomStyle(r)
		w.checkImports(ds, rest, r, st)
		if i%499 == 0 {
			w.sample(fmt.Sprintf("%+v", ds))
		}
	})
	c.wide(c.n(60))
	// Long lists.
	c.run("long", c.n(20), func(w *Worker, i int, r *Rng) {
		d := imp{src: "'m'", brace: true}
		for k := 0; k < 10+r.Intn(3000); k++ {
			a := fmt.Sprintf("n%d", k)
			d.named = append(d.named, [2]string{pick(r, []string{a, "x" + a, "default", "from"}), a})
		}
		w.checkImports([]imp{d}, nil, r, pick(r, styles))
	})
	// Corruptions.
	seeds := []string{"import 'a';", "import a from 'a';", "import * as a from 'a';", "import {} from 'a';", "import {a} from 'a';", "import {a, b} from 'a';", "import {a as b} from 'a';", "import {a as b, c as d,} from 'a';", "import {a, b as c, d, e} from 'a';",
		"import a, * as b from 'a';", "import a, {} from 'a';", "import a, {b, c as d} from 'a';", "import {default as a} from 'a';", "import as, {as as from} from 'a';", "import from from 'from';", "import * as as from 'a';", "import {from as as, as} from 'a';",
		"import a from 'a'; import b from 'b'; x;", "import 'a'\nimport 'b'\n", "import {a}\nfrom\n'a'\nx"}
	vocab := strings.Fields("{ } ( ) [ ] * , ; . ... = : => a b 1 's' as from default import export if function class let null this async of get /r/ @ # + ** `x`")
	type job struct{ s, p int }
	var jobs []job
	var toks [][]string
	for k, s := range seeds {
		var l []string
		for i, line := range strings.Split(s, "\n") {
			if i > 0 {
				l = append(l, "\n")
			}
			l = append(l, tokenize(line)...)
		}
		toks = append(toks, l)
		for p := 0; p <= len(l); p++ {
			jobs = append(jobs, job{k, p})
		}
	}
	judge := func(w *Worker, l []string) {
		src := strings.Join(l, " ")
		got, d, _ := w.judge(src, "module")
		if d != "" {
			w.violate(d, "module", src, nil)
			return
		}
		if got == judgedReject {
			w.count("malformed_rejected", 1)
			w.note(src)
		}
		// Not a declaration in a script.
		if strings.HasPrefix(src, "import ") {
			w.eval()
			if o := w.parse(src, "script"); o.Accepted() && !w.acorn.parse(src, "script").OK {
				w.violate("import declaration accepted in a script", "script", src, nil)
			}
			w.count("rejected_in_script", 1)
		}
	}
	edit := func(l []string, p int, how int, v string) []string {
		pre, post := l[:p:p], l[p:]
		switch how {
		case 0:
			if len(post) > 0 {
				return append(pre, post[1:]...)
			}
		case 1:
			if len(post) > 0 {
				return append(append(pre, post[0]), post...)
			}
		case 2:
			if len(post) > 1 {
				return append(append(pre, post[1], post[0]), post[2:]...)
			}
		case 3:
			return append(append(pre, v), post...)
		case 4:
			if len(post) > 0 {
				return append(append(pre, v), post[1:]...)
			}
		case 5:
			return pre
		}
		return append(pre, post...)
	}
	c.run("one edit", len(jobs), func(w *Worker, i int, r *Rng) {
		l, p := toks[jobs[i].s], jobs[i].p
		for _, h := range []int{0, 1, 2, 5} {
			judge(w, edit(l, p, h, ""))
		}
		for _, v := range vocab {
			judge(w, edit(l, p, 3, v))
			judge(w, edit(l, p, 4, v))
		}
	})
	c.run("several edits", c.n(200000), func(w *Worker, i int, r *Rng) {
		l := toks[r.Intn(len(toks))]
		for n := 2 + r.Intn(2); n > 0; n-- {
			l = edit(l, r.Intn(len(l)+1), r.Intn(5), pick(r, vocab))
		}
		judge(w, l)
	})
	c.require("malformed_rejected", 10000, "import_nodes_compared", 10000, "distinct", 15000)
}
