package main

import (
	"fmt"
	"strings"
)

// Wide and deep trees: lists of every kind with many elements and constructs
// nested many levels. Random trees are a few elements wide and a few levels
// deep, so what depends on the size of a list, on the index of an element or on
// the depth shows only here.

// wideGen makes the elements of a list. Most are names; special ones are rich.
type wideGen struct {
	r       *Rng
	n       int
	special map[int]bool
	all     bool
	strict  bool
	module  bool
}

// wideSize picks the number of elements: around powers of two, small, or any.
func wideSize(r *Rng, most int) int {
	switch r.Intn(5) {
	case 0, 1:
		for {
			n := 1<<(3+r.Intn(10)) + r.Intn(3) - 1
			if n <= most {
				return n
			}
			if most < 16 {
				return most
			}
		}
	case 2, 3:
		return 1 + r.Intn(min(most, 300))
	}
	return 1 + r.Intn(min(most, 3000))
}

func newWide(r *Rng, n int) *wideGen {
	g := &wideGen{r: r, n: n, special: map[int]bool{}}
	g.special[n-1], g.special[0] = r.Chance(0.5), r.Chance(0.3)
	for k := 0; k < 4; k++ {
		g.special[r.Intn(n)] = true
	}
	for p := 4; p <= n+1; p *= 2 {
		for d := -1; d <= 1; d++ {
			g.special[p+d] = r.Chance(0.4)
		}
	}
	g.all = n <= 400 && r.Chance(0.3)
	return g
}

func (g *wideGen) at(i int) bool { return g.all || g.special[i] }

// gen returns a generator for one element.
func (g *wideGen) gen() *Gen {
	p := defaultProfile(1 + g.r.Intn(8))
	p.Module = g.module
	x := newGen(g.r, p)
	x.c.strict = x.c.strict || g.strict
	x.n = 1000000 * (1 + g.r.Intn(1000000)) // names that occur nowhere else
	return x
}

func (g *wideGen) leaf() M {
	switch g.r.Intn(12) {
	case 0:
		return numLit(fmt.Sprint(g.r.Intn(100)))
	case 1:
		return strLit("'s'")
	}
	return ident(string(rune('a' + g.r.Intn(26))))
}

func (g *wideGen) expr(i int) M {
	if g.at(i) {
		return g.gen().expr()
	}
	return g.leaf()
}

func (g *wideGen) list(f func(i int) any) []any {
	l := make([]any, g.n)
	for i := range l {
		l[i] = f(i)
	}
	return l
}

// args is a list that takes spread elements.
func (g *wideGen) args() []any {
	return g.list(func(i int) any {
		e := g.expr(i)
		if g.at(i) && g.r.Chance(0.4) {
			return nd("SpreadElement", "argument", e)
		}
		return e
	})
}

// param is a binding named after i.
func (g *wideGen) param(i int, p string) M {
	name := ident(fmt.Sprintf("%s%d", p, i))
	if !g.at(i) {
		return name
	}
	var b M = name
	switch g.r.Intn(5) {
	case 0:
		b = nd("ArrayPattern", "elements", []any{nil, name})
	case 1:
		b = nd("ObjectPattern", "properties", []any{g.patProp(i, p)})
	case 2:
		return b
	}
	if g.r.Chance(0.7) {
		b = nd("AssignmentPattern", "left", b, "right", g.gen().expr())
	}
	return b
}

func (g *wideGen) patProp(i int, p string) M {
	name := ident(fmt.Sprintf("%s%d", p, i))
	n := nd("Property", "kind", "init", "method", false, "computed", false, "shorthand", true, "key", name, "value", clone(name))
	if !g.at(i) {
		return n
	}
	switch g.r.Intn(4) {
	case 0:
		n["value"] = nd("AssignmentPattern", "left", clone(name), "right", g.gen().expr())
	case 1:
		n["shorthand"], n["key"] = false, ident("k")
	case 2:
		n["shorthand"], n["key"] = false, ident("k")
		n["value"] = nd("AssignmentPattern", "left", nd("ArrayPattern", "elements", []any{clone(name)}), "right", g.gen().expr())
	}
	return n
}

func (g *wideGen) params(p string) []any {
	l := g.list(func(i int) any { return g.param(i, p) })
	if g.r.Chance(0.4) {
		l[g.n-1] = nd("RestElement", "argument", ident(fmt.Sprintf("%s%d", p, g.n-1)))
	}
	return l
}

func (g *wideGen) elements(p string) []any {
	l := g.list(func(i int) any {
		if g.at(i) && g.r.Chance(0.2) {
			return nil
		}
		return g.param(i, p)
	})
	if g.r.Chance(0.4) {
		l[g.n-1] = nd("RestElement", "argument", ident(fmt.Sprintf("%s%d", p, g.n-1)))
	} else if l[g.n-1] == nil {
		l[g.n-1] = ident(fmt.Sprintf("%s%d", p, g.n-1))
	}
	return l
}

func (g *wideGen) patProps(p string) []any {
	l := g.list(func(i int) any { return g.patProp(i, p) })
	if g.r.Chance(0.4) {
		l[g.n-1] = nd("RestElement", "argument", ident(fmt.Sprintf("%s%d", p, g.n-1)))
	}
	return l
}

// body is a list of statements. Its first elements are no directives.
func (g *wideGen) body() []any {
	l := g.list(func(i int) any {
		if g.at(i) {
			x := g.gen()
			return x.stmtItem()
		}
		switch g.r.Intn(6) {
		case 0:
			return nd("EmptyStatement")
		case 1:
			return nd("VariableDeclaration", "kind", "var", "declarations", []any{nd("VariableDeclarator", "id", ident("v"), "init", g.leaf())})
		case 2:
			return exprStatement(nd("CallExpression", "callee", ident("f"), "arguments", []any{}))
		}
		return exprStatement(ident(string(rune('a' + g.r.Intn(26)))))
	})
	return l
}

func blockOf(l []any) M { return nd("BlockStatement", "body", l) }

func functionOf(typ string, params, body []any, kv ...any) M {
	f := nd(typ, "id", nil, "params", params, "body", blockOf(body), "expression", false, "async", false, "generator", false)
	for i := 0; i < len(kv); i += 2 {
		f[kv[i].(string)] = kv[i+1]
	}
	return f
}

type wideShape struct {
	name   string
	most   int
	module bool
	strict bool
	make   func(g *wideGen) M // an expression, or a statement
}

const deepest = 600

// wideShapes returns the shapes that exercise what a check is about.
func wideShapes(id string) []wideShape {
	declare := func(kind string, ds ...any) M {
		return nd("VariableDeclaration", "kind", kind, "declarations", ds)
	}
	dtor := func(id, init any) M { return nd("VariableDeclarator", "id", id, "init", init) }
	// nest folds a wrapper n times around a leaf.
	nest := func(f func(g *wideGen, i int, e M) M) func(g *wideGen) M {
		return func(g *wideGen) M {
			e := g.expr(0)
			for i := 1; i < g.n; i++ {
				e = f(g, i, e)
			}
			return e
		}
	}
	nestStmt := func(f func(g *wideGen, i int, s M) M) func(g *wideGen) M {
		return func(g *wideGen) M {
			s := exprStatement(ident("x"))
			for i := 1; i < g.n; i++ {
				s = f(g, i, s)
			}
			return s
		}
	}
	nestPat := func(f func(g *wideGen, i int, p M) M) func(g *wideGen) M {
		return func(g *wideGen) M {
			p := M(ident("p"))
			for i := 1; i < g.n; i++ {
				p = f(g, i, p)
			}
			if typeOf(p) == "Identifier" {
				p = nd("ArrayPattern", "elements", []any{p})
			}
			switch g.r.Intn(4) {
			case 0:
				return declare(pick(g.r, []string{"var", "let", "const"}), dtor(p, ident("i")))
			case 1:
				return functionOf("FunctionExpression", []any{p}, []any{})
			case 2:
				return functionOf("ArrowFunctionExpression", []any{p}, []any{}, "async", g.r.Chance(0.5))
			}
			return nd("TryStatement", "block", blockOf([]any{}), "handler", nd("CatchClause", "param", p, "body", blockOf([]any{})), "finalizer", nil)
		}
	}
	var l []wideShape
	add := func(ids, name string, most int, f func(g *wideGen) M) {
		if strings.Contains(ids, id) {
			l = append(l, wideShape{name: name, most: most, make: f})
		}
	}
	addStrict := func(ids, name string, most int, f func(g *wideGen) M) {
		if strings.Contains(ids, id) {
			l = append(l, wideShape{name: name, most: most, strict: true, make: f})
		}
	}

	// Expressions.
	const exprs = "C08 all"
	add(exprs, "arguments", 5000, func(g *wideGen) M { return nd("CallExpression", "callee", ident("f"), "arguments", g.args()) })
	add(exprs, "new arguments", 5000, func(g *wideGen) M { return nd("NewExpression", "callee", ident("f"), "arguments", g.args()) })
	add(exprs, "array", 5000, func(g *wideGen) M {
		l := g.args()
		for i := range l {
			if g.at(i) && i < g.n-1 && g.r.Chance(0.3) {
				l[i] = nil
			}
		}
		return nd("ArrayExpression", "elements", l)
	})
	add(exprs, "holes", 5000, func(g *wideGen) M {
		return nd("ArrayExpression", "elements", append(g.list(func(i int) any {
			if g.at(i) {
				return g.leaf()
			}
			return nil
		}), ident("x")))
	})
	add(exprs, "sequence", 5000, func(g *wideGen) M {
		if g.n < 2 {
			return ident("x")
		}
		return nd("SequenceExpression", "expressions", g.list(func(i int) any { return g.expr(i) }))
	})
	var levels [][]string
	for p := pOr; p <= pMul; p++ {
		var same []string
		for _, op := range binOps {
			if binPrec[op] == p && op != "??" {
				same = append(same, op)
			}
		}
		levels = append(levels, same)
	}
	levels = append(levels, []string{"??"})
	add(exprs, "operators of one level", 2000, func(g *wideGen) M {
		lv := pick(g.r, levels)
		e := g.expr(0)
		for i := 1; i < g.n; i++ {
			e = binExpr(pick(g.r, lv), e, g.expr(i))
		}
		return e
	})
	add(exprs, "operators of all levels", 1500, func(g *wideGen) M {
		e := g.expr(0)
		for i := 1; i < g.n; i++ {
			op := pick(g.r, binOps)
			if g.r.Chance(0.8) || op == "**" {
				e = binExpr(op, e, g.expr(i))
			} else {
				e = binExpr(op, g.expr(i), e)
			}
		}
		return e
	})
	add(exprs, "powers", deepest, nest(func(g *wideGen, i int, e M) M { return binExpr("**", g.leaf(), e) }))
	add(exprs, "assignments", deepest, nest(func(g *wideGen, i int, e M) M {
		return nd("AssignmentExpression", "operator", pick(g.r, assignOps), "left", ident("x"), "right", e)
	}))
	add(exprs, "conditionals", deepest, nest(func(g *wideGen, i int, e M) M {
		if g.at(i) {
			return nd("ConditionalExpression", "test", g.leaf(), "consequent", e, "alternate", g.expr(i))
		}
		return nd("ConditionalExpression", "test", g.leaf(), "consequent", g.leaf(), "alternate", e)
	}))
	add(exprs, "prefixes", deepest, nest(func(g *wideGen, i int, e M) M {
		return nd("UnaryExpression", "operator", pick(g.r, unaryOps), "prefix", true, "argument", e)
	}))
	add(exprs, "member chain", 2000, nest(func(g *wideGen, i int, e M) M {
		switch {
		case g.at(i) && g.r.Chance(0.5):
			return nd("MemberExpression", "object", e, "property", g.expr(i), "computed", true)
		case g.r.Chance(0.1):
			return nd("CallExpression", "callee", e, "arguments", []any{g.expr(i)})
		}
		return nd("MemberExpression", "object", e, "property", ident(pick(g.r, []string{"p", "if", "get", "q"})), "computed", false)
	}))
	add(exprs, "call chain", 2000, nest(func(g *wideGen, i int, e M) M {
		a := []any{}
		if g.at(i) {
			a = append(a, g.expr(i), nd("SpreadElement", "argument", g.leaf()))
		}
		return nd("CallExpression", "callee", e, "arguments", a)
	}))
	add(exprs, "nested calls", deepest, nest(func(g *wideGen, i int, e M) M {
		if g.r.Chance(0.2) {
			return nd("NewExpression", "callee", ident("N"), "arguments", []any{e})
		}
		return nd("CallExpression", "callee", ident("f"), "arguments", []any{e})
	}))
	add(exprs, "nested arrays", deepest, nest(func(g *wideGen, i int, e M) M {
		if g.at(i) {
			return nd("ArrayExpression", "elements", []any{nil, g.leaf(), e, g.leaf()})
		}
		return nd("ArrayExpression", "elements", []any{e})
	}))
	add(exprs, "nested indexes", deepest, nest(func(g *wideGen, i int, e M) M {
		return nd("MemberExpression", "object", ident("o"), "property", e, "computed", true)
	}))
	all := operatorShapes()
	add(exprs, "nested operators", deepest/2, nest(func(g *wideGen, i int, e M) M {
		o := pick(g.r, all)
		args := leaves(o.arity, 0)
		pos := g.r.Intn(o.arity)
		if o.targets && pos == 0 && !isTarget(e) {
			pos = o.arity - 1
			if pos == 0 {
				return e
			}
		}
		args[pos] = e
		return o.make(args)
	}))

	// Statements.
	const stmts = "C09 C12 all"
	add(stmts, "statements of a program", 3000, func(g *wideGen) M { return program("script", g.body()...) })
	add(stmts, "statements of a block", 3000, func(g *wideGen) M { return blockOf(g.body()) })
	add(stmts+" C10", "statements of a function", 2000, func(g *wideGen) M {
		return functionOf("FunctionExpression", []any{}, g.body())
	})
	add(stmts, "statements of a case", 2000, func(g *wideGen) M {
		return nd("SwitchStatement", "discriminant", ident("d"), "cases", []any{nd("SwitchCase", "test", ident("t"), "consequent", g.body()), nd("SwitchCase", "test", nil, "consequent", []any{})})
	})
	add(stmts, "cases", 2000, func(g *wideGen) M {
		def := g.r.Intn(g.n + 1)
		return nd("SwitchStatement", "discriminant", ident("d"), "cases", g.list(func(i int) any {
			c := nd("SwitchCase", "test", g.expr(i), "consequent", []any{})
			if i == def {
				c["test"] = nil
			}
			if g.at(i) {
				c["consequent"] = []any{exprStatement(ident("y")), nd("BreakStatement", "label", nil)}
			}
			return c
		}))
	})
	add("C09 all", "declarations", 3000, func(g *wideGen) M {
		kind := pick(g.r, []string{"var", "let", "const"})
		return declare(kind, g.list(func(i int) any {
			d := dtor(ident(fmt.Sprintf("d%d", i)), nil)
			if g.at(i) {
				d["id"] = g.param(i, "d")
				if typeOf(d["id"]) == "AssignmentPattern" {
					d["id"] = d["id"].(M)["left"]
				}
			}
			if kind == "const" || g.at(i) {
				d["init"] = g.expr(i)
			}
			return d
		})...)
	})
	add("C09 C12 all", "if chain", deepest, nestStmt(func(g *wideGen, i int, s M) M {
		c := M(exprStatement(g.leaf()))
		if typeOf(c["expression"]) == "Literal" {
			c = blockOf([]any{})
		}
		return nd("IfStatement", "test", g.expr(i), "consequent", c, "alternate", s)
	}))
	add("C09 C12 all", "nested ifs", deepest, nestStmt(func(g *wideGen, i int, s M) M {
		n := nd("IfStatement", "test", g.leaf(), "consequent", s, "alternate", nil)
		if g.at(i) {
			n["consequent"], n["alternate"] = blockOf([]any{s}), exprStatement(ident("y"))
		}
		return n
	}))
	add("C09 all", "labels", deepest, nestStmt(func(g *wideGen, i int, s M) M {
		return nd("LabeledStatement", "label", ident(fmt.Sprintf("L%d", i)), "body", s)
	}))
	add("C09 all", "nested blocks", deepest, nestStmt(func(g *wideGen, i int, s M) M {
		if g.at(i) {
			return blockOf([]any{s, exprStatement(ident("y"))})
		}
		return blockOf([]any{s})
	}))
	add("C09 C12 all", "nested loops", deepest, nestStmt(func(g *wideGen, i int, s M) M {
		switch g.r.Intn(6) {
		case 0:
			return nd("DoWhileStatement", "body", s, "test", g.leaf())
		case 1:
			return nd("ForStatement", "init", nil, "test", g.leaf(), "update", nil, "body", s)
		case 2:
			return nd("ForInStatement", "left", ident("k"), "right", g.leaf(), "body", s)
		case 3:
			return nd("ForOfStatement", "left", declare("var", dtor(ident("k"), nil)), "right", g.leaf(), "body", s)
		}
		return nd("WhileStatement", "test", g.leaf(), "body", s)
	}))
	add("C09 all", "nested statements", deepest/2, nestStmt(func(g *wideGen, i int, s M) M {
		switch g.r.Intn(8) {
		case 0:
			return nd("TryStatement", "block", blockOf([]any{s}), "handler", nd("CatchClause", "param", nil, "body", blockOf([]any{})), "finalizer", nil)
		case 1:
			return nd("TryStatement", "block", blockOf([]any{}), "handler", nd("CatchClause", "param", ident("e"), "body", blockOf([]any{s})), "finalizer", nil)
		case 2:
			return nd("TryStatement", "block", blockOf([]any{}), "handler", nil, "finalizer", blockOf([]any{s}))
		case 3:
			return nd("SwitchStatement", "discriminant", g.leaf(), "cases", []any{nd("SwitchCase", "test", g.leaf(), "consequent", []any{s})})
		case 4:
			return nd("SwitchStatement", "discriminant", g.leaf(), "cases", []any{nd("SwitchCase", "test", nil, "consequent", []any{s, exprStatement(ident("y"))})})
		case 5:
			return nd("IfStatement", "test", g.leaf(), "consequent", exprStatement(ident("y")), "alternate", s)
		case 6:
			return exprStatement(nd("CallExpression", "callee", functionOf("FunctionExpression", []any{}, []any{s}), "arguments", []any{}))
		}
		return nd("WhileStatement", "test", g.leaf(), "body", s)
	}))
	add("C09 C15 all", "directives", 2000, func(g *wideGen) M {
		l := g.list(func(i int) any {
			return directiveStmt(pick(g.r, []string{"'a'", "\"b\"", "'use asm'", "'use\\x20strict'"}))
		})
		if g.r.Chance(0.5) {
			l[g.r.Intn(g.n)] = directiveStmt("'use strict'")
		}
		return program("script", append(l, exprStatement(ident("x")))...)
	})

	// Functions and patterns.
	const fns = "C10 all"
	addStrict(fns, "parameters", 3000, func(g *wideGen) M {
		ps := g.params("p")
		switch g.r.Intn(4) {
		case 0:
			return functionOf("ArrowFunctionExpression", ps, []any{}, "async", g.r.Chance(0.5))
		case 1:
			return functionOf("ArrowFunctionExpression", ps, nil, "async", g.r.Chance(0.5), "expression", true, "body", g.leaf())
		case 2:
			return nd("ObjectExpression", "properties", []any{nd("Property", "kind", "init", "method", true, "shorthand", false, "computed", false, "key", ident("m"), "value", functionOf("FunctionExpression", ps, []any{}))})
		}
		return functionOf("FunctionExpression", ps, []any{}, "async", g.r.Chance(0.3), "generator", g.r.Chance(0.3))
	})
	add(fns, "parenthesised sequence", 3000, func(g *wideGen) M {
		// What may still become the parameters of an arrow function.
		if g.n < 2 {
			return ident("x")
		}
		return nd("AssignmentExpression", "operator", "=", "left", ident("t"), "right", nd("SequenceExpression", "expressions", g.list(func(i int) any {
			if g.at(i) {
				return pick(g.r, []M{
					nd("AssignmentExpression", "operator", "=", "left", ident("p"), "right", g.leaf()),
					nd("ArrayExpression", "elements", []any{ident("q")}),
					nd("ObjectExpression", "properties", []any{}),
					g.expr(i),
				})
			}
			return ident(string(rune('a' + g.r.Intn(26))))
		})))
	})
	pats := []func(g *wideGen) M{
		func(g *wideGen) M { return nd("ArrayPattern", "elements", g.elements("p")) },
		func(g *wideGen) M { return nd("ObjectPattern", "properties", g.patProps("p")) },
	}
	for k, f := range pats {
		f := f
		name := []string{"array", "object"}[k]
		addStrict(fns, name+" pattern", 3000, func(g *wideGen) M {
			p := f(g)
			switch g.r.Intn(4) {
			case 0:
				return functionOf("ArrowFunctionExpression", []any{p}, []any{}, "async", g.r.Chance(0.5))
			case 1:
				return functionOf("FunctionExpression", []any{p}, []any{})
			case 2:
				return nd("ForOfStatement", "left", declare("var", dtor(p, nil)), "right", ident("i"), "body", nd("EmptyStatement"))
			}
			return declare(pick(g.r, []string{"var", "let", "const"}), dtor(p, ident("i")))
		})
	}
	add(fns, "array assignment", 3000, func(g *wideGen) M {
		l := g.list(func(i int) any {
			if !g.at(i) {
				return ident("a")
			}
			switch g.r.Intn(4) {
			case 0:
				return nil
			case 1:
				return nd("AssignmentPattern", "left", ident("b"), "right", g.expr(i))
			}
			return g.gen().assignPattern(1)
		})
		l[g.n-1] = ident("z")
		return nd("AssignmentExpression", "operator", "=", "left", nd("ArrayPattern", "elements", l), "right", ident("v"))
	})
	add(fns, "object assignment", 3000, func(g *wideGen) M {
		l := g.list(func(i int) any {
			id := ident("a")
			p := nd("Property", "kind", "init", "method", false, "computed", false, "shorthand", true, "key", id, "value", clone(id))
			if g.at(i) {
				p["shorthand"] = false
				p["value"] = g.gen().assignPattern(1)
				if g.r.Chance(0.5) {
					p["value"] = nd("AssignmentPattern", "left", ident("b"), "right", g.expr(i))
				}
			}
			return p
		})
		return nd("AssignmentExpression", "operator", "=", "left", nd("ObjectPattern", "properties", l), "right", ident("v"))
	})
	add(fns, "curried arrows", deepest, nest(func(g *wideGen, i int, e M) M {
		if g.at(i) {
			return functionOf("ArrowFunctionExpression", []any{ident("a"), ident("b")}, []any{nd("ReturnStatement", "argument", e)})
		}
		return functionOf("ArrowFunctionExpression", []any{ident("a")}, nil, "expression", true, "body", e)
	}))
	add(fns, "nested defaults", deepest/2, nest(func(g *wideGen, i int, e M) M {
		return functionOf("ArrowFunctionExpression", []any{nd("AssignmentPattern", "left", ident("a"), "right", e)}, nil, "expression", true, "body", g.leaf())
	}))
	add(fns, "nested functions", deepest, nestStmt(func(g *wideGen, i int, s M) M {
		switch g.r.Intn(3) {
		case 0:
			return exprStatement(nd("AssignmentExpression", "operator", "=", "left", ident("x"), "right", functionOf("FunctionExpression", []any{}, []any{s}, "async", g.r.Chance(0.3), "generator", g.r.Chance(0.3))))
		case 1:
			return exprStatement(nd("AssignmentExpression", "operator", "=", "left", ident("x"), "right", functionOf("ArrowFunctionExpression", []any{}, []any{s}, "async", g.r.Chance(0.3))))
		}
		return functionOf("FunctionDeclaration", []any{}, []any{s}, "id", ident("f"))
	}))
	add(fns, "nested array patterns", deepest, nestPat(func(g *wideGen, i int, p M) M {
		if g.at(i) {
			return nd("ArrayPattern", "elements", []any{nil, nd("AssignmentPattern", "left", p, "right", g.leaf())})
		}
		return nd("ArrayPattern", "elements", []any{p})
	}))
	add(fns, "nested object patterns", deepest, nestPat(func(g *wideGen, i int, p M) M {
		v := p
		if g.at(i) {
			v = nd("AssignmentPattern", "left", p, "right", g.leaf())
		}
		return nd("ObjectPattern", "properties", []any{nd("Property", "kind", "init", "method", false, "computed", false, "shorthand", false, "key", ident("k"), "value", v)})
	}))
	add(fns, "nested patterns", deepest, nestPat(func(g *wideGen, i int, p M) M {
		switch g.r.Intn(3) {
		case 0:
			return nd("ArrayPattern", "elements", []any{nd("RestElement", "argument", p)})
		case 1:
			return nd("ArrayPattern", "elements", []any{ident(fmt.Sprintf("n%d", i)), p})
		}
		return nd("ObjectPattern", "properties", []any{nd("Property", "kind", "init", "method", false, "computed", false, "shorthand", false, "key", ident("k"), "value", p)})
	}))

	// Object literals and classes.
	const objs = "C11 all"
	keys := memberKeys()
	key := func(g *wideGen, i int) (M, bool) {
		if g.at(i) {
			k := pick(g.r, keys)
			return clone(k.key).(M), k.computed
		}
		return ident(fmt.Sprintf("k%d", i)), false
	}
	add(objs, "object members", 3000, func(g *wideGen) M {
		return nd("ObjectExpression", "properties", g.list(func(i int) any {
			k, computed := key(g, i)
			p := nd("Property", "kind", "init", "method", false, "shorthand", false, "computed", computed, "key", k)
			switch n := g.r.Intn(10); {
			case n == 0 && g.at(i):
				p["kind"], p["value"] = "get", functionOf("FunctionExpression", []any{}, []any{})
			case n == 1 && g.at(i):
				p["kind"], p["value"] = "set", functionOf("FunctionExpression", []any{ident("v")}, []any{})
			case n == 2 && g.at(i):
				p["method"], p["value"] = true, g.gen().method(g.r.Chance(0.4), g.r.Chance(0.4), -1)
			case n < 5 && !computed && typeOf(k) == "Identifier" && strings.HasPrefix(str(k, "name"), "k"):
				p["shorthand"], p["value"] = true, clone(k)
			default:
				p["value"] = g.expr(i)
			}
			return p
		}))
	})
	addStrict(objs, "class members", 2000, func(g *wideGen) M {
		ctor := g.r.Intn(2 * g.n)
		l := g.list(func(i int) any {
			if i == ctor {
				return nd("MethodDefinition", "kind", "constructor", "static", false, "computed", false, "key", ident("constructor"), "value", functionOf("FunctionExpression", []any{ident("x")}, []any{}))
			}
			k, computed := key(g, i)
			if n := keyName(k); !computed && (n == "constructor" || n == "prototype") {
				k = ident("other")
			}
			m := nd("MethodDefinition", "kind", "method", "static", g.r.Chance(0.3), "computed", computed, "key", k)
			ps := []any{}
			switch g.r.Intn(4) {
			case 0:
				m["kind"] = "get"
			case 1:
				m["kind"] = "set"
				ps = []any{ident("v")}
			}
			m["value"] = functionOf("FunctionExpression", ps, []any{})
			return m
		})
		n := nd("ClassExpression", "id", nil, "superClass", nil, "body", nd("ClassBody", "body", l))
		if g.r.Chance(0.5) {
			n["type"], n["id"] = "ClassDeclaration", ident("K")
		}
		return n
	})
	add(objs, "nested objects", deepest, nest(func(g *wideGen, i int, e M) M {
		p := nd("Property", "kind", "init", "method", false, "shorthand", false, "computed", false, "key", ident("k"), "value", e)
		if g.at(i) && g.r.Chance(0.5) {
			p["computed"], p["key"], p["value"] = true, e, g.leaf()
		}
		return nd("ObjectExpression", "properties", []any{p})
	}))
	add(objs, "nested methods", deepest/2, nest(func(g *wideGen, i int, e M) M {
		f := functionOf("FunctionExpression", []any{}, []any{nd("ReturnStatement", "argument", e)})
		if g.r.Chance(0.5) {
			return nd("ObjectExpression", "properties", []any{nd("Property", "kind", "init", "method", true, "shorthand", false, "computed", false, "key", ident("k"), "value", f)})
		}
		return nd("ClassExpression", "id", nil, "superClass", nil, "body", nd("ClassBody", "body", []any{nd("MethodDefinition", "kind", "method", "static", g.r.Chance(0.3), "computed", false, "key", ident("m"), "value", f)}))
	}))
	add(objs, "nested heritages", deepest/2, nest(func(g *wideGen, i int, e M) M {
		return nd("ClassExpression", "id", nil, "superClass", e, "body", nd("ClassBody", "body", []any{}))
	}))
	if strings.Contains("C16 all", id) {
		l = append(l, wideShape{name: "imports", most: 1500, module: true, make: func(g *wideGen) M {
			k := 0
			return program("module", g.list(func(i int) any {
				if !g.at(i) {
					k++
					return nd("ImportDeclaration", "source", strLit("'m'"), "specifiers", []any{nd("ImportSpecifier", "imported", ident("x"), "local", ident(fmt.Sprintf("i%d", k)))})
				}
				x := newGen(g.r, Profile{Module: true, Fuel: 3})
				x.n = 1000000 + 1000*i
				return x.importDecl()
			})...)
		}})
	}
	return l
}

// wideTree makes one tree of a shape. A statement or expression is placed in a
// program among others.
func wideTree(s wideShape, r *Rng, n int) M {
	g := newWide(r, n)
	g.strict, g.module = s.strict, s.module
	t := s.make(g)
	switch typ := typeOf(t); {
	case typ == "Program":
		return t
	case strings.HasSuffix(typ, "Statement"), strings.HasSuffix(typ, "Declaration"):
	default:
		if r.Chance(0.3) {
			return t
		}
		t = exprStatement(t)
	}
	return program("script", t, exprStatement(ident("last")))
}

// randomWide is a wide or deep tree of any shape.
func randomWide(r *Rng, shapes []wideShape, most int) M {
	s := pick(r, shapes)
	return wideTree(s, r, wideSize(r, min(s.most, most)))
}

// wide runs n cases of the wide and deep shapes of a check.
func (c *Check) wide(n int) {
	shapes := wideShapes(c.ID)
	c.count("wide_shapes", len(shapes))
	c.run("wide and deep", n, func(w *Worker, i int, r *Rng) {
		s := shapes[i%len(shapes)]
		k := wideSize(r, s.most)
		t := wideTree(s, r, k)
		st := randomStyle(r)
		if r.Chance(0.3) {
			st = Style{Canonical: true}
		}
		if c.ID == "C12" {
			st = Style{OnlyASI: true, Newline: r.Float() * 0.3}
		}
		l := w.checkTree(t, r, 0, st)
		if l != nil {
			w.count("wide_elements", k)
			w.count("wide_checked", 1)
			if k > 1000 {
				w.count("wide_over_1000", 1)
			}
		}
		w.observe(t, l, 3)
	})
	c.require("wide_checked", n*8/10)
}
