package main

import "strings"

const acornNote = "a difference is only reported when acorn 8.19.0 reads the text as the generated tree; other differences are counted as not judged"

func init() {
	checks["C08"] = c08
	checks["C09"] = c09
	checks["C10"] = c10
	checks["C11"] = c11
	checks["C13"] = c13
}

// randomTrees runs n random programs of a profile.
func randomTrees(c *Check, name string, n int, f func(r *Rng) (M, float64)) {
	c.run(name, n, func(w *Worker, i int, r *Rng) {
		t, paren := f(r)
		w.observe(t, w.checkTree(t, r, paren, randomStyle(r)), 3)
	})
}

// C08: expressions.
func c08(c *Check) {
	c.rule = "expression trees: every ordered pair and triple shape of operators (systematically), and random trees; each is printed from the specification's grammar with random layout and redundant parentheses and the parsed ESTree compared with the generated one. Non-trivial: at least 3 nodes; distinct: by source text."
	c.assume = append(c.assume, acornNote)
	all := operatorShapes()
	type pair struct{ a, b, pos int }
	var pairs []pair
	for a := range all {
		for b := range all {
			for pos := 0; pos < all[a].arity; pos++ {
				pairs = append(pairs, pair{a, b, pos})
			}
		}
	}
	c.count("operator_pairs", len(pairs))
	c.run("pairs", len(pairs), func(w *Worker, i int, r *Rng) {
		p := pairs[i]
		inner := all[p.b].make(leaves(all[p.b].arity, 10))
		if all[p.a].targets && p.pos == 0 && !isTarget(inner) {
			return
		}
		args := leaves(all[p.a].arity, 0)
		args[p.pos] = inner
		e := all[p.a].make(args)
		t := program("script", exprStatement(e))
		w.observe(t, w.checkTree(t, r, 0, Style{Canonical: true}), 3)
		w.observe(t, w.checkTree(t, r, 0.3, randomStyle(r)), 3)
		w.observe(e, w.checkTree(e, r, 0, Style{Minimal: true}), 3)
	})
	c.run("triples", c.n(60000), func(w *Worker, i int, r *Rng) {
		a, b, d := pick(r, all), pick(r, all), pick(r, all)
		in2 := d.make(leaves(d.arity, 20))
		args := leaves(b.arity, 10)
		pos := r.Intn(b.arity)
		if b.targets && pos == 0 && !isTarget(in2) {
			return
		}
		args[pos] = in2
		in1 := b.make(args)
		args = leaves(a.arity, 0)
		pos = r.Intn(a.arity)
		if a.targets && pos == 0 && !isTarget(in1) {
			return
		}
		args[pos] = in1
		if a.arity > 1 && r.Chance(0.5) {
			q := pick(r, all)
			o := (pos + 1) % a.arity
			in3 := q.make(leaves(q.arity, 30))
			if !(a.targets && o == 0 && !isTarget(in3)) {
				args[o] = in3
			}
		}
		t := program("script", exprStatement(a.make(args)))
		w.observe(t, w.checkTree(t, r, pick(r, []float64{0, 0, 0.2}), randomStyle(r)), 3)
	})
	randomTrees(c, "random", c.n(40000), func(r *Rng) (M, float64) {
		p := Profile{Fuel: 5 + r.Intn(80), Prim: 3, Op: 12, Obj: 1, Fn: r.Intn(2), Words: 0.1, Legacy: true}
		g := newGen(r, p)
		if r.Chance(0.4) {
			return g.seq(), 0.1
		}
		return program("script", exprStatement(g.seq())), pick(r, []float64{0, 0.1, 0.5})
	})
	// Long chains and deep nesting of one operator.
	c.run("chains", c.n(2000), func(w *Worker, i int, r *Rng) {
		a, b := pick(r, all), pick(r, all)
		e := M(ident("x"))
		for n := 2 + r.Intn(60); n > 0; n-- {
			o := a
			if r.Chance(0.3) {
				o = b
			}
			args := leaves(o.arity, 0)
			pos := r.Intn(o.arity)
			if o.targets && pos == 0 && !isTarget(e) {
				pos = o.arity - 1
				if pos == 0 {
					continue
				}
			}
			args[pos] = e
			e = o.make(args)
		}
		t := program("script", exprStatement(e))
		w.observe(t, w.checkTree(t, r, 0, randomStyle(r)), 3)
	})
	c.wide(c.n(1500))
	c.require("distinct", c.n(20000), "operator_pairs", 4000)
}

// shape is an operator with operands to fill in.
type shape struct {
	arity   int
	targets bool // operand 0 must be an assignment target
	make    func(a []M) M
}

func leaves(n, k int) []M {
	l := make([]M, n)
	for i := range l {
		l[i] = ident(string(rune('a'+(k+i)%26)) + "")
	}
	return l
}

func isTarget(n M) bool { return typeOf(n) == "Identifier" || typeOf(n) == "MemberExpression" }

func operatorShapes() []shape {
	var l []shape
	for _, op := range binOps {
		op := op
		l = append(l, shape{2, false, func(a []M) M { return binExpr(op, a[0], a[1]) }})
	}
	for _, op := range assignOps {
		op := op
		l = append(l, shape{2, true, func(a []M) M {
			return nd("AssignmentExpression", "operator", op, "left", a[0], "right", a[1])
		}})
	}
	for _, op := range unaryOps {
		op := op
		l = append(l, shape{1, false, func(a []M) M { return nd("UnaryExpression", "operator", op, "prefix", true, "argument", a[0]) }})
	}
	for _, op := range []string{"++", "--"} {
		for _, prefix := range []bool{true, false} {
			op, prefix := op, prefix
			l = append(l, shape{1, true, func(a []M) M {
				return nd("UpdateExpression", "operator", op, "prefix", prefix, "argument", a[0])
			}})
		}
	}
	anys := func(a []M) []any {
		o := []any{}
		for _, x := range a {
			o = append(o, x)
		}
		return o
	}
	l = append(l,
		shape{3, false, func(a []M) M {
			return nd("ConditionalExpression", "test", a[0], "consequent", a[1], "alternate", a[2])
		}},
		shape{2, false, func(a []M) M { return nd("SequenceExpression", "expressions", anys(a)) }},
		shape{1, false, func(a []M) M {
			return nd("MemberExpression", "object", a[0], "property", ident("p"), "computed", false)
		}},
		shape{2, false, func(a []M) M {
			return nd("MemberExpression", "object", a[0], "property", a[1], "computed", true)
		}},
		shape{1, false, func(a []M) M { return nd("CallExpression", "callee", a[0], "arguments", []any{}) }},
		shape{3, false, func(a []M) M { return nd("CallExpression", "callee", a[0], "arguments", anys(a[1:])) }},
		shape{3, false, func(a []M) M {
			return nd("CallExpression", "callee", a[0], "arguments", []any{a[1], nd("SpreadElement", "argument", a[2])})
		}},
		shape{1, false, func(a []M) M { return nd("NewExpression", "callee", a[0], "arguments", []any{}) }},
		shape{2, false, func(a []M) M { return nd("NewExpression", "callee", a[0], "arguments", anys(a[1:])) }},
		shape{2, false, func(a []M) M { return nd("ArrayExpression", "elements", []any{a[0], nil, a[1]}) }},
		shape{2, false, func(a []M) M {
			return nd("AssignmentExpression", "operator", "=", "left", nd("ArrayPattern", "elements", []any{ident("s"), nd("AssignmentPattern", "left", ident("t"), "right", a[0])}), "right", a[1])
		}},
		shape{1, false, func(a []M) M {
			return nd("ArrowFunctionExpression", "id", nil, "params", []any{ident("q")}, "body", a[0], "expression", true, "async", false, "generator", false)
		}},
		shape{1, false, func(a []M) M {
			return nd("CallExpression", "callee", ident("async"), "arguments", []any{a[0]}, "optional", false)
		}},
		shape{2, false, func(a []M) M {
			return nd("CallExpression", "callee", ident("async"), "arguments", []any{nd("SequenceExpression", "expressions", []any{a[0], a[1]}), ident("z")}, "optional", false)
		}},
		shape{1, false, func(a []M) M {
			return nd("CallExpression", "callee", ident("async"), "arguments", []any{nd("SequenceExpression", "expressions", []any{ident("z"), a[0]})}, "optional", false)
		}},
		shape{1, false, func(a []M) M {
			return nd("ArrowFunctionExpression", "id", nil, "params", []any{ident("q")}, "body", a[0], "expression", true, "async", true, "generator", false)
		}},
		shape{1, false, func(a []M) M {
			return nd("ArrowFunctionExpression", "id", nil, "params", []any{nd("AssignmentPattern", "left", ident("q"), "right", a[0])}, "body", nd("BlockStatement", "body", []any{}), "expression", false, "async", false, "generator", false)
		}},
		shape{1, false, func(a []M) M {
			return nd("ObjectExpression", "properties", []any{nd("Property", "kind", "init", "method", false, "shorthand", false, "computed", false, "key", ident("k"), "value", a[0])})
		}},
		shape{1, false, func(a []M) M {
			return nd("FunctionExpression", "id", nil, "params", []any{}, "body", nd("BlockStatement", "body", []any{nd("ReturnStatement", "argument", a[0])}), "expression", false, "async", false, "generator", false)
		}},
		shape{1, false, func(a []M) M {
			return nd("ClassExpression", "id", nil, "superClass", a[0], "body", nd("ClassBody", "body", []any{}))
		}},
	)
	return l
}

// C09: statements.
func c09(c *Check) {
	c.rule = "statement trees: every kind of statement nested in every position of every other kind, in every optional-part combination, and every operator with operands that contain in, commas, conditionals, arrows and braces in every place of a statement that holds an expression (systematically), and random programs; printed with random layout and optional semicolons and compared as ESTree. Non-trivial: at least 3 nodes; distinct: by source text."
	c.assume = append(c.assume, acornNote)
	st := statementShapes()
	type pair struct{ a, b, pos int }
	var pairs []pair
	for a := range st {
		for b := range st {
			for pos := 0; pos < st[a].slots; pos++ {
				pairs = append(pairs, pair{a, b, pos})
			}
		}
	}
	c.count("statement_pairs", len(pairs))
	fill := func(s stmtShape, pos int, in M) M {
		sub := make([]M, s.slots)
		for i := range sub {
			sub[i] = nd("EmptyStatement")
			if i%2 == 1 {
				sub[i] = exprStatement(ident("f"))
			}
		}
		if in != nil {
			if s.stmtOnly[pos] && isDeclaration(in) {
				in = nd("BlockStatement", "body", []any{in})
			}
			if s.noOpenIf && pos == 0 && endsWithOpenIf(in) {
				in = nd("BlockStatement", "body", []any{in})
			}
			sub[pos] = in
		}
		return s.make(sub)
	}
	wrapCtx := func(s M) M {
		// Provides targets for break, continue and return.
		f := nd("FunctionDeclaration", "id", ident("f0"), "params", []any{}, "async", false, "generator", false, "expression", false)
		f["body"] = nd("BlockStatement", "body", []any{
			nd("LabeledStatement", "label", ident("M"), "body", nd("WhileStatement", "test", ident("z"), "body", nd("BlockStatement", "body", []any{s, exprStatement(ident("last"))}))),
		})
		return program("script", f)
	}
	c.run("pairs", len(pairs), func(w *Worker, i int, r *Rng) {
		p := pairs[i]
		t := wrapCtx(fill(st[p.a], p.pos, fill(st[p.b], 0, nil)))
		w.observe(t, w.checkTree(t, r, 0, Style{Canonical: true}), 3)
		w.observe(t, w.checkTree(t, r, 0.05, randomStyle(r)), 3)
	})
	c.run("triples", c.n(48000), func(w *Worker, i int, r *Rng) {
		s := fill(pick(r, st), 0, nil)
		for n := 2 + r.Intn(3); n > 0; n-- {
			o := pick(r, st)
			if o.slots > 0 {
				s = fill(o, r.Intn(o.slots), s)
			}
		}
		t := wrapCtx(s)
		w.observe(t, w.checkTree(t, r, 0, randomStyle(r)), 3)
	})
	slots, ops, fills := expressionSlots(), operatorShapes(), expressionFills()
	type slotCase struct{ op, pos int }
	var cases []slotCase
	for a := range ops {
		for pos := 0; pos < ops[a].arity; pos++ {
			cases = append(cases, slotCase{a, pos})
		}
	}
	c.count("expression_slots", len(slots))
	c.run("expressions in statements", len(slots)*len(cases), func(w *Worker, i int, r *Rng) {
		slot, cs := slots[i%len(slots)], cases[i/len(slots)]
		for _, fill := range fills {
			op := ops[cs.op]
			in := fill()
			if op.targets && cs.pos == 0 && !isTarget(in) {
				continue
			}
			args := leaves(op.arity, 0)
			args[cs.pos] = in
			e := op.make(args)
			// One more operator around it.
			if r.Chance(0.3) {
				o := ops[cases[r.Intn(len(cases))].op]
				pos := r.Intn(o.arity)
				if !(o.targets && pos == 0) {
					args := leaves(o.arity, 10)
					args[pos] = e
					e = o.make(args)
				}
			}
			t := wrapCtx(slot(e))
			w.observe(t, w.checkTree(t, r, 0, pick(r, []Style{{Canonical: true}, {Minimal: true}, randomStyle(r)})), 3)
		}
	})
	randomTrees(c, "random", c.n(24000), func(r *Rng) (M, float64) {
		p := defaultProfile(20 + r.Intn(150))
		p.Stmt, p.Prim, p.Op, p.Obj, p.Class, p.Fn = 1, 8, 4, 1, 1, 1
		p.Module = r.Chance(0.15)
		return genProgram(r, p, 1+r.Intn(10)), 0.03
	})
	c.run("sequences", c.n(12000), func(w *Worker, i int, r *Rng) {
		var l []any
		for n := 2 + r.Intn(30); n > 0; n-- {
			o := pick(r, st)
			s := fill(o, 0, nil)
			if r.Chance(0.5) && o.slots > 0 {
				s = fill(o, r.Intn(o.slots), fill(pick(r, st), 0, nil))
			}
			l = append(l, nd("BlockStatement", "body", []any{s}))
			if !isDeclaration(s) {
				l[len(l)-1] = s
			}
		}
		f := nd("FunctionDeclaration", "id", ident("f0"), "params", []any{}, "async", false, "generator", false, "expression", false)
		f["body"] = nd("BlockStatement", "body", []any{
			nd("LabeledStatement", "label", ident("M"), "body", nd("WhileStatement", "test", ident("z"), "body", nd("BlockStatement", "body", l))),
		})
		t := program("script", f)
		w.observe(t, w.checkTree(t, r, 0, randomStyle(r)), 3)
	})
	c.wide(c.n(1500))
	c.require("distinct", c.n(12000), "statement_pairs", 2000, "expression_slots", 40)
}

// expressionSlots lists the places of statements that hold an expression.
func expressionSlots() []func(e M) M {
	v := func(n string) M { return ident(n) }
	body := func() M { return nd("BlockStatement", "body", []any{}) }
	dtor := func(id, init any) M { return nd("VariableDeclarator", "id", id, "init", init) }
	decl := func(kind string, ds ...any) M {
		return nd("VariableDeclaration", "kind", kind, "declarations", ds)
	}
	def := func(e M) M {
		return nd("ArrayPattern", "elements", []any{v("s"), nd("AssignmentPattern", "left", v("t"), "right", e)})
	}
	objDef := func(e M) M {
		return nd("ObjectPattern", "properties", []any{nd("Property", "key", v("s"), "value", nd("AssignmentPattern", "left", v("s"), "right", e), "kind", "init", "method", false, "shorthand", true, "computed", false)})
	}
	loop := func(init, test, update any) M {
		return nd("ForStatement", "init", init, "test", test, "update", update, "body", body())
	}
	each := func(kind string, left, right any) M {
		return nd(kind, "left", left, "right", right, "body", body())
	}
	l := []func(e M) M{
		func(e M) M { return exprStatement(e) },
		func(e M) M { return decl("var", dtor(v("w"), e)) },
		func(e M) M { return decl("let", dtor(v("w"), e), dtor(v("w2"), nil)) },
		func(e M) M { return decl("const", dtor(v("w"), v("q")), dtor(v("w2"), e)) },
		func(e M) M { return decl("var", dtor(def(e), v("q"))) },
		func(e M) M { return decl("let", dtor(objDef(e), v("q"))) },
		func(e M) M { return nd("ReturnStatement", "argument", e) },
		func(e M) M { return nd("ThrowStatement", "argument", e) },
		func(e M) M { return nd("IfStatement", "test", e, "consequent", body(), "alternate", nil) },
		func(e M) M {
			return nd("IfStatement", "test", v("q"), "consequent", exprStatement(e), "alternate", exprStatement(v("r")))
		},
		func(e M) M {
			return nd("IfStatement", "test", v("q"), "consequent", body(), "alternate", exprStatement(e))
		},
		func(e M) M { return nd("WhileStatement", "test", e, "body", body()) },
		func(e M) M { return nd("DoWhileStatement", "test", e, "body", body()) },
		func(e M) M { return nd("DoWhileStatement", "test", v("q"), "body", exprStatement(e)) },
		func(e M) M {
			return nd("SwitchStatement", "discriminant", e, "cases", []any{nd("SwitchCase", "test", v("p"), "consequent", []any{})})
		},
		func(e M) M {
			return nd("SwitchStatement", "discriminant", v("p"), "cases", []any{nd("SwitchCase", "test", v("q"), "consequent", []any{exprStatement(v("q"))}), nd("SwitchCase", "test", e, "consequent", []any{})})
		},
		func(e M) M {
			return nd("SwitchStatement", "discriminant", v("p"), "cases", []any{nd("SwitchCase", "test", nil, "consequent", []any{exprStatement(e), exprStatement(v("q"))})})
		},
		func(e M) M { return nd("LabeledStatement", "label", v("N"), "body", exprStatement(e)) },
		func(e M) M {
			return nd("ClassDeclaration", "id", v("K"), "superClass", e, "body", nd("ClassBody", "body", []any{}))
		},
		func(e M) M {
			return nd("FunctionDeclaration", "id", v("h1"), "params", []any{nd("AssignmentPattern", "left", v("p"), "right", e)}, "body", body(), "async", false, "generator", false, "expression", false)
		},
		func(e M) M { return loop(e, nil, nil) },
		func(e M) M { return loop(e, v("q"), v("r")) },
		func(e M) M { return loop(nil, e, nil) },
		func(e M) M { return loop(nil, nil, e) },
		func(e M) M { return loop(v("q"), e, v("r")) },
		func(e M) M { return loop(decl("var", dtor(v("w"), e)), nil, nil) },
		func(e M) M { return loop(decl("var", dtor(v("w"), e), dtor(v("w2"), e)), v("q"), nil) },
		func(e M) M { return loop(decl("var", dtor(v("w"), nil), dtor(v("w2"), e)), nil, v("q")) },
		func(e M) M { return loop(decl("var", dtor(def(e), v("q"))), nil, nil) },
		func(e M) M { return loop(decl("var", dtor(objDef(e), e)), v("q"), nil) },
		func(e M) M { return loop(decl("var", dtor(v("w"), v("q"))), e, v("r")) },
		func(e M) M { return loop(decl("var", dtor(v("w"), v("q"))), nil, e) },
	}
	for _, kind := range []string{"ForInStatement", "ForOfStatement"} {
		kind := kind
		l = append(l,
			func(e M) M { return each(kind, v("w"), e) },
			func(e M) M { return each(kind, decl("var", dtor(v("w"), nil)), e) },
			func(e M) M { return each(kind, decl("var", dtor(def(e), nil)), v("q")) },
			func(e M) M { return each(kind, decl("var", dtor(objDef(e), nil)), v("q")) },
			func(e M) M { return each(kind, def(e), v("q")) },
			func(e M) M {
				return each(kind, nd("MemberExpression", "object", v("o"), "property", e, "computed", true), v("q"))
			},
			func(e M) M {
				return each(kind, nd("MemberExpression", "object", e, "property", v("o"), "computed", false), v("q"))
			},
		)
	}
	return l
}

// expressionFills are operands that restrict what may surround them.
func expressionFills() []func() M {
	v := func(n string) M { return ident(n) }
	return []func() M{
		func() M { return binExpr("in", v("x"), v("y")) },
		func() M { return nd("SequenceExpression", "expressions", []any{v("x"), binExpr("in", v("y"), v("z"))}) },
		func() M {
			return nd("ConditionalExpression", "test", v("x"), "consequent", binExpr("in", v("y"), v("z")), "alternate", v("u"))
		},
		func() M {
			return nd("ConditionalExpression", "test", v("x"), "consequent", v("u"), "alternate", binExpr("in", v("y"), v("z")))
		},
		func() M {
			return nd("ArrowFunctionExpression", "id", nil, "params", []any{v("q")}, "body", binExpr("in", v("x"), v("y")), "expression", true, "async", false, "generator", false)
		},
		func() M { return nd("ObjectExpression", "properties", []any{}) },
		func() M {
			return nd("CallExpression", "callee", v("f"), "arguments", []any{binExpr("in", v("x"), v("y"))})
		},
		func() M {
			return nd("MemberExpression", "object", v("o"), "property", binExpr("in", v("x"), v("y")), "computed", true)
		},
	}
}

type stmtShape struct {
	slots    int
	stmtOnly map[int]bool // slots that take no declaration
	noOpenIf bool         // slot 0 must not end with an if without else
	make     func(s []M) M
}

func isDeclaration(s M) bool {
	switch typeOf(s) {
	case "FunctionDeclaration", "ClassDeclaration":
		return true
	case "VariableDeclaration":
		return str(s, "kind") != "var"
	}
	return false
}

func statementShapes() []stmtShape {
	only := func(n ...int) map[int]bool {
		m := map[int]bool{}
		for _, k := range n {
			m[k] = true
		}
		return m
	}
	leaf := func(f func() M) stmtShape { return stmtShape{0, nil, false, func([]M) M { return f() }} }
	v := func(n string) M { return ident(n) }
	block := func(s ...any) M {
		if s == nil {
			s = []any{}
		}
		return nd("BlockStatement", "body", s)
	}
	// Lexical names must not clash where shapes are nested side by side: they
	// are wrapped in blocks, or declared once.
	k := 0
	fresh := func(p string) M { k++; return nil }
	_ = fresh
	varDecl := func(kind string, ds ...any) M {
		return nd("VariableDeclaration", "kind", kind, "declarations", ds)
	}
	dtor := func(id, init any) M { return nd("VariableDeclarator", "id", id, "init", init) }
	arrPat := func(e ...any) M { return nd("ArrayPattern", "elements", e) }
	objPat := func(name string) M {
		return nd("ObjectPattern", "properties", []any{nd("Property", "key", v(name), "value", v(name), "kind", "init", "method", false, "shorthand", true, "computed", false)})
	}
	l := []stmtShape{
		leaf(func() M { return exprStatement(v("e")) }),
		leaf(func() M { return exprStatement(nd("CallExpression", "callee", v("g"), "arguments", []any{})) }),
		leaf(func() M { return nd("EmptyStatement") }),
		leaf(func() M { return block() }),
		leaf(func() M { return varDecl("var", dtor(v("a"), nil)) }),
		leaf(func() M { return varDecl("var", dtor(v("a"), v("b")), dtor(v("c"), nil), dtor(v("d"), v("e"))) }),
		leaf(func() M { return varDecl("var", dtor(arrPat(v("a"), nil, v("b")), v("c")), dtor(objPat("o"), v("p"))) }),
		leaf(func() M { return varDecl("let", dtor(v("a1"), v("b"))) }),
		leaf(func() M { return varDecl("let", dtor(v("a2"), nil), dtor(v("a3"), nil)) }),
		leaf(func() M { return varDecl("const", dtor(v("a4"), v("b"))) }),
		leaf(func() M { return nd("ReturnStatement", "argument", nil) }),
		leaf(func() M { return nd("ReturnStatement", "argument", v("r")) }),
		leaf(func() M { return nd("ThrowStatement", "argument", v("r")) }),
		leaf(func() M { return nd("BreakStatement", "label", nil) }),
		leaf(func() M { return nd("BreakStatement", "label", v("M")) }),
		leaf(func() M { return nd("ContinueStatement", "label", nil) }),
		leaf(func() M { return nd("ContinueStatement", "label", v("M")) }),
		leaf(func() M {
			return nd("FunctionDeclaration", "id", v("h1"), "params", []any{v("p")}, "body", block(nd("ReturnStatement", "argument", v("p"))), "async", false, "generator", false, "expression", false)
		}),
		leaf(func() M {
			return nd("ClassDeclaration", "id", v("K1"), "superClass", nil, "body", nd("ClassBody", "body", []any{}))
		}),
		leaf(func() M {
			return nd("ClassDeclaration", "id", v("K2"), "superClass", v("B"), "body", nd("ClassBody", "body", []any{}))
		}),
		leaf(func() M { return nd("SwitchStatement", "discriminant", v("d"), "cases", []any{}) }),
		leaf(func() M {
			return nd("SwitchStatement", "discriminant", v("d"), "cases", []any{nd("SwitchCase", "test", nil, "consequent", []any{})})
		}),
		{1, nil, false, func(s []M) M { return block(s[0]) }},
		{3, nil, false, func(s []M) M { return block(block(s[0]), block(s[1]), block(s[2])) }},
		{1, only(0), false, func(s []M) M { return nd("IfStatement", "test", v("t"), "consequent", s[0], "alternate", nil) }},
		{2, only(0, 1), true, func(s []M) M {
			return nd("IfStatement", "test", v("t"), "consequent", s[0], "alternate", s[1])
		}},
		{1, only(0), false, func(s []M) M { return nd("DoWhileStatement", "body", s[0], "test", v("t")) }},
		{1, only(0), false, func(s []M) M { return nd("WhileStatement", "test", v("t"), "body", s[0]) }},
		{2, nil, false, func(s []M) M {
			return nd("SwitchStatement", "discriminant", v("d"), "cases", []any{
				nd("SwitchCase", "test", v("p"), "consequent", []any{}),
				nd("SwitchCase", "test", v("q"), "consequent", []any{block(s[0])}),
				nd("SwitchCase", "test", nil, "consequent", []any{exprStatement(v("u")), s[1]}),
				nd("SwitchCase", "test", v("w"), "consequent", []any{nd("BreakStatement", "label", nil)}),
			})
		}},
		{2, nil, false, func(s []M) M {
			return nd("TryStatement", "block", block(s[0]), "handler", nd("CatchClause", "param", v("e"), "body", block(s[1])), "finalizer", nil)
		}},
		{2, nil, false, func(s []M) M {
			return nd("TryStatement", "block", block(s[0]), "handler", nd("CatchClause", "param", nil, "body", block(s[1])), "finalizer", nil)
		}},
		{2, nil, false, func(s []M) M {
			return nd("TryStatement", "block", block(s[0]), "handler", nil, "finalizer", block(s[1]))
		}},
		{3, nil, false, func(s []M) M {
			return nd("TryStatement", "block", block(s[0]), "handler", nd("CatchClause", "param", objPat("e2"), "body", block(s[1])), "finalizer", block(s[2]))
		}},
		{1, only(0), false, func(s []M) M { return nd("LabeledStatement", "label", v("N"), "body", block(s[0])) }},
		{1, nil, false, func(s []M) M {
			return exprStatement(nd("AssignmentExpression", "operator", "=", "left", v("fn"), "right", nd("FunctionExpression", "id", nil, "params", []any{}, "body", block(nd("LabeledStatement", "label", v("M"), "body", nd("WhileStatement", "test", v("x"), "body", block(s[0])))), "async", false, "generator", false, "expression", false)))
		}},
	}
	// For statements: every combination of heads.
	heads := []func() any{
		func() any { return nil },
		func() any { return v("i") },
		func() any {
			return nd("SequenceExpression", "expressions", []any{v("i"), nd("AssignmentExpression", "operator", "=", "left", v("j"), "right", v("k"))})
		},
		func() any { return varDecl("var", dtor(v("i"), nil)) },
		func() any { return varDecl("var", dtor(v("i"), v("n")), dtor(v("j"), nil)) },
	}
	for h := range heads {
		for tu := 0; tu < 4; tu++ {
			if h > 1 && tu != 0 && tu != 3 {
				continue
			}
			h, tu := h, tu
			l = append(l, stmtShape{1, only(0), false, func(s []M) M {
				n := nd("ForStatement", "init", heads[h](), "test", nil, "update", nil, "body", s[0])
				if tu&1 != 0 {
					n["test"] = binExpr("<", v("i"), v("n"))
				}
				if tu&2 != 0 {
					n["update"] = nd("UpdateExpression", "operator", "++", "prefix", false, "argument", v("i"))
				}
				return n
			}})
		}
	}
	lefts := []func() any{
		func() any { return v("i") },
		func() any { return nd("MemberExpression", "object", v("o"), "property", v("p"), "computed", false) },
		func() any { return arrPat(v("a"), v("b")) },
		func() any { return varDecl("var", dtor(v("i"), nil)) },
		func() any { return varDecl("var", dtor(objPat("k"), nil)) },
	}
	for li := range lefts {
		for _, typ := range []string{"ForInStatement", "ForOfStatement"} {
			li, typ := li, typ
			l = append(l, stmtShape{1, only(0), false, func(s []M) M {
				return nd(typ, "left", lefts[li](), "right", v("list"), "body", s[0])
			}})
		}
	}
	l = append(l, stmtShape{1, only(0), false, func(s []M) M {
		return nd("ForInStatement", "left", v("i"), "right", nd("SequenceExpression", "expressions", []any{v("a"), v("b")}), "body", s[0])
	}})
	return l
}

// C10: functions, arrows, patterns.
func c10(c *Check) {
	c.rule = "for each random parameter list (identifiers, defaults, nested patterns, renames, holes, rest): every form of function that can carry it is generated - declaration, expression, generator, async, object and class methods, plain and async arrows with expression and block bodies - placed among operators, printed with random layout and compared as ESTree; and random programs rich in functions. Non-trivial: at least 3 nodes; distinct: by source text."
	c.assume = append(c.assume, acornNote)
	c.run("forms", c.n(5000), func(w *Worker, i int, r *Rng) {
		p := defaultProfile(8 + r.Intn(60))
		p.Words, p.Fn = 0.08, 1
		g := newGen(r, p)
		g.c.inFunc = true
		// A parameter list for all forms: valid as strict code, without await or
		// yield as names and without legacy numbers.
		g.c = fctx{strict: true, async: true, gen: true, inFunc: true}
		ps := g.params(false, -1)
		bodyE := g.expr()
		bodyB := g.body(false)
		mk := func(typ string, kv ...any) M {
			n := nd(typ, "id", nil, "params", clone(ps), "async", false, "generator", false, "expression", false, "body", clone(bodyB))
			for i := 0; i < len(kv); i += 2 {
				n[kv[i].(string)] = kv[i+1]
			}
			return n
		}
		var forms []M
		for k := 0; k < 4; k++ {
			forms = append(forms, mk("FunctionExpression", "async", k&1 != 0, "generator", k&2 != 0))
			forms = append(forms, mk("FunctionExpression", "async", k&1 != 0, "generator", k&2 != 0, "id", ident("nm")))
			forms = append(forms, nd("ObjectExpression", "properties", []any{nd("Property", "kind", "init", "method", true, "shorthand", false, "computed", false, "key", ident("m"), "value", mk("FunctionExpression", "async", k&1 != 0, "generator", k&2 != 0))}))
		}
		for k := 0; k < 2; k++ {
			forms = append(forms, mk("ArrowFunctionExpression", "async", k == 1))
			forms = append(forms, mk("ArrowFunctionExpression", "async", k == 1, "expression", true, "body", clone(bodyE)))
		}
		var ctorBody any = clone(bodyB)
		forms = append(forms, nd("ClassExpression", "id", nil, "superClass", nil, "body", nd("ClassBody", "body", []any{
			nd("MethodDefinition", "kind", "constructor", "static", false, "computed", false, "key", ident("constructor"), "value", mk("FunctionExpression", "body", ctorBody)),
			nd("MethodDefinition", "kind", "method", "static", true, "computed", false, "key", ident("m"), "value", mk("FunctionExpression")),
		})))
		if len(ps) == 1 && typeOf(ps[0]) != "RestElement" {
			forms = append(forms, nd("ObjectExpression", "properties", []any{nd("Property", "kind", "set", "method", false, "shorthand", false, "computed", false, "key", ident("m"), "value", mk("FunctionExpression"))}))
		}
		shapes := operatorShapes()
		for _, f := range forms {
			e := f
			if r.Chance(0.7) {
				s := pick(r, shapes)
				a := leaves(s.arity, 0)
				pos := r.Intn(s.arity)
				if !(s.targets && pos == 0) {
					a[pos] = f
					e = s.make(a)
				}
			}
			t := program("script", exprStatement(e))
			if r.Chance(0.3) {
				t = program("script", nd("VariableDeclaration", "kind", "var", "declarations", []any{nd("VariableDeclarator", "id", ident("v"), "init", e), nd("VariableDeclarator", "id", ident("w"), "init", nil)}))
			}
			if l := w.checkTree(t, r, 0, randomStyle(r)); l != nil {
				w.count("forms_checked", 1)
				w.observe(t, l, 3)
			}
		}
		d := mk("FunctionDeclaration", "id", ident("decl"))
		t := program("script", d, exprStatement(ident("after")))
		w.observe(t, w.checkTree(t, r, 0, randomStyle(r)), 3)
	})
	c.run("patterns", c.n(24000), func(w *Worker, i int, r *Rng) {
		p := defaultProfile(6 + r.Intn(40))
		p.Fn, p.Class = 1, 0
		g := newGen(r, p)
		b := g.bindingPattern(map[string]bool{}, 3)
		e := g.expr()
		var t M
		switch r.Intn(6) {
		case 0, 1:
			kind := "var"
			t = program("script", nd("VariableDeclaration", "kind", kind, "declarations", []any{nd("VariableDeclarator", "id", b, "init", e)}))
		case 2:
			lb := g.bindingPattern(nil, 3)
			t = program("script", nd("VariableDeclaration", "kind", pick(r, []string{"let", "const"}), "declarations", []any{nd("VariableDeclarator", "id", lb, "init", e)}))
		case 3:
			lb := g.bindingPattern(nil, 3)
			t = program("script", nd("TryStatement", "block", nd("BlockStatement", "body", []any{}), "handler", nd("CatchClause", "param", lb, "body", nd("BlockStatement", "body", []any{})), "finalizer", nil))
		case 4:
			t = program("script", nd(pick(r, []string{"ForInStatement", "ForOfStatement"}), "left", nd("VariableDeclaration", "kind", "var", "declarations", []any{nd("VariableDeclarator", "id", b, "init", nil)}), "right", e, "body", nd("EmptyStatement")))
		default:
			t = program("script", exprStatement(nd("AssignmentExpression", "operator", "=", "left", g.assignPattern(3), "right", e)))
		}
		w.observe(t, w.checkTree(t, r, 0, randomStyle(r)), 3)
	})
	// A bare arrow or parenthesised arrow next to every operator.
	randomTrees(c, "random", c.n(24000), func(r *Rng) (M, float64) {
		p := Profile{Fuel: 10 + r.Intn(80), Prim: 3, Op: 3, Fn: 8, Obj: 1, Words: 0.15}
		p.Module = r.Chance(0.15)
		return genProgram(r, p, 1+r.Intn(3)), 0.05
	})
	c.wide(c.n(1500))
	c.require("distinct", c.n(20000), "forms_checked", c.n(15000))
}

// C11: object literals and classes.
func c11(c *Check) {
	c.rule = "object literals and classes: every kind of member with every kind of key, and every ordered pair of them (systematically), and random ones; printed with random layout and compared as ESTree. Non-trivial: at least 3 nodes; distinct: by source text."
	c.assume = append(c.assume, acornNote)
	keys := memberKeys()
	kinds := []string{"init", "shorthand", "get", "set", "method", "async", "generator", "asyncgenerator"}
	objMember := func(kind string, k M, computed bool, g *Gen) M {
		p := nd("Property", "kind", "init", "method", false, "shorthand", false, "computed", computed, "key", k)
		switch kind {
		case "init":
			p["value"] = g.expr()
		case "get":
			p["kind"] = "get"
			p["value"] = g.method(false, false, 0)
		case "set":
			p["kind"] = "set"
			p["value"] = g.method(false, false, 1)
		case "shorthand":
			p["shorthand"], p["value"] = true, clone(k)
		default:
			p["method"] = true
			p["value"] = g.method(kind == "async" || kind == "asyncgenerator", kind == "generator" || kind == "asyncgenerator", -1)
		}
		return p
	}
	validShorthand := func(k M, computed bool) bool {
		if computed || typeOf(k) != "Identifier" {
			return false
		}
		return !reservedAlways[str(k, "name")]
	}
	small := func(r *Rng) *Gen { return newGen(r, Profile{Fuel: 1 + r.Intn(6), Prim: 4, Op: 1}) }
	c.count("keys", len(keys))
	c.run("object members", len(keys)*len(kinds)*3, func(w *Worker, i int, r *Rng) {
		k := keys[i%len(keys)]
		kind := kinds[i/len(keys)%len(kinds)]
		if kind == "shorthand" && !validShorthand(k.key, k.computed) {
			return
		}
		g := small(r)
		l := []any{objMember(kind, clone(k.key).(M), k.computed, g)}
		for r.Chance(0.6) {
			k2 := pick(r, keys)
			kind2 := pick(r, kinds)
			if kind2 == "shorthand" && !validShorthand(k2.key, k2.computed) {
				continue
			}
			m := objMember(kind2, clone(k2.key).(M), k2.computed, g)
			if r.Chance(0.5) {
				l = append(l, m)
			} else {
				l = append([]any{m}, l...)
			}
		}
		o := nd("ObjectExpression", "properties", l)
		t := program("script", exprStatement(o))
		w.observe(t, w.checkTree(t, r, 0, randomStyle(r)), 3)
		w.observe(o, w.checkTree(o, r, 0, Style{Canonical: true}), 3)
		w.count("object_members", len(l))
	})
	ckinds := []string{"method", "get", "set"}
	classMember := func(kind string, k memberKey, static bool, g *Gen) M {
		m := nd("MethodDefinition", "kind", kind, "static", static, "computed", k.computed, "key", clone(k.key))
		np := map[string]int{"method": -1, "get": 0, "set": 1}[kind]
		if !static && !k.computed && keyName(k.key) == "constructor" {
			if kind != "method" {
				return nil
			}
			m["kind"] = "constructor"
		}
		if static && !k.computed && keyName(k.key) == "prototype" {
			return nil
		}
		m["value"] = g.method(false, false, np)
		return m
	}
	c.run("class members", len(keys)*len(ckinds)*2*4, func(w *Worker, i int, r *Rng) {
		k := keys[i%len(keys)]
		j := i / len(keys)
		kind := ckinds[j%3]
		static := j/3%2 == 1
		g := small(r)
		g.c.strict = true
		m := classMember(kind, k, static, g)
		if m == nil {
			return
		}
		l := []any{m}
		ctor := m["kind"] == "constructor"
		for r.Chance(0.6) {
			k2 := pick(r, keys)
			m := classMember(pick(r, ckinds), k2, r.Chance(0.4), g)
			if m == nil || m["kind"] == "constructor" && ctor {
				continue
			}
			ctor = ctor || m["kind"] == "constructor"
			if r.Chance(0.5) {
				l = append(l, m)
			} else {
				l = append([]any{m}, l...)
			}
		}
		n := nd("ClassExpression", "id", nil, "superClass", nil, "body", nd("ClassBody", "body", l))
		if r.Chance(0.5) {
			n["superClass"] = g.expr()
		}
		if r.Chance(0.5) {
			n["id"] = ident("Cl")
		}
		var t M
		if n["id"] != nil && r.Chance(0.5) {
			n["type"] = "ClassDeclaration"
			t = program(pick(r, []string{"script", "module"}), n, exprStatement(ident("after")))
		} else {
			t = program("script", exprStatement(n))
		}
		w.observe(t, w.checkTree(t, r, 0, randomStyle(r)), 3)
		w.count("class_members", len(l))
	})
	randomTrees(c, "random", c.n(40000), func(r *Rng) (M, float64) {
		p := Profile{Fuel: 10 + r.Intn(100), Prim: 3, Op: 2, Fn: 1, Obj: 6, Class: 4, Words: 0.15}
		p.Module = r.Chance(0.15)
		return genProgram(r, p, 1+r.Intn(3)), 0.03
	})
	c.wide(c.n(1000))
	c.require("distinct", c.n(9000), "object_members", 800, "class_members", 800)
}

type memberKey struct {
	key      M
	computed bool
}

func keyName(k M) string {
	if typeOf(k) == "Identifier" {
		return str(k, "name")
	}
	s, _ := k["value"].(string)
	return s
}

func memberKeys() []memberKey {
	var l []memberKey
	add := func(k M) { l = append(l, memberKey{k, false}) }
	for _, w := range append(append(append([]string{}, reservedAlwaysList...), reservedStrictList...), neverReservedList...) {
		add(ident(w))
	}
	for _, w := range []string{"yield", "await", "constructor", "prototype", "a", "$", "_", "变量", "𠮷", "get_", "asyncs", "__proto__", "hasOwnProperty", "toString", "value", "key"} {
		add(ident(w))
	}
	for _, s := range []string{"''", "\"a b\"", "'get'", "'//'", "\"\\n\"", "'\u2028'", "'constructor '"} {
		add(strLit(s))
	}
	for _, s := range []string{"0", "1", "1.5", ".5", "5.", "0x1F", "1e3", "1_000", "0b11", "0o17"} {
		add(numLit(s))
	}
	l = append(l, memberKey{ident("k"), true}, memberKey{strLit("'k'"), true},
		memberKey{binExpr("in", ident("a"), ident("b")), true},
		memberKey{nd("AssignmentExpression", "operator", "=", "left", ident("a"), "right", ident("b")), true},
		memberKey{ident("get"), true}, memberKey{numLit("0"), true})
	// Names that mean something elsewhere, quoted and computed.
	for _, n := range []string{"constructor", "prototype", "__proto__", "get", "set", "static", "async", "await", "yield", "let", "of", "as", "from", "name", "length", "a"} {
		l = append(l, memberKey{strLit("'" + n + "'"), false}, memberKey{strLit("\"" + n + "\""), true})
		if n != "get" && n != "await" && n != "yield" && n != "let" && n != "static" {
			l = append(l, memberKey{ident(n), true})
		}
	}
	// Every kind of expression as a computed key.
	for i := range 40 {
		g := newGen(newRng(1, "memberKeys", "expression", i), Profile{Fuel: 1 + i/4, Prim: 3, Op: 3, Fn: 1, Obj: 1, Class: 1})
		g.c.strict = true
		l = append(l, memberKey{g.expr(), true})
	}
	return l
}

// C13: layout.
func c13(c *Check) {
	c.rule = "each random program is laid out in several ways - canonical, minimal, with every kind of white space, line terminator and comment between tokens, with redundant parentheses - and all layouts must parse to the generated tree; plus one-separator sweeps: every white space character, line terminator and comment form between the tokens of fixed programs. Non-trivial: at least 3 nodes; distinct: by source text."
	c.assume = append(c.assume, acornNote)
	c.run("relayout", c.n(7500), func(w *Worker, i int, r *Rng) {
		p := defaultProfile(10 + r.Intn(120))
		p.Stmt = r.Float()
		p.Module = r.Chance(0.2)
		t := genProgram(r, p, 1+r.Intn(6))
		styles := []Style{
			{Canonical: true},
			{Minimal: true, NoASI: true},
			{NoASI: true, Newline: 0.95},
			{NoASI: true, Comment: 0.9, Newline: 0.1},
			{NoASI: true, Wide: 0.95},
			{NoASI: true, Newline: 0.3, Comment: 0.3, Wide: 0.3},
		}
		for _, st := range styles {
			if l := w.checkTree(t, r, 0, st); l != nil {
				w.count("layouts", 1)
				w.observe(t, l, 3)
			}
		}
		for _, q := range []float64{0.1, 0.4, 0.8} {
			if l := w.checkTree(t, r, q, Style{Canonical: true}); l != nil {
				w.count("layouts", 1)
				w.observe(t, l, 3)
			}
		}
	})
	// Wide and deep programs in several layouts, and very long separators.
	shapes := wideShapes("all")
	c.run("wide and deep", c.n(400), func(w *Worker, i int, r *Rng) {
		t := randomWide(r, shapes, 1200)
		for _, st := range []Style{{Canonical: true}, {Minimal: true, NoASI: true}, {NoASI: true, Newline: 0.9}, randomStyle(r)} {
			if l := w.checkTree(t, r, 0, st); l != nil {
				w.count("layouts", 1)
				w.count("wide_layouts", 1)
				w.observe(t, l, 3)
			}
		}
		if l := w.checkTree(t, r, 0.3, Style{Canonical: true}); l != nil {
			w.observe(t, l, 3)
		}
	})
	c.run("long separators", c.n(1500), func(w *Worker, i int, r *Rng) {
		p := defaultProfile(10 + r.Intn(60))
		p.Stmt = r.Float()
		t := genProgram(r, p, 1+r.Intn(4))
		toks, _, err := printTree(t, r, 0)
		if err != nil || len(toks) == 0 {
			return
		}
		long := map[int]string{}
		for k := 1 + r.Intn(3); k > 0; k-- {
			j := r.Intn(len(toks) + 1)
			long[j] = longSeparator(r, j < len(toks) && toks[j].NoNL)
		}
		var b strings.Builder
		for j, tk := range toks {
			if s := long[j]; s != "" {
				b.WriteString(" " + s + " ")
			} else if j > 0 {
				b.WriteString(" ")
			}
			b.WriteString(tk.Text)
		}
		b.WriteString(long[len(toks)])
		s := spec{b.String(), modeOf(t), expected(t)}
		w.eval()
		if d := w.verdict(s); d != "" {
			if ok, _ := w.acornAgrees(s); ok {
				w.violate(d, s.mode, s.src, map[string]any{"expected": s.want})
			} else {
				w.count("not_judged_acorn_disagrees", 1)
			}
			return
		}
		w.note(s.src)
		w.count("long_separators", len(long))
	})
	// Every separator in every gap.
	seps := []string{}
	for _, ws := range whiteSpaces {
		seps = append(seps, string(ws))
	}
	seps = append(seps, lineTerms...)
	for _, lt := range lineTerms {
		seps = append(seps, "//"+lt, "//x"+lt, "// a */ /* "+lt, "/*"+lt+"*/", "/*x"+lt+"y*/", " "+lt+" ", lt+lt)
	}
	seps = append(seps, "/**/", "/***/", "/****/", "/*/*/", "/* * /*/", "/*//*/", "/* x */", "/**x**/", " /*a*/ /*b*/ ", "/*'*/", "/*\"*/", "/*`*/", "/*\\*/", "/*é𝒳*/", "\t\v\f \u00a0\ufeff")
	var progs []M
	gr := newRng(7, "c13progs")
	for len(progs) < 12 {
		p := defaultProfile(25)
		p.Stmt = 0.6
		progs = append(progs, genProgram(gr, p, 3))
	}
	c.count("separators", len(seps))
	c.run("separators", len(progs)*len(seps), func(w *Worker, i int, r *Rng) {
		t := progs[i/len(seps)]
		sep := seps[i%len(seps)]
		toks, _, err := printTree(t, newRng(3), 0)
		if err != nil {
			return
		}
		nl := containsLT(sep)
		for _, step := range []int{1, 2, 3} {
			src := []byte{}
			for j, tk := range toks {
				switch {
				case j == 0:
				case (j+r.Intn(step)*0)%step == 0 && !(nl && tk.NoNL):
					if len(src) > 0 && src[len(src)-1] == '/' && sep[0] == '/' {
						src = append(src, ' ')
					}
					src = append(src, sep...)
				default:
					src = append(src, ' ')
				}
				src = append(src, tk.Text...)
			}
			s := spec{string(src), modeOf(t), expected(t)}
			w.eval()
			if d := w.verdict(s); d != "" {
				if ok, _ := w.acornAgrees(s); ok {
					w.violate(d, s.mode, s.src, map[string]any{"separator": sep, "expected": s.want})
				} else {
					w.count("not_judged_acorn_disagrees", 1)
				}
				continue
			}
			w.note(s.src)
			w.count("separator_layouts", 1)
		}
		// The separator before the first and after the last token, and alone.
		canon := layout(toks, Style{Canonical: true}, newRng(1)).Src
		for _, src := range []string{sep + canon, canon + sep, canon + "\n" + sep} {
			s := spec{src, modeOf(t), expected(t)}
			w.eval()
			if d := w.verdict(s); d != "" {
				if ok, _ := w.acornAgrees(s); ok {
					w.violate(d, s.mode, s.src, map[string]any{"separator": sep})
				} else {
					w.count("not_judged_acorn_disagrees", 1)
				}
			}
		}
		empty := spec{sep, "script", normalise(program("script"))}
		w.eval()
		if d := w.verdict(empty); d != "" {
			if ok, _ := w.acornAgrees(empty); ok {
				w.violate(d, "script", sep, nil)
			}
		}
	})
	c.require("distinct", c.n(12000), "layouts", c.n(15000), "separator_layouts", 1000, "wide_layouts", c.n(1000), "long_separators", c.n(2000))
}

// longSeparator returns a separator of many characters or many pieces.
func longSeparator(r *Rng, oneLine bool) string {
	n := wideSize(r, 70000)
	if r.Chance(0.2) {
		n = 1<<(8+r.Intn(9)) + r.Intn(3) - 1
	}
	piece := pick(r, []string{" ", "\t", "\u3000", "/**/", "/* */ ", "/* x */"})
	if !oneLine && r.Chance(0.7) {
		piece = pick(r, []string{"\n", "\r\n", "\r", "\u2028", "//\n", "// x\r\n", "/*\n*/", " \n"})
	}
	switch r.Intn(4) {
	case 0:
		if !oneLine && r.Chance(0.5) {
			return "//" + strings.Repeat(pick(r, []string{"x", "*/ ", "𝒳", "'"}), n) + "\n"
		}
		return "/*" + strings.Repeat(pick(r, []string{"x", "*", "/", "𝒳", "* /"}), n) + "\u0020*/"
	case 1:
		var b strings.Builder
		for k := min(n, 3000); k > 0; k-- {
			if r.Chance(0.1) && !oneLine {
				b.WriteString(pick(r, lineTerms))
			} else {
				b.WriteString(piece)
			}
		}
		return b.String()
	}
	return strings.Repeat(piece, n)
}

func containsLT(s string) bool {
	for _, c := range s {
		if isLT(c) {
			return true
		}
	}
	return false
}
