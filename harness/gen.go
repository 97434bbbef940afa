package main

import "fmt"

// The generator builds random ESTree of the supported language subset. It is
// the specification side of C08-C13 and C22: the tree comes first, the text is
// printed from it.

type Profile struct {
	Module bool
	Fuel   int     // approximate number of nodes
	Stmt   float64 // preference for statements over expressions
	Fn     int     // weights
	Obj    int
	Class  int
	Op     int
	Prim   int
	Words  float64 // probability of contextual words as names
	Legacy bool    // legacy octal numbers in sloppy code
}

type fctx struct {
	strict, async, gen bool
	inFunc             bool
	loop, brk          bool
	labels             []string
	loopLabels         []string
}

type Gen struct {
	r    *Rng
	p    Profile
	fuel int
	n    int // fresh name counter
	c    fctx
	deep int
}

func newGen(r *Rng, p Profile) *Gen {
	g := &Gen{r: r, p: p, fuel: p.Fuel}
	if p.Module {
		g.c.strict = true
		g.c.async = true // await is reserved
	}
	return g
}

func defaultProfile(fuel int) Profile {
	return Profile{Fuel: fuel, Fn: 2, Obj: 2, Class: 1, Op: 6, Prim: 3, Words: 0.12, Legacy: true}
}

var plainNames = []string{"a", "b", "c", "d", "e", "f", "x", "y", "z", "i", "foo", "bar", "$", "_", "$1", "_x", "a1", "undefined", "NaN", "constructor", "prototype", "length", "asyncs", "lets", "inn", "newt", "éa", "变量", "𠮷", "ℵ", "a\u200db", "Ⅷ", "ª", "z\u0301", "nullx", "thisx", "truex", "typeofx", "of1", "get_", "__proto__", "hasOwnProperty", "toString", "valueOf", "name", "meta", "target", "raw", "type", "start", "end", "kind", "operator", "$$", "_0", "use", "strict", "Infinity", "async1", "l\u0131", "\uac00", "x\u203f"}

func (g *Gen) fresh(prefix string) string {
	g.n++
	if g.r.Chance(0.3) {
		return fmt.Sprintf("%s$%d", pick(g.r, plainNames), g.n)
	}
	return fmt.Sprintf("%s%d", prefix, g.n)
}

// contextual returns the words that are valid names here.
func (g *Gen) contextual() []string {
	l := append([]string{}, neverReservedList...)
	if !g.c.strict {
		l = append(l, reservedStrictList...)
		if !g.c.gen {
			l = append(l, "yield")
		}
		if !g.c.async {
			l = append(l, "await")
		}
	}
	return l
}

// name returns a name that is valid as a reference and binding here, but is
// never declared lexically.
func (g *Gen) name() string {
	if g.r.Chance(g.p.Words) {
		return pick(g.r, g.contextual())
	}
	if g.r.Chance(0.9) {
		return plainNames[g.r.Intn(20)]
	}
	return pick(g.r, plainNames)
}

// simpleName returns a name that is not let or async.
func (g *Gen) simpleName() string {
	for {
		n := g.name()
		if n != "let" && n != "async" {
			return n
		}
	}
}

// prop returns a property name: any IdentifierName.
func (g *Gen) prop() string {
	switch g.r.Intn(10) {
	case 0:
		return pick(g.r, reservedAlwaysList)
	case 1:
		return pick(g.r, append(append([]string{}, reservedStrictList...), neverReservedList...))
	case 2:
		return pick(g.r, []string{"yield", "await", "constructor", "get", "set", "static", "async"})
	}
	return pick(g.r, plainNames)
}

func (g *Gen) spend(n int) bool {
	g.fuel -= n
	return g.fuel > 0
}

func (g *Gen) number() M {
	raw := genNumber(g.r, g.p.Legacy && !g.c.strict && g.r.Chance(0.5))
	return numLit(raw)
}

func numLit(raw string) M {
	v := numValue(raw)
	n := nd("Literal", "value", v, "raw", raw)
	if v > 1.7976931348623157e308 {
		n["value"] = nil
	}
	return n
}

func strLit(raw string) M {
	n := nd("Literal", "raw", raw)
	esc := false
	for _, c := range raw {
		if c == '\\' {
			esc = true
		}
	}
	if !esc {
		n["value"] = raw[1 : len(raw)-1]
	}
	return n
}

func reLit(body, flags string) M {
	return nd("Literal", "raw", "/"+body+"/"+flags, "regex", M{"pattern": body, "flags": flags})
}

func (g *Gen) str() M { return strLit(genString(g.r, true)) }

func (g *Gen) primary() M {
	g.spend(1)
	switch g.r.Intn(12) {
	case 0:
		return nd("ThisExpression")
	case 1:
		return nd("Literal", "value", nil, "raw", "null")
	case 2:
		b := g.r.Chance(0.5)
		return nd("Literal", "value", b, "raw", fmt.Sprint(b))
	case 3, 4:
		return g.number()
	case 5, 6:
		return g.str()
	case 7:
		b, f := genRegex(g.r)
		return reLit(b, f)
	}
	return ident(g.name())
}

// expr returns any expression without a top-level comma.
func (g *Gen) expr() M {
	if g.fuel <= 0 || g.deep > 40 {
		return g.primary()
	}
	g.deep++
	defer func() { g.deep-- }()
	switch g.r.weighted([]int{g.p.Prim, g.p.Op, g.p.Fn, g.p.Obj, g.p.Class}) {
	case 1:
		return g.operator()
	case 2:
		return g.functionExpr()
	case 3:
		return g.object()
	case 4:
		if g.r.Chance(0.6) {
			return g.classExpr()
		}
	}
	return g.primary()
}

// seq returns an expression, possibly with top-level commas.
func (g *Gen) seq() M {
	if g.fuel > 0 && g.r.Chance(0.08) {
		l := []any{}
		for n := 2 + g.r.Intn(3); n > 0; n-- {
			l = append(l, g.expr())
		}
		return nd("SequenceExpression", "expressions", l)
	}
	return g.expr()
}

// target returns a simple assignment target.
func (g *Gen) target() M {
	if g.r.Chance(0.5) {
		return ident(g.name())
	}
	return g.member()
}

func (g *Gen) member() M {
	g.spend(1)
	o := g.expr()
	if g.r.Chance(0.6) {
		return nd("MemberExpression", "object", o, "property", ident(g.prop()), "computed", false)
	}
	return nd("MemberExpression", "object", o, "property", g.seq(), "computed", true)
}

func (g *Gen) callArgs() []any {
	l := []any{}
	for n := g.r.Intn(4); n > 0; n-- {
		e := g.expr()
		if g.r.Chance(0.15) {
			e = nd("SpreadElement", "argument", e)
		}
		l = append(l, e)
	}
	return l
}

func binExpr(op string, l, r M) M {
	t := "BinaryExpression"
	if op == "&&" || op == "||" || op == "??" {
		t = "LogicalExpression"
	}
	return nd(t, "operator", op, "left", l, "right", r)
}

func (g *Gen) operator() M {
	g.spend(1)
	switch g.r.weighted([]int{12, 5, 3, 4, 4, 6, 6, 4, 2, 3}) {
	case 0:
		return binExpr(pick(g.r, binOps), g.expr(), g.expr())
	case 1:
		op := pick(g.r, unaryOps)
		a := g.expr()
		if op == "delete" {
			for typeOf(a) == "Identifier" && g.c.strict {
				a = g.member()
			}
		}
		return nd("UnaryExpression", "operator", op, "prefix", true, "argument", a)
	case 2:
		return nd("UpdateExpression", "operator", pick(g.r, []string{"++", "--"}), "prefix", g.r.Chance(0.5), "argument", g.target())
	case 3:
		return nd("ConditionalExpression", "test", g.expr(), "consequent", g.expr(), "alternate", g.expr())
	case 4:
		return nd("AssignmentExpression", "operator", pick(g.r, assignOps), "left", g.target(), "right", g.expr())
	case 5:
		return g.member()
	case 6:
		return nd("CallExpression", "callee", g.expr(), "arguments", g.callArgs())
	case 7:
		return nd("NewExpression", "callee", g.expr(), "arguments", g.callArgs())
	case 8:
		return nd("SequenceExpression", "expressions", []any{g.expr(), g.expr()})
	default:
		if g.r.Chance(0.4) {
			return nd("AssignmentExpression", "operator", "=", "left", g.assignPattern(2), "right", g.expr())
		}
		l := []any{}
		for n := g.r.Intn(5); n > 0; n-- {
			if g.r.Chance(0.15) {
				l = append(l, nil)
			} else {
				l = append(l, g.expr())
			}
		}
		return nd("ArrayExpression", "elements", l)
	}
}

// assignPattern returns an array or object pattern whose targets are references.
func (g *Gen) assignPattern(depth int) M {
	g.spend(1)
	elem := func() M {
		var t M
		if depth > 0 && g.r.Chance(0.25) {
			t = g.assignPattern(depth - 1)
		} else {
			t = g.target()
		}
		if g.r.Chance(0.3) {
			t = nd("AssignmentPattern", "left", t, "right", g.expr())
		}
		return t
	}
	if g.r.Chance(0.5) {
		l := []any{}
		for n := g.r.Intn(4); n > 0; n-- {
			if g.r.Chance(0.15) {
				l = append(l, nil)
			} else {
				l = append(l, elem())
			}
		}
		return nd("ArrayPattern", "elements", l)
	}
	l := []any{}
	for n := g.r.Intn(4); n > 0; n-- {
		if g.r.Chance(0.3) {
			id := ident(g.name())
			l = append(l, nd("Property", "key", id, "computed", false, "value", clone(id), "kind", "init", "method", false, "shorthand", true))
			continue
		}
		k, computed := g.objKey()
		l = append(l, nd("Property", "key", k, "computed", computed, "value", elem(), "kind", "init", "method", false, "shorthand", false))
	}
	return nd("ObjectPattern", "properties", l)
}

// objKey returns a property key of any form.
func (g *Gen) objKey() (M, bool) {
	switch g.r.Intn(8) {
	case 0:
		return g.expr(), true
	case 1:
		return strLit(genString(g.r, true)), false
	case 2:
		return g.number(), false
	}
	return ident(g.prop()), false
}

func (g *Gen) object() M {
	g.spend(1)
	l := []any{}
	for n := g.r.Intn(5); n > 0; n-- {
		p := nd("Property", "kind", "init", "method", false, "shorthand", false, "computed", false)
		switch g.r.Intn(8) {
		case 0, 1:
			id := ident(g.name())
			p["key"], p["value"], p["shorthand"] = id, clone(id), true
		case 2:
			p["kind"] = pick(g.r, []string{"get", "set"})
			p["key"], p["computed"] = g.objKey()
			np := 0
			if p["kind"] == "set" {
				np = 1
			}
			p["value"] = g.method(false, false, np)
		case 3, 4:
			p["method"] = true
			p["key"], p["computed"] = g.objKey()
			p["value"] = g.method(g.r.Chance(0.3), g.r.Chance(0.3), -1)
		default:
			p["key"], p["computed"] = g.objKey()
			p["value"] = g.expr()
		}
		l = append(l, p)
	}
	return nd("ObjectExpression", "properties", l)
}

// method returns the function of a method.
func (g *Gen) method(async, gen bool, nparams int) M {
	return g.function(async, gen, "", nparams)
}

// function returns a FunctionExpression. nparams is -1 for any.
func (g *Gen) function(async, gen bool, name string, nparams int) M {
	g.spend(1)
	saved := g.c
	g.c = fctx{strict: saved.strict, async: async, gen: gen, inFunc: true}
	directive := !saved.strict && g.r.Chance(0.08)
	if directive {
		g.c.strict = true
	}
	ps := g.params(directive, nparams)
	body := g.body(directive)
	f := nd("FunctionExpression", "id", nil, "params", ps, "body", body, "async", async, "generator", gen, "expression", false)
	if name == "?" {
		f["id"] = ident(g.name())
	}
	g.c = saved
	return f
}

func (g *Gen) functionExpr() M {
	switch g.r.Intn(5) {
	case 0, 1:
		name := ""
		if g.r.Chance(0.5) {
			name = "?"
		}
		return g.function(g.r.Chance(0.25), g.r.Chance(0.25), name, -1)
	}
	return g.arrow()
}

func (g *Gen) arrow() M {
	g.spend(1)
	async := g.r.Chance(0.3)
	saved := g.c
	// An arrow function inherits nothing but strictness here; its parameters
	// are written in the outer context, where await and yield may be reserved.
	inner := fctx{strict: saved.strict, async: async || saved.async, gen: saved.gen, inFunc: true}
	g.c = inner
	directive := !saved.strict && g.r.Chance(0.06)
	if directive {
		g.c.strict = true
	}
	ps := g.params(directive, -1)
	f := nd("ArrowFunctionExpression", "id", nil, "params", ps, "async", async, "generator", false)
	if !directive && g.r.Chance(0.6) {
		f["body"], f["expression"] = g.expr(), true
	} else {
		f["body"], f["expression"] = g.body(directive), false
	}
	g.c = saved
	return f
}

// params returns parameters with distinct names.
func (g *Gen) params(simple bool, n int) []any {
	used := map[string]bool{}
	l := []any{}
	fixed := n >= 0
	if n < 0 {
		n = g.r.Intn(4)
	}
	for ; n > 0; n-- {
		if simple {
			l = append(l, ident(g.unique(used)))
			continue
		}
		l = append(l, g.bindingElem(used, 2))
	}
	if !simple && !fixed && len(l) < 4 && g.r.Chance(0.2) {
		l = append(l, nd("RestElement", "argument", ident(g.unique(used))))
	}
	return l
}

func (g *Gen) unique(used map[string]bool) string {
	for i := 0; i < 20; i++ {
		n := g.name()
		if !used[n] {
			used[n] = true
			return n
		}
	}
	return g.fresh("u")
}

func (g *Gen) bindingElem(used map[string]bool, depth int) M {
	b := g.binding(used, depth)
	if g.r.Chance(0.25) {
		return nd("AssignmentPattern", "left", b, "right", g.expr())
	}
	return b
}

// binding returns a binding target. used is nil if names must be fresh.
func (g *Gen) binding(used map[string]bool, depth int) M {
	if depth > 0 && g.fuel > 0 && g.r.Chance(0.25) {
		return g.bindingPattern(used, depth)
	}
	return ident(g.bindName(used))
}

func (g *Gen) bindName(used map[string]bool) string {
	if used == nil {
		return g.fresh("l")
	}
	return g.unique(used)
}

func (g *Gen) bindingPattern(used map[string]bool, depth int) M {
	g.spend(1)
	if g.r.Chance(0.5) {
		l := []any{}
		for n := g.r.Intn(4); n > 0; n-- {
			if g.r.Chance(0.15) {
				l = append(l, nil)
			} else {
				l = append(l, g.bindingElem(used, depth-1))
			}
		}
		if g.r.Chance(0.2) {
			l = append(l, nd("RestElement", "argument", g.binding(used, depth-1)))
		}
		return nd("ArrayPattern", "elements", l)
	}
	l := []any{}
	for n := g.r.Intn(4); n > 0; n-- {
		p := nd("Property", "kind", "init", "method", false, "computed", false)
		if g.r.Chance(0.5) {
			id := ident(g.bindName(used))
			p["key"], p["shorthand"] = id, true
			p["value"] = clone(id)
			if g.r.Chance(0.3) {
				p["value"] = nd("AssignmentPattern", "left", clone(id), "right", g.expr())
			}
		} else {
			p["key"], p["shorthand"] = ident(g.prop()), false
			p["value"] = g.bindingElem(used, depth-1)
		}
		l = append(l, p)
	}
	if g.r.Chance(0.2) {
		l = append(l, nd("RestElement", "argument", ident(g.bindName(used))))
	}
	return nd("ObjectPattern", "properties", l)
}

func directiveStmt(raw string) M {
	return nd("ExpressionStatement", "expression", strLit(raw), "directive", raw[1:len(raw)-1])
}

// body returns a function body.
func (g *Gen) body(useStrict bool) M {
	l := []any{}
	if useStrict {
		if g.r.Chance(0.3) {
			l = append(l, directiveStmt(pick(g.r, []string{"'other'", "\"use strong\"", "'use\\x20strict'"})))
		}
		l = append(l, directiveStmt(pick(g.r, []string{"'use strict'", "\"use strict\""})))
	} else if g.r.Chance(0.05) {
		l = append(l, directiveStmt(pick(g.r, []string{"'a'", "\"use asm\"", "'use\\x20strict'", "' use strict'"})))
	}
	for n := g.r.Intn(4); n > 0; n-- {
		l = append(l, g.stmtItem())
	}
	return nd("BlockStatement", "body", l)
}

func (g *Gen) classTail(n M) M {
	g.spend(1)
	saved := g.c
	g.c.strict = true
	n["superClass"] = nil
	if g.r.Chance(0.4) {
		n["superClass"] = g.expr()
	}
	l := []any{}
	ctor := false
	for k := g.r.Intn(5); k > 0; k-- {
		m := nd("MethodDefinition", "kind", "method", "static", g.r.Chance(0.3), "computed", false)
		m["key"], m["computed"] = g.objKey()
		key := ""
		if !m["computed"].(bool) {
			k := m["key"].(M)
			key = str(k, "name")
			if s, ok := k["value"].(string); ok {
				key = s
			}
		}
		np := -1
		switch g.r.Intn(5) {
		case 0:
			m["kind"], np = "get", 0
		case 1:
			m["kind"], np = "set", 1
		}
		if key == "prototype" {
			m["static"] = false
		}
		if key == "constructor" && !m["static"].(bool) {
			if ctor || typeOf(m["key"]) != "Identifier" {
				continue
			}
			ctor = true
			m["kind"], np = "constructor", -1
		}
		m["value"] = g.method(false, false, np)
		l = append(l, m)
	}
	n["body"] = nd("ClassBody", "body", l)
	g.c = saved
	return n
}

func (g *Gen) classExpr() M {
	n := nd("ClassExpression", "id", nil)
	if g.r.Chance(0.5) {
		saved := g.c.strict
		g.c.strict = true
		n["id"] = ident(g.name())
		g.c.strict = saved
	}
	return g.classTail(n)
}

// stmtItem returns a statement or declaration.
func (g *Gen) stmtItem() M {
	if g.fuel > 0 && g.r.Chance(0.25) {
		switch g.r.Intn(4) {
		case 0, 1:
			kind := pick(g.r, []string{"let", "const"})
			return nd("VariableDeclaration", "kind", kind, "declarations", g.declarators(nil, kind == "const"))
		case 2:
			f := g.function(false, false, "", -1)
			f["type"], f["id"] = "FunctionDeclaration", ident(g.fresh("f"))
			return f
		case 3:
			return g.classTail(nd("ClassDeclaration", "id", ident(g.fresh("C"))))
		}
	}
	return g.stmt()
}

func (g *Gen) declarators(used map[string]bool, mustInit bool) []any {
	l := []any{}
	for n := 1 + g.r.Intn(3)*g.r.Intn(2); n > 0; n-- {
		var id M
		if g.fuel > 0 && g.r.Chance(0.25) {
			id = g.bindingPattern(used, 2)
		} else if used != nil {
			id = ident(g.name())
		} else {
			id = ident(g.fresh("l"))
		}
		d := nd("VariableDeclarator", "id", id, "init", nil)
		if mustInit || typeOf(id) != "Identifier" || g.r.Chance(0.6) {
			d["init"] = g.expr()
		}
		l = append(l, d)
	}
	return l
}

// varNames is a set for names that can be declared any number of times.
func varNames() map[string]bool { return map[string]bool{} }

func (g *Gen) exprStmt() M {
	return nd("ExpressionStatement", "expression", g.seq())
}

func endsWithOpenIf(n M) bool {
	switch typeOf(n) {
	case "IfStatement":
		if n["alternate"] == nil {
			return true
		}
		return endsWithOpenIf(sub(n, "alternate"))
	case "WhileStatement", "ForStatement", "ForInStatement", "ForOfStatement", "LabeledStatement":
		return endsWithOpenIf(sub(n, "body"))
	}
	return false
}

func (g *Gen) block() M {
	l := []any{}
	for n := g.r.Intn(4); n > 0; n-- {
		l = append(l, g.stmtItem())
	}
	return nd("BlockStatement", "body", l)
}

// loopBody returns the body of a loop.
func (g *Gen) loopBody() M {
	saved := g.c
	g.c.loop, g.c.brk = true, true
	s := g.stmt()
	g.c = saved
	return s
}

// stmt returns a statement that is not a declaration.
func (g *Gen) stmt() M {
	if g.fuel <= 0 || g.deep > 40 {
		g.fuel--
		if g.r.Chance(0.2) {
			return nd("EmptyStatement")
		}
		return g.exprStmt()
	}
	g.spend(1)
	g.deep++
	defer func() { g.deep-- }()
	w := []int{8, 3, 2, 4, 4, 2, 2, 3, 3, 2, 2, 3, 2, 3, 3}
	if g.r.Chance(g.p.Stmt) {
		w[0] = 0
	}
	switch g.r.weighted(w) {
	case 0:
		return g.exprStmt()
	case 1:
		return g.block()
	case 2:
		return nd("EmptyStatement")
	case 3:
		return nd("VariableDeclaration", "kind", "var", "declarations", g.declarators(varNames(), false))
	case 4:
		n := nd("IfStatement", "test", g.seq(), "consequent", g.stmt(), "alternate", nil)
		if g.r.Chance(0.5) {
			n["alternate"] = g.stmt()
			if endsWithOpenIf(sub(n, "consequent")) {
				n["consequent"] = nd("BlockStatement", "body", []any{n["consequent"]})
			}
		}
		return n
	case 5:
		b := g.loopBody()
		return nd("DoWhileStatement", "body", b, "test", g.seq())
	case 6:
		return nd("WhileStatement", "test", g.seq(), "body", g.loopBody())
	case 7:
		n := nd("ForStatement", "init", nil, "test", nil, "update", nil)
		switch g.r.Intn(4) {
		case 0, 1:
			n["init"] = nd("VariableDeclaration", "kind", "var", "declarations", g.declarators(varNames(), false))
		case 2:
			n["init"] = g.seq()
		}
		if g.r.Chance(0.6) {
			n["test"] = g.seq()
		}
		if g.r.Chance(0.6) {
			n["update"] = g.seq()
		}
		n["body"] = g.loopBody()
		return n
	case 8:
		t := pick(g.r, []string{"ForInStatement", "ForOfStatement"})
		n := nd(t)
		switch g.r.Intn(5) {
		case 0, 1:
			id := ident(g.name())
			if g.r.Chance(0.3) {
				id = g.bindingPattern(varNames(), 2)
			}
			n["left"] = nd("VariableDeclaration", "kind", "var", "declarations", []any{nd("VariableDeclarator", "id", id, "init", nil)})
		case 2:
			n["left"] = g.assignPattern(1)
		case 3:
			n["left"] = ident(g.simpleName())
		default:
			o := ident(g.simpleName())
			if g.r.Chance(0.5) {
				n["left"] = nd("MemberExpression", "object", o, "property", ident(g.prop()), "computed", false)
			} else {
				n["left"] = nd("MemberExpression", "object", o, "property", g.expr(), "computed", true)
			}
		}
		if t == "ForInStatement" {
			n["right"] = g.seq()
		} else {
			n["right"] = g.expr()
		}
		n["body"] = g.loopBody()
		return n
	case 9:
		n := nd("SwitchStatement", "discriminant", g.seq())
		saved := g.c
		g.c.brk = true
		cases := []any{}
		def := false
		for k := g.r.Intn(4); k > 0; k-- {
			c := nd("SwitchCase", "test", nil)
			if def || g.r.Chance(0.7) {
				c["test"] = g.seq()
			} else {
				def = true
			}
			l := []any{}
			for j := g.r.Intn(3); j > 0; j-- {
				l = append(l, g.stmtItem())
			}
			c["consequent"] = l
			cases = append(cases, c)
		}
		n["cases"] = cases
		g.c = saved
		return n
	case 10:
		// break, continue
		opts := []M{}
		if g.c.brk {
			opts = append(opts, nd("BreakStatement", "label", nil))
		}
		if g.c.loop {
			opts = append(opts, nd("ContinueStatement", "label", nil))
		}
		for _, l := range g.c.labels {
			opts = append(opts, nd("BreakStatement", "label", ident(l)))
		}
		for _, l := range g.c.loopLabels {
			opts = append(opts, nd("ContinueStatement", "label", ident(l)))
		}
		if len(opts) > 0 {
			return clone(pick(g.r, opts)).(M)
		}
		return nd("EmptyStatement")
	case 11:
		if !g.c.inFunc {
			return g.exprStmt()
		}
		n := nd("ReturnStatement", "argument", nil)
		if g.r.Chance(0.7) {
			n["argument"] = g.seq()
		}
		return n
	case 12:
		return nd("ThrowStatement", "argument", g.seq())
	case 13:
		n := nd("TryStatement", "block", g.block(), "handler", nil, "finalizer", nil)
		k := g.r.Intn(3)
		if k != 0 {
			h := nd("CatchClause", "param", nil)
			if g.r.Chance(0.75) {
				h["param"] = g.binding(nil, 2)
			}
			h["body"] = g.block()
			n["handler"] = h
		}
		if k != 1 {
			n["finalizer"] = g.block()
		}
		return n
	default:
		l := g.fresh("L")
		if words := g.r.Chance(g.p.Words); words || g.r.Chance(0.5) {
			w := pick(g.r, plainNames)
			if words {
				w = pick(g.r, g.contextual())
			}
			used := false
			for _, o := range g.c.labels {
				used = used || o == w
			}
			if !used {
				l = w
			}
		}
		saved := g.c
		g.c.labels = append(append([]string{}, saved.labels...), l)
		var b M
		if g.r.Chance(0.6) {
			// A loop, so that continue can use the label.
			g.c.loopLabels = append(append([]string{}, saved.loopLabels...), l)
			switch g.r.Intn(5) {
			case 0:
				b = nd("WhileStatement", "test", g.seq(), "body", g.loopBody())
			case 1:
				b = nd("ForInStatement", "left", ident(g.simpleName()), "right", g.seq(), "body", g.loopBody())
			case 2:
				b = nd("ForOfStatement", "left", nd("MemberExpression", "object", ident(g.simpleName()), "property", ident(g.prop()), "computed", false), "right", g.expr(), "body", g.loopBody())
			case 3:
				b = nd("ForStatement", "init", nil, "test", g.seq(), "update", nil, "body", g.loopBody())
			default:
				b = nd("DoWhileStatement", "body", g.loopBody(), "test", g.seq())
			}
		} else {
			b = g.stmt()
		}
		g.c = saved
		return nd("LabeledStatement", "label", ident(l), "body", b)
	}
}

func (g *Gen) importDecl() M {
	n := nd("ImportDeclaration", "source", strLit(genString(g.r, false)))
	sp := []any{}
	imported := func() string { return g.prop() }
	local := func() string {
		// Locals are declared lexically: fresh, or a contextual word used once.
		return g.fresh("I")
	}
	if g.r.Chance(0.5) {
		sp = append(sp, nd("ImportDefaultSpecifier", "local", ident(local())))
	}
	switch g.r.Intn(4) {
	case 0:
		sp = append(sp, nd("ImportNamespaceSpecifier", "local", ident(local())))
	case 1, 2:
		for k := g.r.Intn(4); k > 0; k-- {
			l := local()
			im := l
			if g.r.Chance(0.6) {
				im = imported()
			}
			sp = append(sp, nd("ImportSpecifier", "imported", ident(im), "local", ident(l)))
		}
	}
	n["specifiers"] = sp
	return n
}

// program returns a program.
func (g *Gen) program(items int) M {
	l := []any{}
	if g.p.Module {
		for k := g.r.Intn(3); k > 0; k-- {
			l = append(l, g.importDecl())
		}
	} else if g.r.Chance(0.05) {
		g.c.strict = true
		l = append(l, directiveStmt("'use strict'"))
	}
	for len(l) < items && g.fuel > 0 {
		l = append(l, g.stmtItem())
	}
	st := "script"
	if g.p.Module {
		st = "module"
	}
	return nd("Program", "body", l, "sourceType", st)
}
