package main

import (
	"fmt"
	"strings"
)

// The printer turns ESTree into tokens. It implements the grammar's precedence
// rules from the specification and inserts the parentheses they require (plus
// random redundant ones), so a parser that reads the tokens must get the same
// tree back.

type tokKind uint8

const (
	tkWord tokKind = iota
	tkPunct
	tkNum
	tkString
	tkRegex
	tkSemi // statement terminator
)

type semiKind uint8

const (
	semiExplicit  semiKind = iota // the semicolon must be written
	semiNormal                    // may be inserted automatically
	semiAny                       // as semiNormal; nothing can continue the statement
	semiDoWhile                   // may be left out anywhere
	semiClassBody                 // stray semicolon of a class body
)

type Tok struct {
	Text string
	Kind tokKind
	NoNL bool // no line terminator allowed before this token
	Semi semiKind
	Mark int // tells a token apart
}

const (
	pSeq = iota
	pAssign
	pCond
	pOr
	pAnd
	pBitOr
	pXor
	pBitAnd
	pEq
	pRel
	pShift
	pAdd
	pMul
	pExp
	pUnary
	pPostfix
	pCall   // call, or new without arguments
	pMember // member, or new with arguments
	pPrimary
)

var binPrec = map[string]int{
	"??": pOr, "||": pOr, "&&": pAnd, "|": pBitOr, "^": pXor, "&": pBitAnd,
	"==": pEq, "!=": pEq, "===": pEq, "!==": pEq,
	"<": pRel, ">": pRel, "<=": pRel, ">=": pRel, "instanceof": pRel, "in": pRel,
	"<<": pShift, ">>": pShift, ">>>": pShift,
	"+": pAdd, "-": pAdd, "*": pMul, "/": pMul, "%": pMul, "**": pExp,
}

var binOps = []string{"??", "||", "&&", "|", "^", "&", "==", "!=", "===", "!==", "<", ">", "<=", ">=", "instanceof", "in", "<<", ">>", ">>>", "+", "-", "*", "/", "%", "**"}
var assignOps = []string{"=", "+=", "-=", "*=", "/=", "%=", "**=", "<<=", ">>=", ">>>=", "&=", "|=", "^=", "&&=", "||=", "??="}
var unaryOps = []string{"-", "+", "!", "~", "typeof", "void", "delete"}

type unprintable string

type printer struct {
	toks []Tok
	rng  *Rng
	// paren is the probability of redundant parentheses around expressions.
	paren float64
	// parens counts redundant parentheses that were written.
	parens int
}

// printTree returns the tokens of a tree, or an error if the tree contains a
// construct the printer does not know.
func printTree(tree M, rng *Rng, paren float64) (toks []Tok, redundant int, err error) {
	p := &printer{rng: rng, paren: paren}
	defer func() {
		if r := recover(); r != nil {
			u, ok := r.(unprintable)
			if !ok {
				panic(r)
			}
			err = fmt.Errorf("unprintable: %s", string(u))
		}
	}()
	switch typeOf(tree) {
	case "Program":
		p.stmts(list(tree, "body"), true)
	default:
		p.expr(tree, pSeq, false)
	}
	return p.toks, p.parens, nil
}

func (p *printer) w(s string) { p.toks = append(p.toks, Tok{Text: s, Kind: tkWord}) }
func (p *printer) t(s string) { p.toks = append(p.toks, Tok{Text: s, Kind: tkPunct}) }
func (p *printer) semi(k semiKind) {
	p.toks = append(p.toks, Tok{Text: ";", Kind: tkSemi, Semi: k})
}
func (p *printer) tNoNL(s string) { p.toks = append(p.toks, Tok{Text: s, Kind: tkPunct, NoNL: true}) }

// noNLAt forbids a line terminator before the token at index i.
func (p *printer) noNLAt(i int) {
	if i < len(p.toks) {
		p.toks[i].NoNL = true
	}
}

func spineHasCall(n M) bool {
	for {
		switch typeOf(n) {
		case "CallExpression":
			return true
		case "MemberExpression":
			n = sub(n, "object")
		default:
			return false
		}
	}
}

func prec(n M) int {
	switch typeOf(n) {
	case "SequenceExpression":
		return pSeq
	case "AssignmentExpression", "ArrowFunctionExpression":
		return pAssign
	case "ConditionalExpression":
		return pCond
	case "LogicalExpression", "BinaryExpression":
		return binPrec[str(n, "operator")]
	case "UnaryExpression":
		return pUnary
	case "UpdateExpression":
		if boolean(n, "prefix") {
			// An UpdateExpression in the grammar, whether prefix or postfix.
			return pPostfix
		}
		return pPostfix
	case "CallExpression":
		return pCall
	case "MemberExpression":
		if spineHasCall(n) {
			return pCall
		}
		return pMember
	case "NewExpression":
		return pMember
	}
	return pPrimary
}

func (p *printer) expr(v any, min int, noIn bool) {
	n, ok := v.(M)
	if !ok {
		panic(unprintable(fmt.Sprintf("not an expression: %v", v)))
	}
	if prec(n) < min || noIn && str(n, "operator") == "in" && typeOf(n) == "BinaryExpression" {
		p.t("(")
		p.expr(n, pSeq, false)
		p.t(")")
		return
	}
	if p.paren > 0 && p.rng.Float() < p.paren {
		p.parens++
		p.t("(")
		p.expr(n, pSeq, false)
		p.t(")")
		return
	}
	p.bare(n, min, noIn)
}

func (p *printer) args(l []any) {
	p.t("(")
	for i, a := range l {
		if i > 0 {
			p.t(",")
		}
		if typeOf(a) == "SpreadElement" {
			p.t("...")
			p.expr(sub(a.(M), "argument"), pAssign, false)
			continue
		}
		p.expr(a, pAssign, false)
	}
	if len(l) > 0 && p.rng.Float() < 0.1 {
		p.t(",")
	}
	p.t(")")
}

func (p *printer) literal(n M) {
	raw := str(n, "raw")
	switch {
	case n["regex"] != nil:
		p.toks = append(p.toks, Tok{Text: raw, Kind: tkRegex})
	case raw == "null" || raw == "true" || raw == "false":
		p.w(raw)
	case raw == "":
		panic(unprintable("literal without raw"))
	case raw[0] == '"' || raw[0] == '\'':
		p.toks = append(p.toks, Tok{Text: raw, Kind: tkString})
	default:
		p.toks = append(p.toks, Tok{Text: raw, Kind: tkNum})
	}
}

// bare prints an expression without parentheses around it.
func (p *printer) bare(n M, min int, noIn bool) {
	switch typeOf(n) {
	case "Identifier":
		p.w(str(n, "name"))
	case "ThisExpression":
		p.w("this")
	case "Literal":
		p.literal(n)
	case "ArrayExpression":
		p.t("[")
		for i, e := range list(n, "elements") {
			if i > 0 {
				p.t(",")
			}
			if e == nil {
				if i == len(list(n, "elements"))-1 {
					p.t(",")
				}
				continue
			}
			if typeOf(e) == "SpreadElement" {
				panic(unprintable("array spread"))
			}
			p.expr(e, pAssign, false)
			if i == len(list(n, "elements"))-1 && p.rng.Float() < 0.15 {
				p.t(",")
			}
		}
		p.t("]")
	case "ObjectExpression":
		p.t("{")
		for i, e := range list(n, "properties") {
			if i > 0 {
				p.t(",")
			}
			if typeOf(e) != "Property" {
				panic(unprintable("object spread"))
			}
			p.property(e.(M), false)
		}
		if len(list(n, "properties")) > 0 && p.rng.Float() < 0.15 {
			p.t(",")
		}
		p.t("}")
	case "FunctionExpression":
		p.function(n)
	case "ClassExpression":
		p.class(n)
	case "ArrowFunctionExpression":
		p.arrow(n, noIn)
	case "UnaryExpression":
		op := str(n, "operator")
		if len(op) > 1 {
			p.w(op)
		} else {
			p.t(op)
		}
		p.expr(n["argument"], pUnary, noIn)
	case "UpdateExpression":
		if boolean(n, "prefix") {
			p.t(str(n, "operator"))
			p.target(sub(n, "argument"))
		} else {
			p.target(sub(n, "argument"))
			p.tNoNL(str(n, "operator"))
		}
	case "BinaryExpression", "LogicalExpression":
		op := str(n, "operator")
		pr := binPrec[op]
		lmin, rmin := pr, pr+1
		if op == "**" {
			lmin, rmin = pPostfix, pExp
		}
		l, r := sub(n, "left"), sub(n, "right")
		isCoalesce := func(m M) bool { return str(m, "operator") == "??" && typeOf(m) == "LogicalExpression" }
		if op == "??" {
			lmin, rmin = pBitOr, pBitOr
			if isCoalesce(l) {
				lmin = pOr
			}
		} else if op == "||" && isCoalesce(l) {
			lmin = pAnd
		}
		p.expr(l, lmin, noIn)
		if op == "in" || op == "instanceof" {
			p.w(op)
		} else {
			p.t(op)
		}
		p.expr(r, rmin, noIn)
	case "ConditionalExpression":
		p.expr(n["test"], pOr, noIn)
		p.t("?")
		p.expr(n["consequent"], pAssign, false)
		p.t(":")
		p.expr(n["alternate"], pAssign, noIn)
	case "AssignmentExpression":
		l := sub(n, "left")
		if typeOf(l) == "ArrayPattern" || typeOf(l) == "ObjectPattern" {
			p.pattern(l, true)
		} else {
			p.target(l)
		}
		p.t(str(n, "operator"))
		p.expr(n["right"], pAssign, noIn)
	case "SequenceExpression":
		for i, e := range list(n, "expressions") {
			if i > 0 {
				p.t(",")
			}
			p.expr(e, pAssign, noIn)
		}
	case "CallExpression":
		if n["optional"] == true {
			panic(unprintable("optional call"))
		}
		p.expr(n["callee"], pCall, noIn)
		p.args(list(n, "arguments"))
	case "NewExpression":
		p.w("new")
		p.expr(n["callee"], pMember, noIn)
		if len(list(n, "arguments")) > 0 || min >= pCall || p.rng.Float() < 0.5 {
			p.args(list(n, "arguments"))
		}
	case "MemberExpression":
		if n["optional"] == true {
			panic(unprintable("optional member"))
		}
		p.expr(n["object"], pCall, noIn)
		if boolean(n, "computed") {
			p.t("[")
			p.expr(n["property"], pSeq, false)
			p.t("]")
		} else {
			p.t(".")
			if typeOf(n["property"]) != "Identifier" {
				panic(unprintable("private member"))
			}
			p.w(str(sub(n, "property"), "name"))
		}
	default:
		panic(unprintable(fmt.Sprintf("%v", n["type"])))
	}
}

// target prints a simple assignment target.
func (p *printer) target(n M) {
	switch typeOf(n) {
	case "Identifier", "MemberExpression":
		p.expr(n, pCall, false)
	default:
		panic(unprintable("target " + typeOf(n)))
	}
}

func (p *printer) key(n M) {
	if boolean(n, "computed") {
		p.t("[")
		p.expr(n["key"], pAssign, false)
		p.t("]")
		return
	}
	k := sub(n, "key")
	switch typeOf(k) {
	case "Identifier":
		p.w(str(k, "name"))
	case "Literal":
		p.literal(k)
	default:
		panic(unprintable("key " + typeOf(k)))
	}
}

func (p *printer) methodTail(f M) {
	p.params(list(f, "params"))
	p.block(sub(f, "body"), true)
}

// property prints a property of an object literal or pattern.
func (p *printer) property(n M, assign bool) {
	v := sub(n, "value")
	switch {
	case str(n, "kind") == "get" || str(n, "kind") == "set":
		p.w(str(n, "kind"))
		p.key(n)
		p.methodTail(v)
	case boolean(n, "method"):
		i := len(p.toks)
		if boolean(v, "async") {
			p.w("async")
			i = len(p.toks)
		}
		if boolean(v, "generator") {
			p.t("*")
		}
		p.key(n)
		if boolean(v, "async") {
			p.noNLAt(i)
		}
		p.methodTail(v)
	case boolean(n, "shorthand"):
		p.key(n)
		if typeOf(v) == "AssignmentPattern" {
			p.t("=")
			p.expr(v["right"], pAssign, false)
		}
	default:
		p.key(n)
		p.t(":")
		if typeOf(v) == "AssignmentPattern" || strings.HasSuffix(typeOf(v), "Pattern") {
			p.pattern(v, assign)
		} else {
			p.expr(v, pAssign, false)
		}
	}
}

// pattern prints a binding pattern, or, with assign, an assignment pattern,
// whose targets can be any reference.
func (p *printer) pattern(n M, assign bool) {
	switch typeOf(n) {
	case "Identifier":
		if assign {
			p.target(n)
		} else {
			p.w(str(n, "name"))
		}
	case "MemberExpression":
		p.target(n)
	case "AssignmentPattern":
		p.pattern(sub(n, "left"), assign)
		p.t("=")
		p.expr(n["right"], pAssign, false)
	case "RestElement":
		p.t("...")
		p.pattern(sub(n, "argument"), assign)
	case "ArrayPattern":
		p.t("[")
		el := list(n, "elements")
		for i, e := range el {
			if i > 0 {
				p.t(",")
			}
			if e == nil {
				if i == len(el)-1 {
					p.t(",")
				}
				continue
			}
			p.pattern(e.(M), assign)
			if i == len(el)-1 && typeOf(e) != "RestElement" && p.rng.Float() < 0.15 {
				p.t(",")
			}
		}
		p.t("]")
	case "ObjectPattern":
		p.t("{")
		pr := list(n, "properties")
		for i, e := range pr {
			if i > 0 {
				p.t(",")
			}
			e := e.(M)
			if typeOf(e) == "RestElement" {
				p.pattern(e, assign)
				continue
			}
			if boolean(e, "shorthand") {
				p.property(e, assign)
			} else {
				p.key(e)
				p.t(":")
				p.pattern(sub(e, "value"), assign)
			}
			if i == len(pr)-1 && p.rng.Float() < 0.15 {
				p.t(",")
			}
		}
		p.t("}")
	default:
		panic(unprintable("pattern " + typeOf(n)))
	}
}

func (p *printer) params(l []any) {
	p.t("(")
	for i, e := range l {
		if i > 0 {
			p.t(",")
		}
		p.pattern(e.(M), false)
		if i == len(l)-1 && typeOf(e) != "RestElement" && p.rng.Float() < 0.1 {
			p.t(",")
		}
	}
	p.t(")")
}

func (p *printer) function(n M) {
	if boolean(n, "async") {
		p.w("async")
		p.toks = append(p.toks, Tok{Text: "function", Kind: tkWord, NoNL: true})
	} else {
		p.w("function")
	}
	if boolean(n, "generator") {
		p.t("*")
	}
	if n["id"] != nil {
		p.w(str(sub(n, "id"), "name"))
	}
	p.params(list(n, "params"))
	p.block(sub(n, "body"), true)
}

func (p *printer) arrow(n M, noIn bool) {
	i := len(p.toks)
	if boolean(n, "async") {
		p.w("async")
		i = len(p.toks)
	}
	ps := list(n, "params")
	if len(ps) == 1 && typeOf(ps[0]) == "Identifier" && p.rng.Float() < 0.5 {
		p.w(str(ps[0].(M), "name"))
	} else {
		p.params(ps)
	}
	if boolean(n, "async") {
		p.noNLAt(i)
	}
	p.tNoNL("=>")
	if boolean(n, "expression") {
		i := len(p.toks)
		p.expr(n["body"], pAssign, noIn)
		if p.toks[i].Text == "{" && p.toks[i].Kind == tkPunct {
			p.wrapFrom(i)
		}
	} else {
		p.block(sub(n, "body"), true)
	}
}

// wrapFrom puts parentheses around the tokens from index i on.
func (p *printer) wrapFrom(i int) {
	rest := append([]Tok{{Text: "(", Kind: tkPunct, NoNL: p.toks[i].NoNL}}, p.toks[i:]...)
	rest[1].NoNL = false
	p.toks = append(append(p.toks[:i:i], rest...), Tok{Text: ")", Kind: tkPunct})
}

func (p *printer) class(n M) {
	p.w("class")
	if n["id"] != nil {
		p.w(str(sub(n, "id"), "name"))
	}
	if n["superClass"] != nil {
		p.w("extends")
		p.expr(n["superClass"], pCall, false)
	}
	p.t("{")
	for _, e := range list(sub(n, "body"), "body") {
		for p.rng.Float() < 0.1 {
			p.t(";")
		}
		m := e.(M)
		if typeOf(m) != "MethodDefinition" {
			panic(unprintable(typeOf(m)))
		}
		v := sub(m, "value")
		if boolean(v, "async") || boolean(v, "generator") {
			panic(unprintable("async or generator method"))
		}
		if boolean(m, "static") {
			p.w("static")
		}
		if k := str(m, "kind"); k == "get" || k == "set" {
			p.w(k)
		}
		p.key(m)
		p.methodTail(v)
	}
	for p.rng.Float() < 0.1 {
		p.t(";")
	}
	p.t("}")
}

// block prints a block or function body.
func (p *printer) block(n M, function bool) {
	if typeOf(n) != "BlockStatement" {
		panic(unprintable("block " + typeOf(n)))
	}
	p.t("{")
	p.stmts(list(n, "body"), function)
	p.t("}")
}

func (p *printer) stmts(l []any, directives bool) {
	for _, s := range l {
		m := s.(M)
		if directives && typeOf(m) == "ExpressionStatement" && m["directive"] != nil {
			p.literal(sub(m, "expression"))
			p.semi(semiNormal)
			continue
		}
		if directives && typeOf(m) == "ExpressionStatement" {
			if e := sub(m, "expression"); typeOf(e) == "Literal" {
				if raw := str(e, "raw"); raw != "" && (raw[0] == '"' || raw[0] == '\'') {
					// Not a directive.
					p.t("(")
					p.literal(e)
					p.t(")")
					p.semi(semiNormal)
					continue
				}
			}
		}
		directives = false
		p.stmt(m)
	}
}

func (p *printer) stmt(n M) {
	switch typeOf(n) {
	case "ExpressionStatement":
		i := len(p.toks)
		p.expr(n["expression"], pSeq, false)
		if p.badStart(i) {
			p.wrapFrom(i)
		}
		p.semi(semiNormal)
	case "BlockStatement":
		p.block(n, false)
	case "EmptyStatement":
		p.semi(semiExplicit)
	case "VariableDeclaration":
		p.variables(n, false)
		p.semi(semiNormal)
	case "IfStatement":
		p.w("if")
		p.t("(")
		p.expr(n["test"], pSeq, false)
		p.t(")")
		p.stmt(sub(n, "consequent"))
		if n["alternate"] != nil {
			p.w("else")
			p.stmt(sub(n, "alternate"))
		}
	case "DoWhileStatement":
		p.w("do")
		p.stmt(sub(n, "body"))
		p.w("while")
		p.t("(")
		p.expr(n["test"], pSeq, false)
		p.t(")")
		p.semi(semiDoWhile)
	case "WhileStatement":
		p.w("while")
		p.t("(")
		p.expr(n["test"], pSeq, false)
		p.t(")")
		p.stmt(sub(n, "body"))
	case "ForStatement":
		p.w("for")
		p.t("(")
		if in := n["init"]; in != nil {
			if typeOf(in) == "VariableDeclaration" {
				p.variables(in.(M), true)
			} else {
				i := len(p.toks)
				p.expr(in, pSeq, true)
				if p.toks[i].Text == "let" || p.toks[i].Text == "async" {
					p.wrapFrom(i)
				}
			}
		}
		p.t(";")
		if n["test"] != nil {
			p.expr(n["test"], pSeq, false)
		}
		p.t(";")
		if n["update"] != nil {
			p.expr(n["update"], pSeq, false)
		}
		p.t(")")
		p.stmt(sub(n, "body"))
	case "ForInStatement", "ForOfStatement":
		if boolean(n, "await") {
			panic(unprintable("for await"))
		}
		p.w("for")
		p.t("(")
		l := sub(n, "left")
		switch typeOf(l) {
		case "VariableDeclaration":
			p.variables(l, true)
		case "ArrayPattern", "ObjectPattern":
			p.pattern(l, true)
		default:
			i := len(p.toks)
			p.target(l)
			if p.toks[i].Text == "let" || p.toks[i].Text == "async" {
				if len(p.toks) > i+1 && typeOf(l) == "Identifier" {
					panic(unprintable("let/async target"))
				}
				if typeOf(l) != "Identifier" {
					panic(unprintable("let/async target"))
				}
				p.wrapFrom(i)
			}
		}
		if typeOf(n) == "ForInStatement" {
			p.w("in")
			p.expr(n["right"], pSeq, false)
		} else {
			p.w("of")
			p.expr(n["right"], pAssign, false)
		}
		p.t(")")
		p.stmt(sub(n, "body"))
	case "SwitchStatement":
		p.w("switch")
		p.t("(")
		p.expr(n["discriminant"], pSeq, false)
		p.t(")")
		p.t("{")
		for _, c := range list(n, "cases") {
			c := c.(M)
			if c["test"] != nil {
				p.w("case")
				p.expr(c["test"], pSeq, false)
			} else {
				p.w("default")
			}
			p.t(":")
			for _, s := range list(c, "consequent") {
				p.stmt(s.(M))
			}
		}
		p.t("}")
	case "BreakStatement", "ContinueStatement":
		p.w(map[string]string{"BreakStatement": "break", "ContinueStatement": "continue"}[typeOf(n)])
		if n["label"] != nil {
			p.toks = append(p.toks, Tok{Text: str(sub(n, "label"), "name"), Kind: tkWord, NoNL: true})
		}
		p.semi(semiAny)
	case "ReturnStatement":
		p.w("return")
		if n["argument"] != nil {
			i := len(p.toks)
			p.expr(n["argument"], pSeq, false)
			p.noNLAt(i)
			p.semi(semiNormal)
		} else {
			p.semi(semiAny)
		}
	case "ThrowStatement":
		p.w("throw")
		i := len(p.toks)
		p.expr(n["argument"], pSeq, false)
		p.noNLAt(i)
		p.semi(semiNormal)
	case "TryStatement":
		p.w("try")
		p.block(sub(n, "block"), false)
		if n["handler"] != nil {
			h := sub(n, "handler")
			p.w("catch")
			if h["param"] != nil {
				p.t("(")
				p.pattern(sub(h, "param"), false)
				p.t(")")
			}
			p.block(sub(h, "body"), false)
		}
		if n["finalizer"] != nil {
			p.w("finally")
			p.block(sub(n, "finalizer"), false)
		}
	case "LabeledStatement":
		p.w(str(sub(n, "label"), "name"))
		p.t(":")
		if typeOf(n["body"]) == "FunctionDeclaration" {
			panic(unprintable("labelled function"))
		}
		p.stmt(sub(n, "body"))
	case "FunctionDeclaration":
		if boolean(n, "async") || boolean(n, "generator") {
			panic(unprintable("async or generator declaration"))
		}
		p.function(n)
	case "ClassDeclaration":
		p.class(n)
	case "ImportDeclaration":
		p.importDecl(n)
	default:
		panic(unprintable(fmt.Sprintf("%v", n["type"])))
	}
}

// badStart tells whether the tokens from index i on can not start an expression
// statement.
func (p *printer) badStart(i int) bool {
	if i >= len(p.toks) {
		panic(unprintable("empty expression"))
	}
	t := p.toks[i]
	switch t.Text {
	case "{", "function", "class":
		return t.Kind != tkString
	case "let":
		return true
	case "async":
		return len(p.toks) > i+1 && p.toks[i+1].Text == "function" && p.toks[i+1].NoNL
	}
	return false
}

func (p *printer) variables(n M, noIn bool) {
	p.w(str(n, "kind"))
	if noIn && str(n, "kind") != "var" {
		panic(unprintable("lexical declaration in for"))
	}
	for i, d := range list(n, "declarations") {
		if i > 0 {
			p.t(",")
		}
		d := d.(M)
		p.pattern(sub(d, "id"), false)
		if d["init"] != nil {
			p.t("=")
			p.expr(d["init"], pAssign, noIn)
		}
	}
}

func (p *printer) importDecl(n M) {
	p.w("import")
	sp := list(n, "specifiers")
	named := false
	written := 0
	for i, s := range sp {
		s := s.(M)
		local := str(sub(s, "local"), "name")
		if i > 0 && !named {
			p.t(",")
		}
		switch typeOf(s) {
		case "ImportDefaultSpecifier":
			p.w(local)
		case "ImportNamespaceSpecifier":
			p.t("*")
			p.w("as")
			p.w(local)
		case "ImportSpecifier":
			if !named {
				named = true
				p.t("{")
			} else {
				p.t(",")
			}
			imported := sub(s, "imported")
			if typeOf(imported) != "Identifier" {
				panic(unprintable("string import name"))
			}
			name := str(imported, "name")
			p.w(name)
			if name != local || reservedAlways[name] || p.rng.Float() < 0.1 {
				p.w("as")
				p.w(local)
			}
		}
		written++
	}
	if named {
		if p.rng.Float() < 0.2 {
			p.t(",")
		}
		p.t("}")
	} else if n["emptyBraces"] == true {
		if written > 0 {
			p.t(",")
		}
		p.t("{")
		p.t("}")
		written++
	}
	if written > 0 {
		p.w("from")
	}
	p.literal(sub(n, "source"))
	p.semi(semiNormal)
}

var reservedAlways = map[string]bool{}
var reservedAlwaysList = strings.Fields("break case catch class const continue debugger default delete do else enum export extends false finally for function if import in instanceof new null return super switch this throw true try typeof var void while with")
var reservedStrictList = strings.Fields("implements interface let package private protected public static")
var neverReservedList = strings.Fields("as async from get meta of set target")

func init() {
	for _, w := range reservedAlwaysList {
		reservedAlways[w] = true
	}
}
