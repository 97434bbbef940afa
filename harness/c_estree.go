package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"reflect"
	"strings"
)

func init() { checks["C03"] = c03 }

// The ESTree schema: what every node type must carry.

type childKind uint32

const (
	kExpr childKind = 1 << iota
	kPattern
	kStmt
	kDecl
	kImport
	kNull
	kIdent
	kLit
	kSpread
	kRest
	kProp
	kBlock
	kFuncExpr
	kClassBody
	kMethod
	kVarDecl
	kDeclarator
	kCase
	kCatch
	kSpec
)

var exprTypes = strings.Fields("Identifier Literal ThisExpression ArrayExpression ObjectExpression FunctionExpression ArrowFunctionExpression ClassExpression UnaryExpression UpdateExpression BinaryExpression LogicalExpression AssignmentExpression ConditionalExpression CallExpression NewExpression MemberExpression SequenceExpression YieldExpression AwaitExpression TemplateLiteral TaggedTemplateExpression ChainExpression MetaProperty ImportExpression")
var stmtTypes = strings.Fields("BlockStatement EmptyStatement ExpressionStatement IfStatement ForStatement ForInStatement ForOfStatement WhileStatement DoWhileStatement ContinueStatement BreakStatement ReturnStatement SwitchStatement ThrowStatement TryStatement LabeledStatement DebuggerStatement WithStatement")

var kindOf = map[string]childKind{}

func init() {
	for _, t := range exprTypes {
		kindOf[t] |= kExpr
	}
	for _, t := range stmtTypes {
		kindOf[t] |= kStmt
	}
	for t, k := range map[string]childKind{
		"Identifier": kPattern | kIdent, "MemberExpression": kPattern, "ArrayPattern": kPattern, "ObjectPattern": kPattern,
		"AssignmentPattern": kPattern, "RestElement": kRest, "Literal": kLit, "SpreadElement": kSpread, "Property": kProp,
		"BlockStatement": kBlock, "FunctionExpression": kFuncExpr, "ClassBody": kClassBody, "MethodDefinition": kMethod,
		"VariableDeclaration": kVarDecl | kDecl, "FunctionDeclaration": kDecl, "ClassDeclaration": kDecl,
		"VariableDeclarator": kDeclarator, "SwitchCase": kCase, "CatchClause": kCatch,
		"ImportDeclaration": kImport, "ImportSpecifier": kSpec, "ImportDefaultSpecifier": kSpec, "ImportNamespaceSpecifier": kSpec,
	} {
		kindOf[t] |= k
	}
}

type estreeChecker struct {
	bad   string
	types map[string]int
	depth int
}

func (e *estreeChecker) fail(path, f string, a ...any) {
	if e.bad == "" {
		e.bad = path + ": " + fmt.Sprintf(f, a...)
	}
}

// child checks a mandatory field holding one node.
func (e *estreeChecker) child(n M, path, field string, k childKind) {
	v, ok := n[field]
	if !ok {
		e.fail(path, "%v without field %s", n["type"], field)
		return
	}
	e.value(v, path+"."+field, k)
}

func (e *estreeChecker) value(v any, path string, k childKind) {
	if v == nil {
		if k&kNull == 0 {
			e.fail(path, "null where a node is mandatory")
		}
		return
	}
	m, ok := v.(M)
	if !ok {
		e.fail(path, "%s where a node is required", short(v))
		return
	}
	t, ok := m["type"].(string)
	if !ok {
		e.fail(path, "object without a type: %s", short(v))
		return
	}
	kk, ok := kindOf[t]
	if !ok {
		e.fail(path, "%q is no ESTree node type", t)
		return
	}
	if kk&k == 0 {
		e.fail(path, "%s is not permitted here", t)
		return
	}
	e.types[t]++
	if e.bad == "" {
		e.node(m, t, path)
	}
}

func (e *estreeChecker) list(n M, path, field string, k childKind) []any {
	v, ok := n[field]
	if !ok {
		e.fail(path, "%v without field %s", n["type"], field)
		return nil
	}
	l, ok := v.([]any)
	if !ok {
		e.fail(path, "%s is %s, not an array", field, short(v))
		return nil
	}
	for i, c := range l {
		e.value(c, fmt.Sprintf("%s.%s[%d]", path, field, i), k)
	}
	return l
}

func (e *estreeChecker) boolean(n M, path, field string) bool {
	b, ok := n[field].(bool)
	if !ok {
		e.fail(path, "%v: field %s is %s, not a boolean", n["type"], field, short(n[field]))
	}
	return b
}

func (e *estreeChecker) enum(n M, path, field string, set string) string {
	s, ok := n[field].(string)
	if !ok {
		e.fail(path, "%v: field %s is %s, not a string", n["type"], field, short(n[field]))
		return ""
	}
	for _, x := range strings.Fields(set) {
		if x == s {
			return s
		}
	}
	e.fail(path, "%v: field %s has the value %q", n["type"], field, s)
	return s
}

func (e *estreeChecker) restLast(l []any, path string) {
	for i, c := range l {
		if typeOf(c) == "RestElement" && i != len(l)-1 {
			e.fail(path, "rest element is not last")
		}
	}
}

func (e *estreeChecker) key(n M, path string) {
	if e.boolean(n, path, "computed") {
		e.child(n, path, "key", kExpr)
	} else {
		e.child(n, path, "key", kIdent|kLit)
	}
}

func (e *estreeChecker) function(n M, path string, id childKind) {
	e.child(n, path, "id", id)
	e.restLast(e.list(n, path, "params", kPattern|kRest), path)
	for _, p := range list(n, "params") {
		if typeOf(p) == "MemberExpression" {
			e.fail(path, "parameter is a MemberExpression")
		}
	}
	e.child(n, path, "body", kBlock)
	e.boolean(n, path, "generator")
	e.boolean(n, path, "async")
}

func (e *estreeChecker) method(v any, path, kind string) {
	f, ok := v.(M)
	if !ok || typeOf(f) != "FunctionExpression" {
		e.fail(path, "the value of a %s is %s, not a FunctionExpression", kind, short(v))
		return
	}
	if f["id"] != nil {
		e.fail(path, "the function of a %s has a name", kind)
	}
}

func (e *estreeChecker) node(n M, t, path string) {
	switch t {
	case "Identifier":
		if s, ok := n["name"].(string); !ok || s == "" {
			e.fail(path, "Identifier with name %s", short(n["name"]))
		}
	case "Literal":
		e.literal(n, path)
	case "ThisExpression", "EmptyStatement", "DebuggerStatement":
	case "ArrayExpression":
		e.list(n, path, "elements", kExpr|kSpread|kNull)
	case "ObjectExpression":
		e.list(n, path, "properties", kProp|kSpread)
		for i, c := range list(n, "properties") {
			p, ok := c.(M)
			if !ok || typeOf(p) != "Property" {
				continue
			}
			pp := fmt.Sprintf("%s.properties[%d]", path, i)
			if k := kindOf[typeOf(p["value"])]; k&kExpr == 0 {
				e.fail(pp, "the value of a property is %s", short(p["value"]))
			}
			kind := e.enum(p, pp, "kind", "init get set")
			if kind == "get" || kind == "set" {
				e.method(p["value"], pp, kind+"ter")
				if boolean(p, "method") || boolean(p, "shorthand") {
					e.fail(pp, "accessor marked as method or shorthand")
				}
			}
			if boolean(p, "method") {
				e.method(p["value"], pp, "method")
			}
		}
	case "Property":
		e.key(n, path)
		e.child(n, path, "value", kExpr|kPattern)
		e.enum(n, path, "kind", "init get set")
		e.boolean(n, path, "method")
		if e.boolean(n, path, "shorthand") {
			v := sub(n, "value")
			if typeOf(v) == "AssignmentPattern" {
				v = sub(v, "left")
			}
			k := sub(n, "key")
			if typeOf(k) != "Identifier" || typeOf(v) != "Identifier" || str(k, "name") != str(v, "name") || boolean(n, "computed") {
				e.fail(path, "shorthand property whose key and value differ")
			}
		}
	case "SpreadElement":
		e.child(n, path, "argument", kExpr)
	case "FunctionExpression":
		e.function(n, path, kIdent|kNull)
	case "FunctionDeclaration":
		e.function(n, path, kIdent)
	case "ArrowFunctionExpression":
		e.restLast(e.list(n, path, "params", kPattern|kRest), path)
		e.boolean(n, path, "async")
		if b, ok := n["generator"]; ok && b != false {
			e.fail(path, "arrow function with generator %s", short(b))
		}
		if e.boolean(n, path, "expression") {
			e.child(n, path, "body", kExpr)
		} else {
			e.child(n, path, "body", kBlock)
		}
	case "ClassExpression", "ClassDeclaration":
		id := kIdent
		if t == "ClassExpression" {
			id |= kNull
		}
		e.child(n, path, "id", id)
		e.child(n, path, "superClass", kExpr|kNull)
		e.child(n, path, "body", kClassBody)
	case "ClassBody":
		e.list(n, path, "body", kMethod)
	case "MethodDefinition":
		e.key(n, path)
		e.child(n, path, "value", kFuncExpr)
		e.method(n["value"], path, "method")
		k := e.enum(n, path, "kind", "constructor method get set")
		if e.boolean(n, path, "static") && k == "constructor" {
			e.fail(path, "static constructor")
		}
	case "UnaryExpression":
		e.enum(n, path, "operator", "- + ! ~ typeof void delete")
		if !e.boolean(n, path, "prefix") {
			e.fail(path, "unary operator that is not a prefix")
		}
		e.child(n, path, "argument", kExpr)
	case "UpdateExpression":
		e.enum(n, path, "operator", "++ --")
		e.boolean(n, path, "prefix")
		e.child(n, path, "argument", kExpr)
	case "BinaryExpression":
		e.enum(n, path, "operator", "== != === !== < <= > >= << >> >>> + - * / % ** | ^ & in instanceof")
		e.child(n, path, "left", kExpr)
		e.child(n, path, "right", kExpr)
	case "LogicalExpression":
		e.enum(n, path, "operator", "|| && ??")
		e.child(n, path, "left", kExpr)
		e.child(n, path, "right", kExpr)
	case "AssignmentExpression":
		op := e.enum(n, path, "operator", "= += -= *= /= %= **= <<= >>= >>>= |= ^= &= ||= &&= ??=")
		if op == "=" {
			e.child(n, path, "left", kPattern)
			if typeOf(n["left"]) == "AssignmentPattern" {
				e.fail(path, "the target of an assignment is an AssignmentPattern")
			}
		} else {
			e.child(n, path, "left", kExpr)
		}
		e.child(n, path, "right", kExpr)
	case "ConditionalExpression":
		e.child(n, path, "test", kExpr)
		e.child(n, path, "consequent", kExpr)
		e.child(n, path, "alternate", kExpr)
	case "CallExpression", "NewExpression":
		e.child(n, path, "callee", kExpr)
		e.list(n, path, "arguments", kExpr|kSpread)
	case "MemberExpression":
		e.child(n, path, "object", kExpr)
		e.child(n, path, "property", kExpr)
		if !e.boolean(n, path, "computed") && typeOf(n["property"]) != "Identifier" {
			e.fail(path, "member name is %s", short(n["property"]))
		}
	case "SequenceExpression":
		if l := e.list(n, path, "expressions", kExpr); len(l) < 2 {
			e.fail(path, "sequence of %d expressions", len(l))
		}
	case "ArrayPattern":
		e.restLast(e.list(n, path, "elements", kPattern|kRest|kNull), path)
	case "ObjectPattern":
		e.restLast(e.list(n, path, "properties", kProp|kRest), path)
		for i, c := range list(n, "properties") {
			if p, ok := c.(M); ok && typeOf(p) == "Property" {
				pp := fmt.Sprintf("%s.properties[%d]", path, i)
				if kindOf[typeOf(p["value"])]&kPattern == 0 {
					e.fail(pp, "the value of a pattern property is %s", short(p["value"]))
				}
				if str(p, "kind") != "init" || boolean(p, "method") {
					e.fail(pp, "method in a pattern")
				}
			}
		}
	case "AssignmentPattern":
		e.child(n, path, "left", kPattern)
		if typeOf(n["left"]) == "AssignmentPattern" {
			e.fail(path, "default of a default")
		}
		e.child(n, path, "right", kExpr)
	case "RestElement":
		e.child(n, path, "argument", kPattern)
	case "BlockStatement":
		e.list(n, path, "body", kStmt|kDecl)
	case "ExpressionStatement":
		e.child(n, path, "expression", kExpr)
		if d, ok := n["directive"]; ok {
			s, ok := d.(string)
			if !ok {
				e.fail(path, "directive is %s", short(d))
			} else if s != "" && typeOf(n["expression"]) != "Literal" {
				e.fail(path, "directive %q that is no literal", s)
			}
		}
	case "IfStatement":
		e.child(n, path, "test", kExpr)
		e.child(n, path, "consequent", kStmt|kDecl)
		e.child(n, path, "alternate", kStmt|kDecl|kNull)
		e.substatement(n, path, "consequent", "alternate")
	case "ForStatement":
		e.child(n, path, "init", kExpr|kVarDecl|kNull)
		e.child(n, path, "test", kExpr|kNull)
		e.child(n, path, "update", kExpr|kNull)
		e.child(n, path, "body", kStmt|kDecl)
		e.substatement(n, path, "body")
	case "ForInStatement", "ForOfStatement":
		e.child(n, path, "left", kPattern|kVarDecl)
		if l := sub(n, "left"); typeOf(l) == "VariableDeclaration" && len(list(l, "declarations")) != 1 {
			e.fail(path, "%d declarations in a for-in or for-of header", len(list(l, "declarations")))
		}
		e.child(n, path, "right", kExpr)
		e.child(n, path, "body", kStmt|kDecl)
		e.substatement(n, path, "body")
	case "WhileStatement", "DoWhileStatement":
		e.child(n, path, "test", kExpr)
		e.child(n, path, "body", kStmt|kDecl)
		e.substatement(n, path, "body")
	case "ContinueStatement", "BreakStatement":
		e.child(n, path, "label", kIdent|kNull)
	case "ReturnStatement":
		e.child(n, path, "argument", kExpr|kNull)
	case "ThrowStatement":
		e.child(n, path, "argument", kExpr)
	case "SwitchStatement":
		e.child(n, path, "discriminant", kExpr)
		d := 0
		for _, c := range e.list(n, path, "cases", kCase) {
			if m, ok := c.(M); ok && m["test"] == nil {
				d++
			}
		}
		if d > 1 {
			e.fail(path, "%d default clauses", d)
		}
	case "SwitchCase":
		e.child(n, path, "test", kExpr|kNull)
		e.list(n, path, "consequent", kStmt|kDecl)
	case "TryStatement":
		e.child(n, path, "block", kBlock)
		e.child(n, path, "handler", kCatch|kNull)
		e.child(n, path, "finalizer", kBlock|kNull)
		if n["handler"] == nil && n["finalizer"] == nil {
			e.fail(path, "try without catch and finally")
		}
	case "CatchClause":
		e.child(n, path, "param", kPattern|kNull)
		e.child(n, path, "body", kBlock)
	case "LabeledStatement":
		e.child(n, path, "label", kIdent)
		e.child(n, path, "body", kStmt|kDecl)
		e.substatement(n, path, "body")
	case "WithStatement":
		e.child(n, path, "object", kExpr)
		e.child(n, path, "body", kStmt)
	case "VariableDeclaration":
		e.enum(n, path, "kind", "var let const")
		if l := e.list(n, path, "declarations", kDeclarator); len(l) == 0 {
			e.fail(path, "no declarations")
		}
	case "VariableDeclarator":
		e.child(n, path, "id", kPattern)
		if typeOf(n["id"]) == "MemberExpression" || typeOf(n["id"]) == "AssignmentPattern" {
			e.fail(path, "declares %s", typeOf(n["id"]))
		}
		e.child(n, path, "init", kExpr|kNull)
	case "ImportDeclaration":
		l := e.list(n, path, "specifiers", kSpec)
		ns, def, named := 0, 0, 0
		for i, s := range l {
			switch typeOf(s) {
			case "ImportNamespaceSpecifier":
				ns++
			case "ImportDefaultSpecifier":
				def++
				if i > 0 {
					e.fail(path, "default import that is not first")
				}
			default:
				named++
			}
		}
		if ns > 1 || def > 1 || ns > 0 && named > 0 {
			e.fail(path, "%d namespace, %d default, %d named imports", ns, def, named)
		}
		e.child(n, path, "source", kLit)
		if s, ok := n["source"].(M); ok {
			if _, ok := s["value"].(string); !ok {
				e.fail(path, "the source is %s", short(s))
			}
		}
	case "ImportSpecifier":
		e.child(n, path, "imported", kIdent|kLit)
		e.child(n, path, "local", kIdent)
	case "ImportDefaultSpecifier", "ImportNamespaceSpecifier":
		e.child(n, path, "local", kIdent)
	case "YieldExpression":
		e.child(n, path, "argument", kExpr|kNull)
		e.boolean(n, path, "delegate")
	case "AwaitExpression":
		e.child(n, path, "argument", kExpr)
	default:
		// Standard types of constructs the parser does not implement.
	}
}

// substatement: only functions may be declared outside of statement lists
// (Annex B).
func (e *estreeChecker) substatement(n M, path string, fields ...string) {
	for _, f := range fields {
		t := typeOf(n[f])
		if t == "VariableDeclaration" && str(sub(n, f), "kind") == "var" {
			continue
		}
		if kindOf[t]&kDecl != 0 && t != "FunctionDeclaration" {
			e.fail(path+"."+f, "%s in the place of a statement", t)
		}
	}
}

func (e *estreeChecker) literal(n M, path string) {
	v, ok := n["value"]
	if !ok {
		e.fail(path, "Literal without a value")
		return
	}
	if re, ok := n["regex"]; ok && re != nil {
		m, ok := re.(M)
		if !ok {
			e.fail(path, "regex is %s", short(re))
			return
		}
		p, ok1 := m["pattern"].(string)
		_, ok2 := m["flags"].(string)
		if !ok1 || !ok2 || p == "" {
			e.fail(path, "regex is %s", short(re))
		}
		return
	}
	raw, ok := n["raw"].(string)
	if !ok || raw == "" {
		e.fail(path, "Literal with raw %s", short(n["raw"]))
		return
	}
	good := false
	switch c := raw[0]; {
	case c == '"' || c == '\'':
		_, good = v.(string)
	case c >= '0' && c <= '9' || c == '.':
		_, good = v.(float64)
		if v == nil {
			good = true // infinite: see C06
		}
	case raw == "true" || raw == "false":
		good = v == (raw == "true")
	case raw == "null":
		good = v == nil
	}
	if !good {
		e.fail(path, "Literal with raw %s and value %s", short(raw), short(v))
	}
}

// checkESTree validates what a successful parse gives.
func checkESTree(o *Outcome, mode string, types map[string]int) string {
	if o.TreeErr != "" {
		return "the tree does not convert: " + o.TreeErr
	}
	if v := reflect.ValueOf(o.Node); v.Kind() == reflect.Ptr && v.IsNil() {
		return "nil tree without an error"
	}
	if o.Node.ContainsTemporalNodes() {
		return "the tree contains temporal nodes"
	}
	d := json.NewDecoder(bytes.NewReader(o.JSON))
	var raw any
	if err := d.Decode(&raw); err != nil {
		return "the JSON does not decode: " + err.Error()
	}
	// A second conversion gives the same.
	if b, err := json.Marshal(o.Node.ESTree()); err != nil || !bytes.Equal(b, o.JSON) {
		return "a second conversion gives something else"
	}
	e := &estreeChecker{types: types}
	if mode == "expression" {
		e.value(raw, "expression", kExpr)
		return e.bad
	}
	m, ok := raw.(M)
	if !ok || m["type"] != "Program" {
		return "the root is " + short(raw)
	}
	types["Program"]++
	if m["sourceType"] != mode {
		return fmt.Sprintf("the sourceType is %s", short(m["sourceType"]))
	}
	k := kStmt | kDecl
	if mode == "module" {
		k |= kImport
	}
	e.list(m, "Program", "body", k)
	return e.bad
}

// estree checks one text: if it is accepted, the tree must be well formed.
func (w *Worker) estree(src, mode string) bool {
	w.eval()
	o := w.parse(src, mode)
	if o.Panic != nil {
		w.violate("panic: "+fmt.Sprint(o.Panic), mode, src, clip(o.Stack, 2000))
		return false
	}
	if o.Err == nil && o.Node == nil {
		w.violate("neither tree nor error", mode, src, nil)
		return false
	}
	if !o.Accepted() {
		w.count("rejected_texts", 1)
		return false
	}
	types := map[string]int{}
	if d := checkESTree(o, mode, types); d != "" {
		min := src
		if len(src) < 5000 {
			min = shrinkText(src, func(s string) bool {
				o := w.parse(s, mode)
				return o.Accepted() && checkESTree(o, mode, map[string]int{}) != ""
			})
			o := w.parse(min, mode)
			if x := checkESTree(o, mode, map[string]int{}); o.Accepted() && x != "" {
				d = x
			} else {
				min = src
			}
		}
		w.violate("ill-formed ESTree: "+d, mode, min, clip(string(o.JSON), 2000))
		return false
	}
	w.mu.Lock()
	for k, n := range types {
		w.types[k] += n
	}
	w.mu.Unlock()
	n := 0
	for _, k := range types {
		n += k
	}
	w.count("nodes_validated", n)
	w.count("accepted_"+mode, 1)
	if n >= 3 {
		w.note(mode + src)
	}
	return true
}

// corrupt makes random token edits.
func corrupt(toks []string, r *Rng) []string {
	m := append([]string{}, toks...)
	for n := 1 + r.Intn(3); n > 0 && len(m) > 0; n-- {
		j := r.Intn(len(m))
		switch r.Intn(7) {
		case 0:
			m = append(m[:j:j], m[j+1:]...)
		case 1:
			m = append(m[:j+1:j+1], m[j:]...)
		case 2:
			h := r.Intn(len(m))
			m[j], m[h] = m[h], m[j]
		case 3:
			m[j] = pick(r, vocabulary)
		case 4:
			m = append(m[:j:j], append([]string{pick(r, vocabulary)}, m[j:]...)...)
		case 5:
			m[j] = pick(r, m)
		case 6:
			h := j + r.Intn(len(m)-j)
			m = append(m[:h:h], append(append([]string{}, m[j:h]...), m[h:]...)...)
		}
	}
	return m
}

func c03(c *Check) {
	c.rule = "every tree the parser returns - for generated programs in all layouts, for single-token corruptions of seeds covering every production, for words in every name position, for token soup and for real programs, each in all three modes - is converted, encoded and validated against an ESTree schema (node types, required fields, kinds of children, operators, literal values); conversion is repeated and compared. Non-trivial: an accepted text with at least 3 nodes; distinct: by mode and source text."
	c.assume = append(c.assume, "the schema is written from the ESTree specification; extra fields are not judged")
	all := func(w *Worker, src string) {
		for _, m := range modeNames {
			w.estree(src, m)
		}
	}
	// Every production, whole and corrupted.
	type seed struct {
		mode string
		toks []string
	}
	var seeds []seed
	for _, s := range scriptSeeds {
		seeds = append(seeds, seed{"script", tokenize(s)})
	}
	for _, s := range moduleSeeds {
		seeds = append(seeds, seed{"module", tokenize(s)})
	}
	for _, s := range exprSeeds {
		seeds = append(seeds, seed{"expression", tokenize(s)})
	}
	join := func(l ...[]string) string {
		var o []string
		for _, x := range l {
			o = append(o, x...)
		}
		return strings.Join(o, " ")
	}
	c.run("seeds", len(seeds), func(w *Worker, i int, r *Rng) {
		s := seeds[i]
		all(w, join(s.toks))
		for p := range s.toks {
			pre, post := s.toks[:p], s.toks[p:]
			for _, v := range vocabulary {
				w.estree(join(pre, []string{v}, post), s.mode)
				w.estree(join(pre, []string{v}, post[1:]), s.mode)
			}
			all(w, join(pre))
			all(w, join(pre, post[1:]))
			all(w, join(pre, post[:1], post))
			for q := p + 1; q < len(s.toks) && q < p+6; q++ {
				w.estree(join(pre, s.toks[q:]), s.mode)
				w.estree(join(s.toks[:q], post), s.mode)
			}
		}
	})
	// Names.
	words := append(append(append([]string{"yield", "await", "eval", "arguments", "a", "1", "'s'", "/r/", "[]", "{}", "(a)", "() => a"}, reservedAlwaysList...), reservedStrictList...), neverReservedList...)
	c.run("words", len(words), func(w *Worker, i int, r *Rng) {
		for _, p := range namePositions {
			all(w, strings.ReplaceAll(p, "W", words[i]))
		}
	})
	// Programs and corrupted programs.
	c.run("programs", c.n(6000), func(w *Worker, i int, r *Rng) {
		p := defaultProfile(5 + r.Intn(80))
		p.Stmt = r.Float()
		p.Module = r.Chance(0.3)
		t := genProgram(r, p, 1+r.Intn(4))
		if r.Chance(0.2) {
			g := newGen(r, p)
			t = g.expr()
		}
		toks, _, err := printTree(t, r, 0.1*r.Float())
		if err != nil {
			return
		}
		mode := modeOf(t)
		src := layout(toks, randomStyle(r), r).Src
		all(w, src)
		if i%997 == 0 {
			w.sample(map[string]any{"mode": mode, "src": clip(src, 300)})
		}
		txt := make([]string, len(toks))
		for k := range toks {
			txt[k] = toks[k].Text
		}
		for k := 0; k < 10; k++ {
			w.estree(join(corrupt(txt, r)), mode)
		}
	})
	// Token soup: short random sequences are accepted now and then.
	c.run("soup", c.n(60000), func(w *Worker, i int, r *Rng) {
		n := 1 + r.Intn(7)
		l := make([]string, n)
		for k := range l {
			if r.Chance(0.3) {
				l[k] = pick(r, []string{"a", "b", "(", ")", "{", "}", "[", "]", "=>", "=", ",", ":", "..."})
			} else {
				l[k] = pick(r, vocabulary)
			}
		}
		all(w, strings.Join(l, " "))
	})
	files := corpus(c.n(300), 100000)
	c.run("files", len(files), func(w *Worker, i int, r *Rng) {
		b, err := os.ReadFile(files[i])
		if err != nil {
			return
		}
		if w.estree(string(b), "script") {
			w.count("files_accepted", 1)
		}
		w.estree(string(b), "module")
	})
	c.require("nodes_validated", 1000000, "distinct", 20000, "accepted_script", 20000, "accepted_module", 10000, "accepted_expression", 5000)
}
