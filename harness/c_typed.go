//go:build typed

// Names every node type, so it is only built for its own check.

package main

import (
	"encoding/json"
	"fmt"
	"math"
	"os"
	"reflect"
	"strings"
	"unicode/utf8"

	"github.com/jchv/cleansheets/ecmascript/ast"
)

func init() { checks["C31"] = c31 }

// The typed tree, read by its documentation only: no code of the library takes
// part in the conversion, and parentheses are kept.

type typedError string

func bad(f string, a ...any) { panic(typedError(fmt.Sprintf(f, a...))) }

var typedBinary = map[ast.BinaryOperator]string{
	ast.BinaryExponentOp: "**", ast.BinaryMultOp: "*", ast.BinaryDivOp: "/", ast.BinaryModOp: "%", ast.BinaryAddOp: "+", ast.BinarySubOp: "-",
	ast.BinaryLShiftOp: "<<", ast.BinaryRShiftOp: ">>", ast.BinaryUnsignedRShiftOp: ">>>",
	ast.BinaryLessThanOp: "<", ast.BinaryGreaterThanOp: ">", ast.BinaryLessThanEqualOp: "<=", ast.BinaryGreaterThanEqualOp: ">=",
	ast.BinaryInstanceOfOp: "instanceof", ast.BinaryInOp: "in",
	ast.BinaryEqualOp: "==", ast.BinaryNotEqualOp: "!=", ast.BinaryStrictEqualOp: "===", ast.BinaryStrictNotEqualOp: "!==",
	ast.BinaryBitAndOp: "&", ast.BinaryBitXorOp: "^", ast.BinaryBitOrOp: "|",
	ast.BinaryLogicalAndOp: "&&", ast.BinaryLogicalOrOp: "||", ast.BinaryCoalesceOp: "??",
}

var typedAssign = map[ast.AssignmentOperator]string{
	ast.AssignmentOp: "=", ast.AssignmentMultOp: "*=", ast.AssignmentDivOp: "/=", ast.AssignmentModOp: "%=", ast.AssignmentAddOp: "+=", ast.AssignmentSubOp: "-=",
	ast.AssignmentLShiftOp: "<<=", ast.AssignmentRShiftOp: ">>=", ast.AssignmentUnsignedRShiftOp: ">>>=",
	ast.AssignmentBitAndOp: "&=", ast.AssignmentBitXorOp: "^=", ast.AssignmentBitOrOp: "|=", ast.AssignmentExponentOp: "**=",
	ast.AssignmentLogicalAndOp: "&&=", ast.AssignmentLogicalOr: "||=", ast.AssignmentCoalesceOp: "??=",
}

var typedUnary = map[ast.UnaryOperator]string{
	ast.UnaryDeleteOp: "delete", ast.UnaryVoidOp: "void", ast.UnaryTypeOfOp: "typeof", ast.UnaryPlusOp: "+", ast.UnaryMinusOp: "-", ast.UnaryBitNotOp: "~", ast.UnaryNotOp: "!",
}

// pointee returns the node itself: trees hold nodes and pointers to nodes.
func pointee(n ast.Node) ast.Node {
	if v := reflect.ValueOf(n); v.Kind() == reflect.Ptr && !v.IsNil() {
		if m, ok := v.Elem().Interface().(ast.Node); ok {
			return m
		}
	}
	return n
}

// typedList converts a list of nodes.
func typedList(l []ast.Node) []any {
	o := []any{}
	for _, n := range l {
		o = append(o, typed(n))
	}
	return o
}

func typedIdent(s string) any {
	if s == "" {
		return nil
	}
	return ident(s)
}

func typedString(value, raw string) any {
	return nd("Literal", "value", value, "raw", raw)
}

func typedFunction(typ, id string, params ast.FormalParameters, body any, generator, expression, async bool) M {
	ps := []any{}
	for _, p := range params.Parameters {
		if p.Value == (ast.BindingPattern{}) {
			bad("a parameter without a name or pattern")
		}
		ps = append(ps, typedElement(p))
	}
	if params.RestParameter != "" {
		ps = append(ps, nd("RestElement", "argument", ident(params.RestParameter)))
	}
	return nd(typ, "id", typedIdent(id), "params", ps, "body", body, "generator", generator, "expression", expression, "async", async)
}

func typedDefault(left any, init ast.Node) any {
	if init == nil {
		return left
	}
	if left == nil {
		bad("a default of nothing")
	}
	return nd("AssignmentPattern", "left", left, "right", typed(init))
}

func typedElement(e ast.BindingElement) any { return typedDefault(typedBinding(e.Value), e.Init) }

// typedBinding converts a binding pattern, of which one and only one part is set.
func typedBinding(b ast.BindingPattern) any {
	n := 0
	for _, set := range []bool{b.Identifier != "", b.ObjectPattern != nil, b.ArrayPattern != nil} {
		if set {
			n++
		}
	}
	if n > 1 {
		bad("a binding pattern is several things")
	}
	switch {
	case b.Identifier != "":
		return ident(b.Identifier)
	case b.ArrayPattern != nil:
		l := []any{}
		for _, e := range b.ArrayPattern.Elements {
			l = append(l, typedElement(e))
		}
		if rest := typedBinding(b.ArrayPattern.RestElement); rest != nil {
			l = append(l, nd("RestElement", "argument", rest))
		}
		return nd("ArrayPattern", "elements", l)
	case b.ObjectPattern != nil:
		l := []any{}
		for _, p := range b.ObjectPattern.Properties {
			k := ident(p.PropertyName)
			v, short := typedBinding(p.Value), false
			if v == nil {
				v, short = ident(p.PropertyName), true
			}
			l = append(l, nd("Property", "key", k, "computed", false, "value", typedDefault(v, p.Init), "kind", "init", "method", false, "shorthand", short))
		}
		if b.ObjectPattern.RestElement != "" {
			l = append(l, nd("RestElement", "argument", ident(b.ObjectPattern.RestElement)))
		}
		return nd("ObjectPattern", "properties", l)
	}
	return nil
}

// typedTarget converts the target of an assignment: literals stand for patterns.
func typedTarget(n ast.Node) any {
	n = pointee(n)
	switch n := n.(type) {
	case nil:
		return nil
	case ast.AssignmentExpression:
		bad("an assignment as a target")
	case ast.ArrayExpression:
		l := []any{}
		for _, e := range n.Elements {
			switch e := pointee(e).(type) {
			case ast.TemporalArrayRestElement:
				l = append(l, nd("RestElement", "argument", typedBinding(e.BindingPattern)))
			default:
				l = append(l, typedTargetElement(e))
			}
		}
		return nd("ArrayPattern", "elements", l)
	case ast.ObjectExpression:
		l := []any{}
		for _, p := range n.Properties {
			if rest, ok := pointee(p.Key).(ast.TemporalObjectRestElement); ok {
				l = append(l, nd("RestElement", "argument", ident(rest.Identifier)))
				continue
			}
			if p.Method || p.Kind != ast.InitProperty {
				bad("a method in a pattern")
			}
			k := typed(p.Key)
			v, short := typedTargetElement(p.Value), false
			if p.Value == nil {
				v, short = typed(p.Key), true
			}
			l = append(l, nd("Property", "key", k, "computed", p.Computed, "value", typedDefault(v, p.DestructureInit), "kind", "init", "method", false, "shorthand", short))
		}
		return nd("ObjectPattern", "properties", l)
	}
	return typed(n)
}

func typedTargetElement(n ast.Node) any {
	if a, ok := pointee(n).(ast.AssignmentExpression); ok {
		if a.Operator != ast.AssignmentOp {
			bad("%v as a default", typedAssign[a.Operator])
		}
		return typedDefault(typedTarget(a.Left), a.Right)
	}
	return typedTarget(n)
}

func typedFor(n ast.Node) any {
	if v, ok := pointee(n).(ast.VariableDeclaration); ok {
		return typed(v)
	}
	return typedTarget(n)
}

func typedDirective(s string) any {
	if s == "" {
		return nil
	}
	return s
}

// typed converts a typed tree.
func typed(node ast.Node) any {
	node = pointee(node)
	switch n := node.(type) {
	case nil:
		return nil
	case ast.ScriptNode:
		return nd("Program", "body", typedList(n.Body), "sourceType", "script")
	case ast.ModuleNode:
		return nd("Program", "body", typedList(n.Body), "sourceType", "module")
	case ast.ImportDeclNode:
		l := []any{}
		if n.DefaultBinding != nil {
			l = append(l, nd("ImportDefaultSpecifier", "local", ident(n.DefaultBinding.Identifier)))
		}
		if n.NameSpace != nil {
			l = append(l, nd("ImportNamespaceSpecifier", "local", ident(n.NameSpace.Identifier)))
			if len(n.NamedImports) > 0 {
				bad("a namespace and named imports")
			}
		}
		for _, s := range n.NamedImports {
			local := s.AsBinding
			if local == "" {
				local = s.Identifier
			}
			l = append(l, nd("ImportSpecifier", "imported", ident(s.Identifier), "local", ident(local)))
		}
		return nd("ImportDeclaration", "specifiers", l, "source", typedString(n.Module, n.ModuleRaw))
	case ast.BlockStatement:
		return nd("BlockStatement", "body", typedList(n.Body))
	case ast.EmptyStatement:
		return nd("EmptyStatement")
	case ast.ExpressionStatement:
		m := nd("ExpressionStatement", "expression", typed(n.Expression))
		if n.Directive != "" {
			m["directive"] = n.Directive
		}
		return m
	case ast.VariableDeclaration:
		l := []any{}
		for _, d := range n.Declarations {
			id := typedBinding(d.ID)
			if id == nil {
				bad("a declarator that declares nothing")
			}
			l = append(l, nd("VariableDeclarator", "id", id, "init", typed(d.Init)))
		}
		kind, ok := map[ast.VarKind]string{ast.VarDeclaration: "var", ast.LetDeclaration: "let", ast.ConstDeclaration: "const"}[n.Kind]
		if !ok {
			bad("VarKind %d", n.Kind)
		}
		return nd("VariableDeclaration", "declarations", l, "kind", kind)
	case ast.FunctionDeclaration:
		return typedFunction("FunctionDeclaration", n.ID, n.Params, typed(n.Body), n.Generator, n.Expression, n.Async)
	case ast.FunctionExpression:
		if n.Arrow {
			if n.ID != "" || n.Generator {
				bad("an arrow function with a name or a generator")
			}
			_, block := pointee(n.Body).(ast.BlockStatement)
			return typedFunction("ArrowFunctionExpression", "", n.Params, typed(n.Body), false, !block, n.Async)
		}
		return typedFunction("FunctionExpression", n.ID, n.Params, typed(n.Body), n.Generator, n.Expression, n.Async)
	case ast.ClassDeclaration:
		return nd("ClassDeclaration", "id", typedIdent(n.ID), "superClass", typed(n.SuperClass), "body", nd("ClassBody", "body", typedList(n.Body)))
	case ast.ClassExpression:
		return nd("ClassExpression", "id", typedIdent(n.ID), "superClass", typed(n.SuperClass), "body", nd("ClassBody", "body", typedList(n.Body)))
	case ast.MethodDefinition:
		kind, ok := map[ast.MethodKind]string{ast.Method: "method", ast.GetMethod: "get", ast.SetMethod: "set"}[n.Kind]
		if !ok {
			bad("MethodKind %d", n.Kind)
		}
		if kind == "method" && !n.Static && !n.Computed {
			switch k := pointee(n.Key).(type) {
			case ast.Identifier:
				if k.Name == "constructor" {
					kind = "constructor"
				}
			case ast.StringLiteral:
				if k.Value == "constructor" {
					kind = "constructor"
				}
			}
		}
		return nd("MethodDefinition", "key", typed(n.Key), "computed", n.Computed, "value", typed(n.Value), "kind", kind, "static", n.Static)
	case ast.ContinueStatement:
		return nd("ContinueStatement", "label", typedIdent(n.Label))
	case ast.BreakStatement:
		return nd("BreakStatement", "label", typedIdent(n.Label))
	case ast.ReturnStatement:
		return nd("ReturnStatement", "argument", typed(n.Argument))
	case ast.ThrowStatement:
		return nd("ThrowStatement", "argument", typed(n.Argument))
	case ast.IfStatement:
		return nd("IfStatement", "test", typed(n.Test), "consequent", typed(n.Consequent), "alternate", typed(n.Alternate))
	case ast.WhileStatement:
		return nd("WhileStatement", "test", typed(n.Test), "body", typed(n.Body))
	case ast.DoWhileStatement:
		return nd("DoWhileStatement", "test", typed(n.Test), "body", typed(n.Body))
	case ast.ForStatement:
		return nd("ForStatement", "init", typed(n.Init), "test", typed(n.Test), "update", typed(n.Update), "body", typed(n.Body))
	case ast.ForInStatement:
		return nd("ForInStatement", "left", typedFor(n.Left), "right", typed(n.Right), "body", typed(n.Body))
	case ast.ForOfStatement:
		return nd("ForOfStatement", "left", typedFor(n.Left), "right", typed(n.Right), "body", typed(n.Body))
	case ast.SwitchStatement:
		l := []any{}
		for _, c := range n.Cases {
			l = append(l, nd("SwitchCase", "test", typed(c.Test), "consequent", typedList(c.Consequent)))
		}
		return nd("SwitchStatement", "discriminant", typed(n.Discriminant), "cases", l)
	case ast.LabeledStatement:
		return nd("LabeledStatement", "label", ident(n.Label), "body", typed(n.Body))
	case ast.TryStatement:
		return nd("TryStatement", "block", typed(n.Block), "handler", typed(n.Handler), "finalizer", typed(n.Finalizer))
	case ast.CatchClause:
		return nd("CatchClause", "param", typedBinding(n.Param), "body", typed(n.Body))
	case ast.BinaryExpression:
		op, ok := typedBinary[n.Operator]
		if !ok {
			bad("BinaryOperator %d", n.Operator)
		}
		typ := "BinaryExpression"
		if op == "&&" || op == "||" || op == "??" {
			typ = "LogicalExpression"
		}
		return nd(typ, "operator", op, "left", typed(n.Left), "right", typed(n.Right))
	case ast.AssignmentExpression:
		op, ok := typedAssign[n.Operator]
		if !ok {
			bad("AssignmentOperator %d", n.Operator)
		}
		return nd("AssignmentExpression", "operator", op, "left", typedTarget(n.Left), "right", typed(n.Right))
	case ast.UnaryExpression:
		op, ok := typedUnary[n.Operator]
		if !ok {
			bad("UnaryOperator %d", n.Operator)
		}
		return nd("UnaryExpression", "operator", op, "prefix", true, "argument", typed(n.Argument))
	case ast.UpdateExpression:
		op := "++"
		if n.Operator == ast.UpdatePreDecrementOp || n.Operator == ast.UpdatePostDecrementOp {
			op = "--"
		}
		pre := n.Operator == ast.UpdatePreIncrementOp || n.Operator == ast.UpdatePreDecrementOp
		return nd("UpdateExpression", "operator", op, "prefix", pre, "argument", typed(n.Argument))
	case ast.ArrayExpression:
		return nd("ArrayExpression", "elements", typedList(n.Elements))
	case ast.ObjectExpression:
		l := []any{}
		for _, p := range n.Properties {
			kind, ok := map[ast.PropertyKind]string{ast.InitProperty: "init", ast.GetProperty: "get", ast.SetProperty: "set"}[p.Kind]
			if !ok {
				bad("PropertyKind %d", p.Kind)
			}
			if p.Method && kind != "init" {
				bad("Method is set in a property with an accessor")
			}
			if p.DestructureInit != nil {
				bad("a default in an object literal")
			}
			v, short := typed(p.Value), false
			if p.Value == nil {
				v, short = typed(p.Key), true
			}
			l = append(l, nd("Property", "key", typed(p.Key), "computed", p.Computed, "value", v, "kind", kind, "method", p.Method, "shorthand", short))
		}
		return nd("ObjectExpression", "properties", l)
	case ast.ConditionalExpression:
		return nd("ConditionalExpression", "test", typed(n.Test), "consequent", typed(n.Consequent), "alternate", typed(n.Alternate))
	case ast.Identifier:
		return ident(n.Name)
	case ast.ThisExpression:
		return nd("ThisExpression")
	case ast.MemberExpression:
		m := nd("MemberExpression", "object", typed(n.Object), "property", typed(n.Property), "computed", n.Computed)
		if n.Optional {
			m["optional"] = true
		}
		return m
	case ast.ParenthesizedExpression:
		return nd("ParenthesizedExpression", "expression", typed(n.Expression))
	case ast.SpreadElement:
		return nd("SpreadElement", "argument", typed(n.Argument))
	case ast.CallExpression:
		m := nd("CallExpression", "callee", typed(n.Callee), "arguments", typedList(n.Arguments))
		if n.Optional {
			m["optional"] = true
		}
		return m
	case ast.NewExpression:
		return nd("NewExpression", "callee", typed(n.Callee), "arguments", typedList(n.Arguments))
	case ast.SequenceExpression:
		return nd("SequenceExpression", "expressions", typedList(n.Expressions))
	case ast.NullLiteral:
		return nd("Literal", "value", nil, "raw", "null")
	case ast.BooleanLiteral:
		return nd("Literal", "value", n.Value, "raw", n.Raw)
	case ast.StringLiteral:
		return typedString(n.Value, n.Raw)
	case ast.NumberLiteral:
		var v any = n.Value
		if math.IsInf(n.Value, 0) {
			v = nil
		}
		return nd("Literal", "value", v, "raw", n.Raw)
	case ast.RegExpLiteral:
		return nd("Literal", "raw", n.Raw, "regex", M{"pattern": n.Pattern, "flags": n.Flags})
	}
	bad("a %T in the tree", node)
	return nil
}

// typedTree converts a typed tree, or tells why it can not be one.
func typedTree(n ast.Node) (v any, err string) {
	defer func() {
		if p := recover(); p != nil {
			e, ok := p.(typedError)
			if !ok {
				panic(p)
			}
			err = string(e)
		}
	}()
	return normalise(typed(n)), ""
}

// unparen drops the nodes of parentheses.
func unparen(v any) any {
	switch t := v.(type) {
	case []any:
		o := make([]any, len(t))
		for i := range t {
			o[i] = unparen(t[i])
		}
		return o
	case M:
		if t["type"] == "ParenthesizedExpression" {
			return unparen(t["expression"])
		}
		o := M{}
		for k, x := range t {
			o[k] = unparen(x)
		}
		return o
	}
	return v
}

// rebuilder copies a tree from its exported fields, so that the copy shares
// nothing with it, and replaces one of the places that hold a node.
type rebuilder struct {
	at    int // which one; -1: none
	with  ast.Node
	n     int // places so far
	fixed int // > 0: these places mean more than their node
}

var nodeType = reflect.TypeOf((*ast.Node)(nil)).Elem()
var baseType = reflect.TypeOf(ast.BaseNode{})

func (b *rebuilder) copy(v reflect.Value) reflect.Value {
	o := reflect.New(v.Type()).Elem()
	switch v.Kind() {
	case reflect.Interface:
		if b.fixed == 0 && v.Type() == nodeType {
			b.n++
			if b.n-1 == b.at {
				if b.with != nil {
					o.Set(reflect.ValueOf(b.with))
				}
				return o
			}
		}
		if !v.IsNil() {
			o.Set(b.copy(v.Elem()))
		}
	case reflect.Ptr:
		if !v.IsNil() {
			o.Set(reflect.New(v.Type().Elem()))
			o.Elem().Set(b.copy(v.Elem()))
		}
	case reflect.Slice:
		if !v.IsNil() {
			o.Set(reflect.MakeSlice(v.Type(), v.Len(), v.Len()))
			for i := 0; i < v.Len(); i++ {
				o.Index(i).Set(b.copy(v.Index(i)))
			}
		}
	case reflect.Struct:
		if v.Type() == baseType {
			return o
		}
		for i := 0; i < v.NumField(); i++ {
			f := v.Type().Field(i)
			if f.PkgPath != "" {
				continue
			}
			special, inner := false, false
			switch v.Interface().(type) {
			case ast.AssignmentExpression, ast.ForInStatement, ast.ForOfStatement:
				special = f.Name == "Left" // literals are patterns there
			case ast.Property:
				// Without a value the key is the value.
				special = f.Name != "Value" || v.FieldByName("Value").IsNil()
				inner = !special
			case ast.MethodDefinition:
				special = f.Name == "Key" // the key may make it a constructor
			case ast.FunctionExpression:
				// Arrow functions tell blocks from expressions.
				inner = f.Name == "Body" && v.FieldByName("Arrow").Bool()
			case ast.ParenthesizedExpression:
				inner = true // parentheses around nothing are nothing
			case ast.BindingElement, ast.BindingProperty:
				// Without one there is no default.
				special = f.Name == "Init" && v.Field(i).IsNil()
				inner = f.Name == "Init"
			}
			if inner && f.Type == nodeType && !v.Field(i).IsNil() {
				// What is in the node is not special.
				o.Field(i).Set(b.copy(v.Field(i).Elem()))
				continue
			}
			if special {
				b.fixed++
			}
			o.Field(i).Set(b.copy(v.Field(i)))
			if special {
				b.fixed--
			}
		}
	default:
		o.Set(v)
	}
	return o
}

func rebuild(n ast.Node, at int, with ast.Node) (ast.Node, int) {
	b := &rebuilder{at: at, with: with}
	o := b.copy(reflect.ValueOf(n))
	return o.Interface().(ast.Node), b.n
}

// estreeJSON converts a tree, and describes a failure.
func estreeJSON(n ast.Node) (j []byte, err string) {
	defer func() {
		if p := recover(); p != nil {
			err = fmt.Sprint("ESTree panicked: ", p)
		}
	}()
	b, e := json.Marshal(n.ESTree())
	if e != nil {
		return nil, e.Error()
	}
	return b, ""
}

func decode(b []byte) any {
	var v any
	json.Unmarshal(b, &v)
	return normalise(v)
}

// graft is one replacement.
type graft struct {
	with ast.Node
	tree any
	what string
}

// pureVerdict checks that ESTree is a function of the exported tree, and a
// compositional one.
func (w *Worker) pureVerdict(n ast.Node, r *Rng, with []graft) string {
	before, _ := rebuild(n, -1, nil)
	j1, e := estreeJSON(n)
	if e != "" {
		return e
	}
	j2, _ := estreeJSON(n)
	if string(j1) != string(j2) {
		return fmt.Sprintf("ESTree called again returns something else: %s", diff("", decode(j1), decode(j2)))
	}
	c, places := rebuild(n, -1, nil)
	if !reflect.DeepEqual(before, c) {
		return "ESTree changed the tree"
	}
	j3, e := estreeJSON(c)
	if e != "" {
		return "of a copy of the tree: " + e
	}
	if string(j1) != string(j3) {
		return fmt.Sprintf("ESTree of a copy of the tree is something else: %s", diff("", decode(j1), decode(j3)))
	}
	w.count("copies_compared", 1)
	if places == 0 {
		return ""
	}
	for k := 0; k < 3; k++ {
		at := r.Intn(places)
		g := pick(r, with)
		hn, _ := rebuild(n, at, ast.Identifier{Name: hole})
		gn, _ := rebuild(n, at, g.with)
		jh, e := estreeJSON(hn)
		if e != "" {
			return "with a name in place of a node: " + e
		}
		jg, e := estreeJSON(gn)
		if e != "" {
			return "with " + g.what + " in place of a node: " + e
		}
		h := decode(jh)
		if holes := 0; true {
			walkTree(h, func(m M) {
				if isHole(m) {
					holes++
				}
			})
			if holes != 1 {
				return fmt.Sprintf("one node of the tree was replaced by %s; it is %d times in its ESTree", hole, holes)
			}
		}
		if d := diff("", plug(h, g.tree, false), decode(jg)); d != "" {
			return "with " + g.what + " in place of a node: " + d
		}
		w.count("grafts_compared", 1)
	}
	return ""
}

func c31(c *Check) {
	c.rule = "Random programs and expressions with redundant parentheses, pieces of real programs and their mutants; the typed tree of each is read by its documentation alone (the exported fields of the node types, by the harness) and compared with acorn's tree, parentheses included; ESTree must be the same, twice, of the tree and of a copy made from its exported fields; the copy with any node replaced must give the ESTree with just that part replaced. Non-trivial: a typed tree was compared; distinct: by text."
	c.assume = append(c.assume, "acorn 8.19.0's trees with preserveParens are the reference", "values of strings with escape sequences are not compared: C07 decides them")
	var grafts []graft
	add := func(src string) {
		o := parseFrom(strings.NewReader(src), testURL, "expression")
		if !o.Accepted() {
			return
		}
		t, e := typedTree(o.Node)
		if e == "" {
			grafts = append(grafts, graft{o.Node, unparen(t), src})
		}
	}
	for _, s := range lines(`a
1e999
'b'
/c/g
null
a + b
a, b
(a, b)
[a, , b]
{}
{a, b: 1, get c() { }, [d]: e}
function () { return a }
function* f(a = 1, ...b) { }
a => b
async (a, {b}) => { }
class A extends B { static c() { } }
a = b
[a, b = 1] = c
{a, b = 1} = c
a ? b : c
new A(...b)
a.b[c](d)
-a++
this
((((a))))`) {
		add(s)
	}
	grafts = append(grafts, graft{nil, nil, "nothing"},
		graft{ast.EmptyStatement{}, nd("EmptyStatement"), "an empty statement"},
		graft{ast.BlockStatement{}, nd("BlockStatement", "body", []any{}), "an empty block"},
		graft{ast.ReturnStatement{}, nd("ReturnStatement", "argument", nil), "a return statement"},
		graft{ast.SwitchStatement{Cases: []ast.SwitchCase{{}}}, nd("SwitchStatement", "discriminant", nil, "cases", []any{nd("SwitchCase", "test", nil, "consequent", []any{})}), "a switch statement with an empty clause"},
		graft{ast.TryStatement{}, nd("TryStatement", "block", nil, "handler", nil, "finalizer", nil), "an empty try statement"},
		graft{ast.ObjectExpression{}, nd("ObjectExpression", "properties", []any{}), "an empty object"},
		graft{ast.ArrayExpression{}, nd("ArrayExpression", "elements", []any{}), "an empty array"},
		graft{ast.CallExpression{}, nd("CallExpression", "callee", nil, "arguments", []any{}), "an empty call"},
		graft{ast.NewExpression{}, nd("NewExpression", "callee", nil, "arguments", []any{}), "an empty new"},
		graft{ast.ClassExpression{}, nd("ClassExpression", "id", nil, "superClass", nil, "body", nd("ClassBody", "body", []any{})), "an empty class"},
		graft{ast.SequenceExpression{}, nd("SequenceExpression", "expressions", []any{}), "an empty sequence"},
		graft{ast.ImportDeclNode{Module: "m", ModuleRaw: "'m'"}, nd("ImportDeclaration", "specifiers", []any{}, "source", nd("Literal", "value", "m", "raw", "'m'")), "an import"},
	)
	for i := range grafts {
		b, _ := json.Marshal(grafts[i].tree)
		grafts[i].tree = decode(b)
	}
	c.count("grafts", len(grafts))
	verdict := func(w *Worker, src, mode string, seed uint64) string {
		o := parseFrom(strings.NewReader(src), testURL, mode)
		if !o.Accepted() {
			return ""
		}
		if d := w.pureVerdict(o.Node, newRng(seed), grafts); d != "" {
			return d
		}
		a := w.acorn.do(AcornReq{Src: src, Mode: mode, Parens: true, AllowReturn: true})
		if !a.OK {
			w.count("not_judged", 1)
			return ""
		}
		if unsupportedText(src, a) != "" {
			w.count("not_judged", 1)
			return ""
		}
		got, e := typedTree(o.Node)
		if e != "" {
			return "the typed tree holds " + e
		}
		if d := diff("", normalise(a.AST), got); d != "" {
			// Whether the tree is the right one at all is not decided here.
			if t := o.convert(); t.TreeErr == "" && diff("", unparen(a.AST), t.Tree) != "" {
				w.count("not_judged_other_tree", 1)
				return ""
			}
			return "the typed tree is not the one of its text: " + d
		}
		walkTree(got, func(m M) {
			if m["type"] == "ParenthesizedExpression" {
				w.count("parentheses", 1)
			}
		})
		w.count("typed_trees_compared", 1)
		return ""
	}
	check := func(w *Worker, src, mode string, r *Rng) bool {
		w.eval()
		seed := r.U64()
		w.begin(mode, src)
		n := w.mine["typed_trees_compared"]
		d := verdict(w, src, mode, seed)
		w.end()
		if d != "" {
			small := shrinkText(src, func(s string) bool { return verdict(w, s, mode, seed) != "" })
			if d2 := verdict(w, small, mode, seed); d2 != "" {
				src, d = small, d2
			}
			w.violate(d, mode, src, nil)
			return false
		}
		if w.mine["typed_trees_compared"] > n {
			w.note(mode + src)
		}
		return true
	}
	c.run("programs", c.n(9000), func(w *Worker, i int, r *Rng) {
		p := defaultProfile(15 + r.Intn(100))
		p.Module = r.Chance(0.2)
		tree := genProgram(r, p, 1+r.Intn(6))
		toks, _, err := printTree(tree, r, r.Float()*0.3)
		if err != nil {
			return
		}
		if src := layout(toks, randomStyle(r), r).Src; check(w, src, modeOf(tree), r) {
			w.noteTypes(tree)
			if i%2000 == 0 {
				w.sample(clip(src, 300))
			}
		}
	})
	c.run("expressions", c.n(20000), func(w *Worker, i int, r *Rng) {
		e := newGen(r, defaultProfile(4+r.Intn(50))).expr()
		toks, _, err := printTree(e, r, r.Float()*0.6)
		if err != nil {
			return
		}
		check(w, layout(toks, randomStyle(r), r).Src, "expression", r)
	})
	c.run("seeds and frames", len(scriptSeeds)+len(moduleSeeds)+len(exprSeeds), func(w *Worker, i int, r *Rng) {
		mode := "script"
		l := scriptSeeds
		if i >= len(l) {
			i, l, mode = i-len(l), moduleSeeds, "module"
		}
		if i >= len(l) {
			i, l, mode = i-len(l), exprSeeds, "expression"
		}
		src := l[i]
		check(w, src, mode, r)
		for k := 0; k < 20; k++ {
			// Parentheses around one of the names.
			t := tokenize(src)
			j := r.Intn(len(t))
			if firstChar(t[j]) >= 'a' && len(t[j]) == 1 {
				t[j] = strings.Repeat("(", 1+k%2) + t[j] + strings.Repeat(")", 1+k%2)
			}
			check(w, strings.Join(t, " "), mode, r)
		}
	})
	shapes := wideShapes("all")
	c.run("wide and deep", c.n(300), func(w *Worker, i int, r *Rng) {
		tree := randomWide(r, shapes, 1500)
		toks, _, err := printTree(tree, r, 0)
		if err != nil {
			return
		}
		check(w, layout(toks, randomStyle(r), r).Src, modeOf(tree), r)
	})
	files := realFiles(c.n(400), 60000)
	c.run("files", len(files), func(w *Worker, i int, r *Rng) {
		b, err := os.ReadFile(files[i])
		if err != nil || !utf8.Valid(b) {
			return
		}
		if check(w, string(b), "script", r) {
			w.count("files", 1)
		}
	})
	real := c.gather(realFiles(c.n(120), 60000), 60, 500)
	c.run("real code", c.n(15000), func(w *Worker, i int, r *Rng) {
		x := pick(r, real.stmts)
		src := strings.Join(x.Toks, "")
		if r.Chance(0.5) {
			src = real.mutate(x, r)
		}
		check(w, src, "script", r)
	})
	c.require("evaluations", 40000, "typed_trees_compared", 25000, "parentheses", 20000, "copies_compared", 25000, "grafts_compared", 60000)
}
