package main

import (
	"fmt"
	"net/url"
	"os"
	"reflect"
	"strings"
	"unicode/utf8"

	"github.com/jchv/cleansheets/ecmascript/ast"
)

func init() { checks["C23"] = c23 }

// spanTypes gives the ESTree types a node can stand for. In destructuring
// assignments, literals stand for patterns.
var spanTypes = map[string][]string{
	"ArrayExpression":           {"ArrayExpression", "ArrayPattern"},
	"ObjectExpression":          {"ObjectExpression", "ObjectPattern"},
	"AssignmentExpression":      {"AssignmentExpression", "AssignmentPattern"},
	"TemporalArrayRestElement":  {"RestElement"},
	"TemporalObjectRestElement": {"RestElement"},
	"BinaryExpression":          {"BinaryExpression", "LogicalExpression"},
	"FunctionExpression":        {"FunctionExpression"}, // or ArrowFunctionExpression
	"NullLiteral":               {"Literal"},
	"BooleanLiteral":            {"Literal"},
	"NumberLiteral":             {"Literal"},
	"StringLiteral":             {"Literal"},
	"RegExpLiteral":             {"Literal"},
	"ImportDeclNode":            {"ImportDeclaration"},
	"ScriptNode":                {"Program"},
	"ModuleNode":                {"Program"},
}

// spanNode is a node with its span, as reported.
type spanNode struct {
	typ, detail string
	node        ast.Node
	parent      *spanNode
}

// nodesOf lists the nodes of a tree, parents before children.
func nodesOf(n ast.Node) []*spanNode {
	var out []*spanNode
	var walk func(v reflect.Value, parent *spanNode)
	walk = func(v reflect.Value, parent *spanNode) {
		for v.Kind() == reflect.Ptr || v.Kind() == reflect.Interface {
			if v.IsNil() {
				return
			}
			v = v.Elem()
		}
		switch v.Kind() {
		case reflect.Slice, reflect.Array:
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i), parent)
			}
		case reflect.Struct:
			if m, ok := v.Interface().(ast.Node); ok && v.Type().Name() != "BaseNode" {
				s := &spanNode{typ: v.Type().Name(), node: m, parent: parent}
				for _, f := range []string{"Name", "Raw"} {
					if d := v.FieldByName(f); d.IsValid() && d.Kind() == reflect.String {
						s.detail = d.String()
					}
				}
				if v.Type().Name() == "NullLiteral" {
					s.detail = "null"
				}
				if v.Type().Name() == "FunctionExpression" {
					if a := v.FieldByName("Arrow"); a.IsValid() && a.Kind() == reflect.Bool && a.Bool() {
						s.typ = "ArrowFunctionExpression"
					}
				}
				out = append(out, s)
				parent = s
			}
			for i := 0; i < v.NumField(); i++ {
				if v.Type().Field(i).PkgPath == "" {
					walk(v.Field(i), parent)
				}
			}
		}
	}
	walk(reflect.ValueOf(n), nil)
	return out
}

// rowTable converts locations, which count rows and characters from 1, to
// UTF-16 offsets, which acorn counts in.
type rowTable struct {
	offs  [][]int // per row, the offset before each character and after the last
	total int
}

func newRowTable(src string) *rowTable {
	t := &rowTable{}
	row := []int{}
	off := 0
	rs := []rune(src)
	for i, c := range rs {
		row = append(row, off)
		off++
		if c > 0xffff {
			off++
		}
		if isLT(c) && !(c == '\r' && i+1 < len(rs) && rs[i+1] == '\n') {
			t.offs = append(t.offs, row)
			row = nil
		}
	}
	t.offs = append(t.offs, append(row, off))
	t.total = off
	return t
}

// offset returns the offset of a location, or -1 if there is none.
func (t *rowTable) offset(l ast.Location) int {
	if l.Row < 1 || l.Row > len(t.offs) || l.Column < 1 {
		return -1
	}
	row := t.offs[l.Row-1]
	if l.Column <= len(row) {
		return row[l.Column-1]
	}
	return -1
}

type spanKey struct {
	typ, detail string
	start, end  int
}

// spanVerdict compares the spans of the parsed tree with acorn's positions. It
// returns a description of the first difference, or "", and how many spans it
// compared.
func (w *Worker) spanVerdict(src, mode string, uri *url.URL) (string, int) {
	w.begin(mode, src)
	o := parseFrom(strings.NewReader(src), uri, mode).convert()
	w.end()
	if !o.Accepted() || o.TreeErr != "" {
		return "", 0 // other properties are about these
	}
	a := w.acorn.do(AcornReq{Src: src, Mode: mode, Spans: true})
	if !a.OK || diff("", a.AST, o.Tree) != "" {
		return "", 0
	}
	// The tokens, by where they start and by where they end.
	prevEnd := map[int]int{} // start of a token: end of the token before it
	last := 0
	for _, t := range a.Tokens {
		s, e := int(t[0].(float64)), int(t[1].(float64))
		if e > s {
			prevEnd[s] = last
			last = e
		}
	}
	have := map[spanKey]int{}
	for _, s := range a.Spans {
		k := spanKey{s[0].(string), s[1].(string), int(s[2].(float64)), int(s[3].(float64))}
		have[k]++
	}
	// The start of a span may be anywhere after the token before it.
	table := newRowTable(src)
	text := func(s, e int) string {
		u := []rune(src)
		off := 0
		b := &strings.Builder{}
		for _, c := range u {
			if off >= s && off < e {
				b.WriteRune(c)
			}
			off++
			if c > 0xffff {
				off++
			}
		}
		return clip(b.String(), 80)
	}
	// firstToken[i] is the start of the first token at or after offset i.
	firstToken := func(i int) int {
		lo, hi := 0, len(a.Tokens)
		for lo < hi {
			m := (lo + hi) / 2
			if int(a.Tokens[m][0].(float64)) >= i {
				hi = m
			} else {
				lo = m + 1
			}
		}
		if lo == len(a.Tokens) {
			return table.total
		}
		return int(a.Tokens[lo][0].(float64))
	}
	n := 0
	where := map[*spanNode][2]int{}
	for _, s := range nodesOf(o.Node) {
		sp := s.node.Span()
		name := s.typ
		if s.detail != "" {
			name += " " + s.detail
		}
		if sp.Start.URI != uri || sp.End.URI != uri {
			return fmt.Sprintf("span of %s: URI is %v to %v, want %v", name, sp.Start.URI, sp.End.URI, uri), n
		}
		want := fmt.Sprintf("%v:%d:%d", uri, sp.Start.Row, sp.Start.Column)
		if sp.Start.Row != sp.End.Row {
			want += fmt.Sprintf("-%d-%d", sp.End.Row, sp.End.Column)
		} else if sp.Start.Column != sp.End.Column {
			want += fmt.Sprintf("-%d", sp.End.Column)
		}
		if got := sp.String(); got != want {
			return fmt.Sprintf("span of %s: prints as %q, want %q", name, got, want), n
		}
		start, end := table.offset(sp.Start), table.offset(sp.End)
		if start < 0 || end < 0 || start > end {
			return fmt.Sprintf("span of %s: %d:%d to %d:%d is not in the text", name, sp.Start.Row, sp.Start.Column, sp.End.Row, sp.End.Column), n
		}
		where[s] = [2]int{start, end}
		if s.parent != nil {
			if p := where[s.parent]; start < p[0] || end > p[1] {
				return fmt.Sprintf("span of %s, %q, is not inside that of the %s around it, %q", name, text(start, end), s.parent.typ, text(p[0], p[1])), n
			}
		}
		n++
		first := firstToken(start)
		types := spanTypes[s.typ]
		if types == nil {
			types = []string{s.typ}
		}
		if types[0] == "Program" {
			// The whole text, as far as there are tokens.
			if start != 0 && start > firstToken(0) || end < last {
				return fmt.Sprintf("span of %s: %q does not cover the program", name, text(start, end)), n
			}
			continue
		}
		ok := false
		k := spanKey{detail: s.detail, start: first, end: end}
		for _, t := range types {
			k.typ = t
			if have[k] > 0 {
				have[k]--
				ok = true
				break
			}
		}
		if !ok {
			want := ""
			for _, h := range a.Spans {
				for _, t := range types {
					if h[0] == t && (int(h[2].(float64)) == first || int(h[3].(float64)) == end) && want == "" {
						want = fmt.Sprintf("; there is one that is %q", text(int(h[2].(float64)), int(h[3].(float64))))
					}
				}
			}
			return fmt.Sprintf("span of %s: %q is not that of such a node%s", name, text(start, end), want), n
		}
		if first != table.total && start < prevEnd[first] {
			return fmt.Sprintf("span of %s: %q begins inside another token", name, text(start, end)), n
		}
	}
	return "", n
}

// clearVerdict checks that ClearSpans removes all spans, and nothing else.
func clearVerdict(src, mode string) string {
	o := parseFrom(strings.NewReader(src), testURL, mode).convert()
	if !o.Accepted() || o.TreeErr != "" {
		return ""
	}
	// The tree is held in a Node interface; ClearSpans needs to get at what is
	// in it.
	v := reflect.ValueOf(o.Node)
	if v.Kind() != reflect.Ptr {
		p := reflect.New(v.Type())
		p.Elem().Set(v)
		v = p
	}
	n, ok := v.Interface().(ast.Node)
	if !ok {
		return ""
	}
	ast.ClearSpans(n)
	for _, s := range nodesOf(n) {
		if s.node.Span() != (ast.Span{}) {
			return fmt.Sprintf("ClearSpans left the span of %s %s", s.typ, s.detail)
		}
	}
	c := (&Outcome{Node: n}).convert()
	if c.TreeErr != "" || string(c.JSON) != string(o.JSON) {
		return "ClearSpans changed more than spans"
	}
	return ""
}

func c23(c *Check) {
	c.rule = "Random programs, modules and expressions in random layouts, and pieces of real programs, are parsed; the span of every node of the tree, found by reflection, must begin after the token before the node and no later than its first token, and end exactly at the end of its last token, as acorn finds them; spans nest; a span prints as the location it starts at and, as far as they differ, the row and column it ends at; and ClearSpans removes them all and nothing else. Non-trivial: a text whose spans were compared; distinct: by text."
	c.assume = append(c.assume, "acorn 8.19.0's positions are the reference where both read the same tree", "a span that begins with the white space and comments before the node is right: that is how the parser records them throughout")
	other := &url.URL{Scheme: "http", Host: "example", Path: "/a.js"}
	check := func(w *Worker, src, mode string, uri *url.URL, tree M) bool {
		w.eval()
		d, n := w.spanVerdict(src, mode, uri)
		if d != "" {
			if tree != nil {
				if _, s, d2 := w.shrinkTreeBy(tree, func(s spec) string { d, _ := w.spanVerdict(s.src, s.mode, uri); return d }); d2 != "" {
					w.violate(d2, s.mode, s.src, map[string]any{"original": clip(src, 1000), "original_failure": d})
					return false
				}
			}
			small := shrinkText(src, func(s string) bool { d, _ := w.spanVerdict(s, mode, uri); return d != "" })
			d2, _ := w.spanVerdict(small, mode, uri)
			w.violate(d2, mode, small, map[string]any{"original": clip(src, 1000), "original_failure": d})
			return false
		}
		if n == 0 {
			w.count("not_judged", 1)
			return false
		}
		w.count("spans_compared", n)
		w.note(mode + src)
		if c := clearVerdict(src, mode); c != "" {
			w.violate(c, mode, src, nil)
			return false
		}
		return true
	}
	c.run("programs", c.n(10000), func(w *Worker, i int, r *Rng) {
		tree := genProgram(r, defaultProfile(20+r.Intn(150)), 1+r.Intn(6))
		toks, _, err := printTree(tree, r, r.Float()*0.15)
		if err != nil {
			return
		}
		l := layout(toks, randomStyle(r), r)
		uri := testURL
		switch r.Intn(3) {
		case 0:
			uri = nil
		case 1:
			uri = other
		}
		if check(w, l.Src, modeOf(tree), uri, tree) {
			w.noteTypes(tree)
			if i%5000 == 0 {
				w.sample(clip(l.Src, 300))
			}
		}
	})
	c.run("expressions", c.n(15000), func(w *Worker, i int, r *Rng) {
		g := newGen(r, defaultProfile(5+r.Intn(60)))
		e := g.expr()
		toks, _, err := printTree(e, r, r.Float()*0.2)
		if err != nil {
			return
		}
		l := layout(toks, randomStyle(r), r)
		if check(w, l.Src, "expression", testURL, e) {
			w.noteTypes(e)
		}
	})
	shapes := wideShapes("all")
	c.run("wide and deep", c.n(600), func(w *Worker, i int, r *Rng) {
		tree := randomWide(r, shapes, 1500)
		toks, _, err := printTree(tree, r, 0)
		if err != nil {
			return
		}
		l := layout(toks, randomStyle(r), r)
		if check(w, l.Src, modeOf(tree), testURL, nil) {
			w.noteTypes(tree)
			w.count("wide_checked", 1)
		}
	})
	files := realFiles(c.n(600), 60000)
	c.run("files", len(files), func(w *Worker, i int, r *Rng) {
		b, err := os.ReadFile(files[i])
		if err != nil || !utf8.Valid(b) {
			return
		}
		check(w, string(b), "script", testURL, nil)
	})
	p := c.gather(files, 60, 800)
	if len(p.stmts) > 0 && len(p.exprs) > 0 {
		c.run("real pieces", c.n(40000), func(w *Worker, i int, r *Rng) {
			if r.Chance(0.4) {
				check(w, p.mutate(pick(r, p.exprs), r), "expression", testURL, nil)
			} else {
				check(w, p.mutate(pick(r, p.stmts), r), "script", testURL, nil)
			}
		})
	}
	c.require("evaluations", 2000, "spans_compared", 50000)
}
