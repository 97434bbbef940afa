package main

import (
	"fmt"
	"os"
	"strings"
)

// Comparison of parsed trees with the tree the text was generated from.

// spec says what a text must parse to.
type spec struct {
	src  string
	mode string
	want any // normalised ESTree
}

// verdict runs the system under test and describes the difference to the
// expected tree, or returns "".
func (w *Worker) verdict(s spec) string {
	o := w.parse(s.src, s.mode)
	if !o.Accepted() || o.TreeErr != "" {
		return "valid text not accepted: " + o.String()
	}
	if d := diff("", s.want, o.Tree); d != "" {
		return "wrong tree: " + d
	}
	return ""
}

// acornAgrees tells whether acorn reads the text as the expected tree. It is
// asked before a violation is reported, so that an error in the generator or
// the printer can not raise a false alarm.
func (w *Worker) acornAgrees(s spec) (bool, string) {
	a := w.acorn.parse(s.src, s.mode)
	if !a.OK {
		if a.early() {
			return false, "acorn: " + a.Err
		}
		return false, "acorn rejects: " + a.Err
	}
	if d := diff("", s.want, a.AST); d != "" {
		return false, "acorn reads another tree: " + d
	}
	return true, ""
}

// wrapProgram returns the tree as it is compared in a mode.
func expected(tree M) any {
	t := clone(tree)
	dropHints(t)
	return normalise(t)
}

// dropHints removes what only the printer looks at.
func dropHints(v any) {
	switch t := v.(type) {
	case []any:
		for _, e := range t {
			dropHints(e)
		}
	case M:
		delete(t, "emptyBraces")
		for _, e := range t {
			dropHints(e)
		}
	}
}

func modeOf(tree M) string {
	if typeOf(tree) == "Program" {
		return str(tree, "sourceType")
	}
	return "expression"
}

// checkTree prints a tree, parses the text and compares. paren is the
// probability of redundant parentheses. It returns the layout, or nil if there
// is nothing to observe.
func (w *Worker) checkTree(tree M, r *Rng, paren float64, st Style) *Layout {
	toks, redundant, err := printTree(tree, r, paren)
	if err != nil {
		w.count("unprintable_trees", 1)
		return nil
	}
	l := layout(toks, st, r)
	s := spec{l.Src, modeOf(tree), expected(tree)}
	w.eval()
	w.count("redundant_parentheses", redundant)
	w.count("semicolons_left_out", l.Inserted)
	w.count("comments", l.Comments)
	w.count("line_breaks", l.Newlines)
	d := w.verdict(s)
	if d == "" {
		return l
	}
	ok, why := w.acornAgrees(s)
	if !ok {
		w.count("not_judged_acorn_disagrees", 1)
		if os.Getenv("VERIF_VERBOSE") == "2" {
			fmt.Fprintf(os.Stderr, "NOTJUDGED %s | %s | %q\n", d, why, clip(s.src, 300))
		}
		w.sample(map[string]any{"not_judged": why, "src": clip(s.src, 200)})
		return nil
	}
	w.report(tree, s, d)
	return l
}

// report shrinks a failing case and records the violation.
func (w *Worker) report(tree M, s spec, what string) {
	min, ms, mw := w.shrinkTree(tree, what)
	if min == nil {
		w.violate(what, s.mode, s.src, map[string]any{"expected": s.want})
		return
	}
	w.violate(mw, ms.mode, ms.src, map[string]any{"expected": ms.want, "original": clip(s.src, 2000), "original_failure": what})
}

// shrinkTree makes a failing tree smaller, printed canonically. It returns nil
// if the canonical text does not fail.
func (w *Worker) shrinkTree(tree M, what string) (M, spec, string) {
	return w.shrinkTreeBy(tree, func(s spec) string {
		d := w.verdict(s)
		if d != "" {
			if ok, _ := w.acornAgrees(s); !ok {
				return ""
			}
		}
		return d
	})
}

// canonical lays a tree out canonically. The tree may be one that simplification
// broke.
func canonical(t M) (s spec, ok bool) {
	defer func() {
		if recover() != nil {
			s, ok = spec{}, false
		}
	}()
	toks, _, err := printTree(t, newRng(1), 0)
	if err != nil {
		return spec{}, false
	}
	return spec{layout(toks, Style{Canonical: true}, newRng(1)).Src, modeOf(t), expected(t)}, true
}

// shrinkTreeBy is shrinkTree for any verdict on a text.
func (w *Worker) shrinkTreeBy(tree M, verdict func(spec) string) (M, spec, string) {
	budget := 1500
	try := func(t M) (spec, string) {
		if budget <= 0 {
			return spec{}, ""
		}
		budget--
		s, ok := canonical(t)
		if !ok {
			return spec{}, ""
		}
		return s, verdict(s)
	}
	cur := clone(tree).(M)
	cs, cd := try(cur)
	if cd == "" {
		return nil, spec{}, ""
	}
	for again := true; again && budget > 0; {
		again = false
		for _, e := range edits(cur) {
			undo := e()
			if s, d := try(cur); d != "" {
				cs, cd, again = s, d, true
				continue
			}
			undo()
		}
	}
	return cur, cs, cd
}

func isExprType(t string) bool {
	return strings.HasSuffix(t, "Expression") || t == "Literal" || t == "Identifier"
}

// edits returns simplifications of a tree; each applies itself and returns how
// to undo it.
func edits(root M) []func() func() {
	var out []func() func()
	var walk func(v any)
	replace := func(m M, k string, v any) {
		out = append(out, func() func() {
			old, ok := m[k]
			m[k] = v
			return func() {
				if ok {
					m[k] = old
				} else {
					delete(m, k)
				}
			}
		})
	}
	walk = func(v any) {
		switch t := v.(type) {
		case M:
			for k, c := range t {
				switch cv := c.(type) {
				case []any:
					for i := range cv {
						i := i
						k := k
						m := t
						n0 := len(cv)
						out = append(out, func() func() {
							old := list(m, k)
							j := i - (n0 - len(old))
							if j < 0 || j >= len(old) {
								return func() {}
							}
							nl := append(append([]any{}, old[:j]...), old[j+1:]...)
							m[k] = nl
							return func() { m[k] = old }
						})
						if isExprType(typeOf(cv[i])) && typeOf(cv[i]) != "Identifier" {
							cell := cv
							out = append(out, func() func() {
								old := cell[i]
								cell[i] = ident("x")
								return func() { cell[i] = old }
							})
						}
					}
				case M:
					ct := typeOf(cv)
					if isExprType(ct) {
						if ct != "Identifier" {
							replace(t, k, ident("x"))
							for _, g := range cv {
								if gm, ok := g.(M); ok && isExprType(typeOf(gm)) {
									replace(t, k, gm)
								}
							}
						}
						if k == "init" || k == "argument" || k == "superClass" || k == "alternate" || k == "update" || k == "test" || k == "id" {
							replace(t, k, nil)
						}
					} else if strings.HasSuffix(ct, "Statement") {
						if ct != "EmptyStatement" && k != "body" && k != "block" && k != "finalizer" {
							replace(t, k, nd("EmptyStatement"))
						}
						if k == "alternate" {
							replace(t, k, nil)
						}
						if k == "body" && typeOf(t) != "CatchClause" && !strings.Contains(typeOf(t), "Function") {
							replace(t, k, nd("EmptyStatement"))
						}
					} else if strings.HasSuffix(ct, "Pattern") {
						if ct == "AssignmentPattern" {
							replace(t, k, cv["left"])
						} else {
							replace(t, k, ident("y"))
						}
					}
				}
			}
			for _, c := range t {
				walk(c)
			}
		case []any:
			for _, c := range t {
				walk(c)
			}
		}
	}
	walk(root)
	return out
}

// genProgram returns a random program for a profile.
func genProgram(r *Rng, p Profile, items int) M {
	return newGen(r, p).program(items)
}

// program wraps statements.
func program(mode string, stmts ...any) M {
	if stmts == nil {
		stmts = []any{}
	}
	return nd("Program", "body", stmts, "sourceType", mode)
}

func exprStatement(e M) M { return nd("ExpressionStatement", "expression", e) }

// observe records an accepted case for the evidence.
func (w *Worker) observe(tree M, l *Layout, minNodes int) {
	if l == nil {
		return
	}
	w.noteTypes(tree)
	w.count("nodes_compared", nodeCount(tree))
	w.count("tokens_parsed", len(l.Toks))
	if nodeCount(tree) >= minNodes {
		w.note(l.Src)
	}
	w.sample(clip(l.Src, 300))
}

func (c *Check) require(kv ...any) {
	for i := 0; i < len(kv); i += 2 {
		c.need[kv[i].(string)] = int64(kv[i+1].(int))
	}
}

var _ = fmt.Sprint
