package main

import (
	"fmt"
	"os"
	"strings"
	"unicode/utf16"
)

// supported tells whether a tree that acorn produced lies in the language
// subset that the parser implements, by its documentation and code: see
// DESIGN.md. It returns the first construct that is not, or "".
func supported(n any) string { return supportedIn(n, false) }

func supportedIn(v any, binding bool) string {
	switch t := v.(type) {
	case []any:
		for _, e := range t {
			if s := supportedIn(e, binding); s != "" {
				return s
			}
		}
		return ""
	case M:
		typ := typeOf(t)
		switch typ {
		case "TemplateLiteral", "TaggedTemplateExpression", "TemplateElement", "ChainExpression", "YieldExpression", "AwaitExpression", "MetaProperty", "Super", "ImportExpression", "PropertyDefinition", "StaticBlock", "PrivateIdentifier", "DebuggerStatement", "WithStatement", "ExportNamedDeclaration", "ExportDefaultDeclaration", "ExportAllDeclaration":
			return typ
		case "ArrayExpression", "ObjectExpression":
			for _, k := range []string{"elements", "properties"} {
				for _, e := range list(t, k) {
					if typeOf(e) == "SpreadElement" {
						return "spread in " + typ
					}
				}
			}
		case "Literal":
			raw := str(t, "raw")
			if t["bigint"] != nil || strings.HasSuffix(raw, "n") && raw[0] >= '0' && raw[0] <= '9' {
				return "BigInt"
			}
		case "ForStatement":
			if i := sub(t, "init"); i != nil && typeOf(i) == "VariableDeclaration" && str(i, "kind") != "var" {
				return "lexical declaration in for"
			}
		case "ForInStatement", "ForOfStatement":
			if boolean(t, "await") {
				return "for await"
			}
			l := sub(t, "left")
			if typeOf(l) == "VariableDeclaration" {
				if str(l, "kind") != "var" {
					return "lexical declaration in for"
				}
				for _, d := range list(l, "declarations") {
					if d.(M)["init"] != nil {
						return "initializer in for-in"
					}
				}
			}
			if s := assignable(l); s != "" {
				return s
			}
		case "FunctionDeclaration":
			if boolean(t, "async") || boolean(t, "generator") {
				return "async or generator declaration"
			}
			if s := paramsSupported(t); s != "" {
				return s
			}
		case "FunctionExpression", "ArrowFunctionExpression":
			if s := paramsSupported(t); s != "" {
				return s
			}
		case "MethodDefinition":
			f := sub(t, "value")
			if boolean(f, "async") || boolean(f, "generator") {
				return "async or generator class method"
			}
		case "VariableDeclarator":
			if s := bindable(t["id"]); s != "" {
				return s
			}
		case "CatchClause":
			if s := bindable(t["param"]); s != "" {
				return s
			}
		case "AssignmentExpression":
			if s := assignable(sub(t, "left")); s != "" {
				return s
			}
		case "ImportSpecifier":
			if typeOf(t["imported"]) != "Identifier" {
				return "string import name"
			}
		case "IfStatement":
			for _, k := range []string{"consequent", "alternate"} {
				if typeOf(t[k]) == "FunctionDeclaration" {
					return "function in if"
				}
			}
		case "LabeledStatement":
			if typeOf(t["body"]) == "FunctionDeclaration" {
				return "labelled function"
			}
		case "BinaryExpression":
			if typeOf(t["left"]) == "PrivateIdentifier" {
				return "private in"
			}
		}
		for k, c := range t {
			switch k {
			case "type", "raw", "value":
				if k != "value" || typ == "Literal" {
					continue
				}
			}
			if s := supportedIn(c, binding); s != "" {
				return s
			}
		}
	}
	return ""
}

// bindable checks a binding pattern.
func bindable(v any) string {
	n, ok := v.(M)
	if !ok {
		return ""
	}
	switch typeOf(n) {
	case "ArrayPattern":
		for _, e := range list(n, "elements") {
			if s := bindable(e); s != "" {
				return s
			}
		}
	case "ObjectPattern":
		for _, p := range list(n, "properties") {
			p := p.(M)
			if typeOf(p) == "RestElement" {
				continue
			}
			if boolean(p, "computed") || typeOf(p["key"]) != "Identifier" {
				return "literal or computed key in a binding pattern"
			}
			if s := bindable(p["value"]); s != "" {
				return s
			}
		}
	case "AssignmentPattern":
		return bindable(n["left"])
	case "RestElement":
		return bindable(n["argument"])
	}
	return ""
}

func paramsSupported(f M) string {
	for _, p := range list(f, "params") {
		p := p.(M)
		if typeOf(p) == "RestElement" && typeOf(p["argument"]) != "Identifier" {
			return "rest pattern in parameters"
		}
		if s := bindable(p); s != "" {
			return s
		}
	}
	return ""
}

// assignable checks the target of an assignment.
func assignable(n M) string {
	switch typeOf(n) {
	case "ArrayPattern":
		for _, e := range list(n, "elements") {
			if e == nil {
				continue
			}
			if typeOf(e) == "RestElement" {
				return "rest in an assignment pattern"
			}
			if s := assignable(e.(M)); s != "" {
				return s
			}
		}
	case "ObjectPattern":
		for _, p := range list(n, "properties") {
			p := p.(M)
			if typeOf(p) == "RestElement" {
				return "rest in an assignment pattern"
			}
			if boolean(p, "shorthand") && typeOf(p["value"]) == "AssignmentPattern" {
				return "shorthand default in an assignment pattern"
			}
			if s := assignable(sub(p, "value")); s != "" {
				return s
			}
		}
	case "AssignmentPattern":
		return assignable(sub(n, "left"))
	}
	return ""
}

// unsupportedText finds unsupported constructs that leave no trace in the
// tree.
func unsupportedText(src string, a *AcornRes) string {
	switch {
	case strings.HasPrefix(src, "#!"):
		return "hashbang"
	case a.HTML:
		return "HTML-like comment"
	case a.Escaped:
		return "unicode escape"
	}
	return ""
}

const (
	judgedAccept = iota
	judgedReject
	notJudged
)

// judge compares the system under test with acorn on one text: a text acorn
// accepts, inside the supported subset, must give the same tree; a text that
// matches no production must be rejected. It returns what was decided, and a
// description of a violation or "".
func (w *Worker) judge(src, mode string) (int, string, *AcornRes) {
	return w.judgeYA(src, mode, false)
}

// judgeYA is judge; ya tells that rejections of yield and await are judged.
func (w *Worker) judgeYA(src, mode string, ya bool) (int, string, *AcornRes) {
	w.eval()
	a := w.acorn.parse(src, mode)
	switch {
	case a.Internal:
		w.count("not_judged_acorn_failed", 1)
		return notJudged, "", a
	case a.OK:
		why := unsupportedText(src, a)
		if why == "" {
			why = supported(a.AST)
		}
		if why != "" {
			w.count("not_judged_unsupported", 1)
			// Not accepted is fine, but if accepted, the tree must be right.
			o := w.parse(src, mode)
			if o.Accepted() && !ya && why == "AwaitExpression" && mode == "module" {
				// The recorded finding: await is a name in modules.
				return notJudged, "", a
			}
			if o.Accepted() {
				if o.TreeErr != "" {
					return judgedAccept, o.String(), a
				}
				if d := diff("", a.AST, o.Tree); d != "" {
					return judgedAccept, "accepted, but with another tree than acorn (" + why + "): " + d, a
				}
			} else if o.Panic != nil {
				return judgedAccept, o.String(), a
			}
			return notJudged, "", a
		}
		o := w.parse(src, mode)
		if o.Err != nil && !w.acorn.v8(src, mode).OK {
			w.count("not_judged_v8_disagrees", 1)
			verbosely("V8 rejects", w.acorn.v8(src, mode).Err, src)
			return notJudged, "", a
		}
		if !o.Accepted() || o.TreeErr != "" {
			return judgedAccept, "valid text not accepted: " + o.String(), a
		}
		if d := diff("", a.AST, o.Tree); d != "" {
			return judgedAccept, "wrong tree: " + d, a
		}
		w.count("judged_accepted", 1)
		return judgedAccept, "", a
	case a.early():
		w.count("not_judged_early_error", 1)
		return notJudged, "", a
	}
	if strings.HasPrefix(a.Err, "Bad character escape") || strings.HasPrefix(a.Err, "Code point out of bounds") || strings.HasPrefix(a.Err, "Octal escape") {
		// The lexer does not look into escape sequences: see DESIGN.md.
		w.count("not_judged_escape", 1)
		return notJudged, "", a
	}
	if !ya && (strings.Contains(src, "yield") || strings.Contains(src, "await")) {
		// The parser reserves these words only in generators and async
		// functions, which C15 decides (and records as a known finding).
		w.count("not_judged_yield_await", 1)
		return notJudged, "", a
	}
	if strings.HasPrefix(a.Err, "setter should have exactly one param") && emptyParams(src, a.Pos) {
		// Setters without a parameter are a recorded finding.
		w.count("not_judged_empty_setter", 1)
		return notJudged, "", a
	}
	o := w.parse(src, mode)
	if o.Accepted() {
		if v := w.acorn.v8(src, mode); v.OK || v.Internal || v8Early(v.Err) {
			w.count("not_judged_v8_disagrees", 1)
			verbosely("V8 accepts", a.Err+"|"+v.Err, src)
			return notJudged, "", a
		}
		return judgedReject, fmt.Sprintf("ill-formed text accepted (acorn: %s)", a.Err), a
	}
	if k := o.kind(); k != "syntax" && k != "parser" {
		return judgedReject, "ill-formed text: " + o.String(), a
	}
	w.count("judged_rejected", 1)
	return judgedReject, "", a
}

// emptyParams tells whether there is an empty parameter list at an offset in
// UTF-16 units.
func emptyParams(src string, pos int) bool {
	u := utf16.Encode([]rune(src))
	if pos > len(u) {
		return false
	}
	m := &Model{rs: utf16.Decode(u[pos:])}
	return m.next(false).Text == "(" && m.next(false).Text == ")"
}

func verbosely(what, why, src string) {
	if os.Getenv("VERIF_VERBOSE") == "2" {
		fmt.Fprintf(os.Stderr, "NOTJUDGED %s | %s | %q\n", what, why, clip(src, 300))
	}
}

// v8Early tells whether an error message of the engine is about static
// semantics.
func v8Early(msg string) bool {
	for _, p := range []string{"Illegal return", "Illegal break", "Illegal continue", "Undefined label", "has already been declared", "let is disallowed", "Duplicate", "no surrounding iteration"} {
		if strings.Contains(msg, p) {
			return true
		}
	}
	return false
}
