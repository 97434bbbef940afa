package main

import (
	"encoding/json"
	"fmt"
	"reflect"
	"sort"
	"strings"
)

// M is an ESTree node as a plain map. All oracles work on this form, so no
// oracle shares a type with the code under test.
type M = map[string]any

func nd(typ string, kv ...any) M {
	m := M{"type": typ}
	for i := 0; i < len(kv); i += 2 {
		m[kv[i].(string)] = kv[i+1]
	}
	return m
}

func ident(name string) M { return nd("Identifier", "name", name) }

func typeOf(v any) string {
	if m, ok := v.(M); ok {
		t, _ := m["type"].(string)
		return t
	}
	return ""
}

func str(m M, k string) string { s, _ := m[k].(string); return s }
func boolean(m M, k string) bool {
	b, _ := m[k].(bool)
	return b
}
func list(m M, k string) []any { l, _ := m[k].([]any); return l }
func sub(m M, k string) M {
	s, _ := m[k].(M)
	return s
}

// normalise brings ESTree from any producer into one canonical form: positions
// are dropped and so are optional fields that carry their default value. It
// modifies the tree.
func normalise(v any) any {
	switch t := v.(type) {
	case []any:
		for i := range t {
			t[i] = normalise(t[i])
		}
		return t
	case M:
		for _, k := range []string{"start", "end", "loc", "range"} {
			delete(t, k)
		}
		for k := range t {
			t[k] = normalise(t[k])
		}
		if o, ok := t["optional"].(bool); ok && !o {
			delete(t, "optional")
		}
		switch t["type"] {
		case "Literal":
			raw, _ := t["raw"].(string)
			if t["regex"] != nil {
				delete(t, "value")
			} else if raw != "" && (raw[0] == '"' || raw[0] == '\'') && strings.Contains(raw, "\\") {
				// The value of a string with escapes is not claimed: see
				// DESIGN.md.
				delete(t, "value")
			}
		case "ForInStatement":
			// The Mozilla parser API's field.
			if a, ok := t["each"].(bool); ok && !a {
				delete(t, "each")
			}
		case "ForOfStatement":
			if a, ok := t["await"].(bool); ok && !a {
				delete(t, "await")
			}
		case "ExpressionStatement":
			if d, ok := t["directive"].(string); ok && d == "" {
				delete(t, "directive")
			}
		case "ImportDeclaration":
			if a, ok := t["attributes"].([]any); ok && len(a) == 0 {
				delete(t, "attributes")
			}
		}
		return t
	}
	return v
}

// diff returns a description of the first difference, or "".
func diff(path string, want, got any) string {
	if w, ok := want.(M); ok {
		g, ok := got.(M)
		if !ok {
			return fmt.Sprintf("%s: want %s, got %s", path, short(want), short(got))
		}
		if w["type"] != g["type"] {
			return fmt.Sprintf("%s: want %s, got %s", path, short(want), short(got))
		}
		keys := map[string]bool{}
		for k := range w {
			keys[k] = true
		}
		for k := range g {
			keys[k] = true
		}
		ks := make([]string, 0, len(keys))
		for k := range keys {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			wv, wok := w[k]
			gv, gok := g[k]
			if !wok {
				return fmt.Sprintf("%s.%s (%v): unexpected field with value %s", path, k, w["type"], short(gv))
			}
			if !gok {
				return fmt.Sprintf("%s.%s (%v): missing, want %s", path, k, w["type"], short(wv))
			}
			if d := diff(path+"."+k, wv, gv); d != "" {
				return d
			}
		}
		return ""
	}
	if w, ok := want.([]any); ok {
		g, ok := got.([]any)
		if !ok {
			return fmt.Sprintf("%s: want list, got %s", path, short(got))
		}
		for i := range w {
			if i >= len(g) {
				return fmt.Sprintf("%s: want %d elements, got %d", path, len(w), len(g))
			}
			if d := diff(fmt.Sprintf("%s[%d]", path, i), w[i], g[i]); d != "" {
				return d
			}
		}
		if len(g) != len(w) {
			return fmt.Sprintf("%s: want %d elements, got %d", path, len(w), len(g))
		}
		return ""
	}
	if !reflect.DeepEqual(want, got) {
		return fmt.Sprintf("%s: want %s, got %s", path, short(want), short(got))
	}
	return ""
}

func short(v any) string {
	b, _ := json.Marshal(v)
	if len(b) > 160 {
		b = append(b[:160:160], "..."...)
	}
	return string(b)
}

// clone makes a deep copy.
func clone(v any) any {
	switch t := v.(type) {
	case M:
		n := make(M, len(t))
		for k, e := range t {
			n[k] = clone(e)
		}
		return n
	case []any:
		n := make([]any, len(t))
		for i, e := range t {
			n[i] = clone(e)
		}
		return n
	}
	return v
}

// countTypes adds the node types of a tree to a histogram.
func countTypes(v any, h map[string]int) {
	switch t := v.(type) {
	case M:
		if s, ok := t["type"].(string); ok {
			h[s]++
		}
		for _, e := range t {
			countTypes(e, h)
		}
	case []any:
		for _, e := range t {
			countTypes(e, h)
		}
	}
}

func nodeCount(v any) int {
	n := 0
	switch t := v.(type) {
	case M:
		if _, ok := t["type"].(string); ok {
			n++
		}
		for _, e := range t {
			n += nodeCount(e)
		}
	case []any:
		for _, e := range t {
			n += nodeCount(e)
		}
	}
	return n
}
