package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net/url"
	"runtime/debug"
	"strings"

	"github.com/jchv/cleansheets/ecmascript/ast"
	"github.com/jchv/cleansheets/ecmascript/errs"
	"github.com/jchv/cleansheets/ecmascript/lexer"
	"github.com/jchv/cleansheets/ecmascript/parser"
)

// The system under test, observed at its boundary: the rune reader it pulls
// from, and the values it returns.

var modes = map[string]parser.ParseMode{"script": parser.ScriptMode, "module": parser.ModuleMode, "expression": parser.ExpressionMode}
var modeNames = []string{"script", "module", "expression"}

var testURL = &url.URL{Scheme: "file", Path: "/t.js"}

// Reader is an instrumented io.RuneScanner. It enforces the contract of
// io.RuneScanner (one rune of pushback), counts every call and can fail at a
// chosen read.
type Reader struct {
	rs       []rune
	pos      int
	last     int // 0: nothing to unread, 1: rune read last
	reads    int
	unreads  int
	eofReads int
	maxPos   int
	budget   int // reads allowed; 0: no limit

	failAt     int // number of the read that fails, from 1; 0: never
	failErr    error
	failed     bool
	afterFail  int // calls after the failure
	badUnread  int // unreads without a preceding successful read
	overBudget bool
}

type budgetExceeded struct{}

func newReader(src string) *Reader { return &Reader{rs: []rune(src)} }

func (r *Reader) ReadRune() (rune, int, error) {
	if r.failed {
		r.afterFail++
	}
	r.reads++
	if r.budget > 0 && r.reads > r.budget {
		r.overBudget = true
		panic(budgetExceeded{})
	}
	if r.failAt > 0 && r.reads == r.failAt {
		r.failed = true
		r.last = 0
		return 0, 0, r.failErr
	}
	if r.pos >= len(r.rs) {
		r.eofReads++
		r.last = 0
		return 0, 0, io.EOF
	}
	c := r.rs[r.pos]
	r.pos++
	if r.pos > r.maxPos {
		r.maxPos = r.pos
	}
	r.last = 1
	return c, len(string(c)), nil
}

func (r *Reader) UnreadRune() error {
	if r.failed {
		r.afterFail++
	}
	r.unreads++
	if r.last != 1 {
		r.badUnread++
		return errors.New("verif: UnreadRune without a preceding ReadRune")
	}
	r.last = 0
	r.pos--
	return nil
}

// Outcome is what one parse did.
type Outcome struct {
	Node  ast.Node
	Err   error
	Panic any
	Stack string

	Tree    any // normalised ESTree, if asked for
	JSON    []byte
	TreeErr string // conversion failed
}

func (o *Outcome) Accepted() bool { return o.Panic == nil && o.Err == nil && o.Node != nil }

// kind names the outcome.
func (o *Outcome) kind() string {
	switch {
	case o.Panic != nil:
		return "panic"
	case o.Err != nil:
		var s *errs.SyntaxError
		var e *errs.EncodingError
		var p *errs.ParserError
		switch {
		case errors.As(o.Err, &s):
			return "syntax"
		case errors.As(o.Err, &e):
			return "encoding"
		case errors.As(o.Err, &p):
			return "parser"
		}
		return fmt.Sprintf("error %T", o.Err)
	case o.Node == nil:
		return "nothing"
	}
	return "tree"
}

func (o *Outcome) String() string {
	switch k := o.kind(); k {
	case "panic":
		return fmt.Sprintf("panic: %v", o.Panic)
	case "tree":
		if o.TreeErr != "" {
			return "tree that does not convert: " + o.TreeErr
		}
		return "tree"
	case "nothing":
		return "neither tree nor error"
	default:
		return fmt.Sprintf("%s error: %v", k, o.Err)
	}
}

func isNilNode(n ast.Node) bool { return n == nil }

// parseFrom runs the parser on a reader.
func parseFrom(r io.RuneScanner, uri *url.URL, mode string) (o *Outcome) {
	o = &Outcome{}
	defer func() {
		if p := recover(); p != nil {
			o.Panic = p
			o.Stack = string(debug.Stack())
		}
	}()
	o.Node, o.Err = parser.NewParser(lexer.NewLexer(lexer.NewScanner(r, uri))).Parse(parser.ParseOptions{Mode: modes[mode]})
	return o
}

// convert adds the ESTree of an accepted parse.
func (o *Outcome) convert() (res *Outcome) {
	res = o // also what is returned when the conversion panics
	if !o.Accepted() {
		return o
	}
	defer func() {
		if p := recover(); p != nil {
			o.TreeErr = fmt.Sprintf("panic in ESTree: %v", p)
			o.Stack = string(debug.Stack())
		}
	}()
	b, err := json.Marshal(o.Node.ESTree())
	if err != nil {
		o.TreeErr = err.Error()
		return o
	}
	o.JSON = b
	var t any
	if err := json.Unmarshal(b, &t); err != nil {
		o.TreeErr = err.Error()
		return o
	}
	o.Tree = normalise(t)
	return o
}

// parse runs the parser on a string and converts the result. It is guarded by
// the supervisor: a hang or crash is attributed to this input.
func (w *Worker) parse(src, mode string) *Outcome {
	w.begin(mode, src)
	o := parseFrom(strings.NewReader(src), testURL, mode).convert()
	w.end()
	return o
}

// message returns the error text, or "".
func (o *Outcome) message() string {
	if o.Err == nil {
		return ""
	}
	return o.Err.Error()
}
