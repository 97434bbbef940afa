package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sync"
)

// Acorn is a co-process that runs the acorn parser, the second, independent
// oracle.
type Acorn struct {
	mu  sync.Mutex
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
	n   int
}

type AcornReq struct {
	Src         string `json:"src"`
	Mode        string `json:"mode"`
	V8          bool   `json:"v8,omitempty"`
	IDTable     bool   `json:"idtable,omitempty"`
	NoAST       bool   `json:"noast,omitempty"`
	Tokens      bool   `json:"tokens,omitempty"`
	AllowReturn bool   `json:"allowReturn,omitempty"`
	Pieces      bool   `json:"pieces,omitempty"`
	Spans       bool   `json:"spans,omitempty"`
	Parens      bool   `json:"parens,omitempty"`
	Version     int    `json:"version,omitempty"`
	Max         int    `json:"max,omitempty"`
	Count       int    `json:"count,omitempty"`
	Seed        uint32 `json:"seed,omitempty"`
}

type AcornRes struct {
	OK       bool     `json:"ok"`
	AST      any      `json:"ast"`
	Err      string   `json:"err"`
	Pos      int      `json:"pos"`
	Internal bool     `json:"internal"`
	End      int      `json:"end"`
	Tokens   [][3]any `json:"tokens"`
	Escaped  bool     `json:"escaped"` // an identifier with an escape
	HTML     bool     `json:"html"`    // an HTML-like comment
	Pieces   []Piece  `json:"pieces"`
	Spans    [][4]any `json:"spans"` // type, detail, start, end
}

// Piece is a statement or an expression of a program.
type Piece struct {
	Stmt  bool     `json:"stmt"`
	Toks  []string `json:"toks"`  // gap, token, gap, token, ...
	Exprs [][2]int `json:"exprs"` // token ranges of its expressions
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

func startAcorn() (*Acorn, error) {
	d := verifDir()
	cmd := exec.Command("node", "--no-warnings", "--experimental-vm-modules", "--stack-size=20000", "--max-old-space-size=3000", filepath.Join(d, "harness/acorn_server.js"), filepath.Join(d, "third_party/acorn/acorn.js"))
	in, err := cmd.StdinPipe()
	if err != nil {
		return nil, err
	}
	out, err := cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	cmd.Stderr = os.Stderr
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	return &Acorn{cmd: cmd, in: in, out: bufio.NewReaderSize(out, 1<<20)}, nil
}

func (a *Acorn) do(q AcornReq) *AcornRes {
	a.mu.Lock()
	defer a.mu.Unlock()
	b, err := json.Marshal(q)
	if err != nil {
		panic(err)
	}
	b = append(b, '\n')
	if _, err := a.in.Write(b); err != nil {
		fatalf("acorn: %v", err)
	}
	line, err := a.out.ReadBytes('\n')
	if err != nil {
		fatalf("acorn: %v", err)
	}
	r := &AcornRes{}
	if err := json.Unmarshal(line, r); err != nil {
		fatalf("acorn: %v: %.200s", err, line)
	}
	a.n++
	if r.AST != nil {
		r.AST = normalise(r.AST)
	}
	return r
}

func (a *Acorn) parse(src, mode string) *AcornRes {
	return a.do(AcornReq{Src: src, Mode: mode})
}

// v8 asks the JavaScript engine that runs acorn whether it accepts a text: a
// third witness, consulted before a disagreement with acorn is reported.
func (a *Acorn) v8(src, mode string) *AcornRes {
	return a.do(AcornReq{Src: src, Mode: mode, V8: true})
}

func (a *Acorn) close() {
	if a != nil {
		a.in.Close()
		a.cmd.Wait()
	}
}

// earlyError tells whether acorn's message reports a static semantics error
// (an early error in the specification's sense) rather than a text that no
// grammar production matches.
var earlyRE = regexp.MustCompile(`^(Identifier '.*' has already been declared|Argument name clash|Redefinition of __proto__|Undefined label|Unsyntactic (break|continue)|Label '.*' is already declared|Invalid regular expression|Invalid regular expression flag|Duplicate (constructor|export|regular)|'return' outside of function|Assigning to .* in strict mode|Binding .* in strict mode|Deleting local variable in strict mode|Octal literal in strict mode|Duplicate import|Constructor can't|Classes? (may|can)|Illegal 'use strict' directive|let is disallowed|'super' |'new.target'|Cannot use|Private (field|name)|Invalid number|Legacy octal|Export |delete )`)

func (r *AcornRes) early() bool { return !r.OK && earlyRE.MatchString(r.Err) }

func fatalf(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "harness: "+f+"\n", a...)
	os.Exit(3)
}
