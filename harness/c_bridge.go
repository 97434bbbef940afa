package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"runtime"
	"strings"
	"sync"
	"time"
	"unicode/utf16"
)

func init() { checks["C21"] = c21 }

// bridge is one instance of the WebAssembly parser.
type bridge struct {
	cmd  *exec.Cmd
	in   io.WriteCloser
	out  *bufio.Reader
	logs bytes.Buffer
	hist []string // the last inputs, as JSON
	n    int
}

type bridgeAnswer struct {
	Ready      bool     `json:"ready"`
	Kind       string   `json:"kind"`
	Keys       []string `json:"keys"`
	Result     string   `json:"result"`
	ResultType string   `json:"resultType"`
	Error      string   `json:"error"`
	ErrorType  string   `json:"errorType"`
	Threw      string   `json:"threw"`
	Exited     any      `json:"exited"`
	Printed    string   `json:"printed"`
	Host       string   `json:"host"`
}

func startBridge(wasm, exe string) (*bridge, string) {
	cmd := exec.Command("node", "--stack-size=3900", filepath.Join(verifDir(), "harness/wasm_host.js"), exe, wasm)
	b := &bridge{cmd: cmd}
	b.in, _ = cmd.StdinPipe()
	out, _ := cmd.StdoutPipe()
	cmd.Stderr = &b.logs
	if err := cmd.Start(); err != nil {
		fatalf("node: %v", err)
	}
	b.out = bufio.NewReaderSize(out, 1<<20)
	a, err := b.read(60 * time.Second)
	if err != "" {
		return b, err
	}
	if !a.Ready {
		return b, fmt.Sprintf("the instance did not hand over its function (exited: %v)", a.Exited)
	}
	return b, ""
}

func (b *bridge) read(limit time.Duration) (*bridgeAnswer, string) {
	type res struct {
		line []byte
		err  error
	}
	ch := make(chan res, 1)
	go func() {
		l, err := b.out.ReadBytes('\n')
		ch <- res{l, err}
	}()
	select {
	case r := <-ch:
		if r.err != nil {
			b.cmd.Wait()
			return nil, "the host process died: " + clip(b.logs.String(), 500)
		}
		a := &bridgeAnswer{}
		if err := json.Unmarshal(r.line, a); err != nil {
			return nil, "unreadable answer: " + clip(string(r.line), 200)
		}
		return a, ""
	case <-time.After(limit):
		b.cmd.Process.Kill()
		return nil, "no answer"
	}
}

func (b *bridge) close() {
	b.in.Close()
	done := make(chan bool)
	go func() { b.cmd.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(10 * time.Second):
		b.cmd.Process.Kill()
		<-done
	}
}

// jsString is a JavaScript string, which may hold lone surrogates.
type jsString []uint16

func jsOf(s string) jsString { return utf16.Encode([]rune(s)) }

func (s jsString) json() []byte {
	var b bytes.Buffer
	b.WriteByte('"')
	for _, u := range s {
		switch {
		case u == '"' || u == '\\':
			b.WriteByte('\\')
			b.WriteByte(byte(u))
		case u >= 0x20 && u < 0x7f:
			b.WriteByte(byte(u))
		default:
			fmt.Fprintf(&b, "\\u%04x", u)
		}
	}
	b.WriteByte('"')
	return b.Bytes()
}

// text is the string as the bridge must see it: lone surrogates become U+FFFD.
func (s jsString) text() string { return string(utf16.Decode(s)) }

// call sends one string and judges the answer.
func (w *Worker) bridgeCall(b *bridge, s jsString) string {
	w.eval()
	src := s.text()
	line := append(s.json(), '\n')
	b.hist = append(b.hist, clip(src, 300))
	if len(b.hist) > 5 {
		b.hist = b.hist[1:]
	}
	b.n++
	w.begin("script", src)
	native := parseFrom(strings.NewReader(src), nil, "script").convert()
	w.end()
	go b.in.Write(line)
	a, bad := b.read(150 * time.Second)
	if bad != "" {
		return bad
	}
	switch {
	case a.Host != "":
		return "the host failed: " + a.Host
	case a.Exited != nil:
		return fmt.Sprintf("the instance ended: %v; %s", a.Exited, clip(a.Printed+a.Threw, 500))
	case a.Threw != "":
		return "the call threw: " + clip(a.Threw, 500)
	case a.Kind != "object":
		return "the answer is " + a.Kind
	case a.Printed != "":
		return fmt.Sprintf("the instance printed %q", clip(a.Printed, 300))
	case len(a.Keys) != 1 || a.Keys[0] != "result" && a.Keys[0] != "error":
		return fmt.Sprintf("the answer has the fields %v", a.Keys)
	}
	if a.Keys[0] == "error" {
		if a.ErrorType != "string" || a.Error == "" {
			return fmt.Sprintf("the error is %s %q", a.ErrorType, a.Error)
		}
		if native.Panic != nil || native.TreeErr != "" || native.kind() == "nothing" {
			w.count("not_judged_library_fails", 1)
			return ""
		}
		if strings.Contains(a.Error, "nested too deeply") && native.message() != a.Error {
			// The stack is smaller there; see the property.
			if maxNesting(src) < 200 {
				return fmt.Sprintf("an error about nesting: %s; natively %s", a.Error, native)
			}
			w.count("nested_too_deeply", 1)
			return ""
		}
		if native.Err == nil {
			return "an error for a text the library accepts: " + clip(a.Error, 300)
		}
		if native.message() != a.Error {
			return fmt.Sprintf("another error than the library: %q, not %q", clip(a.Error, 300), clip(native.message(), 300))
		}
		w.count("errors_compared", 1)
		return ""
	}
	if a.ResultType != "string" {
		return "the result is " + a.ResultType
	}
	if native.Panic != nil || native.TreeErr != "" {
		w.count("not_judged_library_fails", 1)
		return ""
	}
	if native.Err != nil {
		return "a result for a text the library rejects: " + native.String()
	}
	got, err := decodeExact([]byte(a.Result))
	if err != nil {
		return "the result is not JSON: " + err.Error()
	}
	want, err := decodeExact(native.JSON)
	if err != nil {
		return ""
	}
	if !reflect.DeepEqual(got, want) {
		return "another result than the library: " + diff("", want, got)
	}
	w.count("results_compared", 1)
	return ""
}

// maxNesting is a crude bound of how deep a text nests: brackets and operators
// that recurse.
func maxNesting(src string) int {
	n := 0
	for _, c := range src {
		if strings.ContainsRune("([{=?:!~+-*/%&|<>^,.", c) {
			n++
		}
	}
	return n + strings.Count(src, "else") + strings.Count(src, "new") + strings.Count(src, "typeof") + strings.Count(src, "void") + strings.Count(src, "delete") + strings.Count(src, "do") + strings.Count(src, "in") + strings.Count(src, "async") + strings.Count(src, "while") + strings.Count(src, "for")
}

func c21(c *Check) {
	c.rule = "the WebAssembly parser is built from the working tree and run under node in several instances; each is called with long sequences of strings - programs, corrupted and unimplemented texts, lone surrogates, NULs, wide characters, deep nesting, large texts - and every answer is compared with the native library's on the same text; the host watches for exceptions, an exit of the instance and output. Non-trivial: an answered call; distinct: by text."
	c.assume = append(c.assume, "node stands in for a browser; the nesting limit of the WebAssembly build is lower than the native one, and texts between the limits are only required to be answered")
	wasm := buildRepo("parser-C21.wasm", "./web/parser", "GOOS=js", "GOARCH=wasm")
	root, err := exec.Command("go", "env", "GOROOT").Output()
	if err != nil {
		fatalf("go env: %v", err)
	}
	exe := ""
	for _, p := range []string{"lib/wasm/wasm_exec.js", "misc/wasm/wasm_exec.js"} {
		q := filepath.Join(strings.TrimSpace(string(root)), p)
		if _, err := os.Stat(q); err == nil {
			exe = q
			break
		}
	}
	if exe == "" {
		fatalf("no wasm_exec.js in %s", root)
	}
	fixed := bridgeFixed()
	var nested []jsString
	for i, n := range nestings {
		ds := []int{100, 240, 260, 300, 500, 600, 1000, 2400, 20000}
		if !c.Thorough {
			ds = []int{[]int{100, 240, 260}[i%3], []int{300, 500, 600}[i%3], []int{1000, 2400, 20000}[i%3]}
		}
		for _, d := range ds {
			nested = append(nested, jsOf(strings.Repeat(n.open, d)+n.mid+strings.Repeat(n.close, d)))
		}
	}
	type job struct {
		name string
		s    func(i int, r *Rng) jsString
		n    int
	}
	files := corpus(c.n(12), 40000)
	jobs := []job{
		{"fixed", func(i int, r *Rng) jsString { return fixed[i] }, len(fixed)},
		{"nested", func(i int, r *Rng) jsString { return nested[i] }, len(nested)},
		{"random", func(i int, r *Rng) jsString { return bridgeRandom(r, fixed) }, c.n(3000)},
		{"files", func(i int, r *Rng) jsString {
			b, err := os.ReadFile(files[i])
			if err != nil {
				return nil
			}
			return jsOf(string(b))
		}, len(files)},
		{"flat", func(i int, r *Rng) jsString { return jsOf(strings.Repeat(flats[i], 1000)) }, len(flats)},
		{"again", func(i int, r *Rng) jsString { return fixed[i] }, len(fixed)},
	}
	n := min(runtime.NumCPU(), 8)
	// Each instance gets its share of every job, and stays alive throughout.
	var wg sync.WaitGroup
	for k := 0; k < n; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			w := c.worker(k)
			b, bad := startBridge(wasm, exe)
			defer func() { b.close() }()
			if bad != "" {
				w.violate("the WebAssembly parser does not start: "+bad, "wasm", "", clip(b.logs.String(), 1000))
				return
			}
			for _, j := range jobs {
				for i := k; i < j.n; i += n {
					if c.stop() {
						return
					}
					s := j.s(i, newRng(c.Seed, c.ID, j.name, i))
					if d := w.bridgeCall(b, s); d != "" {
						w.violate(d, "wasm", s.text(), map[string]any{"calls before": b.n - 1, "last inputs": b.hist})
						b.close()
						if b, bad = startBridge(wasm, exe); bad != "" {
							return
						}
						continue
					}
					w.count("calls_"+j.name, 1)
					w.note(s.text())
					if i%500 == 7 {
						w.sample(clip(s.text(), 200))
					}
				}
			}
			w.count("instances", 1)
			w.count("calls_of_one_instance", b.n/n)
		}(k)
	}
	wg.Wait()
	c.require("results_compared", 1000, "errors_compared", 1000, "instances", 1, "nested_too_deeply", 50)
}

// bridgeFixed returns texts worth trying in every run.
func bridgeFixed() []jsString {
	var fixed []jsString
	for _, s := range []string{"", " ", "a", "(", "'\u2028'", "𠮷 = '𠮷'", "'<>&'", "\x00", "a\x00b", "'\x00'", "\ufeffa", "\ufffd", "'\ufffd'", "/[<>]/g", "1e999", "// é", "'\\u{1F600}'", "\U0010ffff", "'\U0010ffff'", "\"\\\\\"", "a\r\nb"} {
		fixed = append(fixed, jsOf(s))
	}
	for _, u := range [][]uint16{{0xd800}, {0xdc00}, {0xdc00, 0xd800}, {'\'', 0xd800, '\''}, {'\'', 0xdfff, 0xd83d, '\''}, {'/', '/', 0xd800}, {'a', 0xd83d}, {0xd83d, 0xde00}, {'\'', 0xd83d, 0xde00, '\''}, {'/', '*', 0xd800, '*', '/', 'a'}} {
		fixed = append(fixed, u)
	}
	for _, s := range append(append(append([]string{}, scriptSeeds...), unimplemented...), moduleSeeds...) {
		fixed = append(fixed, jsOf(s))
	}
	return fixed
}

// bridgeRandom returns a program, well-formed or not, or a string of anything.
func bridgeRandom(r *Rng, fixed []jsString) jsString {
	if r.Chance(0.1) {
		return pick(r, fixed)
	}
	if r.Chance(0.05) {
		u := make([]uint16, r.Intn(20))
		for i := range u {
			switch r.Intn(4) {
			case 0:
				u[i] = uint16(0xd800 + r.Intn(0x800))
			case 1:
				u[i] = uint16(r.U64())
			default:
				u[i] = uint16("'a /*=\n"[r.Intn(7)])
			}
		}
		if r.Chance(0.5) {
			u = append(append([]uint16{'\''}, u...), '\'')
		}
		return u
	}
	p := defaultProfile(5 + r.Intn(80))
	p.Stmt = r.Float()
	t := genProgram(r, p, 1+r.Intn(4))
	toks, _, err := printTree(t, r, 0.05)
	if err != nil {
		return jsOf("a")
	}
	if r.Chance(0.5) {
		txt := make([]string, len(toks))
		for k := range toks {
			txt[k] = toks[k].Text
		}
		return jsOf(strings.Join(corrupt(txt, r), " "))
	}
	return jsOf(layout(toks, randomStyle(r), r).Src)
}
