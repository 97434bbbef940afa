package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"net/url"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"strconv"
	"strings"
	"time"
)

func init() { checks["C20"] = c20 }

// buildRepo builds a package of the repository's working tree.
func buildRepo(out, pkg string, env ...string) string {
	dir := filepath.Join(verifDir(), ".build")
	os.MkdirAll(dir, 0o777)
	out = filepath.Join(dir, out)
	cmd := exec.Command("go", "build", "-buildvcs=false", "-mod=readonly", "-o", out, pkg)
	cmd.Dir = "/repo"
	cmd.Env = append(append(os.Environ(), "GOFLAGS="), env...)
	if b, err := cmd.CombinedOutput(); err != nil {
		fatalf("build %s: %v\n%s", pkg, err, b)
	}
	return out
}

// estreeFile is a file with what the library makes of it.
type estreeFile struct {
	content []byte
	special string // "missing", "directory", or a path that exists already
}

// want is what is expected of one argument.
type estreeWant struct {
	doc  any    // decoded ESTree, nil on failure
	fail string // why it must fail: "open", "read" or "parse"
	loc  string // what standard error must contain besides the name
}

func decodeExact(b []byte) (any, error) {
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	var v any
	if err := d.Decode(&v); err != nil {
		return nil, err
	}
	if _, err := d.Token(); err != io.EOF {
		return nil, fmt.Errorf("more than one JSON value")
	}
	return v, nil
}

func (w *Worker) estreeExpect(f estreeFile, abs string) (e estreeWant, usable bool) {
	switch f.special {
	case "missing":
		return estreeWant{fail: "open"}, true
	case "directory":
		return estreeWant{fail: "read"}, true
	}
	u := &url.URL{Scheme: "file", Path: abs}
	w.begin("script", string(f.content))
	o := parseFrom(bytes.NewReader(f.content), u, "script").convert()
	w.end()
	switch {
	case o.Panic != nil || o.kind() == "nothing" || o.TreeErr != "":
		return e, false // another property's business
	case o.Err != nil:
		loc, ok := errorLocation(o.Err)
		if !ok {
			return e, false
		}
		return estreeWant{fail: "parse", loc: fmt.Sprintf("%s:%d:%d", u, loc.Row, loc.Column)}, true
	}
	v, err := decodeExact(o.JSON)
	if err != nil {
		return e, false
	}
	return estreeWant{doc: v}, true
}

// segments splits the output at the separator lines.
func segments(out string) []string {
	var segs []string
	cur := []string{}
	for _, l := range strings.Split(out, "\n") {
		if l == "---" {
			segs = append(segs, strings.Join(cur, "\n"))
			cur = cur[:0]
			continue
		}
		cur = append(cur, l)
	}
	return append(segs, strings.Join(cur, "\n"))
}

// checkRun compares one run of the command with what is expected.
func checkRun(names []string, want []estreeWant, stdout, stderr string, exit int) string {
	failing := -1
	for i, e := range want {
		if e.fail != "" {
			failing = i
			break
		}
	}
	docs := len(want)
	if failing >= 0 {
		docs = failing
	}
	segs := segments(stdout)
	if docs == 0 && failing < 0 {
		if stdout != "" {
			return fmt.Sprintf("output without files: %q", clip(stdout, 200))
		}
	}
	if failing >= 0 || docs == 0 {
		// A separator may have been written before the failure.
		for len(segs) > docs && strings.TrimSpace(segs[len(segs)-1]) == "" && len(segs) > 0 {
			segs = segs[:len(segs)-1]
			if len(segs) == docs {
				break
			}
		}
	}
	if len(segs) != docs {
		return fmt.Sprintf("%d documents, want %d: %q", len(segs), docs, clip(stdout, 300))
	}
	for i := 0; i < docs; i++ {
		v, err := decodeExact([]byte(segs[i]))
		if err != nil {
			return fmt.Sprintf("document %d is not JSON: %v: %q", i+1, err, clip(segs[i], 200))
		}
		if !reflect.DeepEqual(v, want[i].doc) {
			return fmt.Sprintf("document %d differs from the library's: %s", i+1, diff("", want[i].doc, v))
		}
	}
	if failing < 0 {
		if exit != 0 {
			return fmt.Sprintf("exit status %d though every file is fine: %s", exit, clip(stderr, 300))
		}
		return ""
	}
	if exit == 0 {
		return fmt.Sprintf("exit status 0 though %q can not be processed (%s)", names[failing], want[failing].fail)
	}
	if strings.Contains(stderr, "goroutine ") || exit < 0 {
		return fmt.Sprintf("the command crashed: exit %d: %s", exit, clip(stderr, 500))
	}
	n := names[failing]
	if !strings.Contains(stderr, n) && !strings.Contains(stderr, strings.Trim(strconv.Quote(n), `"`)) && !strings.Contains(stderr, strings.Trim(strconv.QuoteToASCII(n), `"`)) {
		return fmt.Sprintf("the message does not name the file %q: %s", n, clip(stderr, 300))
	}
	if l := want[failing].loc; l != "" && !strings.Contains(stderr, l) {
		return fmt.Sprintf("the message does not say %s: %s", l, clip(stderr, 300))
	}
	return ""
}

type estreeRun struct {
	bin   string
	dir   string
	files map[string]estreeFile
	args  []string // names
	rel   bool     // arguments are relative
	stdin []byte
	limit int // limit of open files
	// The read of this file that fails, by fault injection.
	faultFile string
	faultAt   int
}

func (w *Worker) estreeRun(x estreeRun) {
	w.eval()
	var want []estreeWant
	for _, a := range x.args {
		abs := a
		if !filepath.IsAbs(a) {
			abs = filepath.Join(x.dir, a)
		}
		f, ok := x.files[a]
		if !ok {
			fatalf("C20: unknown file %q", a)
		}
		e, usable := w.estreeExpect(f, filepath.Clean(abs))
		if !usable {
			w.count("not_judged_library_fails", 1)
			return
		}
		want = append(want, e)
	}
	ctx, cancel := context.WithTimeout(context.Background(), 120*time.Second)
	defer cancel()
	args := append([]string{"--"}, x.args...)
	cmd := exec.CommandContext(ctx, x.bin, args...)
	if x.limit > 0 {
		cmd = exec.CommandContext(ctx, "/bin/bash", append([]string{"-c", `ulimit -n "$1"; shift; exec "$@"`, "-", strconv.Itoa(x.limit), x.bin}, args...)...)
	}
	if x.faultAt > 0 {
		cmd = exec.CommandContext(ctx, "strace", append([]string{"-f", "-qqq", "-o", filepath.Join(x.dir, "strace.log"), "-P", filepath.Join(x.dir, x.faultFile), "-e", "trace=read,pread64,readv", "-e", fmt.Sprintf("inject=read,pread64,readv:error=EIO:when=%d+", x.faultAt), x.bin}, args...)...)
		for i, a := range x.args {
			if a == x.faultFile {
				want[i] = estreeWant{fail: "read"}
			}
		}
		cmd.Env = append(os.Environ(), "GOMAXPROCS=1")
	}
	cmd.Dir = x.dir
	if x.stdin != nil {
		cmd.Stdin = bytes.NewReader(x.stdin)
	}
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	err := cmd.Run()
	exit := 0
	if err != nil {
		exit = cmd.ProcessState.ExitCode()
	}
	d := ""
	if x.faultAt > 0 {
		// The counting is per thread: see whether the fault was delivered.
		if b, err := os.ReadFile(filepath.Join(x.dir, "strace.log")); err != nil || !bytes.Contains(b, []byte("INJECTED")) {
			w.count("read_faults_not_delivered", 1)
			return
		}
		w.count("read_faults_delivered", 1)
	}
	if ctx.Err() != nil {
		d = "the command does not end"
	} else {
		d = checkRun(x.args, want, out.String(), errb.String(), exit)
	}
	if d != "" {
		fs := map[string]string{}
		for i, a := range x.args {
			if i < 6 {
				fs[a] = clip(string(x.files[a].content), 1500) + x.files[a].special
			}
		}
		w.violate(d, "estree", strings.Join(x.args, "\n"), map[string]any{"files": fs, "stdout": clip(out.String(), 1000), "stderr": clip(errb.String(), 1000), "exit": exit})
		return
	}
	failed := false
	for _, e := range want {
		if e.fail != "" {
			w.count("failures_"+e.fail, 1)
			failed = true
			break
		}
		w.count("documents_compared", 1)
	}
	if !failed {
		w.count("runs_that_succeed", 1)
	}
	if len(want) > 1 {
		w.count("runs_with_several_files", 1)
	}
	key := ""
	for _, a := range x.args {
		key += a + "\x00" + string(x.files[a].content) + "\x00" + x.files[a].special + "\x01"
	}
	w.note(key)
}

var oddNames = []string{"a.js", "b c.js", "ü.js", "日本.js", "-dash.js", "--", "-h", "a%20b.js", "a#b.js", "a?b.js", "quote'.js", "dquote\".js", "back\\slash.js", "new\nline.js", "tab\t.js", "%s%d.js", "noext", ".hidden", "sub/x.js", "sub/../y.js", "./z.js", "sub//w.js", "a:b.js", "C:x.js", "x;y.js", "*.js", "$HOME.js", "~", "http:", "[1].js", "a&b=c.js", "file:", strings.Repeat("n", 200) + ".js"}

func c20(c *Check) {
	c.rule = "the estree command is built from the working tree and run in scratch directories on lists of 0 to 300 files: valid programs, ill-formed ones, invalid UTF-8, empty files, missing files, directories, symbolic links, odd and relative names, repetitions, standard input, a low limit of open files, a full output device. Monitored: the documents on standard output against the library's result for each file, separators, exit status and the message on standard error. Non-trivial: a run judged; distinct: by names and contents."
	bin := buildRepo("estree-C20", "./cmd/estree")
	base, err := os.MkdirTemp("", "verif-c20")
	if err != nil {
		fatalf("%v", err)
	}
	defer os.RemoveAll(base)
	if base, err = filepath.EvalSymlinks(base); err != nil {
		fatalf("%v", err)
	}
	fixed := []string{"", " ", "\n", ";", "a", "a;b;c", "//", "/**/", "\ufeffa", "'use strict'; a", "1e999", "-1e999", "0.1e-400", "123456789012345678901234567890", "'\u2028'", "'<>&'", "x = '</script>'", "'\\ud800'", "'\"\\\\'", "'---'", "a\r\nb\r\nc", "a\r\n\r\n(", "(", ")", "var", "a b", "'", "/*", "/a", "\xff", "'\xff'", "a\xffb", "'\xc3", "\x00", "`a`", "let x = 1;\nlet y = ;\n", "\n\n   @", "é = ü +", "\u2028\u2029 }", "a\n---\nb", "'a\\\n---\\\n'", "/*\n---\n*/ a", "1_000", "if (a) b; else c", strings.Repeat("(", 5000), strings.Repeat("(", 300) + "a" + strings.Repeat(")", 300), strings.Repeat("a;", 3000), strings.Repeat("[", 2400) + strings.Repeat("]", 2400)}
	// Around the size of a read buffer.
	for _, n := range []int{4090, 4095, 4096, 4097, 8191, 8192, 65536} {
		for _, tail := range []string{"é", "𠮷", "\r\n", "=>", ">>>=", "/**/", "'x'", "a\xc3", ".5", "a(", ")"} {
			fixed = append(fixed, strings.Repeat(" ", n-len(tail)+1)+tail+" ", "/*"+strings.Repeat("x", n-5)+"*/"+tail, strings.Repeat("\n", n-1)+tail, "x"+strings.Repeat("y", n-2)+";"+tail)
		}
	}
	content := func(r *Rng) []byte {
		switch k := r.Intn(10); {
		case k < 4:
			p := defaultProfile(5 + r.Intn(60))
			p.Stmt = r.Float()
			t := genProgram(r, p, 1+r.Intn(4))
			if toks, _, err := printTree(t, r, 0.05); err == nil {
				if k == 0 {
					txt := make([]string, len(toks))
					for k := range toks {
						txt[k] = toks[k].Text
					}
					return []byte(strings.Join(corrupt(txt, r), pick(r, []string{" ", "\n", "\r\n"})))
				}
				return []byte(layout(toks, randomStyle(r), r).Src)
			}
			return nil
		case k < 6:
			return []byte(pick(r, scriptSeeds))
		case k < 7:
			return []byte(pick(r, unimplemented))
		}
		return []byte(pick(r, fixed))
	}
	valid := func(r *Rng) []byte {
		for {
			b := content(r)
			if parseFrom(bytes.NewReader(b), testURL, "script").Accepted() {
				return b
			}
		}
	}
	write := func(dir, name string, b []byte) bool {
		p := filepath.Join(dir, name)
		os.MkdirAll(filepath.Dir(p), 0o777)
		return os.WriteFile(p, b, 0o666) == nil
	}
	scratch := func(i int, kind string) string {
		d := filepath.Join(base, fmt.Sprint(kind, i))
		os.MkdirAll(d, 0o777)
		return d
	}
	// Every fixed content alone, and before and after a good file.
	c.run("contents", len(fixed), func(w *Worker, i int, r *Rng) {
		d := scratch(i, "contents")
		defer os.RemoveAll(d)
		files := map[string]estreeFile{"a.js": {content: []byte(fixed[i])}, "good.js": {content: []byte("good(1)")}}
		for n, f := range files {
			write(d, n, f.content)
		}
		for _, args := range [][]string{{"a.js"}, {"good.js", "a.js"}, {"a.js", "good.js"}, {"a.js", "a.js"}} {
			w.estreeRun(estreeRun{bin: bin, dir: d, files: files, args: args})
		}
		if i%40 == 0 {
			w.sample(map[string]any{"content": clip(fixed[i], 100)})
		}
	})
	c.run("names", len(oddNames), func(w *Worker, i int, r *Rng) {
		d := scratch(i, "names")
		defer os.RemoveAll(d)
		n := oddNames[i]
		for _, b := range []string{"a(1)", "a(\n  1", "", "a\n\n  b c", "\xff"} {
			if strings.Contains(n, "..") {
				os.MkdirAll(filepath.Join(d, "sub"), 0o777)
			}
			if !write(d, n, []byte(b)) {
				return
			}
			files := map[string]estreeFile{n: {content: []byte(b)}}
			abs := filepath.Join(d, n)
			files[abs] = files[n]
			files["missing/"+n] = estreeFile{special: "missing"}
			if b == "" {
				// A link to it.
				os.Symlink(filepath.Clean(n), filepath.Join(d, "link.js"))
			}
			w.estreeRun(estreeRun{bin: bin, dir: d, files: files, args: []string{n}})
			w.estreeRun(estreeRun{bin: bin, dir: d, files: files, args: []string{abs}})
			w.estreeRun(estreeRun{bin: bin, dir: d, files: files, args: []string{n, "missing/" + n}})
			w.estreeRun(estreeRun{bin: bin, dir: d, files: files, args: []string{n, abs, n}})
		}
		w.count("names", 1)
	})
	c.run("lists", c.n(2500), func(w *Worker, i int, r *Rng) {
		d := scratch(i, "lists")
		defer os.RemoveAll(d)
		files := map[string]estreeFile{}
		var args []string
		n := r.Intn(7)
		bad := -1
		if r.Chance(0.6) && n > 0 {
			bad = r.Intn(n)
		}
		for k := 0; k < n; k++ {
			name := fmt.Sprintf("f%d.js", k)
			if r.Chance(0.2) {
				name = fmt.Sprintf("%d%s", k, pick(r, []string{" b.js", "ü.js", "%20.js", "#.js", ".mjs", "", "日本"}))
			}
			f := estreeFile{content: valid(r)}
			if k == bad {
				switch r.Intn(5) {
				case 0:
					f = estreeFile{special: "missing"}
				case 1:
					f = estreeFile{special: "directory"}
				default:
					f = estreeFile{content: content(r)}
				}
			}
			switch f.special {
			case "missing":
			case "directory":
				os.MkdirAll(filepath.Join(d, name), 0o777)
			default:
				write(d, name, f.content)
				if r.Chance(0.1) {
					os.Rename(filepath.Join(d, name), filepath.Join(d, name+".real"))
					os.Symlink(name+".real", filepath.Join(d, name))
				}
			}
			files[name] = f
			args = append(args, name)
			if r.Chance(0.1) {
				args = append(args, pick(r, args))
			}
			if r.Chance(0.1) {
				abs := filepath.Join(d, name)
				files[abs] = f
				args[len(args)-1] = abs
				files[name] = f
			}
		}
		w.estreeRun(estreeRun{bin: bin, dir: d, files: files, args: args})
	})
	// Long lists, with few files that may be open.
	c.run("long lists", c.n(8), func(w *Worker, i int, r *Rng) {
		d := scratch(i, "long")
		defer os.RemoveAll(d)
		files := map[string]estreeFile{}
		var args []string
		for k := 0; k < 40+i*40; k++ {
			name := fmt.Sprintf("f%d.js", k)
			b := []byte(fmt.Sprintf("f(%d)", k))
			if k%7 == 0 {
				b = valid(r)
			}
			write(d, name, b)
			files[name] = estreeFile{content: b}
			args = append(args, name)
		}
		if i%2 == 1 {
			args = append(args, "none.js")
			files["none.js"] = estreeFile{special: "missing"}
		}
		w.estreeRun(estreeRun{bin: bin, dir: d, files: files, args: args})
		w.estreeRun(estreeRun{bin: bin, dir: d, files: files, args: args, limit: 32})
		w.count("long_lists", 1)
	})
	// Standard input as a file, and real programs.
	c.run("stdin", 40, func(w *Worker, i int, r *Rng) {
		d := scratch(i, "stdin")
		defer os.RemoveAll(d)
		b := content(r)
		files := map[string]estreeFile{"/dev/stdin": {content: b}, "a.js": {content: []byte("a")}, "/proc/self/mem": {special: "directory"}}
		w.estreeRun(estreeRun{bin: bin, dir: d, files: files, args: []string{"/proc/self/mem"}})
		write(d, "a.js", []byte("a"))
		w.estreeRun(estreeRun{bin: bin, dir: d, files: files, args: []string{"a.js", "/dev/stdin"}, stdin: append([]byte{}, b...)})
		w.count("standard_input", 1)
	})
	// Read errors, injected into the system calls. The text up to any failing
	// read is a complete program.
	if exec.Command("strace", "-f", "-qqq", "-o", "/dev/null", "/bin/true").Run() == nil {
		c.run("read faults", c.n(60), func(w *Worker, i int, r *Rng) {
			d := scratch(i, "fault")
			defer os.RemoveAll(d)
			b := []byte(strings.Repeat("a;\n", 1+r.Intn(20000)))
			files := map[string]estreeFile{"f.js": {content: b}, "good.js": {content: []byte("good")}}
			write(d, "f.js", b)
			write(d, "good.js", []byte("good"))
			// Even the read that would find the end of the file.
			at := 1
			if r.Chance(0.7) {
				at = 1 + r.Intn(len(b)/4096+2)
			}
			args := []string{"f.js"}
			if r.Chance(0.5) {
				args = []string{"good.js", "f.js", "good.js"}
			}
			w.estreeRun(estreeRun{bin: bin, dir: d, files: files, args: args, faultFile: "f.js", faultAt: at})
		})
	} else {
		c.assume = append(c.assume, "strace could not run here: no read errors were injected into the command")
	}
	real := corpus(c.n(30), 60000)
	c.run("real programs", len(real), func(w *Worker, i int, r *Rng) {
		b, err := os.ReadFile(real[i])
		if err != nil {
			return
		}
		w.estreeRun(estreeRun{bin: bin, dir: base, files: map[string]estreeFile{real[i]: {content: b}}, args: []string{real[i]}})
		w.count("real_programs", 1)
	})
	// A full device: the document can not be written.
	c.run("full device", 20, func(w *Worker, i int, r *Rng) {
		d := scratch(i, "full")
		defer os.RemoveAll(d)
		write(d, "a.js", valid(r))
		full, err := os.OpenFile("/dev/full", os.O_WRONLY, 0)
		if err != nil {
			return
		}
		defer full.Close()
		w.eval()
		cmd := exec.Command(bin, "a.js")
		cmd.Dir = d
		cmd.Stdout = full
		if cmd.Run() == nil {
			w.violate("exit status 0 though the output could not be written", "estree", "a.js", nil)
			return
		}
		w.count("full_device", 1)
	})
	c.require("documents_compared", 3000, "runs_with_several_files", 1000, "failures_open", 50, "failures_read", 50, "failures_parse", 300, "runs_that_succeed", 500)
}
