package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"net/url"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"runtime"
	"strings"
	"sync"
	"time"
)

func init() { checks["C29"] = c29 }

// pageHost is a process that runs one page after the other.
type pageHost struct {
	cmd  *exec.Cmd
	in   io.WriteCloser
	out  *bufio.Reader
	logs bytes.Buffer
	used int
}

type pageElement struct {
	Text    string `json:"text"`
	Value   string `json:"value"`
	Visible bool   `json:"visible"`
}

// shows tells whether the user can see something there.
func (e *pageElement) shows() bool {
	return e != nil && e.Visible && strings.TrimSpace(e.Text) != ""
}

type pageState struct {
	Input, Output, Success, Error *pageElement
	Parses                        []struct {
		Text string
		At   float64
		Kind string
	}
	Uncaught, Logs, Missing, Names []string
	Ready                          bool
	Copied, Navigated              *string
	Host                           string
}

// pageOp is a command for the host.
type pageOp struct {
	Op        string          `json:"op"`
	URL       string          `json:"url,omitempty"`
	Streaming bool            `json:"streaming,omitempty"`
	Text      json.RawMessage `json:"text,omitempty"`
	Ms        int             `json:"ms"`
	How       string          `json:"how,omitempty"`
	Code      int             `json:"code,omitempty"`

	text  jsString // for type
	quiet bool     // judge the page after it
	burst int      // the number of keystrokes of a burst that ends here
}

func startPageHost(dist string) *pageHost {
	cmd := exec.Command("node", "--stack-size=3900", filepath.Join(verifDir(), "harness/page_host.js"), dist)
	h := &pageHost{cmd: cmd}
	h.in, _ = cmd.StdinPipe()
	out, _ := cmd.StdoutPipe()
	cmd.Stderr = &h.logs
	if err := cmd.Start(); err != nil {
		fatalf("node: %v", err)
	}
	h.out = bufio.NewReaderSize(out, 1<<20)
	return h
}

func (h *pageHost) do(ops []pageOp) ([]pageState, string) {
	b, err := json.Marshal(ops)
	if err != nil {
		return nil, err.Error()
	}
	h.used++
	type res struct {
		line []byte
		err  error
	}
	ch := make(chan res, 1)
	go func() {
		h.in.Write(append(b, '\n'))
		l, err := h.out.ReadBytes('\n')
		ch <- res{l, err}
	}()
	select {
	case r := <-ch:
		if r.err != nil {
			h.cmd.Wait()
			return nil, "the host process died: " + clip(h.logs.String(), 500)
		}
		var a []pageState
		if err := json.Unmarshal(r.line, &a); err != nil {
			return nil, "unreadable answer: " + clip(string(r.line), 200)
		}
		return a, ""
	case <-time.After(150 * time.Second):
		h.cmd.Process.Kill()
		return nil, "no answer"
	}
}

func (h *pageHost) close() {
	h.in.Close()
	done := make(chan bool)
	go func() { h.cmd.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(10 * time.Second):
		h.cmd.Process.Kill()
		<-done
	}
}

// textarea is the value of a text area of which the text was set.
func textarea(s string) string {
	return strings.ReplaceAll(strings.ReplaceAll(s, "\r\n", "\n"), "\r", "\n")
}

// buildPage runs web/build.sh on a copy of the working tree.
func buildPage() string {
	dir, err := os.MkdirTemp("", "verif-page-")
	if err != nil {
		fatalf("%v", err)
	}
	script := `set -e
cd /repo
for f in go.mod go.sum web cmd ecmascript; do cp -r "$f" "$0/"; done
cd "$0"
sh web/build.sh`
	cmd := exec.Command("sh", "-c", script, dir)
	cmd.Env = append(os.Environ(), "GOFLAGS=-buildvcs=false -mod=readonly")
	if b, err := cmd.CombinedOutput(); err != nil {
		os.RemoveAll(dir)
		fatalf("web/build.sh: %v\n%s", err, b)
	}
	return dir
}

const pageURL = "http://demo.invalid/parser/"

// pageHistory makes a random history of a page.
func pageHistory(r *Rng, text func(*Rng) jsString) []pageOp {
	// People come back to what they had before, and to nothing.
	fresh, pool := text, []jsString{{}}
	text = func(r *Rng) jsString {
		if r.Chance(0.4) {
			s := pick(r, pool)
			if len(s) > 0 && r.Chance(0.2) {
				s = s[:len(s)-1]
			}
			return s
		}
		s := fresh(r)
		pool = append(pool, s)
		return s
	}
	open := pageOp{Op: "open", URL: pageURL, Streaming: r.Chance(0.7)}
	if r.Chance(0.3) {
		q := url.Values{"code": {text(r).text()}}
		if r.Chance(0.3) {
			q.Set("a", "b c")
		}
		open.URL += "?" + q.Encode()
	}
	if r.Chance(0.15) {
		open.URL += "#x"
	}
	ops := []pageOp{open}
	typ := func() {
		s := text(r)
		ops = append(ops, pageOp{Op: "type", Text: s.json(), text: s})
	}
	wait := func() {
		ops = append(ops, pageOp{Op: "advance", Ms: pick(r, []int{0, 1, 10, 100, 300, 499, 500, 501, 700, 2000})})
	}
	quiet := func() { ops = append(ops, pageOp{Op: "advance", Ms: 10000, quiet: true}) }
	how := "ok"
	if r.Chance(0.12) {
		how = pick(r, []string{"missing", "offline", "cut"})
	}
	n := 1 + r.Intn(12)
	load, exit := r.Intn(n+1), -1
	if r.Chance(0.6) {
		load = 0
	}
	if r.Chance(0.1) {
		exit = load + r.Intn(n-load+1)
	}
	for i := 0; i <= n; i++ {
		if i == load {
			ops = append(ops, pageOp{Op: "load", How: how})
		}
		if i == exit && how == "ok" {
			ops = append(ops, pageOp{Op: "exit", Code: 1 + r.Intn(3)})
		}
		switch r.Intn(10) {
		case 0, 1, 2, 3:
			typ()
		case 4, 5:
			wait()
		case 6:
			// Someone types a text letter by letter.
			s := text(r)
			step := 1 + r.Intn(60)
			from := max(0, len(s)-20-r.Intn(20))
			ops = append(ops, pageOp{Op: "advance", Ms: 10000})
			for j := from; j <= len(s); j++ {
				ops = append(ops, pageOp{Op: "type", Text: s[:j].json(), text: s[:j]}, pageOp{Op: "advance", Ms: step})
			}
			ops[len(ops)-1].burst = len(s) - from + 1
		case 7:
			ops = append(ops, pageOp{Op: "share"})
		default:
			typ()
			quiet()
		}
	}
	quiet()
	return ops
}

// pageLife runs a history and judges the states of the page.
func (w *Worker) pageLife(h *pageHost, ops []pageOp) string {
	w.eval()
	states, bad := h.do(ops)
	if bad != "" {
		return bad
	}
	if len(states) != len(ops) {
		return fmt.Sprintf("%d answers to %d commands: %s", len(states), len(ops), clip(h.logs.String(), 300))
	}
	text, known := "", false // what the input should hold
	loaded, failed, exited := false, false, false
	shared := ""
	for i, op := range ops {
		s := &states[i]
		at := func(f string, a ...any) string {
			return fmt.Sprintf("after command %d (%s): ", i, op.Op) + fmt.Sprintf(f, a...)
		}
		if s.Host != "" {
			return at("the host failed: %s", s.Host)
		}
		if len(s.Missing) > 0 {
			return at("a script is not in what was built: %v", s.Missing)
		}
		if s.Input == nil || s.Output == nil || s.Success == nil || s.Error == nil {
			return at("the page lacks an element")
		}
		if len(s.Uncaught) > 0 {
			return at("an uncaught %s", clip(s.Uncaught[0], 400))
		}
		switch op.Op {
		case "open":
			u, err := url.Parse(op.URL)
			if err != nil {
				return at("%v", err)
			}
			known = true
			if u.Query().Has("code") {
				text = textarea(u.Query().Get("code"))
			} else {
				text = s.Input.Value
			}
		case "type":
			text = textarea(op.text.text())
		case "load":
			if len(s.Names) != 1 {
				return at("the page asked for %v", s.Names)
			}
			if op.How == "ok" {
				loaded = true
				if !s.Ready {
					return at("the parser was not handed over; the page shows %q; log: %v", clip(s.Error.Text, 300), s.Logs)
				}
			} else {
				failed = true
			}
		case "exit":
			exited = true
		case "share":
			if s.Copied == nil {
				return at("nothing was copied")
			}
			u, err := url.Parse(*s.Copied)
			if err != nil || !u.IsAbs() {
				return at("what was copied is not a URL: %q", clip(*s.Copied, 300))
			}
			shared = *s.Copied
			if got := textarea(u.Query().Get("code")); !u.Query().Has("code") || got != text {
				return at("the link holds %q, not %q: %s", clip(got, 200), clip(text, 200), clip(*s.Copied, 300))
			}
			if s.Navigated != nil && *s.Navigated != *s.Copied {
				return at("another page than the copied link is opened: %s", clip(*s.Navigated, 300))
			}
			w.count("shared", 1)
		}
		if known && s.Input.Value != text {
			return at("the input holds %q, not %q", clip(s.Input.Value, 200), clip(text, 200))
		}
		// What holds at any time.
		if s.Success.shows() && s.Error.shows() {
			return at("both a success (%q) and an error (%q) are shown", s.Success.Text, clip(s.Error.Text, 200))
		}
		if s.Success.shows() && !loaded {
			return at("a success is shown without a parser: %q", s.Success.Text)
		}
		if op.burst > 8 && loaded {
			n := 0
			for j := i; j > 0 && (ops[j].Op == "type" || ops[j].burst > 0 || j == i || ops[j].Op == "advance" && ops[j].Ms < 100); j-- {
				n += len(states[j].Parses)
			}
			if n > op.burst/4+1 {
				return at("%d keystrokes in quick succession were parsed %d times", op.burst, n)
			}
			w.count("bursts", 1)
		}
		w.count("parses_by_the_page", len(s.Parses))
		if !op.quiet {
			continue
		}
		switch {
		case exited, failed:
			if !s.Error.shows() {
				return at("the parser ended or could not be loaded, and no error is shown (text %q, visible %v)", clip(s.Error.Text, 200), s.Error.Visible)
			}
			if s.Success.shows() {
				return at("there is no parser, and a success is shown: %q", s.Success.Text)
			}
			if strings.HasPrefix(strings.TrimSpace(s.Output.Value), "{") {
				return at("there is no parser, and a tree is shown: %q", clip(s.Output.Value, 200))
			}
			if exited {
				w.count("quiet_after_exit", 1)
			} else {
				w.count("quiet_without_parser", 1)
			}
		case !loaded:
			if s.Error.shows() {
				return at("an error is shown before the parser was loaded: %q", clip(s.Error.Text, 200))
			}
			if strings.HasPrefix(strings.TrimSpace(s.Output.Value), "{") {
				return at("a tree is shown before the parser was loaded")
			}
			w.count("quiet_before_load", 1)
		default:
			w.begin("script", text)
			native := parseFrom(strings.NewReader(text), nil, "script").convert()
			w.end()
			if native.Panic != nil || native.TreeErr != "" || native.kind() == "nothing" || maxNesting(text) > 200 && strings.Contains(s.Error.Text, "nested too deeply") {
				w.count("not_judged", 1)
				continue
			}
			if native.Err != nil {
				m := native.message()
				switch {
				case !s.Error.shows() || !strings.Contains(s.Error.Text, m):
					return at("the text %q is not accepted (%s), and the error shown is %q (visible %v)", clip(text, 200), m, clip(s.Error.Text, 200), s.Error.Visible)
				case s.Success.shows():
					return at("a success is shown for %q", clip(text, 200))
				case strings.HasPrefix(strings.TrimSpace(s.Output.Value), "{"):
					return at("a tree is shown for %q, which is not accepted", clip(text, 200))
				}
				w.count("errors_shown", 1)
			} else {
				if s.Error.shows() {
					return at("the text %q is accepted, and an error is shown: %q", clip(text, 200), clip(s.Error.Text, 200))
				}
				if !s.Success.shows() {
					return at("no success is shown for %q (text %q, visible %v)", clip(text, 200), s.Success.Text, s.Success.Visible)
				}
				got, err := decodeExact([]byte(s.Output.Value))
				if err != nil {
					return at("what is shown is not JSON: %v: %q", err, clip(s.Output.Value, 200))
				}
				want, err := decodeExact(native.JSON)
				if err == nil && !reflect.DeepEqual(got, want) {
					return at("the tree shown is not that of the input %q: %s", clip(text, 200), diff("", want, got))
				}
				w.count("trees_shown", 1)
			}
			w.note(text)
		}
	}
	if shared == "" {
		return ""
	}
	// The last link that was shared, opened by someone else.
	u, _ := url.Parse(shared)
	if d := w.pageLife(h, []pageOp{{Op: "open", URL: shared, Streaming: true}, {Op: "load", How: "ok"}, {Op: "advance", Ms: 10000, quiet: true}}); d != "" {
		return fmt.Sprintf("a shared link, opened (%s): %s", clip(u.String(), 300), d)
	}
	w.count("shared_links_opened", 1)
	return ""
}

func c29(c *Check) {
	c.rule = "the demo page is built by web/build.sh from the working tree; its own scripts run under node over a document, a clock and a network of the host, with the real WebAssembly module behind them. Random histories - texts typed at once or letter by letter, pauses around and far from the delay of the page, the module arriving early, late, truncated or not at all, the instance ending, links being shared and opened - are played, and what the page shows is compared with the library's answer for what the input holds. Non-trivial: a quiet page with a parser that was judged; distinct: by text."
	c.assume = append(c.assume, "the document of the host knows values, texts, display, visibility and the hidden attribute, and no style sheets", "the glue code of the repository is that of an older Go than the installed one; the host gives the import object its newer name")
	dist := buildPage()
	defer os.RemoveAll(dist)
	fixed := bridgeFixed()
	text := func(r *Rng) jsString { return bridgeRandom(r, fixed) }
	index, err := os.ReadFile(filepath.Join(dist, "dist/index.html"))
	if err != nil || !bytes.Contains(index, []byte(`href="parser/"`)) {
		w := c.worker(0)
		w.violate(fmt.Sprintf("the start page does not link to the demo (%v)", err), "page", string(index), nil)
	}
	histories := c.n(2400)
	n := min(runtime.NumCPU(), 8)
	var wg sync.WaitGroup
	for k := 0; k < n; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			w := c.worker(k)
			h := startPageHost(filepath.Join(dist, "dist"))
			defer func() { h.close() }()
			for i := k; i < histories; i += n {
				if c.stop() {
					return
				}
				if h.used > 60 {
					h.close()
					h = startPageHost(filepath.Join(dist, "dist"))
				}
				ops := pageHistory(newRng(c.Seed, c.ID, "history", i), text)
				if d := w.pageLife(h, ops); d != "" {
					b, _ := json.Marshal(ops)
					w.violate(d, "page", string(b), map[string]any{"log": clip(h.logs.String(), 500)})
					h.close()
					h = startPageHost(filepath.Join(dist, "dist"))
					continue
				}
				w.count("histories", 1)
				if i%50 == 0 {
					b, _ := json.Marshal(ops)
					w.sample(clip(string(b), 300))
				}
				w.count("commands", len(ops))
			}
		}(k)
	}
	wg.Wait()
	c.require("histories", 100, "trees_shown", 100, "errors_shown", 100, "shared_links_opened", 20, "quiet_after_exit", 10, "quiet_without_parser", 10, "quiet_before_load", 10, "bursts", 20)
}
