package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync/atomic"
	"syscall"
	"time"
	"unsafe"
)

// A check runs in a child process, because a stack overflow, an endless loop or
// exhausted memory can not be handled from within. Before each call into the
// system under test, the child writes the input into shared memory; the parent
// watches for a crash or for lack of progress and attributes it to the input.

const slotSize = 4 << 20
const numSlots = 64

type Slot struct{ mem []byte }

type Slots struct{ mem []byte }

var theSlots *Slots

func openSlots(path string) *Slots {
	f, err := os.OpenFile(path, os.O_RDWR, 0)
	if err != nil {
		fatalf("slots: %v", err)
	}
	defer f.Close()
	m, err := syscall.Mmap(int(f.Fd()), 0, slotSize*numSlots, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		fatalf("slots: %v", err)
	}
	return &Slots{m}
}

func (s *Slots) get(k int) *Slot {
	if s == nil {
		return &Slot{make([]byte, slotSize)}
	}
	return &Slot{s.mem[k*slotSize : (k+1)*slotSize]}
}

func (s *Slot) seq() *uint64 { return (*uint64)(unsafe.Pointer(&s.mem[0])) }

// begin marks the start of a call; the sequence number is odd during calls.
func (s *Slot) begin(mode, src string) {
	b := []byte(src)
	if len(b) > slotSize-64 {
		b = b[:slotSize-64]
	}
	copy(s.mem[16:32], mode+"\x00")
	binary.LittleEndian.PutUint64(s.mem[8:], uint64(len(b)))
	copy(s.mem[32:], b)
	atomic.AddUint64(s.seq(), 1)
}

func (s *Slot) end() { atomic.AddUint64(s.seq(), 1) }

func (w *Worker) begin(mode, src string) { w.slot.begin(mode, src) }
func (w *Worker) end()                   { w.slot.end() }

type active struct {
	mode, src string
}

func (s *Slot) current() (active, bool) {
	if atomic.LoadUint64(s.seq())%2 == 0 {
		return active{}, false
	}
	n := binary.LittleEndian.Uint64(s.mem[8:])
	m := string(s.mem[16:32])
	m, _, _ = strings.Cut(m, "\x00")
	return active{m, string(s.mem[32 : 32+n])}, true
}

// cpuTime returns the CPU time a process has used, in seconds.
func cpuTime(pid int) float64 {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/stat", pid))
	if err != nil {
		return 0
	}
	i := bytes.LastIndexByte(b, ')')
	f := strings.Fields(string(b[i+1:]))
	if len(f) < 13 {
		return 0
	}
	u, _ := strconv.ParseFloat(f[11], 64)
	s, _ := strconv.ParseFloat(f[12], 64)
	return (u + s) / 100
}

func rss(pid int) int64 {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/statm", pid))
	if err != nil {
		return 0
	}
	f := strings.Fields(string(b))
	if len(f) < 2 {
		return 0
	}
	n, _ := strconv.ParseInt(f[1], 10, 64)
	return n * 4096
}

const (
	hangWall = 45 * time.Second
	hangCPU  = 20.0 // seconds of CPU time without progress of a call
	// Limits for a single input in a fresh process.
	probeCPU = 20.0
	probeMem = 3 << 30
)

// memLimit bounds the memory of a whole run.
var memLimit = int64(envInt("VERIF_MEM_GB", 12)) << 30

// tail keeps the first and last part of what is written to it.
type tail struct {
	buf bytes.Buffer
}

func (t *tail) Write(b []byte) (int, error) {
	if t.buf.Len() < 1<<20 {
		t.buf.Write(b)
	}
	return len(b), nil
}

// watch runs a command and tells how it ended: "ok", "crash" or "stuck".
func watch(cmd *exec.Cmd, slots *Slots, cpuLimit float64, mem int64) (string, int, []active) {
	if err := cmd.Start(); err != nil {
		fatalf("start: %v", err)
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	tick := time.NewTicker(100 * time.Millisecond)
	defer tick.Stop()
	type mark struct {
		seq  uint64
		at   time.Time
		cpu  float64
		busy bool
	}
	marks := make([]mark, numSlots)
	collect := func() []active {
		var l []active
		for k := 0; k < numSlots; k++ {
			if a, ok := slots.get(k).current(); ok {
				l = append(l, a)
			}
		}
		return l
	}
	for {
		select {
		case err := <-done:
			code := 0
			if err != nil {
				code = cmd.ProcessState.ExitCode()
			}
			if code == 0 || code == 1 || code == 2 && cmd.ProcessState.Exited() && len(collect()) == 0 || code == 3 {
				return "ok", code, nil
			}
			return "crash", code, collect()
		case <-tick.C:
			cpu := cpuTime(cmd.Process.Pid)
			var stuck []active
			for k := range marks {
				s := slots.get(k)
				q := atomic.LoadUint64(s.seq())
				if q%2 == 0 || q != marks[k].seq {
					marks[k] = mark{seq: q, at: time.Now(), cpu: cpu}
					continue
				}
				if time.Since(marks[k].at) > hangWall && cpu-marks[k].cpu > cpuLimit {
					if a, ok := s.current(); ok {
						stuck = append(stuck, a)
					}
				}
			}
			if len(stuck) == 0 && rss(cmd.Process.Pid) > mem {
				stuck = collect()
			}
			if len(stuck) > 0 {
				syscall.Kill(cmd.Process.Pid, syscall.SIGKILL)
				<-done
				return "stuck", -1, stuck
			}
		}
	}
}

func makeSlots() (string, *Slots) {
	f, err := os.CreateTemp("", "verif-slots")
	if err != nil {
		fatalf("%v", err)
	}
	f.Truncate(slotSize * numSlots)
	f.Close()
	return f.Name(), openSlots(f.Name())
}

func supervise(id string) int {
	path, slots := makeSlots()
	defer os.Remove(path)
	cmd := exec.Command(os.Args[0], os.Args[1:]...)
	cmd.Env = append(os.Environ(), "VERIF_CHILD="+path, "GOTRACEBACK=all")
	captured := path + ".captured"
	if id == "C18" {
		// Race reports go to files, and what the system under test prints to
		// another: see c18.
		cmd.Env = append(cmd.Env, "VERIF_CAPTURE="+captured, "VERIF_RACELOG="+path+".race", "GORACE=log_path="+path+".race halt_on_error=0 exitcode=0 history_size=3")
		defer func() {
			os.Remove(captured)
			m, _ := filepath.Glob(path + ".race*")
			for _, f := range m {
				os.Remove(f)
			}
		}()
	}
	t := &tail{}
	seen := &violationWatch{}
	cmd.Stdout = seen
	cmd.WaitDelay = 5 * time.Second
	cmd.Stderr = io.MultiWriter(t, &limited{w: os.Stderr, n: 1 << 16})
	end, code, act := watch(cmd, slots, hangCPU, memLimit)
	if seen.found && code != 1 {
		fmt.Printf("%s: the run ended abnormally (%s, exit %d) after it reported violations\n", id, end, code)
	}
	if seen.found {
		return 1
	}
	if end == "ok" {
		return code
	}
	// Something died or is stuck. Try the inputs one by one in a fresh process.
	c := newCheck(id)
	c.rule = "the check's process died; the inputs it was parsing were run alone"
	if b, err := os.ReadFile(captured); err == nil {
		t.Write(b)
	}
	frames := strings.Contains(t.buf.String(), "jchv/cleansheets/")
	fmt.Printf("%s: the process parsing the inputs below ended abnormally (%s, exit %d)\n", id, end, code)
	for _, a := range act {
		c.eval()
		if how := probe(a); how != "" {
			c.violate(how, a.mode, a.src, nil)
		}
	}
	if len(c.violations) == 0 && len(c.knownHits) == 0 && frames && (end == "crash" || end == "stuck") && len(act) > 0 {
		// Not reproducible alone, but the process died inside the parser.
		c.violate("process died while parsing: "+firstLine(t.buf.String()), act[0].mode, act[0].src, clip(t.buf.String(), 4000))
	}
	c.sample("aborted run")
	rc := c.finish()
	if rc == 0 {
		fmt.Printf("%s: inconclusive: the run was aborted and the cause could not be attributed\n", id)
		return 2
	}
	return rc
}

// violationWatch passes the output of the child on, and notes whether it
// reported a violation.
type violationWatch struct {
	line  []byte
	found bool
}

func (v *violationWatch) Write(b []byte) (int, error) {
	for _, c := range b {
		if c == '\n' {
			v.found = v.found || bytes.HasPrefix(v.line, []byte("VIOLATION property="))
			v.line = v.line[:0]
		} else if len(v.line) < 100 {
			v.line = append(v.line, c)
		}
	}
	return os.Stdout.Write(b)
}

func firstLine(s string) string {
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, "fatal error") || strings.HasPrefix(l, "panic:") || strings.HasPrefix(l, "runtime:") {
			return l
		}
	}
	return "no message"
}

type limited struct {
	w io.Writer
	n int
}

func (l *limited) Write(b []byte) (int, error) {
	k := len(b)
	if k > l.n {
		b = b[:l.n]
	}
	l.n -= len(b)
	l.w.Write(b)
	return k, nil
}

// probe parses one input in a process of its own and describes what went wrong,
// or returns "".
func probe(a active) string {
	path, slots := makeSlots()
	defer os.Remove(path)
	in := path + ".in"
	b, _ := json.Marshal(Known{Mode: a.mode, Src: a.src})
	os.WriteFile(in, b, 0o666)
	defer os.Remove(in)
	cmd := exec.Command(os.Args[0], "probe", in)
	cmd.Env = append(os.Environ(), "VERIF_CHILD="+path, "VERIF_PROBE=1")
	t := &tail{}
	cmd.Stderr = t
	cmd.SysProcAttr = &syscall.SysProcAttr{}
	end, code, _ := watch(cmd, slots, probeCPU, probeMem)
	switch {
	case end == "stuck":
		return "parsing does not terminate (or exhausts memory)"
	case end == "crash" || code == 2:
		return "parsing kills the process: " + firstLine(t.buf.String())
	}
	return ""
}

func probeMain(file string) {
	b, err := os.ReadFile(file)
	if err != nil {
		fatalf("%v", err)
	}
	var k Known
	if err := json.Unmarshal(b, &k); err != nil {
		fatalf("%v", err)
	}
	if p := os.Getenv("VERIF_CHILD"); p != "" {
		theSlots = openSlots(p)
	}
	c := newCheck("probe")
	w := &Worker{Check: c, slot: theSlots.get(0)}
	o := w.parse(k.Src, k.Mode)
	if os.Getenv("VERIF_PROBE") == "" {
		fmt.Println(o)
		fmt.Printf("%s\n", o.JSON)
		if o.Panic != nil {
			fmt.Println(o.Stack)
		}
	}
	_ = filepath.Base
}
