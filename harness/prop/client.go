// Package prop runs the properties: generated cases against adapter processes, with shrinking, replay files and counts.
package prop

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"verif/harness/wire"
)

// Infra is a failure of the machinery, never of the code under test.
type Infra struct{ Msg string }

func infra(format string, a ...any) { panic(Infra{fmt.Sprintf(format, a...)}) }

// Fail is a violated property.
type Fail struct{ Msg string }

func failf(format string, a ...any) *Fail { return &Fail{fmt.Sprintf(format, a...)} }

// Died is raised (as a panic) when the code under test took its process down or stopped answering.
type Died struct{ Msg string }

type tail struct {
	mu sync.Mutex
	b  []byte
}

func (t *tail) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.b = append(t.b, p...)
	if len(t.b) > 64<<10 {
		t.b = append([]byte{}, t.b[len(t.b)-32<<10:]...)
	}
	return len(p), nil
}
func (t *tail) String() string {
	t.mu.Lock()
	defer t.mu.Unlock()
	return string(t.b)
}

// Client is one adapter process.
type Client struct {
	Name string
	argv []string
	cmd  *exec.Cmd
	in   *bufio.Writer
	inC  io.Closer
	out  *bufio.Reader
	err  *tail
	buf  []byte
	done chan error
}

func (c *Client) start() {
	cmd := exec.Command(c.argv[0], c.argv[1:]...)
	cmd.Env = append(os.Environ(), "ASAN_OPTIONS=detect_leaks=0:exitcode=77:allocator_may_return_null=1:max_allocation_size_mb=8192", "GOMAXPROCS=8", "RUST_BACKTRACE=0",
		"GORACE=halt_on_error=1 exitcode=66", "GOTRACEBACK=single", "GOMEMLIMIT=2GiB")
	stdin, e1 := cmd.StdinPipe()
	stdout, e2 := cmd.StdoutPipe()
	c.err = &tail{}
	cmd.Stderr = c.err
	if e1 != nil || e2 != nil {
		infra("pipes: %v %v", e1, e2)
	}
	if err := cmd.Start(); err != nil {
		infra("cannot start adapter %s: %v", c.Name, err)
	}
	c.cmd, c.in, c.inC, c.out = cmd, bufio.NewWriterSize(stdin, 1<<16), stdin, bufio.NewReaderSize(stdout, 1<<16)
	c.done = make(chan error, 1)
}

// cpu is the processor time used so far by the adapter, in seconds.
func (c *Client) cpu() float64 { return cpuOf(c.cmd.Process.Pid) }

// cpuOf is the processor time used so far by a child of ours, in seconds.
func cpuOf(pid int) float64 {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/stat", pid))
	if err != nil {
		return 0
	}
	i := bytes.LastIndexByte(b, ')')
	f := strings.Fields(string(b[i+1:]))
	if len(f) < 13 {
		return 0
	}
	u, _ := strconv.ParseFloat(f[11], 64)
	s, _ := strconv.ParseFloat(f[12], 64)
	return (u + s) / 100
}

func (c *Client) stop() {
	if c.cmd == nil {
		return
	}
	c.inC.Close()
	c.cmd.Process.Kill()
	c.cmd.Wait()
	c.cmd = nil
}

// HangCPU is how much processor time one request may use before it counts as not terminating. Requests normally take
// well under a millisecond (tens of milliseconds for concurrent workloads, a few seconds for quarter-gigabyte payloads).
const HangCPU = 60.0
const WallLimit = 240 * time.Second

// Do sends one request and returns the response.
func (c *Client) Do(cmd byte, payload []byte) *wire.R {
	if c.cmd == nil {
		c.start()
	}
	type answer struct {
		b   []byte
		err error
	}
	before := 0.0
	ch := make(chan answer, 1)
	go func() {
		err := wire.WriteFrame(c.in, append([]byte{cmd}, payload...))
		if err != nil {
			ch <- answer{nil, err}
			return
		}
		b, err := wire.ReadFrame(c.out, c.buf)
		ch <- answer{b, err}
	}()
	var a answer
	begin := time.Now()
	tick := time.NewTimer(10 * time.Second)
	defer tick.Stop()
wait:
	for {
		select {
		case a = <-ch:
			break wait
		case <-tick.C:
			used := c.cpu()
			if before == 0 {
				before = used
			}
			if used-before > HangCPU {
				c.stop()
				panic(Died{fmt.Sprintf("%s: the request did not finish after more than %.0f s of processor time (endless loop)", c.Name, HangCPU)})
			}
			if time.Since(begin) > WallLimit {
				c.stop()
				infra("%s: no answer in %v (only %.1f s of processor time used)", c.Name, WallLimit, used-before)
			}
			tick.Reset(2 * time.Second)
		}
	}
	if a.err == nil {
		c.buf = a.b[:cap(a.b)]
		if len(c.buf) > 1<<22 {
			c.buf = nil
		}
		return &wire.R{B: a.b}
	}
	werr := c.cmd.Wait()
	text := c.err.String()
	ws, _ := c.cmd.ProcessState.Sys().(syscall.WaitStatus)
	code := c.cmd.ProcessState.ExitCode()
	c.cmd = nil
	if ws.Signaled() && ws.Signal() == syscall.SIGKILL {
		infra("%s: adapter killed (%v)", c.Name, werr)
	}
	if code == 3 {
		infra("%s: adapter refused the request: %s", c.Name, text)
	}
	if strings.Contains(text, "newosproc") || strings.Contains(text, "resource temporarily unavailable") || strings.Contains(text, "failed to create new OS thread") {
		infra("%s: out of system resources: %s", c.Name, text)
	}
	panic(Died{fmt.Sprintf("%s: the process under test died (%v): %s", c.Name, werr, excerpt(text))})
}

func excerpt(s string) string {
	if i := strings.Index(s, "SUMMARY:"); i >= 0 {
		j := strings.IndexByte(s[i:], '\n')
		if j < 0 {
			j = len(s) - i
		}
		head := s
		if len(head) > 700 {
			head = head[:700]
		}
		return s[i:i+j] + " | " + head
	}
	if len(s) > 1500 {
		s = s[:1500]
	}
	return s
}

// Env is what a check runs against.
type Env struct {
	argv    map[string][]string
	clients map[string]*Client
	Extra   map[string]string
}

func NewEnv(adapters string) *Env {
	e := &Env{argv: map[string][]string{}, clients: map[string]*Client{}, Extra: map[string]string{}}
	if adapters != "" {
		if err := json.Unmarshal([]byte(adapters), &e.argv); err != nil {
			infra("adapters: %v", err)
		}
	}
	return e
}

func (e *Env) A(name string) *Client {
	c := e.clients[name]
	if c == nil {
		argv, ok := e.argv[name]
		if !ok {
			infra("no adapter %s", name)
		}
		c = &Client{Name: name, argv: argv}
		e.clients[name] = c
	}
	return c
}

// Path is a configured path (a plugin binary, a generated server, ...).
func (e *Env) Path(name string) string {
	p, ok := e.argv[name]
	if !ok {
		infra("no path for %s", name)
	}
	return p[0]
}

// Finding is a known finding: a case that fails on the unchanged tree.
type Finding struct{ Path, Text string }

// Findings lists the known findings of a part. A line reads "property=P00 case=<file of the case> <what fails>"; the file
// lies in a directory named after the part.
func (e *Env) Findings(prop, part string) (out []Finding) {
	for _, l := range e.argv["known"] {
		w := strings.SplitN(l, " ", 3)
		if len(w) != 3 || w[0] != "property="+prop || !strings.HasPrefix(w[1], "case=") {
			continue
		}
		path := strings.TrimPrefix(w[1], "case=")
		if filepath.Base(filepath.Dir(path)) == part {
			out = append(out, Finding{path, w[2]})
		}
	}
	return
}

func (e *Env) Close() {
	for _, c := range e.clients {
		c.stop()
	}
}
