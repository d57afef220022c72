package prop

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"sync"
	"testing"

	"pgregory.net/rapid"
)

// Part is one generated check.
type Part struct {
	Prop, Name string
	Needs      []string
	Quick      int // cases per shard
	Thorough   int
	Shards     int // parallel processes with different seeds
	Weight     int // parts with more weight start first
	Rule       string
	As         map[string]string // adapters under the names the checks know them by, e.g. gov1 is gov1-32
	run        func(p *Part, o Options) Report
}

type Options struct {
	Env    *Env
	Seed   uint64
	Checks int
	Replay string
	Corpus string // directory of regression cases, may be empty
	Known  map[string]bool
	Batch  uint64 // seed of the schemas shared by the parts that build generated code
	OutDir string
}

type Report struct {
	Prop        string         `json:"prop"`
	Part        string         `json:"part"`
	Seed        uint64         `json:"seed"`
	Evaluations int            `json:"evaluations"`
	NonTrivial  int            `json:"nontrivial"`
	Rule        string         `json:"rule"`
	Labels      map[string]int `json:"labels"`
	Samples     []string       `json:"samples"`
	Hashes      []string       `json:"hashes,omitempty"`
	Regressions int            `json:"regressions"`
	Excluded    map[string]int `json:"excluded,omitempty"`
	Violation   string         `json:"violation,omitempty"`
	Replay      string         `json:"replay,omitempty"`
	Infra       string         `json:"infra,omitempty"`
}

type Class struct {
	NonTrivial bool
	Labels     []string
}

var Parts []*Part

// Replay file layout.
type caseFile struct {
	Part      string          `json:"part"`
	Violation string          `json:"violation,omitempty"`
	Note      string          `json:"note,omitempty"`
	Text      string          `json:"text,omitempty"`
	Case      json.RawMessage `json:"case"`
}

type tb struct {
	failed bool
	log    string
}

func (t *tb) Helper()                        {}
func (t *tb) Name() string                   { return "prop" }
func (t *tb) Logf(format string, a ...any)   { t.log += fmt.Sprintf(format, a...) + "\n" }
func (t *tb) Log(a ...any)                   { t.log += fmt.Sprintln(a...) }
func (t *tb) Skipf(format string, a ...any)  { runtime.Goexit() }
func (t *tb) Skip(a ...any)                  { runtime.Goexit() }
func (t *tb) SkipNow()                       { runtime.Goexit() }
func (t *tb) Errorf(format string, a ...any) { t.Logf(format, a...); t.failed = true }
func (t *tb) Error(a ...any)                 { t.Log(a...); t.failed = true }
func (t *tb) Fatalf(format string, a ...any) { t.Logf(format, a...); t.failed = true; runtime.Goexit() }
func (t *tb) Fatal(a ...any)                 { t.Log(a...); t.failed = true; runtime.Goexit() }
func (t *tb) FailNow()                       { t.failed = true; runtime.Goexit() }
func (t *tb) Fail()                          { t.failed = true }
func (t *tb) Failed() bool                   { return t.failed }

var flagOnce sync.Once

func setFlags(seed uint64, checks int) {
	flagOnce.Do(func() { testing.Init() })
	for k, v := range map[string]string{"rapid.checks": strconv.Itoa(checks), "rapid.seed": strconv.FormatUint(seed, 10), "rapid.nofailfile": "true", "rapid.shrinktime": "20s"} {
		if err := flag.Set(k, v); err != nil {
			infra("flag %s: %v", k, err)
		}
	}
}

// Spec describes a part in terms of its case type C, which must survive a JSON round trip.
type Spec[C any] struct {
	Gen   func(t *rapid.T) C
	Check func(e *Env, c C) *Fail
	Class func(c C) Class
	Text  func(c C) string
	// Prepare, if set, runs once before any case, with the cases that are already known (regression cases, the replay).
	Prepare func(e *Env, o Options, known []C)
	// Replays is how often a case is tried when it is replayed, for checks that a schedule decides.
	Replays int
}

// safe turns the death of the process under test into a failure of the property.
func safe[C any](s Spec[C], e *Env, c C) (f *Fail) {
	defer func() {
		if x := recover(); x != nil {
			if d, ok := x.(Died); ok {
				f = &Fail{d.Msg}
				return
			}
			panic(x)
		}
	}()
	return s.Check(e, c)
}

func Define[C any](p Part, s Spec[C]) {
	if p.Shards == 0 {
		p.Shards = 1
	}
	p.run = func(p *Part, o Options) (rep Report) {
		rep = Report{Prop: p.Prop, Part: p.Name, Seed: o.Seed, Rule: p.Rule, Labels: map[string]int{}}
		text := func(c C) string {
			if s.Text != nil {
				return s.Text(c)
			}
			b, _ := json.Marshal(c)
			return string(b)
		}
		save := func(c C, msg string) {
			raw, err := json.Marshal(c)
			if err != nil {
				infra("case not serialisable: %v", err)
			}
			h := fnv.New64a()
			h.Write(raw)
			name := filepath.Join(o.OutDir, fmt.Sprintf("%s-%016x.json", p.Name, h.Sum64()))
			tx := text(c)
			if len(tx) > 20000 {
				tx = tx[:20000] + "..."
			}
			b, _ := json.MarshalIndent(caseFile{Part: p.Name, Violation: msg, Text: tx, Case: raw}, "", " ")
			if err := os.WriteFile(name, b, 0o644); err != nil {
				infra("%v", err)
			}
			rep.Violation, rep.Replay = msg, name
		}
		load := func(path string) (C, string) {
			var c C
			var f caseFile
			b, err := os.ReadFile(path)
			if err == nil {
				err = json.Unmarshal(b, &f)
			}
			if err == nil {
				err = json.Unmarshal(f.Case, &c)
			}
			if err != nil {
				infra("case %s: %v", path, err)
			}
			return c, f.Part
		}
		if o.Replay != "" {
			c, _ := load(o.Replay)
			if s.Prepare != nil {
				s.Prepare(o.Env, o, []C{c})
			}
			rep.Evaluations = 1
			for i := 0; i < max(1, s.Replays); i++ {
				if f := safe(s, o.Env, c); f != nil {
					rep.Violation, rep.Replay = f.Msg, o.Replay
					break
				}
			}
			return
		}
		var files []string
		if o.Corpus != "" {
			files, _ = filepath.Glob(filepath.Join(o.Corpus, "*.json"))
			sort.Strings(files)
		}
		if s.Prepare != nil {
			var known []C
			for _, f := range files {
				c, _ := load(f)
				known = append(known, c)
			}
			if o.Corpus != "" {
				for _, k := range o.Env.Findings(p.Prop, p.Name) {
					c, _ := load(k.Path)
					known = append(known, c)
				}
			}
			s.Prepare(o.Env, o, known)
		}
		if o.Corpus != "" {
			for _, f := range files {
				c, _ := load(f)
				rep.Regressions++
				if bad := safe(s, o.Env, c); bad != nil {
					rep.Violation, rep.Replay = bad.Msg, f
					return
				}
			}
		}
		// Known findings: each is one case that is expected to fail; nothing else is excused by it.
		if o.Corpus != "" {
			for _, k := range o.Env.Findings(p.Prop, p.Name) {
				c, _ := load(k.Path)
				if bad := safe(s, o.Env, c); bad != nil {
					if rep.Excluded == nil {
						rep.Excluded = map[string]int{}
					}
					rep.Excluded[k.Text]++
				}
			}
		}
		seen := map[uint64]bool{}
		var lastFail *C
		var lastMsg string
		var broken any
		fails := 0
		setFlags(o.Seed, o.Checks)
		t := &tb{}
		fin := make(chan struct{})
		go func() {
			defer close(fin)
			rapid.Check(t, func(rt *rapid.T) {
				if broken != nil {
					return
				}
				c := s.Gen(rt)
				var f *Fail
				func() {
					defer func() {
						if x := recover(); x != nil {
							broken = x
						}
					}()
					f = safe(s, o.Env, c)
				}()
				if broken != nil {
					return
				}
				if fails == 0 {
					rep.Evaluations++
					raw, _ := json.Marshal(c)
					h := fnv.New64a()
					h.Write(raw)
					cl := s.Class(c)
					if cl.NonTrivial && !seen[h.Sum64()] {
						seen[h.Sum64()] = true
						rep.NonTrivial++
						if n := rep.NonTrivial; n == 3 || n == 30 || n == 300 {
							tx := text(c)
							if len(tx) > 600 {
								tx = tx[:600] + "..."
							}
							rep.Samples = append(rep.Samples, tx)
						}
					}
					for _, l := range cl.Labels {
						rep.Labels[l]++
					}
				}
				if f != nil {
					fails++
					cc := c
					lastFail, lastMsg = &cc, f.Msg
					rt.Fatalf("violated")
				}
			})
		}()
		<-fin
		if broken != nil {
			if i, ok := broken.(Infra); ok {
				rep.Infra = i.Msg
				return
			}
			rep.Infra = fmt.Sprintf("harness panic: %v", broken)
			return
		}
		for h := range seen {
			rep.Hashes = append(rep.Hashes, strconv.FormatUint(h, 36))
		}
		if lastFail != nil {
			save(*lastFail, lastMsg)
			return
		}
		if t.failed {
			rep.Infra = "rapid: " + t.log
		}
		return
	}
	Parts = append(Parts, &p)
}

// Run runs a part and never panics.
func (p *Part) Run(o Options) (rep Report) {
	defer func() {
		if x := recover(); x != nil {
			rep.Prop, rep.Part = p.Prop, p.Name
			if i, ok := x.(Infra); ok {
				rep.Infra = i.Msg
			} else {
				buf := make([]byte, 4096)
				rep.Infra = fmt.Sprintf("harness panic: %v\n%s", x, buf[:runtime.Stack(buf, false)])
			}
		}
	}()
	for name, is := range p.As {
		o.Env.argv[name] = o.Env.argv[is]
	}
	return p.run(p, o)
}

func Find(name string) *Part {
	for _, p := range Parts {
		if p.Name == name {
			return p
		}
	}
	return nil
}

// Tier is the tier being run.
var Tier = "quick"
