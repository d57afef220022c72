package prop

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"os/exec"
	"slices"
	"strings"
	"sync"
	"time"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/pluginpb"
	"pgregory.net/rapid"

	"verif/harness/gen"
	"verif/harness/schema"
)

// P22: the generators used as a library.

type libHooks struct{ Fields, Encode, Decode string }

type libStep struct {
	Gen    string    `json:"gen"`
	Inst   int       `json:"inst"`
	Hooks  *libHooks `json:"hooks,omitempty"`
	Req    []byte    `json:"req"`
	Direct int       `json:"direct,omitempty"`
	Pkg    string    `json:"pkg,omitempty"`
}

type libAnswer struct {
	Res     []byte
	Err     string
	Panic   string
	Changed bool
	Both    bool
}

func library(e *Env, steps []libStep, together bool) ([]libAnswer, *Fail) {
	raw, err := json.Marshal(map[string]any{"Steps": steps, "Together": together})
	if err != nil {
		infra("%v", err)
	}
	argv := e.argv["genlib"]
	if together {
		argv = e.argv["genlib-race"]
	}
	if argv == nil {
		infra("no genlib")
	}
	cmd := exec.Command(argv[0], argv[1:]...)
	cmd.Stdin = bytes.NewReader(raw)
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	cmd.Env = append(os.Environ(), "GOTRACEBACK=single", "GOMAXPROCS=2", "GORACE=halt_on_error=1 exitcode=66")
	if together {
		cmd.Env = append(cmd.Env, "GOMAXPROCS=4")
	}
	cmd.WaitDelay = pipeDelay
	killed := false
	timer := time.AfterFunc(300*time.Second, func() {
		killed = true
		if cmd.Process != nil {
			cmd.Process.Kill()
		}
	})
	err = cmd.Run()
	timer.Stop()
	if killed {
		return nil, failf("a generator used as a library does not finish")
	}
	pipesLate(err)
	if err != nil {
		if cmd.ProcessState != nil && (cmd.ProcessState.ExitCode() == 3 || cmd.ProcessState.ExitCode() == -1 && strings.Contains(err.Error(), "killed")) {
			infra("genlib: %v %s", err, errb.String())
		}
		return nil, failf("a program using the generators as a library crashes (%v): %s", err, schema.Clip(errb.String(), 1200))
	}
	var as []libAnswer
	if err := json.Unmarshal(out.Bytes(), &as); err != nil || len(as) != len(steps) {
		infra("genlib answers %d of %d steps: %v", len(as), len(steps), err)
	}
	return as, nil
}

func (a *libAnswer) response(what string) (*pluginpb.CodeGeneratorResponse, *Fail) {
	if a.Panic != "" {
		return nil, failf("%s panics: %s", what, schema.Clip(a.Panic, 800))
	}
	if a.Err != "" {
		return nil, failf("%s fails: %s", what, schema.Clip(a.Err, 800))
	}
	if a.Changed {
		return nil, failf("%s answers with a response that MarshalResponse does not write", what)
	}
	res := &pluginpb.CodeGeneratorResponse{}
	if err := proto.Unmarshal(a.Res, res); err != nil {
		return nil, failf("%s: MarshalResponse does not write a CodeGeneratorResponse: %v", what, err)
	}
	if res.Error != nil {
		return nil, failf("%s refuses the request: %s", what, schema.Clip(res.GetError(), 800))
	}
	return res, nil
}

var (
	hooksOf   = map[string]*libHooks{}
	hooksLock sync.Mutex
)

// hooksFor writes the custom code of the messages that carry marks with the names that the generated code uses, whatever they are.
func hooksFor(e *Env, bin string) *libHooks {
	hooksLock.Lock()
	defer hooksLock.Unlock()
	if h := hooksOf[bin]; h != nil {
		return h
	}
	n := schema.HookNames{X: "x", B: "b", D: "d", Err: "err"}
	f := &schema.File{Path: "names.proto", Pkg: "names", GoPkg: "example.com/names", Msgs: []*schema.Msg{{Name: "M", Fields: []*schema.Field{{Name: "f", Num: 1, Type: schema.Uint32, Card: schema.Singular}}}}}
	if res, bad := plugin(e, bin, schema.Request([]*schema.File{f.Link()}, []string{f.Path}, "")); bad == nil && len(res.File) == 1 {
		if src, err := parser.ParseFile(token.NewFileSet(), "names.go", res.File[0].GetContent(), 0); err == nil {
			for _, d := range src.Decls {
				fn, ok := d.(*ast.FuncDecl)
				if !ok || fn.Recv == nil || len(fn.Recv.List[0].Names) != 1 || len(fn.Type.Params.List) != 1 || len(fn.Type.Params.List[0].Names) != 1 {
					continue
				}
				x, arg := fn.Recv.List[0].Names[0].Name, fn.Type.Params.List[0].Names[0].Name
				switch {
				case fn.Name.Name == "Encode":
					n.X, n.B = x, arg
				case !fn.Name.IsExported():
					n.D = arg
					for _, st := range fn.Body.List {
						if ds, ok := st.(*ast.DeclStmt); ok {
							for _, sp := range ds.Decl.(*ast.GenDecl).Specs {
								if v, ok := sp.(*ast.ValueSpec); ok && v.Type != nil && types.ExprString(v.Type) == "error" {
									n.Err = v.Names[0].Name
								}
							}
						}
					}
				}
			}
		}
	}
	hooksOf[bin] = &libHooks{schema.HookFields, n.Encode(), n.Decode()}
	return hooksOf[bin]
}

// someHooks are the custom code number n of the histories: each different, some of them partly empty.
func someHooks(n int) *libHooks {
	h := &libHooks{fmt.Sprintf("VerifField%d uint32\n", n), fmt.Sprintf("_ = %d // encode\n", n), fmt.Sprintf("_ = %d // decode\n", n)}
	switch n % 5 {
	case 0:
		h.Fields = ""
	case 1:
		h.Encode = ""
	case 2:
		h.Decode = ""
	}
	return h
}

// hooked generates with custom code.
func hooked(e *Env, bin string, req []byte) (*pluginpb.CodeGeneratorResponse, *Fail) {
	return hookedBy(e, bin, req, hooksFor(e, bin))
}

func hookedBy(e *Env, bin string, req []byte, hooks *libHooks) (*pluginpb.CodeGeneratorResponse, *Fail) {
	as, bad := library(e, []libStep{{Gen: bin, Hooks: hooks, Req: req}}, false)
	if bad != nil {
		return nil, bad
	}
	return as[0].response(bin + " with custom code")
}

// p22 checks messages generated with custom code: they carry their marks wherever messages occur, in front of the fields.
func p22(e *Env, c MsgCase) *Fail {
	if bad := p15(e, c); bad != nil {
		return bad
	}
	if bad := p16(e, c); bad != nil {
		return bad
	}
	m := c.msg()
	b, idx := gb.find(e, c.File)
	n := schema.GoName(m.Full())
	for v := 1; v <= 2; v++ {
		x := b.do(goReq{Op: "error", Ver: v, Schema: idx, Type: n, Val: c.Val, Text: c.Text})
		if bad := x.bad(vn(v) + ": Error"); bad != nil {
			return bad
		}
		d := b.do(goReq{Op: "decode", Ver: v, Schema: idx, Type: n, Data: x.Bytes})
		if bad := d.bad(vn(v) + ": Decode of an error by custom code"); bad != nil {
			return bad
		}
		if d.Failed {
			return failf("%s: custom decode code that keeps errors is not the first to see one: %s", vn(v), d.Err)
		}
	}
	return nil
}

// LibCase is a history of requests to generators of one language.
type LibCase struct {
	Files    []*schema.File
	Group    int // 0 Go, 1 Rust, 2 TypeScript
	Steps    []LibStep
	Together bool
}

type LibStep struct {
	Ver    int   // index into the group's plugins
	Inst   int   // which of the generators of that version
	Files  []int // generated files
	Param  string
	Hook   int // 0: none
	Direct bool
	Bad    string // what is wrong with the request, see defects
	N, M   int
}

func (s LibStep) damage(req []byte) []byte {
	return RunCase{Fault: s.Bad, N: s.N, M: s.M, Data: []byte{byte(s.N), byte(s.N >> 8), byte(s.M), 0x0a}}.damage(req)
}

func groupBins(g int) []string {
	return [][]string{{"plug-go1", "plug-go2"}, rsPlugins, tsPlugins}[g]
}

func p22lib(e *Env, c LibCase) *Fail {
	for _, f := range c.Files {
		f.Link()
	}
	bins := groupBins(c.Group)
	var steps []libStep
	type origin struct {
		step int
		how  int // 0 Generate, 1 ExecuteTemplate, 2 ExecuteTemplate without header
	}
	var from []origin
	// once custom code is set on a Generator it stays
	has := map[int]int{}
	hookedStep := make([]int, len(c.Steps))
	for i, s := range c.Steps {
		// of several versions of a file a request has the one that is asked for, or the first
		var gen []string
		var have []*schema.File
		for j, f := range c.Files {
			other := func(i int) bool { return i != j && c.Files[i].Path == f.Path }
			if !slices.ContainsFunc(s.Files, other) && !slices.ContainsFunc(have, func(g *schema.File) bool { return g.Path == f.Path }) {
				have = append(have, f)
			}
		}
		for _, j := range s.Files {
			gen = append(gen, c.Files[j].Path)
		}
		x := libStep{Gen: bins[s.Ver], Inst: s.Inst*2 + s.Ver, Req: schema.Request(have, gen, s.Param), Pkg: "custompkg"}
		if s.Hook > 0 {
			x.Hooks = someHooks(s.Hook)
			has[x.Inst] = s.Hook
		}
		hookedStep[i] = has[x.Inst]
		if s.Bad != "" {
			x.Req = s.damage(x.Req)
			steps = append(steps, x)
			from = append(from, origin{i, 3})
			continue
		}
		steps = append(steps, x)
		from = append(from, origin{i, 0})
		if s.Direct && s.Param == "" {
			for d := 1; d <= 2; d++ {
				y := x
				y.Direct = d
				steps = append(steps, y)
				from = append(from, origin{i, d})
			}
		}
	}
	as, bad := library(e, steps, c.Together)
	if bad != nil {
		return bad
	}
	want := map[string]map[string]string{} // step without instance -> file -> content
	withHeader := map[string]string{}
	for k, o := range from {
		s := c.Steps[o.step]
		bin := bins[s.Ver]
		what := fmt.Sprintf("step %d (%s, generator %d)", o.step, bin, s.Inst)
		if o.how == 3 {
			if why, _ := unanswerable(c.Group, steps[k].Req); why != "" {
				switch a := as[k]; {
				case a.Panic != "":
					return failf("%s: a request that cannot be answered, %s, makes it panic: %s", what, why, schema.Clip(a.Panic, 800))
				case a.Err == "":
					if res, bad := as[k].response(what); bad == nil {
						return failf("%s answers a request that it cannot answer, %s, with %d files", what, why, len(res.File))
					}
				case a.Both:
					return failf("%s: a request that cannot be answered, %s, gets an answer and an error", what, why)
				}
			}
			continue
		}
		res, bad := as[k].response(what)
		if bad != nil {
			return bad
		}
		if len(res.File) != len(s.Files) {
			return failf("%s: %d files for %d requested files", what, len(res.File), len(s.Files))
		}
		switch o.how {
		case 0:
			id := fmt.Sprint(bin, s.Files, s.Param, hookedStep[o.step])
			if want[id] == nil {
				var ref *pluginpb.CodeGeneratorResponse
				if h := hookedStep[o.step]; h > 0 {
					ref, bad = hookedBy(e, bin, steps[k].Req, someHooks(h))
				} else {
					ref, bad = plugin(e, bin, steps[k].Req)
				}
				if bad != nil {
					return bad
				}
				want[id] = map[string]string{}
				for _, r := range ref.File {
					want[id][r.GetName()] = r.GetContent()
				}
			}
			for _, r := range res.File {
				w, ok := want[id][r.GetName()]
				if !ok {
					return failf("%s: unexpected output file %q", what, r.GetName())
				}
				if w != r.GetContent() {
					return failf("%s: the content of %s is not what a new generator gives for the same request: %s", what, r.GetName(), diff(w, r.GetContent()))
				}
			}
		case 1:
			for i, r := range res.File {
				withHeader[fmt.Sprint(k, i)] = r.GetContent()
				if c.Group == 0 && !strings.Contains(r.GetContent(), "package custompkg\n") {
					return failf("%s: ExecuteTemplate ignores the package name", what)
				}
			}
		case 2:
			if c.Group != 0 {
				continue // the Rust and TypeScript templates have no use for the switch
			}
			for i, r := range res.File {
				whole, body := withHeader[fmt.Sprint(k-1, i)], strings.TrimSpace(r.GetContent())
				if body == "" || !strings.HasSuffix(strings.TrimSpace(whole), body) || strings.HasPrefix(body, "// Code generated") || strings.Contains(body, "\npackage ") ||
					strings.Contains(body, "\nimport ") || !strings.Contains(strings.TrimSuffix(strings.TrimSpace(whole), body), "import") {
					return failf("%s: without the header the output for %s is not the rest of the file: %s", what, r.GetName(), schema.Clip(body, 200))
				}
			}
		}
	}
	return nil
}

// twin is the file after an edit: the same path, package and types, some fields and enum values are others.
func twin(t *rapid.T, f *schema.File) *schema.File {
	var g *schema.File
	b, err := json.Marshal(f)
	if err == nil {
		err = json.Unmarshal(b, &g)
	}
	if err != nil {
		panic(err)
	}
	g.Link()
	for _, m := range g.AllMsgs() {
		switch n := len(m.Fields); rapid.IntRange(0, 4).Draw(t, "edit") {
		case 0:
			m.Fields = m.Fields[:max(n-1, 0)]
		case 1:
			m.Fields = m.Fields[min(1, n):]
		case 2:
			slices.Reverse(m.Fields)
		case 3:
			for _, x := range m.Fields {
				if x.Type != schema.Message && x.Type != schema.EnumType {
					x.Type = schema.Uint32
				}
			}
		}
	}
	for _, en := range g.AllEnums() {
		if k := len(en.Values); k > 1 && !en.Alias && rapid.Bool().Draw(t, "drop") {
			en.Values = en.Values[:k-1]
		}
	}
	g.Link()
	if !schema.Valid(g) {
		return f
	}
	return g
}

func genLib(t *rapid.T, g int) LibCase {
	c := LibCase{Group: g}
	n := rapid.IntRange(1, 3).Draw(t, "files")
	for i := 0; i < n; i++ {
		f := schema.Gen(t, schema.GenOpts{Sparse: true, MaxMsgs: 4, Index: i, Rust: g == 1})
		if f.Pkg == "" {
			f.Pkg = fmt.Sprintf("q%d", i)
		} else {
			f.Pkg = fmt.Sprintf("q%d.%s", i, f.Pkg)
		}
		relink(f)
		c.Files = append(c.Files, f)
		if rapid.IntRange(0, 2).Draw(t, "twin?") == 0 {
			// an edited version of the same file
			c.Files = append(c.Files, twin(t, f))
		}
	}
	n = len(c.Files)
	idx := make([]int, n)
	for i := range idx {
		idx[i] = i
	}
	for k := rapid.IntRange(1, 6).Draw(t, "steps"); k > 0; k-- {
		s := LibStep{Ver: rapid.IntRange(0, 1).Draw(t, "ver"), Inst: rapid.IntRange(0, 2).Draw(t, "inst")}
		if i := len(c.Steps); i > 0 && rapid.IntRange(0, 2).Draw(t, "same?") == 0 {
			// the generator that has just answered, or failed
			s.Ver, s.Inst = c.Steps[i-1].Ver, c.Steps[i-1].Inst
		}
		for _, j := range rapid.Permutation(idx).Draw(t, "order")[:rapid.IntRange(1, n).Draw(t, "subset")] {
			if !slices.ContainsFunc(s.Files, func(i int) bool { return c.Files[i].Path == c.Files[j].Path }) {
				s.Files = append(s.Files, j)
			}
		}
		switch g {
		case 0:
			if rapid.IntRange(0, 2).Draw(t, "hook?") == 0 {
				s.Hook = rapid.IntRange(1, 9).Draw(t, "hook")
			}
		case 1:
			s.Param = rapid.SampledFrom([]string{"", "", "privacy=public", "privacy=crate", "privacy=private", "paths=source_relative", "paths=source_relative,privacy=public"}).Draw(t, "param")
		}
		if g != 1 {
			s.Param = rapid.SampledFrom([]string{"", "", "", "paths=source_relative"}).Draw(t, "param")
		}
		s.Direct = rapid.IntRange(0, 2).Draw(t, "direct?") == 0
		if rapid.IntRange(0, 3).Draw(t, "bad?") == 0 {
			s.Bad = rapid.SampledFrom(defects).Draw(t, "defect")
			s.N, s.M = rapid.IntRange(0, 99999).Draw(t, "n"), rapid.IntRange(0, 999).Draw(t, "m")
		}
		c.Steps = append(c.Steps, s)
	}
	c.Together = rapid.IntRange(0, 2).Draw(t, "together?") == 0
	return c
}

func init() {
	prep := func(e *Env, o Options, known []MsgCase) {
		var fs []*schema.File
		for _, c := range known {
			fs = append(fs, c.File)
		}
		gb.hook = true
		gb.prepare(e, o, fs)
	}
	Define(Part{Prop: "P22", Name: "HookMessages", Needs: []string{"plug-go1", "plug-go2", "genlib", "exports", "harness"}, Quick: 500, Thorough: 15000, Shards: 3, Weight: 8,
		Rule: "a message value with at least four set fields, elements or nested messages"},
		Spec[MsgCase]{Prepare: prep, Check: p22, Class: caseClass, Text: MsgCase.text,
			Gen: func(t *rapid.T) MsgCase {
				f, m := pick(t, gb.files, schema.ValOpts{}, nil)
				c := MsgCase{File: f, Msg: m.Full()}
				mark := func() uint32 { return uint32(rapid.IntRange(0, 300).Draw(t, "mark")) }
				c.Val = f.GenVal(t, m, schema.ValOpts{})
				f.SetMarks(m, c.Val, mark)
				genDirty(t, f, m, &c)
				f.SetMarks(m, c.Dirty, mark)
				for _, x := range c.Before {
					f.SetMarks(m, x, mark)
				}
				c.Size = rapid.SampledFrom([]int{0, 0, 1, 5, 64, 512, 2000}).Draw(t, "size")
				c.Prefix = genPrefix(t)
				c.Text = string(gen.Text(t, gen.Opts{RawText: false}, "error"))
				return c
			}})
	Define(Part{Prop: "P22", Name: "HookCompiles", Needs: []string{"plug-go1", "plug-go2", "genlib", "exports"}, Quick: 200, Thorough: 4000, Shards: 3, Weight: 6,
		Rule: "a schema with at least two messages, or one with three fields of which one is a list, map, enum or message"},
		Spec[*schema.File]{Check: p14, Class: schemaClass, Text: (*schema.File).Describe,
			Gen: func(t *rapid.T) *schema.File {
				f := goSchema(false)(t)
				f.Hook = true
				return f
			}})
	for g, lang := range []string{"Go", "Rust", "TS"} {
		Define(Part{Prop: "P22", Name: "Library" + lang, Needs: append([]string{"genlib", "genlib-race"}, groupBins(g)...), Quick: []int{150, 60, 100}[g], Thorough: []int{4000, 1200, 3000}[g], Shards: 3, Weight: 6,
			Rule: "at least three steps, two of them by the same generator"},
			Spec[LibCase]{Gen: func(t *rapid.T) LibCase { return genLib(t, g) }, Check: p22lib,
				Class: func(c LibCase) Class {
					seen := map[int]int{}
					cl := Class{Labels: []string{fmt.Sprintf("steps-%d", len(c.Steps))}}
					for _, s := range c.Steps {
						k := s.Inst*2 + s.Ver
						if seen[k]++; seen[k] > 1 && len(c.Steps) > 2 {
							cl.NonTrivial = true
						}
						for _, j := range s.Files {
							for i := range c.Files {
								if i != j && c.Files[i].Path == c.Files[j].Path {
									cl.Labels = append(cl.Labels, "edited file")
								}
							}
						}
						if s.Hook > 0 {
							cl.Labels = append(cl.Labels, "hooks")
						}
						if s.Bad != "" {
							cl.Labels = append(cl.Labels, "defective request")
						}
						if s.Direct && s.Param == "" {
							cl.Labels = append(cl.Labels, "template")
						}
						if s.Param != "" {
							cl.Labels = append(cl.Labels, s.Param)
						}
					}
					if c.Together {
						cl.Labels = append(cl.Labels, "together")
					}
					cl.Labels = dedupe(cl.Labels)
					return cl
				},
				Text: func(c LibCase) string {
					var b strings.Builder
					for _, f := range c.Files {
						f.Link()
						b.WriteString(f.Describe())
					}
					for i, s := range c.Steps {
						fmt.Fprintf(&b, "step %d: %s generator %d, files %v, parameter %q, custom code %d, direct %v, defect %q %d %d\n", i, groupBins(c.Group)[s.Ver], s.Inst, s.Files, s.Param, s.Hook, s.Direct, s.Bad, s.N, s.M)
					}
					fmt.Fprintf(&b, "at the same time: %v", c.Together)
					return b.String()
				}})
	}
}
