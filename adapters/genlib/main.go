// Command genlib uses the generators of /repo and /repo/v2 as a library. Standard input holds the steps of a history as
// JSON, standard output gets the answers.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"sync"

	"google.golang.org/protobuf/compiler/protogen"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/pluginpb"

	go1 "github.com/loopholelabs/polyglot/generator/golang"
	rs1 "github.com/loopholelabs/polyglot/generator/rust"
	ts1 "github.com/loopholelabs/polyglot/generator/typescript"
	go2 "github.com/loopholelabs/polyglot/v2/generator/golang"
	rs2 "github.com/loopholelabs/polyglot/v2/generator/rust"
	ts2 "github.com/loopholelabs/polyglot/v2/generator/typescript"
)

type generator interface {
	UnmarshalRequest([]byte) (*pluginpb.CodeGeneratorRequest, error)
	MarshalResponse(*pluginpb.CodeGeneratorResponse) ([]byte, error)
	Generate(*pluginpb.CodeGeneratorRequest) (*pluginpb.CodeGeneratorResponse, error)
	ExecuteTemplate(*protogen.GeneratedFile, *protogen.File, string, bool) error
}

// Hooks is the custom code of a generator.
type Hooks struct {
	Fields, Encode, Decode string
}

type Step struct {
	Gen    string `json:"gen"`  // plug-go1 ...
	Inst   int    `json:"inst"` // steps with the same number share a Generator
	Hooks  *Hooks `json:"hooks,omitempty"`
	Req    []byte `json:"req"`
	Direct int    `json:"direct,omitempty"` // 1: ExecuteTemplate with the header, 2: without, written to a plain text file
	Pkg    string `json:"pkg,omitempty"`
}

type Answer struct {
	Res   []byte `json:"res"`
	Err   string `json:"err"`
	Panic string `json:"panic"`
	// the request read and written again denotes another request, or the generator changed it
	Changed bool `json:"changed"`
	// there was a response with the error
	Both bool `json:"both"`
}

func make_(s Step) (g generator, set func(*Hooks)) {
	switch s.Gen {
	case "plug-go1":
		x := go1.New()
		return x, func(h *Hooks) { x.CustomFields, x.CustomEncode, x.CustomDecode = h.funcs() }
	case "plug-go2":
		x := go2.New()
		return x, func(h *Hooks) { x.CustomFields, x.CustomEncode, x.CustomDecode = h.funcs() }
	case "plug-rs1":
		x := rs1.New()
		return x, func(h *Hooks) { x.CustomFields, x.CustomEncode, x.CustomDecode = h.funcs() }
	case "plug-rs2":
		x := rs2.New()
		return x, func(h *Hooks) { x.CustomFields, x.CustomEncode, x.CustomDecode = h.funcs() }
	case "plug-ts1":
		x := ts1.New()
		return x, func(h *Hooks) { x.CustomFields, x.CustomEncode, x.CustomDecode = h.funcs() }
	}
	x := ts2.New()
	return x, func(h *Hooks) { x.CustomFields, x.CustomEncode, x.CustomDecode = h.funcs() }
}

func (h *Hooks) funcs() (a, b, c func() string) {
	return func() string { return h.Fields }, func() string { return h.Encode }, func() string { return h.Decode }
}

func run(g generator, s Step) (a Answer) {
	defer func() {
		if x := recover(); x != nil {
			buf := make([]byte, 2000)
			a.Panic = fmt.Sprintf("%v\n%s", x, buf[:runtime.Stack(buf, false)])
		}
	}()
	fail := func(err error) Answer { a.Err = err.Error(); return a }
	req, err := g.UnmarshalRequest(s.Req)
	if err != nil {
		return fail(err)
	}
	if s.Direct == 0 {
		res, err := g.Generate(req)
		if err != nil {
			a.Both = res != nil
			return fail(err)
		}
		if a.Res, err = g.MarshalResponse(res); err != nil {
			return fail(err)
		}
		again := &pluginpb.CodeGeneratorResponse{}
		if err := proto.Unmarshal(a.Res, again); err != nil {
			return fail(err)
		}
		a.Changed = !proto.Equal(res, again)
		return a
	}
	plugin, err := protogen.Options{
		ParamFunc:         func(name, value string) error { return nil },
		ImportRewriteFunc: func(path protogen.GoImportPath) protogen.GoImportPath { return path },
	}.New(req)
	if err != nil {
		return fail(err)
	}
	for _, f := range plugin.Files {
		if f.Generate {
			if err := g.ExecuteTemplate(plugin.NewGeneratedFile(f.GeneratedFilenamePrefix+".txt", f.GoImportPath), f, s.Pkg, s.Direct == 1); err != nil {
				return fail(err)
			}
		}
	}
	if a.Res, err = g.MarshalResponse(plugin.Response()); err != nil {
		return fail(err)
	}
	return a
}

func main() {
	var in struct {
		Steps    []Step
		Together bool // one goroutine per Generator
	}
	if err := json.NewDecoder(os.Stdin).Decode(&in); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	type inst struct {
		g   generator
		set func(*Hooks)
	}
	gens := map[int]*inst{}
	var order []int
	for _, s := range in.Steps {
		if gens[s.Inst] == nil {
			g, set := make_(s)
			gens[s.Inst] = &inst{g, set}
			order = append(order, s.Inst)
		}
	}
	out := make([]Answer, len(in.Steps))
	one := func(i int) {
		s := in.Steps[i]
		if s.Hooks != nil {
			gens[s.Inst].set(s.Hooks)
		}
		out[i] = run(gens[s.Inst].g, s)
	}
	if in.Together {
		var wg sync.WaitGroup
		for _, k := range order {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i, s := range in.Steps {
					if s.Inst == k {
						one(i)
					}
				}
			}()
		}
		wg.Wait()
	} else {
		for i := range in.Steps {
			one(i)
		}
	}
	if err := json.NewEncoder(os.Stdout).Encode(out); err != nil {
		os.Exit(3)
	}
}
