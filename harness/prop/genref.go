package prop

import (
	"bytes"
	"fmt"
	"go/parser"
	"go/token"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"slices"
	"strings"
	"syscall"
	"time"

	"google.golang.org/protobuf/compiler/protogen"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/types/descriptorpb"
	"google.golang.org/protobuf/types/pluginpb"
	"pgregory.net/rapid"

	"verif/harness/schema"
)

// P23: an answer is complete, or it is an error.

// RunCase is a run of a plugin in which something is not as it should be.
type RunCase struct {
	Group int // plugin group: 0 Go, 1 Rust, 2 TypeScript
	Ver   int
	Files []*schema.File
	Param string
	Fault string
	N, M  int
	Data  []byte
}

func (c RunCase) bin() string { return groupBins(c.Group)[c.Ver] }

func (c RunCase) text() string {
	var b strings.Builder
	fmt.Fprintf(&b, "%s, parameter %q: %s %d %d %s\n", c.bin(), c.Param, c.Fault, c.N, c.M, hexs(c.Data))
	for _, f := range c.Files {
		f.Link()
		b.WriteString(f.Describe())
	}
	return b.String()
}

func (c RunCase) request() []byte {
	var gen []string
	for _, f := range c.Files {
		f.Link()
		gen = append(gen, f.Path)
	}
	return schema.Request(Multi{Files: c.Files}.closure(c.Files), gen, c.Param)
}

// rustfmts are the stand-ins for rustfmt. They are called like it, %s is the real one.
var rustfmts = map[string]string{
	"rustfmt warns":                  `echo "Warning: can't set wrap_comments = true, unstable features are only available in nightly channel." >&2; %s "$@"; r=$?; echo "warning: rustfmt is getting old" >&2; exit $r`,
	"rustfmt is slow":                `%s "$@" > "$0.$$"; sleep 0.3; cat "$0.$$"`,
	"rustfmt fails":                  `cat > /dev/null; echo "error: cannot" >&2; exit 1`,
	"rustfmt fails at the end":       `%s "$@"; exit 3`,
	"rustfmt fails half-way":         `%s "$@" > "$0.$$"; n=$(wc -c < "$0.$$"); head -c $((n / 2)) "$0.$$"; exit 1`,
	"rustfmt is killed":              `%s "$@" > "$0.$$"; n=$(wc -c < "$0.$$"); head -c $((n / 2)) "$0.$$"; kill -9 $$`,
	"rustfmt does not read":          `exit 1`,
	"rustfmt fails for a later file": `if [ -e "$0.once" ]; then echo no >&2; exit 1; fi; : > "$0.once"; %s "$@"`,
}

// must: what the run has to end with.
const (
	eitherWay = iota // a complete answer or an error
	mustAnswer
	mustRefuse
)

var faults = map[string]int{
	"rustfmt warns": mustAnswer, "rustfmt is slow": mustAnswer, "rustfmt.toml": mustAnswer, "rustfmt.toml with warnings": mustAnswer,
	"rustfmt fails": eitherWay, "rustfmt fails at the end": eitherWay, "rustfmt fails half-way": eitherWay, "rustfmt is killed": eitherWay,
	"rustfmt does not read": eitherWay, "rustfmt is missing": eitherWay, "rustfmt fails for a later file": eitherWay,
	"request in pieces": mustAnswer, "slow reader": mustAnswer,
	"standard output is full": mustRefuse, "nobody reads standard output": mustRefuse, "standard input is a directory": mustRefuse,
	"standard error is full": mustAnswer,
}

// ended is how a run of a plugin ended.
type ended struct {
	out    []byte
	ok     bool // exit status 0
	state  string
	stderr string
}

func (c RunCase) run(e *Env, req []byte) (r ended, bad *Fail) {
	argv, ok := e.argv[c.bin()]
	if !ok {
		infra("no plugin %s", c.bin())
	}
	dir, err := os.MkdirTemp("", "plug")
	if err != nil {
		infra("%v", err)
	}
	defer os.RemoveAll(dir)
	check := func(err error) {
		if err != nil {
			infra("%v", err)
		}
	}
	cmd := exec.Command(argv[0], argv[1:]...)
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "GOTRACEBACK=single", "GOMAXPROCS=2", "PWD="+dir)
	var out, errb bytes.Buffer
	cmd.Stdin, cmd.Stdout, cmd.Stderr = bytes.NewReader(req), &out, &errb
	path := func(p string) { cmd.Env = append(cmd.Env, "PATH="+p) }
	var files []io.Closer
	closeAll := func() {
		for _, f := range files {
			f.Close()
		}
		files = nil
	}
	defer closeAll()
	var after func()
	switch script, isFmt := rustfmts[c.Fault]; {
	case isFmt:
		real, err := exec.LookPath("rustfmt")
		check(err)
		bin := filepath.Join(dir, "bin")
		check(os.Mkdir(bin, 0o755))
		check(os.WriteFile(filepath.Join(bin, "rustfmt"), []byte("#!/bin/sh\n"+strings.ReplaceAll(script, "%s", real)+"\n"), 0o755))
		path(bin + ":" + os.Getenv("PATH"))
	case c.Fault == "rustfmt is missing":
		path(filepath.Join(dir, "nothing"))
	case c.Fault == "rustfmt.toml":
		check(os.WriteFile(filepath.Join(dir, []string{"rustfmt.toml", ".rustfmt.toml"}[c.M%2]), []byte(fmt.Sprintf("max_width = %d\ntab_spaces = %d\nhard_tabs = %v\n", 60+c.N%100, 1+c.N%8, c.N%3 == 0)), 0o644))
	case c.Fault == "rustfmt.toml with warnings":
		check(os.WriteFile(filepath.Join(dir, "rustfmt.toml"), []byte("wrap_comments = true\nimports_granularity = \"Crate\"\n"), 0o644))
	case c.Fault == "request in pieces":
		cmd.Stdin = &dribble{b: req, n: 1 + c.N, m: c.M}
	case c.Fault == "standard input is a directory":
		f, err := os.Open(dir)
		check(err)
		files = append(files, f)
		cmd.Stdin = f
	case c.Fault == "standard output is full" || c.Fault == "standard error is full":
		f, err := os.OpenFile("/dev/full", os.O_WRONLY, 0)
		check(err)
		files = append(files, f)
		if c.Fault == "standard output is full" {
			cmd.Stdout = f
		} else {
			cmd.Stderr = f
		}
	case c.Fault == "nobody reads standard output":
		r, w, err := os.Pipe()
		check(err)
		r.Close()
		files = append(files, w)
		cmd.Stdout = w
	case c.Fault == "slow reader":
		r, w, err := os.Pipe()
		check(err)
		files = append(files, w)
		cmd.Stdout = w
		done := make(chan bool)
		go func() {
			defer close(done)
			defer r.Close()
			b := make([]byte, 1+c.N%5000)
			for i := 0; ; i++ {
				if i < 20 {
					time.Sleep(2 * time.Millisecond)
				}
				n, err := r.Read(b)
				out.Write(b[:n])
				if err != nil {
					return
				}
			}
		}()
		after = func() { <-done }
	}
	cmd.WaitDelay = pipeDelay
	if err := cmd.Start(); err != nil {
		infra("%s: %v", c.bin(), err)
	}
	closeAll()
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case err = <-done:
	case <-time.After(200 * time.Second):
		cmd.Process.Kill()
		<-done
		return r, failf("%s does not finish (%s)", c.bin(), c.Fault)
	}
	if after != nil {
		after()
	}
	ws, _ := cmd.ProcessState.Sys().(syscall.WaitStatus)
	if ws.Signaled() && ws.Signal() == syscall.SIGKILL {
		infra("%s: %v", c.bin(), err)
	}
	pipesLate(err)
	return ended{out.Bytes(), cmd.ProcessState.Success(), cmd.ProcessState.String(), schema.Clip(errb.String(), 400)}, nil
}

// dribble hands out a request in pieces of n bytes.
type dribble struct {
	b    []byte
	n, m int
}

func (d *dribble) Read(p []byte) (int, error) {
	if len(d.b) == 0 {
		return 0, io.EOF
	}
	if d.m > 0 {
		d.m--
		time.Sleep(time.Millisecond)
	}
	n := copy(p, d.b[:min(d.n, len(d.b))])
	d.b = d.b[n:]
	return n, nil
}

// answer is what a run claims as its result: nil for an error.
func (r ended) answer(c RunCase) (*pluginpb.CodeGeneratorResponse, *Fail) {
	if !r.ok {
		return nil, nil
	}
	res := &pluginpb.CodeGeneratorResponse{}
	if err := proto.Unmarshal(r.out, res); err != nil {
		return nil, failf("%s (%s) succeeds with an answer that is not a CodeGeneratorResponse: %v", c.bin(), c.Fault, err)
	}
	if res.Error != nil {
		return nil, nil
	}
	return res, nil
}

var word = regexp.MustCompile(`[0-9A-Za-z_]+|"[^"]*"`)

// sameCode: the same tokens, whatever the layout.
func sameCode(a, b string) bool {
	return slices.Equal(word.FindAllString(a, -1), word.FindAllString(b, -1))
}

func p23run(e *Env, c RunCase) *Fail {
	req := c.request()
	plain := c
	plain.Fault = ""
	r, bad := plain.run(e, req)
	if bad != nil {
		return bad
	}
	want, bad := r.answer(plain)
	if bad != nil {
		return bad
	}
	if want == nil {
		return failf("%s refuses a request (%s): %s", c.bin(), r.state, r.stderr)
	}
	r, bad = c.run(e, req)
	if bad != nil {
		return bad
	}
	got, bad := r.answer(c)
	if bad != nil {
		return bad
	}
	must := faults[c.Fault]
	if c.Group != 1 && strings.HasPrefix(c.Fault, "rustfmt") {
		must = mustAnswer // none of their business
	}
	if got == nil {
		if must == mustAnswer {
			return failf("%s fails although only %s (%s): %s", c.bin(), c.Fault, r.state, r.stderr)
		}
		return nil
	}
	if must == mustRefuse {
		return failf("%s succeeds although %s", c.bin(), c.Fault)
	}
	if len(got.File) != len(want.File) {
		return failf("%s succeeds with %d of %d files when %s", c.bin(), len(got.File), len(want.File), c.Fault)
	}
	for i, f := range got.File {
		if f.GetName() != want.File[i].GetName() {
			return failf("%s gives %q in place of %q when %s", c.bin(), f.GetName(), want.File[i].GetName(), c.Fault)
		}
		if a, b := want.File[i].GetContent(), f.GetContent(); a != b {
			if c.Group == 1 && (c.Fault == "rustfmt.toml" || must == eitherWay) && sameCode(a, b) {
				continue
			}
			return failf("%s succeeds with something else in %s when %s: %s", c.bin(), f.GetName(), c.Fault, diff(a, b))
		}
	}
	return nil
}

// ---- requests that cannot be answered ----

var defects = []string{"group", "group", "group", "missing file", "no go_package", "dangling type", "missing import", "parameter", "file twice", "number twice", "kind",
	"cut", "cut", "flip", "flip", "garbage", "tail"}

// broken is the request of the case with its defect.
func (c RunCase) broken() []byte { return c.damage(c.request()) }

func (c RunCase) damage(whole []byte) []byte {
	r := &pluginpb.CodeGeneratorRequest{}
	if err := proto.Unmarshal(whole, r); err != nil {
		infra("%v", err)
	}
	at := r.ProtoFile[c.N%len(r.ProtoFile)]
	var ms []*descriptorpb.DescriptorProto
	var walk func(l []*descriptorpb.DescriptorProto)
	walk = func(l []*descriptorpb.DescriptorProto) {
		for _, m := range l {
			if !m.GetOptions().GetMapEntry() {
				ms = append(ms, m)
				walk(m.NestedType)
			}
		}
	}
	walk(at.MessageType)
	var m *descriptorpb.DescriptorProto
	var x *descriptorpb.FieldDescriptorProto
	if len(ms) > 0 {
		m = ms[c.M%len(ms)]
		if len(m.Field) > 0 {
			x = m.Field[(c.M/len(ms))%len(m.Field)]
		}
	}
	switch c.Fault {
	case "group":
		if at.GetSyntax() == "proto3" || m == nil {
			// in a file of its own
			m = &descriptorpb.DescriptorProto{Name: proto.String("Holder")}
			f := &descriptorpb.FileDescriptorProto{Name: proto.String("verif_group.proto"), Package: proto.String("verif.grouped"), Syntax: proto.String("proto2"),
				Options: &descriptorpb.FileOptions{GoPackage: proto.String("example.com/verif/grouped")}, MessageType: []*descriptorpb.DescriptorProto{m}}
			r.ProtoFile = append(r.ProtoFile, f)
			i := c.M % (len(r.FileToGenerate) + 1)
			r.FileToGenerate = slices.Insert(r.FileToGenerate, i, f.GetName())
			full := ".verif.grouped.Holder"
			if c.N%2 == 1 {
				in := &descriptorpb.DescriptorProto{Name: proto.String("Inner")}
				m.NestedType = append(m.NestedType, in)
				m, full = in, full+".Inner"
			}
			addGroup(m, full, c.N)
			break
		}
		addGroup(m, fullOf(at, m), c.N)
	case "missing file":
		r.FileToGenerate = slices.Insert(r.FileToGenerate, c.M%(len(r.FileToGenerate)+1), "nowhere/missing.proto")
	case "no go_package":
		if at.Options != nil {
			at.Options.GoPackage = nil
		}
	case "dangling type":
		if x != nil {
			x.Type, x.TypeName, x.DefaultValue = descriptorpb.FieldDescriptorProto_TYPE_MESSAGE.Enum(), proto.String(".nowhere.Missing"), nil
		}
	case "missing import":
		at.Dependency = append(at.Dependency, "nowhere/missing.proto")
	case "parameter":
		r.Parameter = proto.String([]string{"paths=sideways", "paths=", "privcy=public", "unknown", "privacy=public,unknown=1"}[c.N%5])
	case "file twice":
		r.ProtoFile = append(r.ProtoFile, proto.Clone(at).(*descriptorpb.FileDescriptorProto))
	case "number twice":
		if m != nil && len(m.Field) > 1 {
			m.Field[0].Number = proto.Int32(m.Field[1].GetNumber())
		}
	case "kind":
		if x != nil {
			x.Type = descriptorpb.FieldDescriptorProto_Type(c.N % 23).Enum()
		}
	case "cut":
		return whole[:c.N%len(whole)]
	case "flip":
		b := slices.Clone(whole)
		b[c.N%len(b)] ^= 1 << (c.M % 8)
		return b
	case "garbage":
		return c.Data
	case "tail":
		return append(slices.Clone(whole), c.Data...)
	}
	b, err := proto.Marshal(r)
	if err != nil {
		infra("%v", err)
	}
	return b
}

func fullOf(f *descriptorpb.FileDescriptorProto, want *descriptorpb.DescriptorProto) string {
	found := ""
	var walk func(prefix string, l []*descriptorpb.DescriptorProto)
	walk = func(prefix string, l []*descriptorpb.DescriptorProto) {
		for _, m := range l {
			if m == want {
				found = prefix + "." + m.GetName()
			}
			walk(prefix+"."+m.GetName(), m.NestedType)
		}
	}
	p := ""
	if f.GetPackage() != "" {
		p = "." + f.GetPackage()
	}
	walk(p, f.MessageType)
	return found
}

// addGroup gives m a group: single, repeated or in a oneof.
func addGroup(m *descriptorpb.DescriptorProto, full string, n int) {
	m.NestedType = append(m.NestedType, &descriptorpb.DescriptorProto{Name: proto.String("Verifgroup"), Field: []*descriptorpb.FieldDescriptorProto{{
		Name: proto.String("x"), JsonName: proto.String("x"), Number: proto.Int32(1), Label: descriptorpb.FieldDescriptorProto_LABEL_OPTIONAL.Enum(), Type: descriptorpb.FieldDescriptorProto_TYPE_INT32.Enum(),
	}}})
	x := &descriptorpb.FieldDescriptorProto{Name: proto.String("verifgroup"), JsonName: proto.String("verifgroup"), Number: proto.Int32(536870000), Label: descriptorpb.FieldDescriptorProto_LABEL_OPTIONAL.Enum(),
		Type: descriptorpb.FieldDescriptorProto_TYPE_GROUP.Enum(), TypeName: proto.String(full + ".Verifgroup")}
	switch n / 2 % 3 {
	case 1:
		x.Label = descriptorpb.FieldDescriptorProto_LABEL_REPEATED.Enum()
	case 2:
		m.OneofDecl = append(m.OneofDecl, &descriptorpb.OneofDescriptorProto{Name: proto.String("verifoneof")})
		x.OneofIndex = proto.Int32(int32(len(m.OneofDecl) - 1))
	}
	m.Field = slices.Insert(m.Field, (n/6)%(len(m.Field)+1), x)
	if x.OneofIndex != nil { // fields of a oneof follow one another, and synthetic ones come last
		m.Field = append(slices.DeleteFunc(m.Field, func(y *descriptorpb.FieldDescriptorProto) bool { return y == x }), x)
	}
}

func hasGroup(ms protoreflect.MessageDescriptors) bool {
	for i := range ms.Len() {
		m := ms.Get(i)
		for j := range m.Fields().Len() {
			if m.Fields().Get(j).Kind() == protoreflect.GroupKind {
				return true
			}
		}
		if hasGroup(m.Messages()) {
			return true
		}
	}
	return false
}

// unanswerable says why a request has to be refused ("" if it need not be), and how many outputs an answer has.
func unanswerable(group int, req []byte) (why string, outputs int) {
	r := &pluginpb.CodeGeneratorRequest{}
	if err := proto.Unmarshal(req, r); err != nil {
		return "the request cannot be read", 0
	}
	why = ""
	unknown := ""
	p, err := protogen.Options{ParamFunc: func(name, value string) error {
		if name != "privacy" {
			unknown = name
		}
		return nil
	}, ImportRewriteFunc: func(p protogen.GoImportPath) protogen.GoImportPath { return p }}.New(r)
	if err != nil {
		return "protogen: " + err.Error(), 0
	}
	if group == 1 && unknown != "" {
		return "there is no parameter " + unknown, 0
	}
	for _, f := range p.Files {
		if f.Generate {
			outputs++
			if hasGroup(f.Desc.Messages()) {
				why = "there is a group in " + f.Desc.Path()
			}
		}
	}
	return why, outputs
}

func p23refuse(e *Env, c RunCase) *Fail {
	req := c.broken()
	why, outputs := unanswerable(c.Group, req)
	run := c
	run.Fault = "request with defect: " + c.Fault
	r, bad := run.run(e, req)
	if bad != nil {
		return bad
	}
	res, bad := r.answer(run)
	if bad != nil || res == nil {
		return bad
	}
	if why != "" {
		return failf("%s answers a request that it cannot answer: %s (%s)", c.bin(), why, c.Fault)
	}
	if len(res.File) != outputs {
		return failf("%s: %d outputs for %d files to generate (%s)", c.bin(), len(res.File), outputs, c.Fault)
	}
	for _, f := range res.File {
		if strings.TrimSpace(f.GetContent()) == "" || f.GetName() == "" {
			return failf("%s: output %q is empty (%s)", c.bin(), f.GetName(), c.Fault)
		}
		if c.Group == 0 {
			if _, err := parser.ParseFile(token.NewFileSet(), f.GetName(), f.GetContent(), parser.SkipObjectResolution); err != nil {
				return failf("%s: output %q is not Go: %v (%s)", c.bin(), f.GetName(), err, c.Fault)
			}
		}
	}
	return nil
}

func genRunFiles(t *rapid.T, c *RunCase) {
	n := rapid.IntRange(1, 3).Draw(t, "files")
	for i := 0; i < n; i++ {
		f := schema.Gen(t, schema.GenOpts{Sparse: true, MaxMsgs: 4, Index: i, Rust: c.Group == 1 && rapid.Bool().Draw(t, "rustlike")})
		if f.Pkg == "" {
			f.Pkg = fmt.Sprintf("q%d", i)
		} else {
			f.Pkg = fmt.Sprintf("q%d.%s", i, f.Pkg)
		}
		relink(f)
		c.Files = append(c.Files, f)
	}
	if rapid.IntRange(0, 3).Draw(t, "split?") == 0 {
		f, k := c.Files[n-1], rapid.IntRange(2, 3).Draw(t, "parts")
		m := len(f.Enums) + len(f.Msgs)
		c.Files = append(c.Files[:n-1], f.Split(k, rapid.SliceOfN(rapid.IntRange(0, k-1), m, m).Draw(t, "of"))...)
	}
	if c.Group == 1 {
		c.Param = rapid.SampledFrom([]string{"", "privacy=public", "privacy=crate", "privacy=private"}).Draw(t, "param")
	}
}

func init() {
	var all, rust []string
	for k := range faults {
		all = append(all, k)
	}
	slices.Sort(all)
	rust = slices.Clone(all)
	for _, k := range all {
		if strings.HasPrefix(k, "rustfmt") {
			rust = append(rust, k, k)
		}
	}
	class := func(c RunCase) Class {
		n := 0
		for _, f := range c.Files {
			f.Link()
			n += len(f.AllMsgs()) + len(f.AllEnums())
		}
		return Class{NonTrivial: n > 0, Labels: []string{c.Fault, c.bin()}}
	}
	for g, lang := range []string{"Go", "Rust", "TS"} {
		g := g
		Define(Part{Prop: "P23", Name: "Faults" + lang, Needs: groupBins(g), Quick: []int{150, 180, 150}[g], Thorough: []int{4000, 3000, 4000}[g], Shards: 3, Weight: 6,
			Rule: "a schema with at least one declaration"},
			Spec[RunCase]{Gen: func(t *rapid.T) RunCase {
				c := RunCase{Group: g, Ver: rapid.IntRange(0, 1).Draw(t, "ver")}
				c.Fault = rapid.SampledFrom(map[bool][]string{true: rust, false: all}[g == 1]).Draw(t, "fault")
				c.N, c.M = rapid.IntRange(0, 9999).Draw(t, "n"), rapid.IntRange(0, 30).Draw(t, "m")
				if c.Fault == "request in pieces" && rapid.Bool().Draw(t, "small") {
					c.N = rapid.IntRange(0, 20).Draw(t, "n")
				}
				genRunFiles(t, &c)
				return c
			}, Check: p23run, Class: class, Text: RunCase.text})
		Define(Part{Prop: "P23", Name: "Refused" + lang, Needs: groupBins(g), Quick: []int{700, 300, 700}[g], Thorough: []int{20000, 6000, 20000}[g], Shards: 3, Weight: 6,
			Rule: "a request that must be refused"},
			Spec[RunCase]{Gen: func(t *rapid.T) RunCase {
				c := RunCase{Group: g, Ver: rapid.IntRange(0, 1).Draw(t, "ver")}
				c.Fault = rapid.SampledFrom(defects).Draw(t, "defect")
				c.N, c.M = rapid.IntRange(0, 99999).Draw(t, "n"), rapid.IntRange(0, 999).Draw(t, "m")
				if c.Fault == "garbage" || c.Fault == "tail" {
					c.Data = rapid.SliceOfN(rapid.Byte(), 1, 40).Draw(t, "data")
				}
				genRunFiles(t, &c)
				return c
			}, Check: p23refuse, Text: RunCase.text,
				Class: func(c RunCase) Class {
					cl := class(c)
					why, _ := unanswerable(c.Group, c.broken())
					cl.NonTrivial = why != ""
					if why != "" {
						why, _, _ = strings.Cut(why, ":")
						if strings.HasPrefix(why, "there is a group") {
							why = "there is a group"
						}
						cl.Labels = append(cl.Labels, why)
					} else {
						cl.Labels = append(cl.Labels, "may be answered")
					}
					return cl
				}})
	}
}
