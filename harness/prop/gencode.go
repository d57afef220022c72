package prop

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"go/ast"
	"go/constant"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path"
	"regexp"
	"slices"
	"sort"
	"strconv"
	"strings"
	"time"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/pluginpb"
	"pgregory.net/rapid"

	"verif/harness/schema"
	"verif/harness/wire"
)

// Checks of what the plugins emit, judged without building it: parsed, type-checked and compared with the schema.

// goPlugins: name of the plugin binary and the module its code imports.
var goPlugins = []struct{ bin, lib string }{
	{"plug-go1", "github.com/loopholelabs/polyglot"},
	{"plug-go2", "github.com/loopholelabs/polyglot/v2"},
}

var rsPlugins = []string{"plug-rs1", "plug-rs2"}
var tsPlugins = []string{"plug-ts1", "plug-ts2"}

// plugin runs a plugin on a request. A plugin that crashes or answers with an error yields a Fail.
func plugin(e *Env, name string, req []byte) (*pluginpb.CodeGeneratorResponse, *Fail) {
	return pluginIn(e, name, req, false)
}

// pipeDelay is how long the pipes of a process that has ended may stay open: between fork and exec every other child holds them too, which
// on a loaded machine takes its time. What is late for longer says nothing about the process.
const pipeDelay = time.Minute

func pipesLate(err error) {
	if errors.Is(err, exec.ErrWaitDelay) {
		infra("the pipes of a process that has ended stay open")
	}
}

// pluginIn runs a plugin, when away is set in another directory and with another environment than the check's own.
func pluginIn(e *Env, name string, req []byte, away bool) (*pluginpb.CodeGeneratorResponse, *Fail) {
	argv, ok := e.argv[name]
	if !ok {
		infra("no plugin %s", name)
	}
	cmd := exec.Command(argv[0], argv[1:]...)
	cmd.Stdin = bytes.NewReader(req)
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	cmd.Env = append(os.Environ(), "GOTRACEBACK=single", "GOMAXPROCS=2")
	if away {
		dir, err := os.MkdirTemp("", "plug")
		if err != nil {
			infra("%v", err)
		}
		defer os.RemoveAll(dir)
		cmd.Dir = dir
		// the home directory stays: rustfmt is found through it
		cmd.Env = append(cmd.Env, "USER=nobody", "TZ=Asia/Tokyo", "LANG=de_DE.UTF-8", "LC_ALL=C.UTF-8", "PWD="+dir, "SOURCE_DATE_EPOCH=1", "HOSTNAME=elsewhere",
			"GOMAXPROCS=1", "GOGC=20", "NO_COLOR=1", "TERM=dumb")
	}
	cmd.WaitDelay = pipeDelay
	if err := cmd.Start(); err != nil {
		infra("%s: %v", name, err)
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	var err error
	begin := time.Now()
	tick := time.NewTicker(time.Second)
	defer tick.Stop()
wait:
	for {
		select {
		case err = <-done:
			break wait
		case <-tick.C:
			if used := cpuOf(cmd.Process.Pid); used > HangCPU/2 {
				cmd.Process.Kill()
				<-done
				return nil, failf("%s does not finish (%.0f s of processor time)", name, used)
			}
			if time.Since(begin) > WallLimit {
				cmd.Process.Kill()
				<-done
				return nil, failf("%s does not finish", name)
			}
		}
	}
	pipesLate(err)
	if err != nil {
		if cmd.ProcessState != nil && cmd.ProcessState.ExitCode() == -1 && strings.Contains(err.Error(), "killed") {
			infra("%s: %v", name, err)
		}
		return nil, failf("%s crashes (%v): %s", name, err, schema.Clip(errb.String(), 800))
	}
	res := &pluginpb.CodeGeneratorResponse{}
	if err := proto.Unmarshal(out.Bytes(), res); err != nil {
		return nil, failf("%s: the answer is not a CodeGeneratorResponse: %v", name, err)
	}
	if res.Error != nil {
		return nil, failf("%s refuses the request: %s", name, schema.Clip(res.GetError(), 800))
	}
	return res, nil
}

// outName is the file a plugin must produce for a schema file, without the extension. The Go plugins' protogen derives it
// from go_package and the base name.
func outName(f *schema.File) string {
	imp := f.GoPkg
	if i := strings.IndexByte(imp, ';'); i >= 0 {
		imp = imp[:i]
	}
	return path.Join(imp, strings.TrimSuffix(path.Base(f.Path), ".proto"))
}

// isOutput: the generators append their own suffix.
func isOutput(name string, f *schema.File) bool {
	for _, suffix := range []string{".polyglot.go", "_polyglot.rs", ".polyglot.ts"} {
		if name == outName(f)+suffix {
			return true
		}
	}
	return false
}

type exports struct {
	m  map[string]string
	ok bool
}

var exp exports

func imp(e *Env, fset *token.FileSet) types.Importer {
	if !exp.ok {
		b, err := os.ReadFile(e.Path("exports"))
		if err != nil {
			infra("exports: %v", err)
		}
		if err := json.Unmarshal(b, &exp.m); err != nil {
			infra("exports: %v", err)
		}
		exp.ok = true
	}
	return importer.ForCompiler(fset, "gc", func(p string) (io.ReadCloser, error) {
		f, ok := exp.m[p]
		if !ok {
			return nil, fmt.Errorf("package %s is not available to generated code", p)
		}
		return os.Open(f)
	})
}

var sharedSet = token.NewFileSet()
var sharedImp types.Importer

// typecheck parses and type-checks generated sources as one package.
func typecheck(e *Env, srcs ...string) (*types.Package, error) {
	if sharedImp == nil {
		sharedImp = imp(e, sharedSet)
	}
	var asts []*ast.File
	for i, s := range srcs {
		a, err := parser.ParseFile(sharedSet, fmt.Sprintf("gen%d.go", i), s, 0)
		if err != nil {
			return nil, err
		}
		asts = append(asts, a)
	}
	var errs []string
	conf := types.Config{Sizes: types.SizesFor("gc", "386"), Importer: sharedImp, GoVersion: "go1.23", Error: func(err error) {
		if len(errs) < 4 {
			errs = append(errs, err.Error())
		}
	}}
	pkg, _ := conf.Check("example.com/gen", sharedSet, asts, nil)
	if len(errs) > 0 {
		return nil, fmt.Errorf("%s", strings.Join(errs, "; "))
	}
	return pkg, nil
}

func typeText(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string {
		if p.Path() == "example.com/gen" {
			return ""
		}
		return p.Name()
	})
}

// goOutput runs a Go plugin on one file and returns its type-checked output.
func goOutput(e *Env, bin string, f *schema.File) (*types.Package, string, *Fail) {
	f.Link()
	req := schema.Request([]*schema.File{f}, []string{f.Path}, "")
	var res *pluginpb.CodeGeneratorResponse
	var bad *Fail
	if f.Hook {
		res, bad = hooked(e, bin, req)
	} else {
		res, bad = plugin(e, bin, req)
	}
	if bad != nil {
		return nil, "", bad
	}
	if len(res.File) != 1 {
		return nil, "", failf("%s: %d files for one schema file", bin, len(res.File))
	}
	src := res.File[0].GetContent()
	pkg, err := typecheck(e, src)
	if err != nil {
		return nil, src, failf("%s: the generated code does not compile: %v", bin, err)
	}
	return pkg, src, nil
}

func fieldsOf(pkg *types.Package, name string) (*types.Struct, *Fail) {
	o := pkg.Scope().Lookup(name)
	tn, ok := o.(*types.TypeName)
	if !ok {
		return nil, failf("no type %s", name)
	}
	st, ok := tn.Type().Underlying().(*types.Struct)
	if !ok {
		return nil, failf("%s is not a struct", name)
	}
	return st, nil
}

// constants groups the package's constants by type name, in order of name.
func constants(pkg *types.Package) map[string]map[string]constant.Value {
	m := map[string]map[string]constant.Value{}
	for _, n := range pkg.Scope().Names() {
		if c, ok := pkg.Scope().Lookup(n).(*types.Const); ok {
			t := typeText(c.Type())
			if m[t] == nil {
				m[t] = map[string]constant.Value{}
			}
			m[t][n] = c.Val()
		}
	}
	return m
}

// checkDeclared: one type per message with a field per schema field, a constant per enum value, the documented functions.
func checkDeclared(pkg *types.Package, f *schema.File) *Fail {
	for _, m := range f.AllMsgs() {
		n := schema.GoName(m.Full())
		st, bad := fieldsOf(pkg, n)
		if bad != nil {
			return failf("message %s: %s", m.Full(), bad.Msg)
		}
		if n := st.NumFields() - f.HookFieldCount(); n != len(m.Fields) {
			return failf("message %s has %d fields, the generated struct %d", m.Full(), len(m.Fields), n)
		}
		sig := func(o types.Object, want string) *Fail {
			if o == nil {
				return failf("message %s: %s is missing", m.Full(), want)
			}
			if got := typeText(o.Type()); got != want {
				return failf("message %s: %s has type %s, want %s", m.Full(), o.Name(), got, want)
			}
			return nil
		}
		if bad := sig(pkg.Scope().Lookup("New"+n), "func() *"+n); bad != nil {
			return bad
		}
		ptr := types.NewPointer(pkg.Scope().Lookup(n).Type())
		for _, w := range []struct{ name string }{{"Encode"}, {"Decode"}, {"Error"}} {
			if o, _, _ := types.LookupFieldOrMethod(ptr, true, pkg, w.name); o == nil {
				return failf("message %s: no method %s", m.Full(), w.name)
			} else if _, ok := o.(*types.Func); !ok {
				return failf("message %s: %s is not a method", m.Full(), w.name)
			}
		}
	}
	cs := constants(pkg)
	for _, en := range f.AllEnums() {
		n := schema.GoName(en.Full())
		if _, ok := pkg.Scope().Lookup(n).(*types.TypeName); !ok {
			return failf("enum %s: no type %s", en.Full(), n)
		}
		if got := len(cs[n]); got != len(en.Values) {
			return failf("enum %s has %d values, the generated code %d constants", en.Full(), len(en.Values), got)
		}
	}
	return nil
}

func p14(e *Env, f *schema.File) *Fail {
	for _, p := range goPlugins {
		pkg, _, bad := goOutput(e, p.bin, f)
		if bad != nil {
			return bad
		}
		if pkg.Name() != f.GoPackage() {
			return failf("%s: package %s, want %s", p.bin, pkg.Name(), f.GoPackage())
		}
		if bad := checkDeclared(pkg, f); bad != nil {
			return failf("%s: %s", p.bin, bad.Msg)
		}
	}
	return nil
}

// Together is one Go package generated from several schema files.
type Together struct {
	Files []*schema.File
	Whole bool // do not look past what is a known finding
}

// perFile is what every generated Go file declares: the error for a nil message (a known finding).
var perFile = regexp.MustCompile(`(?m)^(\s*(?:var )?)(NilDecode|ErrDecodeNil)(\s*=)`)

func p14together(e *Env, c Together) *Fail {
	whole := &schema.File{}
	var gen []string
	for _, f := range c.Files {
		f.Link()
		gen = append(gen, f.Path)
	}
	for _, f := range c.Files {
		whole.Pkg, whole.GoPkg = f.Pkg, f.GoPkg
		whole.Msgs = append(whole.Msgs, f.Msgs...)
		whole.Enums = append(whole.Enums, f.Enums...)
	}
	for _, p := range goPlugins {
		res, bad := plugin(e, p.bin, schema.Request(c.Files, gen, ""))
		if bad != nil {
			return bad
		}
		if len(res.File) != len(c.Files) {
			return failf("%s: %d files for %d schema files", p.bin, len(res.File), len(c.Files))
		}
		var srcs []string
		for i, r := range res.File {
			src := r.GetContent()
			if i > 0 && !c.Whole {
				src = perFile.ReplaceAllString(src, fmt.Sprintf("${1}${2}%d${3}", i))
			}
			srcs = append(srcs, src)
		}
		pkg, err := typecheck(e, srcs...)
		if err != nil {
			return failf("%s: code generated from several files of one package does not compile: %v", p.bin, err)
		}
		if bad := checkDeclared(pkg, whole); bad != nil {
			return failf("%s: %s", p.bin, bad.Msg)
		}
		if bad := goNames(pkg, whole); bad != nil {
			return failf("%s: %s", p.bin, bad.Msg)
		}
	}
	return nil
}

func genTogether(t *rapid.T) Together {
	f := schema.Gen(t, schema.GenOpts{Sparse: true, MaxMsgs: 8})
	n := rapid.IntRange(2, 3).Draw(t, "files")
	of := rapid.SliceOfN(rapid.IntRange(0, n-1), len(f.Enums)+len(f.Msgs), len(f.Enums)+len(f.Msgs)).Draw(t, "of")
	return Together{Files: f.Split(n, of)}
}

// p20 compares every declared name, type and number.
func p20(e *Env, f *schema.File) *Fail {
	for _, p := range goPlugins {
		pkg, _, bad := goOutput(e, p.bin, f)
		if bad != nil {
			return bad
		}
		if bad := goNames(pkg, f); bad != nil {
			return failf("%s: %s", p.bin, bad.Msg)
		}
	}
	return nil
}

func goNames(pkg *types.Package, f *schema.File) *Fail {
	want := map[string]bool{}
	for _, m := range f.AllMsgs() {
		n := schema.GoName(m.Full())
		want[n] = true
		st, bad := fieldsOf(pkg, n)
		if bad != nil {
			return failf("message %s: %s", m.Full(), bad.Msg)
		}
		if st.NumFields() != len(m.Fields) {
			return failf("message %s has %d fields, the generated struct %d", m.Full(), len(m.Fields), st.NumFields())
		}
		have := map[string]types.Type{}
		for i := 0; i < st.NumFields(); i++ {
			have[st.Field(i).Name()] = st.Field(i).Type()
		}
		for _, x := range m.Fields {
			gn := schema.GoFieldName(x.Name)
			ht, ok := have[gn]
			if !ok {
				return failf("field %s.%s: no field %s in %s", m.Full(), x.Name, gn, n)
			}
			if got := typeText(ht); got != x.GoType(m) {
				return failf("field %s.%s (%s): type %s, want %s", m.Full(), x.Name, x.Card, got, x.GoType(m))
			}
			if x.Card == schema.Map {
				want[x.GoMap(m)] = true
				if got := typeText(ht.Underlying()); got != x.GoMapType() {
					return failf("field %s.%s: map type %s, want %s", m.Full(), x.Name, got, x.GoMapType())
				}
			}
		}
	}
	cs := constants(pkg)
	for _, en := range f.AllEnums() {
		n := schema.GoName(en.Full())
		want[n] = true
		scope := strings.TrimSuffix(en.Full(), en.Name)
		for _, v := range en.Values {
			alt := schema.GoName(scope + v.Name) // enum values are siblings of their enum in protobuf
			c, ok := cs[n][alt]
			if !ok {
				return failf("enum value %s%s: no constant %s of type %s (has %v)", scope, v.Name, alt, n, keys(cs[n]))
			}
			if got, exact := constant.Uint64Val(c); !exact || got != uint64(uint32(v.Num)) {
				return failf("enum value %s%s = %d: the constant is %s", scope, v.Name, v.Num, c)
			}
		}
		if len(cs[n]) != len(en.Values) {
			return failf("enum %s has %d values, the generated code %d constants", en.Full(), len(en.Values), len(cs[n]))
		}
		if b, ok := pkg.Scope().Lookup(n).Type().Underlying().(*types.Basic); !ok || b.Kind() != types.Uint32 {
			return failf("enum %s is not a uint32", en.Full())
		}
	}
	for _, n := range pkg.Scope().Names() {
		if tn, ok := pkg.Scope().Lookup(n).(*types.TypeName); ok && tn.Exported() && !want[n] {
			return failf("type %s belongs to no schema element", n)
		}
	}
	return nil
}

func keys[V any](m map[string]V) (out []string) {
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return
}

// Rust, judged from the declarations in the source text.
var rsStruct = regexp.MustCompile(`pub\s+struct\s+([\w#]+)\s*(\{[^}]*\}|;)`)
var rsEnum = regexp.MustCompile(`pub\s+enum\s+([\w#]+)\s*\{([^}]*)\}`)
var rsComment = regexp.MustCompile(`//[^\n]*|/\*(?s:.*?)\*/`)
var rsSpace = regexp.MustCompile(`\s+`)
var rsPath = regexp.MustCompile(`\b[a-z_]+::(?:[a-z_]+::)*`)
var rsVis = regexp.MustCompile(`^(pub(\([a-z]+\))?\s+)?`)

type rsDecl struct {
	names []string
	types []string
}

func rsParse(src string) (structs, enums map[string]rsDecl) {
	structs, enums = map[string]rsDecl{}, map[string]rsDecl{}
	src = rsComment.ReplaceAllString(src, "")
	split := func(s string) (out []string) {
		depth, last := 0, 0
		for i, c := range s {
			switch c {
			case '<', '(', '[':
				depth++
			case '>', ')', ']':
				depth--
			case ',':
				if depth == 0 {
					out = append(out, s[last:i])
					last = i + 1
				}
			}
		}
		out = append(out, s[last:])
		return
	}
	for _, m := range rsStruct.FindAllStringSubmatch(src, -1) {
		d := rsDecl{}
		for _, x := range split(strings.Trim(m[2], "{};")) {
			x = rsVis.ReplaceAllString(strings.TrimSpace(x), "")
			k, v, ok := strings.Cut(x, ":")
			if !ok {
				continue
			}
			d.names = append(d.names, strings.TrimSpace(k))
			d.types = append(d.types, strings.ReplaceAll(rsPath.ReplaceAllString(rsSpace.ReplaceAllString(v, ""), ""), ",>", ">"))
		}
		structs[m[1]] = d
	}
	for _, m := range rsEnum.FindAllStringSubmatch(src, -1) {
		d := rsDecl{}
		for _, x := range split(m[2]) {
			k, v, _ := strings.Cut(strings.TrimSpace(x), "=")
			if strings.TrimSpace(k) == "" {
				continue
			}
			d.names = append(d.names, strings.TrimSpace(k))
			d.types = append(d.types, strings.TrimSpace(v))
		}
		enums[m[1]] = d
	}
	return
}

func p20rust(e *Env, f *schema.File) *Fail {
	f.Link()
	for _, bin := range rsPlugins {
		for _, param := range []string{"", "privacy=public"} {
			res, bad := plugin(e, bin, schema.Request([]*schema.File{f}, []string{f.Path}, param))
			if bad != nil {
				return bad
			}
			if len(res.File) != 1 {
				return failf("%s: %d files for one schema file", bin, len(res.File))
			}
			if bad := rustNames(res.File[0].GetContent(), f); bad != nil {
				return failf("%s: %s", bin, bad.Msg)
			}
		}
	}
	return nil
}

func rustNames(src string, f *schema.File) *Fail {
	structs, enums := rsParse(src)
	ms := f.AllMsgs()
	for _, m := range ms {
		n := schema.GoName(m.Full())
		d, ok := structs[n]
		if !ok {
			return failf("message %s: no struct %s (has %v)", m.Full(), n, keys(structs))
		}
		if len(d.names) != len(m.Fields) {
			return failf("message %s has %d fields, the generated struct %d", m.Full(), len(m.Fields), len(d.names))
		}
		have := map[string]string{}
		for i := range d.names {
			have[d.names[i]] = d.types[i]
		}
		for _, x := range m.Fields {
			rn := schema.RustField(x.Name)
			if got, ok := have[rn]; !ok {
				return failf("field %s.%s: no field %s in struct %s (has %v)", m.Full(), x.Name, rn, n, d.names)
			} else if got != x.RustType() {
				return failf("field %s.%s: type %s, want %s", m.Full(), x.Name, got, x.RustType())
			}
		}
	}
	if len(structs) != len(ms) {
		return failf("%d structs for %d messages: %v", len(structs), len(ms), keys(structs))
	}
	es := f.AllEnums()
	for _, en := range es {
		n := schema.GoName(en.Full())
		d, ok := enums[n]
		if !ok {
			return failf("enum %s: no enum %s (has %v)", en.Full(), n, keys(enums))
		}
		if len(d.names) != len(en.Values) {
			return failf("enum %s has %d values, the generated enum %d", en.Full(), len(en.Values), len(d.names))
		}
		have := map[string]string{}
		next := int64(0)
		for i := range d.names {
			v := strings.TrimSuffix(d.types[i], "u32")
			if v == "" {
				v = strconv.FormatInt(next, 10)
			}
			x, err := strconv.ParseInt(strings.ReplaceAll(v, "_", ""), 0, 64)
			if err != nil {
				return failf("enum %s: variant %s = %s is not a number", en.Full(), d.names[i], d.types[i])
			}
			next = x + 1
			have[d.names[i]] = strconv.FormatInt(x, 10)
		}
		for _, v := range en.Values {
			if got, ok := have[schema.RustIdent(v.Name)]; !ok {
				return failf("enum %s: no variant %s (has %v)", en.Full(), schema.RustIdent(v.Name), d.names)
			} else if want := strconv.FormatUint(uint64(uint32(v.Num)), 10); got != want {
				return failf("enum %s: variant %s is %s, want %s", en.Full(), v.Name, got, want)
			}
		}
	}
	if len(enums) != len(es) {
		return failf("%d enums for %d declared", len(enums), len(es))
	}
	return nil
}

// TypeScript, judged from the declarations the TypeScript parser finds.
type tsDecls struct {
	Errors  []string
	Classes []struct {
		Name             string
		Exported         bool
		Params, Get, Set [][2]string
		Methods          []string
	}
	Enums []struct {
		Name    string
		Members [][2]string
	}
	Imports, Calls []string
}

func p20ts(e *Env, f *schema.File) *Fail {
	f.Link()
	if tsUnclear(f) {
		return nil
	}
	for _, bin := range tsPlugins {
		res, bad := plugin(e, bin, schema.Request([]*schema.File{f}, []string{f.Path}, ""))
		if bad != nil {
			return bad
		}
		if len(res.File) != 1 {
			return failf("%s: %d files for one schema file", bin, len(res.File))
		}
		w := &wire.W{}
		w.Str(res.File[0].GetContent())
		var d tsDecls
		if err := json.Unmarshal([]byte(e.A("tsdecl").Do('T', w.B).Str()), &d); err != nil {
			infra("tsdecl: %v", err)
		}
		if bad := tsNames(d, f); bad != nil {
			return failf("%s: %s", bin, bad.Msg)
		}
	}
	return nil
}

func tsNames(d tsDecls, f *schema.File) *Fail {
	if len(d.Errors) > 0 {
		return failf("the module is not valid TypeScript: %s", strings.Join(d.Errors[:min(3, len(d.Errors))], "; "))
	}
	classes := map[string]int{}
	for i, c := range d.Classes {
		if _, dup := classes[c.Name]; dup {
			return failf("class %s is declared twice", c.Name)
		}
		classes[c.Name] = i
	}
	ms := f.AllMsgs()
	for _, m := range ms {
		n := schema.GoName(m.Full())
		i, ok := classes[n]
		if !ok {
			return failf("message %s: no class %s (has %v)", m.Full(), n, keys(classes))
		}
		c := d.Classes[i]
		if !c.Exported {
			return failf("message %s: class %s is not exported", m.Full(), n)
		}
		if !slices.Contains(c.Methods, "encode") || !slices.Contains(c.Methods, "decode") {
			return failf("message %s: class %s has methods %v", m.Full(), n, c.Methods)
		}
		var want [][2]string
		for _, x := range m.Fields {
			want = append(want, [2]string{schema.TSField(x.Name), x.TSType()})
		}
		for part, have := range map[string][][2]string{"constructor": c.Params, "getters": c.Get, "setters": c.Set} {
			if len(have) != len(want) {
				return failf("message %s has %d fields, class %s has %d in its %s: %v", m.Full(), len(want), n, len(have), part, have)
			}
			if part != "constructor" { // the order of accessors means nothing
				have = slices.Clone(have)
				at := map[string]int{}
				for i, x := range want {
					at[x[0]] = i
				}
				slices.SortStableFunc(have, func(a, b [2]string) int { return at[a[0]] - at[b[0]] })
			}
			for i, x := range want {
				if have[i] != x {
					return failf("field %s.%s: %s of class %s has %v where %v belongs", m.Full(), m.Fields[i].Name, part, n, have[i], x)
				}
			}
		}
	}
	if len(classes) != len(ms) {
		return failf("%d classes for %d messages: %v", len(classes), len(ms), keys(classes))
	}
	enums := map[string][][2]string{}
	for _, e := range d.Enums {
		if _, dup := enums[e.Name]; dup {
			return failf("enum %s is declared twice", e.Name)
		}
		enums[e.Name] = e.Members
	}
	es := f.AllEnums()
	for _, en := range es {
		n := schema.GoName(en.Full())
		members, ok := enums[n]
		if !ok {
			return failf("enum %s: no enum %s (has %v)", en.Full(), n, keys(enums))
		}
		if len(members) != len(en.Values) {
			return failf("enum %s has %d values, the generated enum %d", en.Full(), len(en.Values), len(members))
		}
		have := map[string]string{}
		for _, x := range members {
			have[x[0]] = x[1]
		}
		for _, v := range en.Values {
			if got, ok := have[v.Name]; !ok {
				return failf("enum %s: no member %s", en.Full(), v.Name)
			} else if want := strconv.FormatUint(uint64(uint32(v.Num)), 10); got != want {
				return failf("enum %s: member %s is %s, want %s", en.Full(), v.Name, got, want)
			}
		}
	}
	if len(enums) != len(es) {
		return failf("%d enums for %d declared", len(enums), len(es))
	}
	for _, x := range d.Calls {
		if !slices.Contains(d.Imports, x) {
			return failf("the module uses %s without importing it (imports %v)", x, d.Imports)
		}
	}
	return nil
}

// tsUnclear says whether field names collide under the TypeScript mapping.
func tsUnclear(f *schema.File) bool {
	for _, m := range f.AllMsgs() {
		seen := map[string]bool{}
		for _, x := range m.Fields {
			n := schema.TSField(x.Name)
			if seen[n] {
				return true
			}
			seen[n] = true
		}
	}
	return false
}

// Multi is a set of files generated together.
type Multi struct {
	Files  []*schema.File
	Orders [][]int // orders of file_to_generate, the first one complete
	Param  string
	Group  int // plugin group: 0 Go, 1 Rust, 2 TypeScript

	Worlds []schema.World // what else the requests say; the first file is generated in every one of them
	Wait   bool           // let the clock move on between the runs
}

// closure puts what files import in front of them.
func (c Multi) closure(fs []*schema.File) []*schema.File {
	var out []*schema.File
	seen := map[string]bool{}
	var add func(f *schema.File)
	add = func(f *schema.File) {
		if seen[f.Path] {
			return
		}
		seen[f.Path] = true
		for _, d := range f.Deps {
			for _, g := range c.Files {
				if g.Path == d {
					add(g)
				}
			}
		}
		out = append(out, f)
	}
	for _, f := range fs {
		add(f)
	}
	return out
}

func p19(e *Env, c Multi) *Fail {
	for _, f := range c.Files {
		f.Link()
	}
	bins := [][]string{{"plug-go1", "plug-go2"}, rsPlugins, tsPlugins}[c.Group]
	for _, bin := range bins {
		alone := map[string]string{}
		for i, f := range c.Files {
			tries := 2
			if i == 0 {
				tries += len(c.Worlds)
			}
			for try := 0; try < tries; try++ {
				listed := c.closure([]*schema.File{f})
				req := schema.Request(listed, []string{f.Path}, c.Param)
				if try >= 2 {
					req = schema.RequestIn(c.Worlds[try-2], listed, []string{f.Path}, c.Param)
					if c.Wait {
						time.Sleep(1100 * time.Millisecond)
					}
				}
				res, bad := pluginIn(e, bin, req, try%2 == 1)
				if bad != nil {
					return bad
				}
				if len(res.File) != 1 {
					return failf("%s: %d files for the one requested file %s", bin, len(res.File), f.Path)
				}
				if res.File[0].GetInsertionPoint() != "" || !isOutput(res.File[0].GetName(), f) {
					return failf("%s: output %q for %s, want %s followed by a suffix", bin, res.File[0].GetName(), f.Path, outName(f))
				}
				got := res.File[0].GetContent()
				if try >= 1 && got != alone[f.Path] {
					how := "in another directory and environment"
					if try >= 2 {
						how = fmt.Sprintf("with %+v", c.Worlds[try-2])
					}
					return failf("%s: a second run on %s, %s, differs: %s", bin, f.Path, how, diff(alone[f.Path], got))
				}
				alone[f.Path] = got
			}
		}
		for _, o := range c.Orders {
			var gen []string
			var fs []*schema.File
			for _, i := range o {
				gen = append(gen, c.Files[i].Path)
				fs = append(fs, c.Files[i])
			}
			// files that are only imported are listed too, but not generated
			all := append([]*schema.File{}, fs...)
			for i, f := range c.Files {
				in := false
				for _, j := range o {
					in = in || i == j
				}
				if !in {
					all = append([]*schema.File{f}, all...)
				}
			}
			w := schema.World{}
			if len(c.Worlds) > 0 {
				w = c.Worlds[0]
			}
			res, bad := plugin(e, bin, schema.RequestIn(w, c.closure(all), gen, c.Param))
			if bad != nil {
				return bad
			}
			if len(res.File) != len(gen) {
				return failf("%s: %d files for %d requested files", bin, len(res.File), len(gen))
			}
			seen := map[string]bool{}
			for _, r := range res.File {
				var f *schema.File
				for _, x := range fs {
					if isOutput(r.GetName(), x) {
						f = x
					}
				}
				if f == nil || seen[f.Path] {
					return failf("%s: unexpected output file %q", bin, r.GetName())
				}
				seen[f.Path] = true
				if r.GetContent() != alone[f.Path] {
					return failf("%s: the output for %s differs when it is generated with %v: %s", bin, f.Path, gen, diff(alone[f.Path], r.GetContent()))
				}
			}
		}
	}
	return nil
}

func diff(a, b string) string {
	x, y := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := 0; i < len(x) || i < len(y); i++ {
		p, q := "", ""
		if i < len(x) {
			p = x[i]
		}
		if i < len(y) {
			q = y[i]
		}
		if p != q {
			return fmt.Sprintf("line %d: %q / %q", i+1, p, q)
		}
	}
	return "no difference"
}

func schemaClass(f *schema.File) Class {
	f.Link()
	return Class{f.NonTrivial(), f.Features()}
}

func goSchema(rust bool) func(t *rapid.T) *schema.File {
	return func(t *rapid.T) *schema.File {
		return schema.Gen(t, schema.GenOpts{Rust: rust, Sparse: true, MaxMsgs: 6})
	}
}

func init() {
	rule := "a schema with at least two messages, or one with three fields of which one is a list, map, enum or message"
	Define(Part{Prop: "P14", Name: "GoCompiles", Needs: []string{"plug-go1", "plug-go2", "exports"}, Quick: 500, Thorough: 6000, Shards: 4, Weight: 5, Rule: rule},
		Spec[*schema.File]{Gen: goSchema(false), Check: p14, Class: schemaClass, Text: (*schema.File).Describe})
	Define(Part{Prop: "P14", Name: "GoTogether", Needs: []string{"plug-go1", "plug-go2", "exports"}, Quick: 250, Thorough: 3000, Shards: 3, Weight: 4, Rule: "at least two files with declarations, one of which refers to another"},
		Spec[Together]{Gen: genTogether, Check: p14together,
			Class: func(c Together) Class {
				n, deps := 0, 0
				for _, f := range c.Files {
					if len(f.Msgs)+len(f.Enums) > 0 {
						n++
					}
					deps += len(f.Deps)
				}
				return Class{NonTrivial: n > 1 && deps > 0, Labels: []string{fmt.Sprintf("files-%d", n)}}
			},
			Text: func(c Together) string {
				var b strings.Builder
				for _, f := range c.Files {
					f.Link()
					fmt.Fprintf(&b, "%s imports %v\n", f.Describe(), f.Deps)
				}
				return b.String()
			}})
	Define(Part{Prop: "P20", Name: "GoNames", Needs: []string{"plug-go1", "plug-go2", "exports"}, Quick: 400, Thorough: 6000, Shards: 4, Weight: 5, Rule: rule},
		Spec[*schema.File]{Gen: goSchema(false), Check: p20, Class: schemaClass, Text: (*schema.File).Describe})
	Define(Part{Prop: "P20", Name: "RustNames", Needs: []string{"plug-rs1", "plug-rs2"}, Quick: 120, Thorough: 1500, Shards: 4, Weight: 6, Rule: rule},
		Spec[*schema.File]{Gen: goSchema(true), Check: p20rust, Class: schemaClass, Text: (*schema.File).Describe})
	Define(Part{Prop: "P20", Name: "TSNames", Needs: []string{"plug-ts1", "plug-ts2", "tsdecl"}, Quick: 400, Thorough: 6000, Shards: 3, Weight: 4, Rule: rule},
		Spec[*schema.File]{Gen: goSchema(false), Check: p20ts, Class: func(f *schema.File) Class {
			if tsUnclear(f) {
				return Class{Labels: []string{"names collide"}}
			}
			return schemaClass(f)
		}, Text: (*schema.File).Describe})
	for g, lang := range []string{"Go", "Rust", "TS"} {
		g := g
		n := []int{90, 36, 90}[g]
		Define(Part{Prop: "P19", Name: "Independent" + lang, Needs: [][]string{{"plug-go1", "plug-go2"}, rsPlugins, tsPlugins}[g], Quick: n, Thorough: 16 * n, Shards: 3, Weight: 6,
			Rule: "at least two files, one of which is non-trivial as for P14"},
			Spec[Multi]{
				Gen: func(t *rapid.T) Multi {
					c := Multi{Group: g}
					n := rapid.IntRange(1, 4).Draw(t, "files")
					if rapid.IntRange(0, 14).Draw(t, "mesh?") == 9 {
						c.Files = append(c.Files, schema.Mesh(t, 0, g == 1))
					}
					for i := len(c.Files); i < n; i++ {
						f := schema.Gen(t, schema.GenOpts{Sparse: true, MaxMsgs: 4, Index: i, Rust: g == 1 && rapid.Bool().Draw(t, "rustlike")})
						// distinct packages keep the files independent
						if f.Pkg == "" {
							f.Pkg = fmt.Sprintf("q%d", i)
						} else {
							f.Pkg = fmt.Sprintf("q%d.%s", i, f.Pkg)
						}
						old := f
						relink(old)
						c.Files = append(c.Files, f)
					}
					if n < 4 && rapid.IntRange(0, 2).Draw(t, "split?") == 0 {
						// files that import one another
						f, k := c.Files[n-1], rapid.IntRange(2, 3).Draw(t, "parts")
						m := len(f.Enums) + len(f.Msgs)
						c.Files = append(c.Files[:n-1], f.Split(k, rapid.SliceOfN(rapid.IntRange(0, k-1), m, m).Draw(t, "of"))...)
						n = len(c.Files)
					}
					if g == 1 {
						c.Param = rapid.SampledFrom([]string{"", "privacy=public", "privacy=crate", "privacy=private"}).Draw(t, "param")
					}
					for i := rapid.IntRange(0, 2).Draw(t, "worlds"); i > 0; i-- {
						w := schema.World{Protoc: rapid.SampledFrom([]string{"", "3.21.12", "4.25.1", "27.0.0-rc1", "0.0.0"}).Draw(t, "protoc")}
						switch rapid.IntRange(0, 3).Draw(t, "pad?") {
						case 0:
							w.Pad = rapid.IntRange(1, 200).Draw(t, "pad")
						case 1:
							w.Pad = rapid.SampledFrom([]int{4 << 10, 70 << 10, 300 << 10, 1100 << 10, 5 << 20}).Draw(t, "pad")
						}
						c.Worlds = append(c.Worlds, w)
					}
					c.Wait = len(c.Worlds) > 0 && rapid.IntRange(0, 39).Draw(t, "wait?") == 0
					k := rapid.IntRange(1, 3).Draw(t, "orders")
					idx := make([]int, n)
					for i := range idx {
						idx[i] = i
					}
					for i := 0; i < k; i++ {
						o := rapid.Permutation(idx).Draw(t, "order")
						if i > 0 {
							o = o[:rapid.IntRange(1, n).Draw(t, "subset")]
						}
						c.Orders = append(c.Orders, append([]int{}, o...))
					}
					return c
				},
				Check: p19,
				Class: func(c Multi) Class {
					cl := Class{Labels: []string{fmt.Sprintf("files-%d", len(c.Files)), fmt.Sprintf("orders-%d", len(c.Orders))}}
					for _, w := range c.Worlds {
						if w.Pad > 64<<10 {
							cl.Labels = append(cl.Labels, "large-request")
						}
					}
					for _, f := range c.Files {
						if len(f.Deps) > 0 {
							cl.Labels = append(cl.Labels, "imports")
						}
						if strings.HasPrefix(f.Path, "mesh") {
							cl.Labels = append(cl.Labels, "dense references")
						}
						x := schemaClass(f)
						cl.NonTrivial = cl.NonTrivial || x.NonTrivial && len(c.Files) > 1
						for _, l := range x.Labels {
							if l == "recursive" || l == "map-only" || strings.HasPrefix(l, "nesting") {
								cl.Labels = append(cl.Labels, l)
							}
						}
					}
					return cl
				},
				Text: func(c Multi) string {
					var b strings.Builder
					for _, w := range c.Worlds {
						fmt.Fprintf(&b, "also in %+v\n", w)
					}
					for _, f := range c.Files {
						f.Link()
						b.WriteString(f.Describe())
					}
					fmt.Fprintf(&b, "orders %v, parameter %q", c.Orders, c.Param)
					return b.String()
				},
			})
	}
}

// relink repairs references after the package was renamed.
func relink(f *schema.File) {
	old := map[string]string{}
	for _, m := range f.AllMsgs() {
		old[m.Full()] = ""
	}
	for _, e := range f.AllEnums() {
		old[e.Full()] = ""
	}
	type pair struct {
		m *schema.Msg
		s string
	}
	var ps []pair
	for _, m := range f.AllMsgs() {
		ps = append(ps, pair{m, m.Full()})
	}
	es := map[*schema.Enum]string{}
	for _, e := range f.AllEnums() {
		es[e] = e.Full()
	}
	f.Link()
	for _, p := range ps {
		old[p.s] = p.m.Full()
	}
	for e, s := range es {
		old[s] = e.Full()
	}
	for _, m := range f.AllMsgs() {
		for _, x := range m.Fields {
			if x.Ref != "" {
				x.Ref = old[x.Ref]
			}
		}
	}
}
