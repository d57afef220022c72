package prop

import (
	"bytes"
	_ "embed"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"google.golang.org/protobuf/encoding/protowire"
	"pgregory.net/rapid"

	"verif/harness/gen"
	"verif/harness/schema"
)

// Checks that compile the generated Go code of a batch of schemas (v1 and v2) into one adapter process and drive it with
// generated messages.

//go:embed templates/gengo.go.txt
var gengoMain string

type goBatch struct {
	files  []*schema.File
	broken map[int]*Fail // schemas whose code does not compile
	client *Client
}

type goReq struct {
	Op     string      `json:"op"`
	Ver    int         `json:"ver"`
	Schema int         `json:"schema"`
	Type   string      `json:"type"`
	Val    *schema.Val `json:"val,omitempty"`
	Dirty  *schema.Val `json:"dirty,omitempty"`
	Before [][]byte    `json:"before,omitempty"`
	Data   []byte      `json:"data,omitempty"`
	Prefix []byte      `json:"prefix,omitempty"`
	Size   int         `json:"size,omitempty"`
	Text   string      `json:"text,omitempty"`
	NilObj bool        `json:"nilobj,omitempty"`
	Alloc  bool        `json:"alloc,omitempty"`
	Repeat int         `json:"repeat,omitempty"`
}

type goResp struct {
	Bytes   []byte      `json:"bytes"`
	Val     *schema.Val `json:"val"`
	Err     string      `json:"err"`
	Failed  bool        `json:"failed"`
	Panic   string      `json:"panic"`
	Alloc   uint64      `json:"alloc"`
	Deep    uint64      `json:"deep"`
	Changed string      `json:"changed"`
	Text    string      `json:"text"`
	Bad     string      `json:"bad"`
}

func fileKey(f *schema.File) string {
	b, _ := json.Marshal(f)
	return string(b)
}

func runTool(dir, what string, env []string, argv ...string) ([]byte, error) {
	cmd := exec.Command(argv[0], argv[1:]...)
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), env...)
	cmd.WaitDelay = pipeDelay
	done := time.AfterFunc(600*time.Second, func() {
		if cmd.Process != nil {
			cmd.Process.Kill()
		}
	})
	defer done.Stop()
	out, err := cmd.CombinedOutput()
	pipesLate(err)
	return out, err
}

// drawFiles draws the schemas of a batch.
func drawFiles(seed uint64, n int, o schema.GenOpts) []*schema.File {
	var out []*schema.File
	g := rapid.Custom(func(t *rapid.T) *schema.File {
		return schema.Gen(t, o)
	})
	for i := 0; i < n; i++ {
		o.Index = i
		f := g.Example(int((seed + uint64(i)*7919) % (1 << 31)))
		out = append(out, f.Link())
	}
	return out
}

// buildGo generates, type-checks and builds the code of all files.
func buildGo(e *Env, dir string, files []*schema.File) *goBatch {
	b := &goBatch{files: files, broken: map[int]*Fail{}}
	root, err := os.MkdirTemp(dir, "gengo")
	if err != nil {
		infra("%v", err)
	}
	put := func(name, text string) {
		p := filepath.Join(root, name)
		os.MkdirAll(filepath.Dir(p), 0o755)
		if err := os.WriteFile(p, []byte(text), 0o644); err != nil {
			infra("%v", err)
		}
	}
	var imports, regs strings.Builder
	for i, f := range files {
		var srcs []string
		for _, p := range goPlugins {
			_, src, bad := goOutput(e, p.bin, f)
			if bad != nil {
				b.broken[i] = bad
				break
			}
			srcs = append(srcs, src)
		}
		if b.broken[i] != nil {
			continue
		}
		for v, src := range srcs {
			pkg := fmt.Sprintf("v%d/s%03d", v+1, i)
			put(pkg+"/gen.go", src)
			if len(f.AllMsgs()) == 0 {
				fmt.Fprintf(&imports, "import _ \"verif/gen/%s\"\n", pkg)
				continue
			}
			alias := fmt.Sprintf("a%d_%d", v+1, i)
			fmt.Fprintf(&imports, "import %s \"verif/gen/%s\"\n", alias, pkg)
			for _, m := range f.AllMsgs() {
				n := schema.GoName(m.Full())
				var names []string
				for _, x := range m.Fields {
					names = append(names, fmt.Sprintf("%q", schema.GoFieldName(x.Name)))
				}
				fmt.Fprintf(&regs, "\treg(%d, %d, %q, func() any { return %s.New%s() }, (*%s.%s)(nil), []string{%s})\n", v+1, i, n, alias, n, alias, n, strings.Join(names, ", "))
			}
		}
	}
	put("registry.go", "package main\n\n"+imports.String()+"\nfunc init() {\n"+regs.String()+"}\n")
	put("main.go", gengoMain)
	put("go.mod", `module verif/gen

go 1.23

require (
	github.com/loopholelabs/polyglot v1.0.0
	github.com/loopholelabs/polyglot/v2 v2.0.0
	verif/harness v0.0.0
)

replace github.com/loopholelabs/polyglot => /repo

replace github.com/loopholelabs/polyglot/v2 => /repo/v2

replace verif/harness => `+e.Path("harness")+"\n")
	bin := filepath.Join(root, "gengo")
	var env []string
	if a := e.argv["go-arch32"]; a != nil {
		env = []string{"GOARCH=" + a[0], "CGO_ENABLED=0"}
	}
	out, err := runTool(root, "go build", env, "go", "build", "-trimpath", "-o", bin, ".")
	if err != nil {
		infra("go build of the generated code: %v\n%s", err, schema.Clip(string(out), 3000))
	}
	// the address space is limited so that a huge allocation is a visible failure and not a burden on the sandbox
	b.client = &Client{Name: "generated Go code", argv: []string{"/bin/bash", "-c", `ulimit -v 12000000; exec "$0"`, bin}}
	e.clients["gengo/"+root] = b.client
	return b
}

func (b *goBatch) do(q goReq) goResp {
	raw, err := json.Marshal(q)
	if err != nil {
		infra("%v", err)
	}
	r := b.client.Do('g', raw)
	var a goResp
	if err := json.Unmarshal(r.B, &a); err != nil {
		infra("answer of the generated code's process: %v", err)
	}
	return a
}

type goBatches struct {
	byFile map[string]*goBatch
	index  map[string]int
	files  []*schema.File // drawable schemas
	dir    string
	hook   bool // with custom code
}

var gb = &goBatches{byFile: map[string]*goBatch{}, index: map[string]int{}}

func (g *goBatches) add(e *Env, files []*schema.File) {
	if len(files) == 0 {
		return
	}
	b := buildGo(e, g.dir, files)
	for i, f := range files {
		k := fileKey(f)
		g.byFile[k], g.index[k] = b, i
	}
}

func (g *goBatches) find(e *Env, f *schema.File) (*goBatch, int) {
	k := fileKey(f)
	if g.byFile[k] == nil {
		g.add(e, []*schema.File{f})
	}
	return g.byFile[k], g.index[k]
}

// prepare builds one batch with the schemas of the known cases and, unless this is a replay, the drawn ones.
func (g *goBatches) prepare(e *Env, o Options, known []*schema.File) {
	g.dir = o.OutDir
	var all []*schema.File
	seen := map[string]bool{}
	add := func(f *schema.File, draw bool) {
		f.Hook = g.hook
		f.Link()
		if k := fileKey(f); !seen[k] {
			seen[k] = true
			all = append(all, f)
			if draw {
				g.files = append(g.files, f)
			}
		}
	}
	for _, f := range known {
		add(f, false)
	}
	if o.Replay == "" {
		n := 32
		if Tier == "thorough" {
			n = 100
		}
		for _, f := range schema.Fixed() {
			add(f, true)
		}
		for _, f := range drawFiles(o.Batch, n, schema.GenOpts{Sparse: true, MaxMsgs: 6}) {
			add(f, true)
		}
	}
	g.add(e, all)
}

// MsgCase is one message of one schema with a value.
type MsgCase struct {
	File *schema.File `json:"file"`
	Msg  string       `json:"msg"`
	Val  *schema.Val  `json:"val"`
	// P15
	Dirty  *schema.Val   `json:"dirty,omitempty"`
	Before []*schema.Val `json:"before,omitempty"`
	Cut    int           `json:"cut,omitempty"` // the last of Before is cut by so many bytes
	Prefix []byte        `json:"prefix,omitempty"`
	Size   int           `json:"size,omitempty"`
	Text   string        `json:"text,omitempty"`
	// P15-P17: one of the fields (chosen by StretchAt) made so long
	Stretch   int    `json:"stretch,omitempty"`
	StretchAt uint32 `json:"stretch_at,omitempty"`
	// P18
	Edits []Edit `json:"edits,omitempty"`
	Raw   []byte `json:"raw,omitempty"`
	IsRaw bool   `json:"is_raw,omitempty"`
	// Repeat: the raw bytes so many times over, expected to be incomplete
	Repeat int `json:"repeat,omitempty"`
}

// Edit changes an encoding.
type Edit struct {
	Kind string `json:"kind"` // cut, set, insert, delete, size, dup
	At   uint32 `json:"at"`   // scaled to the length
	N    uint32 `json:"n"`
	B    []byte `json:"b,omitempty"`
}

func (c MsgCase) msg() *schema.Msg {
	c.File.Link()
	return c.File.Msg(c.Msg)
}

// stretched returns the case with the whole value in place of the one to be stretched.
func (c MsgCase) stretched() MsgCase {
	c.Val = c.File.Stretch(c.msg(), c.Val, c.StretchAt, c.Stretch)
	return c
}

var longs = []int{128, 1000, 1025, 2050, 4097, 8200, 16385, 32770, 65537, 70000}

func genStretch(t *rapid.T, c *MsgCase) {
	if rapid.IntRange(0, 39).Draw(t, "long") == 23 && c.File.Long(c.msg(), c.Val) {
		c.Stretch = rapid.SampledFrom(longs).Draw(t, "length")
		c.StretchAt = rapid.Uint32().Draw(t, "stretched field")
	}
}

func (c MsgCase) text() string {
	m := c.msg()
	var b strings.Builder
	b.WriteString(c.File.Describe())
	fmt.Fprintf(&b, "message %s = %s\n", c.Msg, schema.Clip(c.File.Canon(m, c.Val, false), 2000))
	if c.Stretch > 0 {
		fmt.Fprintf(&b, "one field (%d) stretched to %d\n", c.StretchAt, c.Stretch)
	}
	if c.Dirty != nil {
		fmt.Fprintf(&b, "target held %s\n", schema.Clip(c.File.Canon(m, c.Dirty, false), 500))
	}
	for _, x := range c.Before {
		fmt.Fprintf(&b, "target decoded before: %s\n", schema.Clip(c.File.Canon(m, x, false), 500))
	}
	if len(c.Edits) > 0 {
		fmt.Fprintf(&b, "edits %+v\n", c.Edits)
	}
	if c.IsRaw {
		fmt.Fprintf(&b, "bytes %x\n", schema.Clip(string(c.Raw), 300))
	}
	return b.String()
}

func caseClass(c MsgCase) Class {
	m := c.msg()
	l := map[string]bool{}
	for _, x := range c.File.Reach(m) {
		for _, y := range x.Fields {
			l[y.Card+" "+schema.TypeName(y.Type)] = true
			if y.Card == schema.Map {
				l["key "+schema.TypeName(y.Key)] = true
			}
		}
		if c.File.SingularCycle(x) {
			l["recursive"] = true
		}
	}
	if c.Dirty != nil || len(c.Before) > 0 {
		l["used object"] = true
	}
	if c.Stretch > 0 {
		l["long"] = true
	}
	if c.Cut > 0 {
		l["after a failed decode"] = true
	}
	if len(c.Prefix) > 0 {
		l["buffer not empty"] = true
	}
	for _, x := range c.Edits {
		l["edit "+x.Kind] = true
	}
	if c.IsRaw {
		l["raw bytes"] = true
	}
	var ls []string
	for x := range l {
		ls = append(ls, x)
	}
	sort.Strings(ls)
	return Class{schema.CountFields(c.Val) >= 4 || c.IsRaw && len(c.Raw) > 3, ls}
}

// pick draws a schema and a message of it that can be drawn.
func pick(t *rapid.T, files []*schema.File, o schema.ValOpts, ok func(f *schema.File, m *schema.Msg) bool) (*schema.File, *schema.Msg) {
	var can []*schema.File
	msgs := map[*schema.File][]*schema.Msg{}
	for _, f := range files {
		for _, m := range f.AllMsgs() {
			if f.Root(m, o) && !f.Bottomless(m) && (ok == nil || ok(f, m)) {
				msgs[f] = append(msgs[f], m)
			}
		}
		if len(msgs[f]) > 0 {
			can = append(can, f)
		}
	}
	f := rapid.SampledFrom(can).Draw(t, "schema")
	return f, rapid.SampledFrom(msgs[f]).Draw(t, "message")
}

// bad reports what no message may ever do.
func (a *goResp) bad(what string) *Fail {
	switch {
	case a.Bad != "":
		return failf("%s: %s", what, a.Bad)
	case a.Panic != "":
		return failf("%s panics: %s", what, a.Panic)
	case a.Changed != "":
		return failf("%s modifies %s", what, a.Changed)
	}
	return nil
}

func vn(v int) string { return fmt.Sprintf("generated v%d code", v) }

func p15(e *Env, c MsgCase) *Fail {
	c = c.stretched()
	m := c.msg()
	b, idx := gb.find(e, c.File)
	if bad := b.broken[idx]; bad != nil {
		return bad
	}
	n := schema.GoName(m.Full())
	for v := 1; v <= 2; v++ {
		enc := b.do(goReq{Op: "encode", Ver: v, Schema: idx, Type: n, Val: c.Val, Size: c.Size, Alloc: c.Stretch > 0})
		if bad := enc.bad(vn(v) + ": Encode"); bad != nil {
			return bad
		}
		if bound := 64<<10 + (uint64(len(enc.Bytes))+4)*(1024+16*enc.Deep); enc.Alloc > bound {
			return failf("%s: encoding %d bytes allocates %d bytes (more than %d)", vn(v), len(enc.Bytes), enc.Alloc, bound)
		}
		want := c.File.Canon(m, c.Val, v == 1)
		check := func(how string, q goReq) *Fail {
			q.Op, q.Ver, q.Schema, q.Type, q.Data = "decode", v, idx, n, enc.Bytes
			q.Alloc = c.Stretch > 0
			d := b.do(q)
			if bad := d.bad(vn(v) + ": Decode"); bad != nil {
				return bad
			}
			if d.Failed {
				return failf("%s: Decode into %s refuses what Encode wrote (%s): bytes %x", vn(v), how, d.Err, clip(enc.Bytes))
			}
			if bound := 64<<10 + (uint64(len(enc.Bytes))+4)*(1024+16*d.Deep); d.Alloc > bound {
				return failf("%s: decoding %d bytes allocates %d bytes (more than %d)", vn(v), len(enc.Bytes), d.Alloc, bound)
			}
			if got := c.File.Canon(m, d.Val, v == 1); got != want {
				return failf("%s: decoded into %s: %s", vn(v), how, firstDiff(want, got))
			}
			return nil
		}
		if bad := check("a fresh object", goReq{}); bad != nil {
			return bad
		}
		if c.Dirty != nil {
			if bad := check("a filled object", goReq{Dirty: c.Dirty}); bad != nil {
				return bad
			}
		}
		if len(c.Before) > 0 {
			var before [][]byte
			for i, x := range c.Before {
				y := b.do(goReq{Op: "encode", Ver: v, Schema: idx, Type: n, Val: x})
				if bad := y.bad(vn(v) + ": Encode"); bad != nil {
					return bad
				}
				if i == len(c.Before)-1 {
					y.Bytes = y.Bytes[:max(0, len(y.Bytes)-c.Cut)]
				}
				before = append(before, y.Bytes)
			}
			if bad := check("a used object", goReq{Before: before}); bad != nil {
				return bad
			}
		}
		// nil
		z := b.do(goReq{Op: "encode", Ver: v, Schema: idx, Type: n})
		if bad := z.bad(vn(v) + ": Encode of a nil message"); bad != nil {
			return bad
		}
		if !bytes.Equal(z.Bytes, []byte{0}) {
			return failf("%s: a nil message is encoded as %x", vn(v), z.Bytes)
		}
		d := b.do(goReq{Op: "decode", Ver: v, Schema: idx, Type: n, Data: z.Bytes})
		if bad := d.bad(vn(v) + ": Decode of nil"); bad != nil {
			return bad
		}
		if d.Failed {
			return failf("%s: decoding nil fails: %s", vn(v), d.Err)
		}
		if got, want := c.File.Canon(m, d.Val, true), c.File.Canon(m, c.File.Empty(m), true); got != want {
			return failf("%s: decoding nil into a fresh object gives %s", vn(v), schema.Clip(got, 300))
		}
		d = b.do(goReq{Op: "decode", Ver: v, Schema: idx, Type: n, Data: enc.Bytes, NilObj: true})
		if bad := d.bad(vn(v) + ": Decode into a nil object"); bad != nil {
			return bad
		}
		if !d.Failed {
			return failf("%s: decoding into a nil object is not an error", vn(v))
		}
		// errors
		x := b.do(goReq{Op: "error", Ver: v, Schema: idx, Type: n, Val: c.Val, Text: c.Text, Prefix: c.Prefix})
		if bad := x.bad(vn(v) + ": Error"); bad != nil {
			return bad
		}
		if x.Failed {
			return failf("%s: what Error wrote is not read back as an error: %s", vn(v), x.Err)
		}
		if x.Text != c.Text {
			return failf("%s: the error %q is read back as %q", vn(v), c.Text, x.Text)
		}
		data := x.Bytes[min(len(c.Prefix), len(x.Bytes)):]
		if _, _, verdict := c.File.Decode(m, data); verdict == schema.Bad {
			d = b.do(goReq{Op: "decode", Ver: v, Schema: idx, Type: n, Data: data})
			if bad := d.bad(vn(v) + ": Decode of an error"); bad != nil {
				return bad
			}
			if !d.Failed {
				return failf("%s: an encoded error is accepted as a message", vn(v))
			}
		}
	}
	return nil
}

func clip(b []byte) []byte {
	if len(b) > 400 {
		return b[:400]
	}
	return b
}

func firstDiff(want, got string) string {
	i := 0
	for i < len(want) && i < len(got) && want[i] == got[i] {
		i++
	}
	from := max(0, i-60)
	return fmt.Sprintf("got ...%s, want ...%s", schema.Clip(got[from:], 200), schema.Clip(want[from:], 200))
}

func p16(e *Env, c MsgCase) *Fail {
	c = c.stretched()
	m := c.msg()
	b, idx := gb.find(e, c.File)
	if bad := b.broken[idx]; bad != nil {
		return bad
	}
	n := schema.GoName(m.Full())
	want := c.File.Canon(m, c.Val, false)
	ref, _ := c.File.Encode(m, c.Val)
	msgs := map[string][]byte{"the reference encoder": ref}
	for v := 1; v <= 2; v++ {
		enc := b.do(goReq{Op: "encode", Ver: v, Schema: idx, Type: n, Val: c.Val, Prefix: c.Prefix, Size: c.Size})
		if bad := enc.bad(vn(v) + ": Encode"); bad != nil {
			return bad
		}
		if !bytes.HasPrefix(enc.Bytes, c.Prefix) {
			return failf("%s: Encode changes what the buffer held before", vn(v))
		}
		data := enc.Bytes[len(c.Prefix):]
		if len(data) != len(ref) {
			return failf("%s: %d bytes, the layout has %d: %s", vn(v), len(data), len(ref), layoutDiff(data, ref))
		}
		// the order of map entries is free: read the bytes in the documented layout and compare
		got, k, verdict := c.File.Decode(m, data)
		if verdict != schema.OK || k != len(data) {
			return failf("%s: the bytes do not follow the layout (%s after %d of %d bytes): %s", vn(v), verdict, k, len(data), layoutDiff(data, ref))
		}
		if x := c.File.Canon(m, got, false); x != want {
			return failf("%s: the bytes denote another message: %s", vn(v), firstDiff(want, x))
		}
		if again, _ := c.File.Encode(m, got); !bytes.Equal(again, data) {
			return failf("%s: the bytes are not the canonical encoding: %s", vn(v), layoutDiff(data, again))
		}
		msgs[vn(v)] = data
	}
	for v := 1; v <= 2; v++ {
		for from, data := range msgs {
			if from == vn(v) {
				continue // P15
			}
			d := b.do(goReq{Op: "decode", Ver: v, Schema: idx, Type: n, Data: data})
			if bad := d.bad(vn(v) + ": Decode"); bad != nil {
				return bad
			}
			if d.Failed {
				return failf("%s refuses a message of %s: %s", vn(v), from, d.Err)
			}
			if got, want := c.File.Canon(m, d.Val, v == 1), c.File.Canon(m, c.Val, v == 1); got != want {
				return failf("%s reads a message of %s as another one: %s", vn(v), from, firstDiff(want, got))
			}
		}
	}
	return nil
}

func layoutDiff(a, b []byte) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	at := func(x []byte) []byte { return x[min(i, len(x)):min(i+24, len(x))] }
	return fmt.Sprintf("from byte %d on %x, expected %x", i, at(a), at(b))
}

// applyEdits changes a valid encoding.
func applyEdits(f *schema.File, data []byte, marks []schema.Mark, edits []Edit) []byte {
	out := append([]byte{}, data...)
	var sizes []int
	for _, k := range marks {
		if k.Size {
			sizes = append(sizes, k.Pos)
		}
	}
	for _, x := range edits {
		at := 0
		if len(out) > 0 {
			at = int(uint64(x.At) * uint64(len(out)) >> 32)
		}
		switch x.Kind {
		case "cut":
			out = out[:at]
		case "set":
			for i := 0; i < len(x.B) && at+i < len(out); i++ {
				out[at+i] = x.B[i]
			}
		case "insert":
			out = append(append(append([]byte{}, out[:at]...), x.B...), out[at:]...)
		case "delete":
			end := min(len(out), at+int(x.N%16)+1)
			out = append(append([]byte{}, out[:at]...), out[end:]...)
		case "drop", "repeat", "swap":
			// whole values go missing, come twice or trade places
			starts := []int{}
			for _, k := range marks {
				if k.Pos <= len(out) {
					starts = append(starts, k.Pos)
				}
			}
			if len(starts) == 0 || starts[len(starts)-1] > len(out) {
				continue
			}
			i := int(uint64(x.At) * uint64(len(starts)) >> 32)
			end := func(i int) int {
				if i+1 < len(starts) {
					return starts[i+1]
				}
				return len(out)
			}
			// one value, or a run of them
			j := min(len(starts)-1, i+int(x.N%3))
			a, b := starts[i], end(j)
			if x.Kind == "swap" {
				z := end(min(len(starts)-1, j+1))
				out = append(append(append(append([]byte{}, out[:a]...), out[b:z]...), out[a:b]...), out[z:]...)
			} else if x.Kind == "drop" {
				out = append(append([]byte{}, out[:a]...), out[b:]...)
			} else {
				out = append(append([]byte{}, out[:b]...), out[a:]...)
			}
			marks, sizes = nil, nil
		case "tag":
			// the start of a value gets another kind
			if len(marks) > 0 {
				p := marks[int(uint64(x.At)*uint64(len(marks))>>32)].Pos
				if p < len(out) {
					out[p] = byte(x.N % 17)
				}
			}
		case "size":
			// another list or map size
			if len(sizes) > 0 {
				p := sizes[int(uint64(x.At)*uint64(len(sizes))>>32)]
				if p >= len(out) {
					continue
				}
				h := 2
				if out[p] == 2 {
					h = 3
				}
				// header: kinds, then the tag of a 32-bit number, then the size
				q := p + h + 1
				if q > len(out) {
					continue
				}
				_, w := protowire.ConsumeVarint(out[q:])
				if w < 0 {
					continue
				}
				out = append(append(append([]byte{}, out[:q]...), protowire.AppendVarint(nil, uint64(x.N))...), out[min(len(out), q+w):]...)
			}
		}
	}
	return out
}

// malformed lists the inputs a case stands for.
func malformed(c MsgCase) [][]byte {
	m := c.msg()
	var inputs [][]byte
	if c.IsRaw {
		inputs = [][]byte{c.Raw}
	} else {
		data, marks := c.File.Encode(m, c.Val)
		if len(c.Edits) > 0 {
			inputs = [][]byte{applyEdits(c.File, data, marks, c.Edits)}
		} else {
			// every truncation; of long messages those around the starts of values
			near := map[int]bool{}
			for _, k := range marks {
				for d := -1; d <= 4; d++ {
					near[k.Pos+d] = true
				}
			}
			for i := 0; i < len(data); i++ {
				if len(data) <= 160 || near[i] && len(inputs) < 160 {
					inputs = append(inputs, data[:i])
				}
			}
			// every value but one
			for i, k := range marks {
				end := len(data)
				if i+1 < len(marks) {
					end = marks[i+1].Pos
				}
				if i < 40 && end > k.Pos {
					inputs = append(inputs, append(append([]byte{}, data[:k.Pos]...), data[end:]...))
				}
			}
		}
	}
	return inputs
}

func p18(e *Env, c MsgCase) *Fail {
	m := c.msg()
	b, idx := gb.find(e, c.File)
	if bad := b.broken[idx]; bad != nil {
		return bad
	}
	if c.Repeat > 0 {
		for v := 1; v <= 2; v++ {
			d := b.do(goReq{Op: "decode", Ver: v, Schema: idx, Type: schema.GoName(m.Full()), Data: c.Raw, Repeat: c.Repeat})
			if bad := d.bad(fmt.Sprintf("%s: Decode of %x, repeated %d times", vn(v), clip(c.Raw), c.Repeat)); bad != nil {
				return bad
			}
			if !d.Failed {
				return failf("%s: accepts what is not a complete message: %x, repeated %d times", vn(v), clip(c.Raw), c.Repeat)
			}
		}
		return nil
	}
	n := schema.GoName(m.Full())
	for _, in := range malformed(c) {
		val, _, verdict := c.File.Decode(m, in)
		for v := 1; v <= 2; v++ {
			d := b.do(goReq{Op: "decode", Ver: v, Schema: idx, Type: n, Data: in, Alloc: true})
			if bad := d.bad(fmt.Sprintf("%s: Decode of %x", vn(v), clip(in))); bad != nil {
				return bad
			}
			if bound := 64<<10 + (uint64(len(in))+4)*(1024+16*d.Deep); d.Alloc > bound {
				return failf("%s: decoding %d bytes allocates %d bytes (more than %d): %x", vn(v), len(in), d.Alloc, bound, clip(in))
			}
			if d.Failed {
				if verdict == schema.OK {
					return failf("%s: refuses a well-formed message (%s): %x", vn(v), d.Err, clip(in))
				}
				continue
			}
			if verdict == schema.Bad {
				return failf("%s: accepts what is not a complete message: %x", vn(v), clip(in))
			}
			if val == nil {
				val = c.File.Empty(m)
			}
			if got, want := c.File.Canon(m, d.Val, true), c.File.Canon(m, val, true); got != want {
				if verdict == schema.Unspec {
					continue
				}
				return failf("%s: reads %x as another message: %s", vn(v), clip(in), firstDiff(want, got))
			}
		}
	}
	return nil
}

func genDirty(t *rapid.T, f *schema.File, m *schema.Msg, c *MsgCase) {
	switch rapid.IntRange(0, 2).Draw(t, "target") {
	case 0:
		c.Dirty = f.GenVal(t, m, schema.ValOpts{})
	case 1:
		for n := rapid.IntRange(1, 2).Draw(t, "uses"); n > 0; n-- {
			c.Before = append(c.Before, f.GenVal(t, m, schema.ValOpts{}))
		}
		if rapid.IntRange(0, 2).Draw(t, "failed") == 0 {
			c.Cut = rapid.IntRange(1, 40).Draw(t, "cut")
		}
	}
}

func genPrefix(t *rapid.T) []byte {
	if rapid.Bool().Draw(t, "empty buffer") {
		return nil
	}
	return gen.Payload(t, gen.Length(t, gen.Opts{}, "prefix"), "prefix")
}

// fields that could make a short input stand for any number of elements
func bounded(f *schema.File, m *schema.Msg) bool {
	for _, x := range f.Reach(m) {
		for _, y := range x.Fields {
			if y.Type == schema.Message && (y.Card == schema.Repeated || y.Card == schema.Map) && !nonEmpty(f, f.Msg(y.Ref), map[*schema.Msg]bool{}) {
				return false
			}
		}
	}
	return true
}

// nonEmpty: every present message takes at least a byte.
func nonEmpty(f *schema.File, m *schema.Msg, path map[*schema.Msg]bool) bool {
	if path[m] {
		return true
	}
	path[m] = true
	for _, x := range m.Fields {
		if x.Type != schema.Message || x.Card == schema.Repeated || x.Card == schema.Map || nonEmpty(f, f.Msg(x.Ref), path) {
			return true
		}
	}
	return false
}

func init() {
	needs := []string{"plug-go1", "plug-go2", "exports", "harness"}
	needs32 := append([]string{"go-arch32"}, needs...) // built as a 32-bit program
	prep := func(e *Env, o Options, known []MsgCase) {
		var fs []*schema.File
		for _, c := range known {
			fs = append(fs, c.File)
		}
		gb.prepare(e, o, fs)
	}
	rule := "a message value with at least four set fields, elements or nested messages"
	p15spec := Spec[MsgCase]{Prepare: prep, Check: p15, Class: caseClass, Text: MsgCase.text,
		Gen: func(t *rapid.T) MsgCase {
			f, m := pick(t, gb.files, schema.ValOpts{}, nil)
			c := MsgCase{File: f, Msg: m.Full()}
			c.Val = f.GenVal(t, m, schema.ValOpts{Big: true})
			genStretch(t, &c)
			genDirty(t, f, m, &c)
			c.Size = rapid.SampledFrom([]int{0, 0, 1, 5, 64, 512, 2000}).Draw(t, "size")
			c.Prefix = genPrefix(t)
			c.Text = string(gen.Text(t, gen.Opts{RawText: false}, "error"))
			return c
		}}
	Define(Part{Prop: "P15", Name: "GoRoundTrip", Needs: needs, Quick: 2000, Thorough: 40000, Shards: 4, Weight: 8, Rule: rule}, p15spec)
	Define(Part{Prop: "P15", Name: "GoRoundTrip32", Needs: needs32, Quick: 1000, Thorough: 20000, Weight: 8, Rule: rule}, p15spec)
	Define(Part{Prop: "P16", Name: "GoLayout", Needs: needs, Quick: 1500, Thorough: 40000, Shards: 4, Weight: 8, Rule: rule},
		Spec[MsgCase]{Prepare: prep, Check: p16, Class: caseClass, Text: MsgCase.text,
			Gen: func(t *rapid.T) MsgCase {
				f, m := pick(t, gb.files, schema.ValOpts{}, nil)
				c := MsgCase{File: f, Msg: m.Full()}
				c.Val = f.GenVal(t, m, schema.ValOpts{Big: true})
				genStretch(t, &c)
				c.Size = rapid.SampledFrom([]int{0, 0, 1, 5, 64, 512, 2000}).Draw(t, "size")
				c.Prefix = genPrefix(t)
				return c
			}})
	p18spec := Spec[MsgCase]{Prepare: prep, Check: p18, Class: caseClass, Text: MsgCase.text,
		Gen: func(t *rapid.T) MsgCase { return genMalformed(t, gb.files, schema.ValOpts{}) }}
	rule += ", or more than three raw bytes"
	Define(Part{Prop: "P18", Name: "GoMalformed", Needs: needs, Quick: 1200, Thorough: 25000, Shards: 4, Weight: 8, Rule: rule}, p18spec)
	Define(Part{Prop: "P18", Name: "GoMalformed32", Needs: needs32, Quick: 800, Thorough: 15000, Weight: 8, Rule: rule}, p18spec)
}

func genMalformed(t *rapid.T, files []*schema.File, o schema.ValOpts) MsgCase {
	f, m := pick(t, files, o, bounded)
	c := MsgCase{File: f, Msg: m.Full()}
	mode := rapid.IntRange(0, 9).Draw(t, "mode")
	if mode == 9 {
		c.IsRaw = true
		n := rapid.IntRange(0, 40).Draw(t, "len")
		for i := 0; i < n; i++ {
			if rapid.Bool().Draw(t, "small") {
				c.Raw = append(c.Raw, byte(rapid.IntRange(0, 16).Draw(t, "byte")))
			} else {
				c.Raw = append(c.Raw, rapid.Byte().Draw(t, "byte"))
			}
		}
		return c
	}
	c.Val = f.GenVal(t, m, o)
	if mode < 3 {
		return c
	}
	for n := rapid.IntRange(1, 2).Draw(t, "edits"); n > 0; n-- {
		x := Edit{Kind: rapid.SampledFrom([]string{"cut", "set", "insert", "delete", "tag", "tag", "size", "size", "size", "drop", "drop", "repeat", "swap"}).Draw(t, "edit"), At: rapid.Uint32().Draw(t, "at")}
		switch x.Kind {
		case "set", "insert":
			x.B = rapid.SliceOfN(rapid.OneOf(rapid.Byte(), rapid.ByteRange(0, 16), rapid.SampledFrom([]byte{0x7f, 0x80, 0xff, 0})), 1, 6).Draw(t, "bytes")
		case "size":
			x.N = rapid.OneOf(rapid.Uint32Range(0, 10), rapid.SampledFrom([]uint32{127, 128, 1000, 65536, 1 << 20, 1 << 24, 1<<31 - 1, 1 << 31, 1<<32 - 1}), rapid.Uint32()).Draw(t, "n")
		default:
			x.N = rapid.Uint32().Draw(t, "n")
		}
		c.Edits = append(c.Edits, x)
	}
	return c
}
