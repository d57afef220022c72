package prop

import (
	"bytes"
	_ "embed"
	"encoding/binary"
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"pgregory.net/rapid"

	"verif/harness/gen"
	"verif/harness/schema"
)

// Checks that compile the generated Rust code of a batch of schemas into one adapter process. The accessors for the
// messages' fields are written from the schema.

//go:embed templates/genrs.rs.txt
var genrsMain string

var rsPrivacy = []string{"", "privacy=private", "privacy=public", "privacy=crate"}

type rsBatch struct {
	files  []*schema.File
	broken map[int]*Fail
	ids    map[string]uint32 // "version/schema/message"
	client *Client
}

func rsId(v, s int, msg string) string { return fmt.Sprintf("%d/%d/%s", v, s, msg) }

// rsOutput generates the Rust code of one schema.
func rsOutput(e *Env, bin, param string, f *schema.File) (string, *Fail) {
	f.Link()
	res, bad := plugin(e, bin, schema.Request([]*schema.File{f}, []string{f.Path}, param))
	if bad != nil {
		return "", bad
	}
	if len(res.File) != 1 {
		return "", failf("%s: %d files for one schema file", bin, len(res.File))
	}
	return res.File[0].GetContent(), nil
}

// rustc compiles src and returns the compiler's first error, if any.
func rustc(e *Env, src, out string, args ...string) string {
	d := e.argv["rsdeps"]
	if len(d) != 3 {
		infra("no rsdeps")
	}
	argv := append([]string{"/root/.cargo/bin/rustc", "--edition", "2021", "--cap-lints", "allow", "-L", "dependency=" + d[0], "--extern", "polyglot_rs=" + d[1], "--extern", "num_enum=" + d[2], "--error-format=short"}, args...)
	argv = append(argv, "-o", out, src)
	b, err := runTool(filepath.Dir(src), "rustc", []string{"TMPDIR=" + filepath.Dir(src), "RUSTUP_TOOLCHAIN=stable"}, argv...)
	if err == nil {
		return ""
	}
	if !strings.Contains(string(b), "error") {
		infra("rustc: %v\n%s", err, schema.Clip(string(b), 2000))
	}
	return string(b)
}

func rsErrors(s string) string {
	var out []string
	for _, l := range strings.Split(s, "\n") {
		if strings.Contains(l, "error") && len(out) < 3 {
			out = append(out, l)
		}
	}
	return schema.Clip(strings.Join(out, " | "), 900)
}

// rsRead and rsShow are the Rust expressions that read a value from r and write v to w.
func rsRead(t int32, ref string, ids map[string]int) string {
	switch t {
	case schema.Message:
		return fmt.Sprintf("b%d(r)", ids[ref])
	case schema.EnumType:
		return fmt.Sprintf("e%d(r.u64() as u32)", ids[ref])
	case schema.Bool:
		return "(r.u64() != 0)"
	case schema.Float:
		return "f32::from_bits(r.u64() as u32)"
	case schema.Double:
		return "f64::from_bits(r.u64())"
	case schema.String:
		return "r.string()"
	case schema.Bytes:
		return "r.bytes()"
	}
	return "(r.u64() as " + schema.RustScalar(t) + ")"
}

func rsShow(t int32, ref, v string, ids map[string]int) string {
	switch t {
	case schema.Message:
		return fmt.Sprintf("s%d(%s, w);", ids[ref], v)
	case schema.EnumType:
		return fmt.Sprintf("w.u64(n%d(%s) as u64);", ids[ref], v)
	case schema.Float, schema.Double:
		return fmt.Sprintf("w.u64((*%s).to_bits() as u64);", v)
	case schema.String:
		return fmt.Sprintf("w.bytes((*%s).as_bytes());", v)
	case schema.Bytes:
		return fmt.Sprintf("w.bytes(&(*%s)[..]);", v)
	}
	return fmt.Sprintf("w.u64(*%s as u64);", v)
}

// rsGlue is the module that builds, encodes, decodes and shows the messages of a schema.
func rsGlue(f *schema.File) string {
	ids := map[string]int{}
	var b strings.Builder
	b.WriteString("\npub mod verif_glue {\n\tuse crate::rt;\n")
	for i, e := range f.AllEnums() {
		ids[e.Full()] = i
		n := "super::" + schema.GoName(e.Full())
		fmt.Fprintf(&b, "\tfn e%d(n: u32) -> %s { match n {", i, n)
		for _, v := range e.Values {
			fmt.Fprintf(&b, " %d => %s::%s,", uint32(v.Num), n, schema.RustIdent(v.Name))
		}
		fmt.Fprintf(&b, " _ => panic!(\"no such number\") } }\n\tfn n%d(v: &%s) -> u32 { match v {", i, n)
		for _, v := range e.Values {
			fmt.Fprintf(&b, " %s::%s => %d,", n, schema.RustIdent(v.Name), uint32(v.Num))
		}
		b.WriteString(" } }\n")
	}
	for i, m := range f.AllMsgs() {
		ids[m.Full()] = i
	}
	for i, m := range f.AllMsgs() {
		n := "super::" + schema.GoName(m.Full())
		var rd, wr strings.Builder
		for _, x := range m.Fields {
			fn := schema.RustField(x.Name)
			el := rsRead(x.Type, x.Ref, ids)
			switch x.Card {
			case schema.Repeated:
				fmt.Fprintf(&rd, "\t\t\t%s: { let n = r.u32(); let mut a = Vec::new(); for _ in 0..n { a.push(%s); } a },\n", fn, el)
				fmt.Fprintf(&wr, "\t\tw.u32(v.%s.len() as u32); for y in &v.%s { %s }\n", fn, fn, rsShow(x.Type, x.Ref, "y", ids))
			case schema.Map:
				fmt.Fprintf(&rd, "\t\t\t%s: { let n = r.u32(); let mut a = std::collections::HashMap::new(); for _ in 0..n { let k = %s; let y = %s; a.insert(k, y); } a },\n", fn, rsRead(x.Key, "", ids), el)
				fmt.Fprintf(&wr, "\t\tw.u32(v.%s.len() as u32); for (k, y) in &v.%s { %s %s }\n", fn, fn, rsShow(x.Key, "", "k", ids), rsShow(x.Type, x.Ref, "y", ids))
			default:
				fmt.Fprintf(&rd, "\t\t\t%s: %s,\n", fn, el)
				fmt.Fprintf(&wr, "\t\t{ let y = &v.%s; %s }\n", fn, rsShow(x.Type, x.Ref, "y", ids))
			}
		}
		fmt.Fprintf(&b, "\tfn b%d(r: &mut rt::R) -> %s {\n\t\t%s {\n%s\t\t}\n\t}\n\tfn s%d(v: &%s, w: &mut rt::W) {\n%s\t}\n", i, n, n, rd.String(), i, n, wr.String())
		fmt.Fprintf(&b, `	pub fn enc%d(r: &mut rt::R, prefix: Vec<u8>) -> rt::A {
		let v = b%d(r);
		let mut c = std::io::Cursor::new(prefix);
		c.set_position(c.get_ref().len() as u64);
		if let Err(e) = <%s as super::Encode>::encode(&v, &mut c) { return rt::A::Err(e.to_string()); }
		rt::A::Bytes(c.into_inner())
	}
	pub fn dec%d(data: &mut Vec<u8>) -> rt::A {
		let mut c = std::io::Cursor::new(data);
		match <%s as super::Decode>::decode(&mut c) {
			Err(e) => rt::A::Err(e.to_string()),
			Ok(None) => rt::A::None(c.position() as usize),
			Ok(Some(v)) => { let mut w = rt::W { b: Vec::new() }; s%d(&v, &mut w); rt::A::Val(w, c.position() as usize) }
		}
	}
`, i, i, n, i, n, i)
	}
	b.WriteString("}\n")
	return b.String()
}

func buildRs(e *Env, dir string, files []*schema.File) *rsBatch {
	b := &rsBatch{files: files, broken: map[int]*Fail{}, ids: map[string]uint32{}}
	root, err := os.MkdirTemp(dir, "genrs")
	if err != nil {
		infra("%v", err)
	}
	put := func(name, text string) {
		if err := os.WriteFile(filepath.Join(root, name), []byte(text), 0o644); err != nil {
			infra("%v", err)
		}
	}
	src := map[string]string{}
	for i, f := range files {
		for v, bin := range rsPlugins {
			s, bad := rsOutput(e, bin, rsPrivacy[i%len(rsPrivacy)], f)
			if bad != nil {
				b.broken[i] = bad
				break
			}
			src[fmt.Sprintf("v%d_s%03d", v+1, i)] = s
		}
	}
	link := func() {
		b.ids = map[string]uint32{}
		var mods, encs, decs strings.Builder
		id := uint32(0)
		for i, f := range files {
			if b.broken[i] != nil {
				continue
			}
			for v := 1; v <= 2; v++ {
				name := fmt.Sprintf("v%d_s%03d", v, i)
				put(name+".rs", src[name]+rsGlue(f))
				fmt.Fprintf(&mods, "mod %s;\n", name)
				for j, m := range f.AllMsgs() {
					b.ids[rsId(v, i, m.Full())] = id
					fmt.Fprintf(&encs, "\t\t%d => %s::verif_glue::enc%d(r, prefix),\n", id, name, j)
					fmt.Fprintf(&decs, "\t\t%d => %s::verif_glue::dec%d(data),\n", id, name, j)
					id++
				}
			}
		}
		put("main.rs", genrsMain+"\n"+mods.String()+"\nfn encode(id: u32, r: &mut rt::R, prefix: Vec<u8>) -> rt::A {\n\tmatch id {\n"+encs.String()+"\t\t_ => panic!(\"no such message\"),\n\t}\n}\n\nfn decode(id: u32, data: &mut Vec<u8>) -> rt::A {\n\tmatch id {\n"+decs.String()+"\t\t_ => panic!(\"no such message\"),\n\t}\n}\n")
	}
	bin := filepath.Join(root, "genrs")
	for {
		link()
		text := rustc(e, filepath.Join(root, "main.rs"), bin, "-C", "debuginfo=0", "-C", "overflow-checks=on", "-C", "debug-assertions=on", "-C", "codegen-units=8")
		if text == "" {
			break
		}
		// which schemas does the compiler complain about?
		found := false
		for i := range files {
			for v := 1; v <= 2; v++ {
				name := fmt.Sprintf("v%d_s%03d.rs:", v, i)
				if b.broken[i] == nil && strings.Contains(text, name) {
					var mine []string
					for _, l := range strings.Split(text, "\n") {
						if strings.Contains(l, name) {
							mine = append(mine, l)
						}
					}
					b.broken[i] = failf("%s: the generated code does not compile, or does not declare what the schema calls for: %s", rsPlugins[v-1], rsErrors(strings.Join(mine, "\n")))
					found = true
				}
			}
		}
		if !found {
			infra("rustc of the generated code: %s", rsErrors(text))
		}
	}
	b.client = &Client{Name: "generated Rust code", argv: []string{"/bin/bash", "-c", `ulimit -v 12000000; exec "$0"`, bin}}
	e.clients["genrs/"+root] = b.client
	return b
}

type rsResp struct {
	Kind  byte // b bytes, v value, n none, f error, c changed, p panic
	Bytes []byte
	Alloc uint64
	Pos   int
	Text  string
}

func (b *rsBatch) do(op byte, id uint32, rest []byte) rsResp {
	q := append([]byte{op}, binary.LittleEndian.AppendUint32(nil, id)...)
	r := b.client.Do('r', append(q, rest...))
	a := rsResp{Kind: r.B[0]}
	p := r.B[1:]
	u64 := func() uint64 { v := binary.LittleEndian.Uint64(p); p = p[8:]; return v }
	u32 := func() int { v := binary.LittleEndian.Uint32(p); p = p[4:]; return int(v) }
	str := func() []byte { n := u32(); v := append([]byte{}, p[:n]...); p = p[n:]; return v }
	switch a.Kind {
	case 'b':
		a.Bytes = str()
	case 'v':
		a.Alloc, a.Pos = u64(), u32()
		a.Bytes = str()
	case 'n':
		a.Alloc, a.Pos = u64(), u32()
	case 'f':
		a.Alloc = u64()
		a.Text = string(str())
	default:
		a.Text = string(str())
	}
	return a
}

func lenBytes(b []byte) []byte {
	return append(binary.LittleEndian.AppendUint32(nil, uint32(len(b))), b...)
}

// rsPut and rsGet translate values from and to the form the adapter speaks.
func rsPut(b []byte, f *schema.File, t int32, ref string, v *schema.Val) []byte {
	switch t {
	case schema.Message:
		m := f.Msg(ref)
		for i, x := range m.Fields {
			w := v.F[i]
			switch x.Card {
			case schema.Repeated:
				b = binary.LittleEndian.AppendUint32(b, uint32(len(w.L)))
				for _, y := range w.L {
					b = rsPut(b, f, x.Type, x.Ref, y)
				}
			case schema.Map:
				b = binary.LittleEndian.AppendUint32(b, uint32(len(w.M)))
				for _, y := range w.M {
					b = rsPut(b, f, x.Key, "", y[0])
					b = rsPut(b, f, x.Type, x.Ref, y[1])
				}
			default:
				b = rsPut(b, f, x.Type, x.Ref, w)
			}
		}
		return b
	case schema.String, schema.Bytes:
		return append(b, lenBytes(v.B)...)
	}
	return binary.LittleEndian.AppendUint64(b, v.U)
}

func rsGet(p *[]byte, f *schema.File, t int32, ref string) *schema.Val {
	u32 := func() int { v := binary.LittleEndian.Uint32(*p); *p = (*p)[4:]; return int(v) }
	v := &schema.Val{}
	switch t {
	case schema.Message:
		m := f.Msg(ref)
		v.F = make([]*schema.Val, len(m.Fields))
		for i, x := range m.Fields {
			w := &schema.Val{}
			switch x.Card {
			case schema.Repeated:
				for n := u32(); n > 0; n-- {
					w.L = append(w.L, rsGet(p, f, x.Type, x.Ref))
				}
			case schema.Map:
				for n := u32(); n > 0; n-- {
					k := rsGet(p, f, x.Key, "")
					w.M = append(w.M, [2]*schema.Val{k, rsGet(p, f, x.Type, x.Ref)})
				}
			default:
				w = rsGet(p, f, x.Type, x.Ref)
			}
			v.F[i] = w
		}
		return v
	case schema.String, schema.Bytes:
		n := u32()
		v.B = append([]byte{}, (*p)[:n]...)
		*p = (*p)[n:]
		return v
	}
	v.U = binary.LittleEndian.Uint64(*p)
	*p = (*p)[8:]
	switch schema.Tag(t) { // as in schema.Val: signed numbers of 32 bits extended to 64
	case 12:
		v.U = uint64(int64(int32(uint32(v.U))))
	}
	return v
}

type rsBatches struct {
	byFile map[string]*rsBatch
	index  map[string]int
	files  []*schema.File
	dir    string
}

var rb = &rsBatches{byFile: map[string]*rsBatch{}, index: map[string]int{}}

func (g *rsBatches) add(e *Env, files []*schema.File) {
	if len(files) == 0 {
		return
	}
	b := buildRs(e, g.dir, files)
	for i, f := range files {
		g.byFile[fileKey(f)], g.index[fileKey(f)] = b, i
	}
}

func (g *rsBatches) find(e *Env, f *schema.File) (*rsBatch, int) {
	k := fileKey(f)
	if g.byFile[k] == nil {
		g.add(e, []*schema.File{f})
	}
	return g.byFile[k], g.index[k]
}

func (g *rsBatches) prepare(e *Env, o Options, known []*schema.File, withGo bool) {
	g.dir, gb.dir = o.OutDir, o.OutDir
	var all []*schema.File
	seen := map[string]bool{}
	add := func(f *schema.File, draw bool) {
		f.Link()
		if k := fileKey(f); !seen[k] && len(f.AllMsgs()) > 0 {
			seen[k] = true
			all = append(all, f)
			if draw {
				g.files = append(g.files, f)
			}
		}
	}
	for _, f := range known {
		add(f, false)
	}
	if o.Replay == "" {
		n := 16
		if Tier == "thorough" {
			n = 80
		}
		for _, f := range schema.Fixed() {
			if f.RustOK() {
				add(f, true)
			}
		}
		for _, f := range drawFiles(o.Batch, n, schema.GenOpts{Sparse: true, MaxMsgs: 6, Rust: true}) {
			add(f, true)
		}
	}
	done := make(chan any, 1)
	go func() {
		defer func() { done <- recover() }()
		if withGo {
			gb.add(e, all)
		}
	}()
	g.add(e, all)
	if x := <-done; x != nil {
		panic(x)
	}
}

func (b *rsBatch) value(f *schema.File, m *schema.Msg, a rsResp) *schema.Val {
	p := a.Bytes
	v := rsGet(&p, f, schema.Message, m.Full())
	if len(p) != 0 {
		infra("%d bytes left in the adapter's answer", len(p))
	}
	return v
}

func rv(v int) string { return fmt.Sprintf("generated Rust code (v%d plugin)", v) }

func (a *rsResp) bad(what string) *Fail {
	switch a.Kind {
	case 'p':
		return failf("%s panics: %s", what, a.Text)
	case 'c':
		return failf("%s modifies %s", what, a.Text)
	}
	return nil
}

func p17(e *Env, c MsgCase) *Fail {
	c = c.stretched()
	m := c.msg()
	b, idx := rb.find(e, c.File)
	if bad := b.broken[idx]; bad != nil {
		return bad
	}
	g, gidx := gb.find(e, c.File)
	if bad := g.broken[gidx]; bad != nil {
		return bad
	}
	want := c.File.Canon(m, c.Val, false)
	ref, _ := c.File.Encode(m, c.Val)
	n := schema.GoName(m.Full())
	from := map[string][]byte{"the reference encoder": ref}
	for v := 1; v <= 2; v++ {
		x := g.do(goReq{Op: "encode", Ver: v, Schema: gidx, Type: n, Val: c.Val})
		if bad := x.bad(vn(v) + ": Encode"); bad != nil {
			return bad
		}
		from[vn(v)] = x.Bytes
	}
	for v := 1; v <= 2; v++ {
		id := b.ids[rsId(v, idx, m.Full())]
		a := b.do('e', id, rsPut(lenBytes(c.Prefix), c.File, schema.Message, m.Full(), c.Val))
		if bad := a.bad(rv(v) + ": encode"); bad != nil {
			return bad
		}
		if a.Kind != 'b' {
			return failf("%s: encode fails: %s", rv(v), a.Text)
		}
		if !bytes.HasPrefix(a.Bytes, c.Prefix) {
			return failf("%s: encode changes what the buffer held before", rv(v))
		}
		data := a.Bytes[len(c.Prefix):]
		for who, other := range from {
			if len(data) != len(other) {
				return failf("%s: %d bytes, %s has %d: %s", rv(v), len(data), who, len(other), layoutDiff(data, other))
			}
		}
		got, k, verdict := c.File.Decode(m, data)
		if verdict != schema.OK || k != len(data) {
			return failf("%s: the bytes do not follow the layout (%s after %d of %d bytes): %s", rv(v), verdict, k, len(data), layoutDiff(data, ref))
		}
		if x := c.File.Canon(m, got, false); x != want {
			return failf("%s: the bytes denote another message: %s", rv(v), firstDiff(want, x))
		}
		if again, _ := c.File.Encode(m, got); !bytes.Equal(again, data) {
			return failf("%s: the bytes are not the canonical encoding: %s", rv(v), layoutDiff(data, again))
		}
		from[rv(v)] = data
	}
	for v := 1; v <= 2; v++ {
		id := b.ids[rsId(v, idx, m.Full())]
		for who, data := range from {
			tail := data
			if len(c.Before) > 0 { // what follows a message is left alone
				tail = append(append([]byte{}, data...), 0xA5, 0x00)
			}
			a := b.do('d', id, lenBytes(tail))
			if bad := a.bad(rv(v) + ": decode"); bad != nil {
				return bad
			}
			if a.Kind == 'f' {
				return failf("%s: refuses a message of %s: %s", rv(v), who, a.Text)
			}
			if a.Kind == 'n' {
				return failf("%s: takes a message of %s for an absent one", rv(v), who)
			}
			if a.Pos != len(data) {
				return failf("%s: stops at byte %d of the %d of a message of %s", rv(v), a.Pos, len(data), who)
			}
			if x := c.File.Canon(m, b.value(c.File, m, a), false); x != want {
				return failf("%s: reads a message of %s as another one: %s", rv(v), who, firstDiff(want, x))
			}
			d := g.do(goReq{Op: "decode", Ver: v, Schema: gidx, Type: n, Data: data})
			if bad := d.bad(vn(v) + ": Decode"); bad != nil {
				return bad
			}
			if d.Failed {
				return failf("%s: refuses a message of %s: %s", vn(v), who, d.Err)
			}
			if got, want := c.File.Canon(m, d.Val, v == 1), c.File.Canon(m, c.Val, v == 1); got != want {
				return failf("%s: reads a message of %s as another one: %s", vn(v), who, firstDiff(want, got))
			}
		}
		// absent
		a := b.do('d', id, lenBytes([]byte{0}))
		if bad := a.bad(rv(v) + ": decode of nil"); bad != nil {
			return bad
		}
		if a.Kind != 'n' {
			return failf("%s: nil is not decoded as an absent message (%c %s)", rv(v), a.Kind, a.Text)
		}
		// an error in place of the message
		x := b.do('r', id, append(lenBytes(nil), lenBytes([]byte(c.Text))...))
		if bad := x.bad("encode_error"); bad != nil {
			return bad
		}
		a = b.do('d', id, lenBytes(x.Bytes))
		if bad := a.bad(rv(v) + ": decode of an error"); bad != nil {
			return bad
		}
		if a.Kind != 'f' {
			return failf("%s: an encoded error is accepted as a message", rv(v))
		}
		if a.Text != c.Text {
			return failf("%s: the error %q is read as %q", rv(v), c.Text, a.Text)
		}
	}
	return nil
}

// p18rust: malformed input.
func p18rust(e *Env, c MsgCase) *Fail {
	m := c.msg()
	b, idx := rb.find(e, c.File)
	if bad := b.broken[idx]; bad != nil {
		return bad
	}
	if c.Repeat > 0 {
		for v := 1; v <= 2; v++ {
			a := b.do('d', b.ids[rsId(v, idx, m.Full())], lenBytes(bytes.Repeat(c.Raw, c.Repeat)))
			if bad := a.bad(fmt.Sprintf("%s: decode of %x, repeated %d times", rv(v), clip(c.Raw), c.Repeat)); bad != nil {
				return bad
			}
			if a.Kind != 'f' {
				return failf("%s: accepts what is not a complete message: %x, repeated %d times", rv(v), clip(c.Raw), c.Repeat)
			}
		}
		return nil
	}
	loose := false // messages of no bytes: what follows one may be taken for it
	for _, x := range c.File.Reach(m) {
		loose = loose || c.File.Nullable(x)
	}
	for _, in := range malformed(c) {
		val, k, verdict := c.File.Decode(m, in)
		for v := 1; v <= 2; v++ {
			a := b.do('d', b.ids[rsId(v, idx, m.Full())], lenBytes(in))
			if bad := a.bad(fmt.Sprintf("%s: decode of %x", rv(v), clip(in))); bad != nil {
				return bad
			}
			if bound := uint64(64<<10 + (len(in)+4)*4096); a.Alloc > bound {
				return failf("%s: decoding %d bytes allocates %d bytes (more than %d): %x", rv(v), len(in), a.Alloc, bound, clip(in))
			}
			switch {
			case a.Kind == 'f':
				if verdict == schema.OK && val != nil && c.File.RustHolds(m, val) && !(loose && bytes.IndexByte(in, 6) >= 0) {
					return failf("%s: refuses a well-formed message (%s): %x", rv(v), a.Text, clip(in))
				}
				if verdict == schema.OK && val == nil {
					return failf("%s: refuses an absent message (%s): %x", rv(v), a.Text, clip(in))
				}
			case verdict == schema.Bad:
				return failf("%s: accepts what is not a complete message: %x", rv(v), clip(in))
			case verdict == schema.Unspec:
			case a.Kind == 'n' != (val == nil):
				return failf("%s: %x: absent %v, want %v", rv(v), clip(in), a.Kind == 'n', val == nil)
			case a.Pos != k:
				return failf("%s: %x: stops at byte %d, want %d", rv(v), clip(in), a.Pos, k)
			case val != nil:
				if got, want := c.File.Canon(m, b.value(c.File, m, a), false), c.File.Canon(m, val, false); got != want {
					return failf("%s: reads %x as another message: %s", rv(v), clip(in), firstDiff(want, got))
				}
			}
		}
	}
	return nil
}

// RsSchema is a schema whose Rust code must compile.
type RsSchema struct {
	File  *schema.File `json:"file"`
	Param string       `json:"param"`
}

func rustCompiles(e *Env, c RsSchema) *Fail {
	c.File.Link()
	dir, err := os.MkdirTemp("", "rsone")
	if err != nil {
		infra("%v", err)
	}
	defer os.RemoveAll(dir)
	for _, bin := range rsPlugins {
		src, bad := rsOutput(e, bin, c.Param, c.File)
		if bad != nil {
			return bad
		}
		path := filepath.Join(dir, "lib.rs")
		// with the accessors written from the schema, so that the declarations are checked as well
		if err := os.WriteFile(path, []byte(src+rsGlue(c.File)+rsRt), 0o644); err != nil {
			infra("%v", err)
		}
		if text := rustc(e, path, filepath.Join(dir, "lib.rmeta"), "--crate-type", "lib", "--emit=metadata"); text != "" {
			return failf("%s: the generated code does not compile, or does not declare what the schema calls for: %s", bin, rsErrors(text))
		}
	}
	return nil
}

// rsRt is the module rt of the adapter alone.
var rsRt = func() string {
	i, j := strings.Index(genrsMain, "pub mod rt {"), strings.Index(genrsMain, "\nfn serve(")
	return "\n" + genrsMain[i:j]
}()

func init() {
	prepRs := func(withGo bool) func(e *Env, o Options, known []MsgCase) {
		return func(e *Env, o Options, known []MsgCase) {
			var fs []*schema.File
			for _, c := range known {
				fs = append(fs, c.File)
			}
			rb.prepare(e, o, fs, withGo)
		}
	}
	rule := "a message value with at least four set fields, elements or nested messages"
	vo := schema.ValOpts{Text: true, EnumKnown: true, Present: true}
	Define(Part{Prop: "P17", Name: "RustInterop", Needs: []string{"plug-go1", "plug-go2", "plug-rs1", "plug-rs2", "exports", "harness", "rsdeps"}, Quick: 800, Thorough: 25000, Shards: 4, Weight: 9, Rule: rule},
		Spec[MsgCase]{Prepare: prepRs(true), Check: p17, Class: caseClass, Text: MsgCase.text,
			Gen: func(t *rapid.T) MsgCase {
				f, m := pick(t, rb.files, vo, nil)
				c := MsgCase{File: f, Msg: m.Full()}
				o := vo
				o.Big = true
				c.Val = f.GenVal(t, m, o)
				genStretch(t, &c)
				c.Prefix = genPrefix(t)
				c.Text = string(gen.Text(t, gen.Opts{RawText: false}, "error"))
				return c
			}})
	Define(Part{Prop: "P18", Name: "RustMalformed", Needs: []string{"plug-rs1", "plug-rs2", "rsdeps"}, Quick: 500, Thorough: 15000, Shards: 4, Weight: 9, Rule: rule + ", or more than three raw bytes"},
		Spec[MsgCase]{Prepare: prepRs(false), Check: p18rust, Class: caseClass, Text: MsgCase.text,
			Gen: func(t *rapid.T) MsgCase { return genMalformed(t, rb.files, vo) }})
	Define(Part{Prop: "P17", Name: "RustCompiles", Needs: []string{"plug-rs1", "plug-rs2", "rsdeps"}, Quick: 40, Thorough: 800, Shards: 6, Weight: 5, Rule: "a schema with at least two kinds of declarations and three fields"},
		Spec[RsSchema]{Check: rustCompiles, Class: func(c RsSchema) Class { return schemaClass(c.File) }, Text: func(c RsSchema) string { return c.File.Describe() + c.Param },
			Gen: func(t *rapid.T) RsSchema {
				f := schema.Gen(t, schema.GenOpts{Rust: true, Sparse: true, MaxMsgs: 5})
				return RsSchema{f, rapid.SampledFrom(rsPrivacy).Draw(t, "param")}
			}})
}
