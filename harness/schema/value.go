package schema

import (
	"bytes"
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"sort"
	"strings"
)

// Val is a value of a field, list element, map key, map value or message.
type Val struct {
	U uint64    `json:"u,omitempty"` // bool, integers (two's complement), float bits, enum numbers; 1: an empty list or map that is not nil
	B []byte    `json:"b,omitempty"` // string, bytes
	L []*Val    `json:"l,omitempty"` // list elements
	M [][2]*Val `json:"m,omitempty"` // map entries, in the order of their encoding
	F []*Val    `json:"f,omitempty"` // message fields in declaration order; nil is an absent message
}

// Order of the fields on the wire: scalars and enums, then lists, then messages and maps.
func (m *Msg) Order() (idx []int) {
	for pass := 0; pass < 3; pass++ {
		for i, x := range m.Fields {
			p := 0
			switch {
			case x.Card == Repeated:
				p = 1
			case x.Card == Map || x.Type == Message:
				p = 2
			}
			if p == pass {
				idx = append(idx, i)
			}
		}
	}
	return
}

func (x *Field) singularMsg() bool { return x.Type == Message && x.Card != Repeated && x.Card != Map }

// Solid says whether a present message of this type can be told from an absent one: its encoding begins with something
// other than nil. MustHave lists the fields that then have to be present.
func (f *File) Solid(m *Msg) bool { return f.solid(m, map[*Msg]bool{}) }
func (f *File) solid(m *Msg, path map[*Msg]bool) bool {
	o := m.Order()
	if len(o) == 0 {
		return false
	}
	x := m.Fields[o[0]]
	if !x.singularMsg() {
		return true
	}
	if path[m] {
		return false
	}
	path[m] = true
	defer delete(path, m)
	return f.solid(f.Msg(x.Ref), path)
}

// Forced is the index of the nested message that must be present so that m is told from an absent message, or -1.
func (m *Msg) Forced() int {
	if o := m.Order(); len(o) > 0 && m.Fields[o[0]].singularMsg() {
		return o[0]
	}
	return -1
}

// wire tags
const (
	tNil, tSlice, tMap, tAny, tBytes, tString, tError, tBool, tU8, tU16, tU32, tU64, tI32, tI64, tF32, tF64 = 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15
)

// Tag is the wire kind the type prescribes.
func Tag(t int32) byte {
	switch t {
	case Double:
		return tF64
	case Float:
		return tF32
	case Int64, Sint64, Sfixed64:
		return tI64
	case Uint64, Fixed64:
		return tU64
	case Int32, Sint32, Sfixed32:
		return tI32
	case Uint32, Fixed32, EnumType:
		return tU32
	case Bool:
		return tBool
	case String:
		return tString
	case Bytes:
		return tBytes
	case Message:
		return tAny
	}
	panic("type")
}

// Mark is a position of interest in an encoding.
type Mark struct {
	Pos  int
	Size bool // a list or map header starts here
}

type enc struct {
	f     *File
	b     []byte
	marks []Mark
}

func (e *enc) elem(t int32, ref string, v *Val) {
	if t == Message {
		e.msg(e.f.Msg(ref), v)
		return
	}
	e.marks = append(e.marks, Mark{Pos: len(e.b)})
	e.b = append(e.b, Tag(t))
	switch Tag(t) {
	case tBool:
		e.b = append(e.b, byte(v.U&1))
	case tU32, tU64:
		e.b = binary.AppendUvarint(e.b, v.U)
	case tI32, tI64:
		e.b = binary.AppendVarint(e.b, int64(v.U))
	case tF32:
		e.b = binary.BigEndian.AppendUint32(e.b, uint32(v.U))
	case tF64:
		e.b = binary.BigEndian.AppendUint64(e.b, v.U)
	case tString, tBytes:
		e.b = append(e.b, tU32)
		e.b = binary.AppendUvarint(e.b, uint64(len(v.B)))
		e.b = append(e.b, v.B...)
	}
}

func (e *enc) size(n int, kinds ...byte) {
	e.marks = append(e.marks, Mark{len(e.b), true})
	e.b = append(e.b, kinds...)
	e.b = append(e.b, tU32)
	e.b = binary.AppendUvarint(e.b, uint64(n))
}

func (e *enc) msg(m *Msg, v *Val) {
	if v == nil {
		e.marks = append(e.marks, Mark{Pos: len(e.b)})
		e.b = append(e.b, tNil)
		return
	}
	if e.f.Hook {
		e.marks = append(e.marks, Mark{Pos: len(e.b)})
		e.b = binary.AppendUvarint(append(e.b, tU32), uint64(uint32(v.U)+hookStep))
	}
	for _, i := range m.Order() {
		x, fv := m.Fields[i], v.F[i]
		switch x.Card {
		case Repeated:
			n := 0
			if fv != nil {
				n = len(fv.L)
			}
			e.size(n, tSlice, Tag(x.Type))
			for j := 0; j < n; j++ {
				e.elem(x.Type, x.Ref, fv.L[j])
			}
		case Map:
			n := 0
			if fv != nil {
				n = len(fv.M)
			}
			e.size(n, tMap, Tag(x.Key), Tag(x.Type))
			for j := 0; j < n; j++ {
				e.elem(x.Key, "", fv.M[j][0])
				e.elem(x.Type, x.Ref, fv.M[j][1])
			}
		default:
			e.elem(x.Type, x.Ref, fv)
		}
	}
}

// Encode is the reference encoding.
func (f *File) Encode(m *Msg, v *Val) ([]byte, []Mark) {
	e := &enc{f: f}
	e.msg(m, v)
	return e.b, e.marks
}

// Verdict of the reference decoder.
type Verdict int

const (
	OK     Verdict = iota
	Bad            // not a complete encoding: must be refused
	Unspec         // the documentation does not say (over-long varints, nil in place of a list element or map)
)

func (v Verdict) String() string { return [...]string{"ok", "bad", "unspecified"}[v] }

type dec struct {
	f     *File
	b     []byte
	p     int
	loose bool
	work  int
	depth int
}

type badInput struct{}

func (d *dec) fail() { panic(badInput{}) }

func (d *dec) u8() byte {
	if d.p >= len(d.b) {
		d.fail()
	}
	d.p++
	return d.b[d.p-1]
}

func (d *dec) varint(bits uint) uint64 {
	var v uint64
	for s := uint(0); ; s += 7 {
		c := d.u8()
		if s >= bits || (bits-s < 7 && c&0x7f>>(bits-s) != 0) {
			d.fail()
		}
		v |= uint64(c&0x7f) << s
		if c < 0x80 {
			if c == 0 && s > 0 {
				d.loose = true
			}
			return v
		}
	}
}

func (d *dec) nilHere() bool {
	if d.p < len(d.b) && d.b[d.p] == tNil {
		d.p++
		return true
	}
	return false
}

func (d *dec) want(k byte) {
	if d.u8() != k {
		d.fail()
	}
}

func (d *dec) elem(t int32, ref string, strict bool) *Val {
	d.work++
	if d.work > 2_000_000 {
		d.fail()
	}
	if t == Message {
		if d.depth++; d.depth > 10000 {
			d.fail() // more levels than any input here has bytes
		}
		v := d.msg(d.f.Msg(ref))
		d.depth--
		if v == nil && strict {
			d.loose = true
			return d.f.Empty(d.f.Msg(ref))
		}
		return v
	}
	d.want(Tag(t))
	v := &Val{}
	switch Tag(t) {
	case tBool:
		v.U = uint64(d.u8())
		if v.U > 1 {
			d.fail()
		}
	case tU32:
		v.U = d.varint(32)
	case tU64:
		v.U = d.varint(64)
	case tI32:
		u := d.varint(32)
		v.U = uint64(int64(u>>1) ^ -int64(u&1))
	case tI64:
		u := d.varint(64)
		v.U = uint64(int64(u>>1) ^ -int64(u&1))
	case tF32:
		for i := 0; i < 4; i++ {
			v.U = v.U<<8 | uint64(d.u8())
		}
	case tF64:
		for i := 0; i < 8; i++ {
			v.U = v.U<<8 | uint64(d.u8())
		}
	case tString, tBytes:
		d.want(tU32)
		n := d.varint(32)
		if n > uint64(len(d.b)-d.p) {
			d.fail()
		}
		v.B = append([]byte{}, d.b[d.p:d.p+int(n)]...)
		d.p += int(n)
	}
	return v
}

// nullable: a present message can take no bytes at all.
func (f *File) nullable(m *Msg, path map[*Msg]bool) bool {
	if path[m] {
		return false
	}
	path[m] = true
	defer delete(path, m)
	for _, x := range m.Fields {
		if !x.singularMsg() || !f.nullable(f.Msg(x.Ref), path) {
			return false
		}
	}
	return true
}

// Nullable says whether a present message of the type can take no bytes at all.
func (f *File) Nullable(m *Msg) bool { return f.nullable(m, map[*Msg]bool{}) }

// Bottomless says whether m leads to a message that begins with itself: a decoder of it never gets to read anything.
func (f *File) Bottomless(m *Msg) bool {
	for _, r := range f.Reach(m) {
		seen := map[*Msg]bool{}
		var begins func(x *Msg) bool
		begins = func(x *Msg) bool {
			if seen[x] {
				return false
			}
			seen[x] = true
			for _, i := range x.Order() {
				y := x.Fields[i]
				if !y.singularMsg() {
					return false
				}
				sub := f.Msg(y.Ref)
				if sub == r || begins(sub) {
					return true
				}
				if !f.nullable(sub, map[*Msg]bool{}) {
					return false
				}
			}
			return false
		}
		if begins(r) {
			return true
		}
	}
	return false
}

// Empty is the message with every field at its default.
func (f *File) Empty(m *Msg) *Val {
	v := &Val{F: make([]*Val, len(m.Fields))}
	for i, x := range m.Fields {
		if !x.singularMsg() {
			v.F[i] = &Val{}
		}
	}
	return v
}

func (d *dec) msg(m *Msg) *Val {
	if d.nilHere() {
		return nil
	}
	v := &Val{F: make([]*Val, len(m.Fields))}
	if d.f.Hook {
		if d.p < len(d.b) && d.b[d.p] == tError { // taken by the custom decode code, which then stops
			d.p++
			d.want(tString)
			d.want(tU32)
			n := int(d.varint(32))
			if n > len(d.b)-d.p {
				d.fail()
			}
			d.p += n
			d.loose = true
			return d.f.Empty(m)
		}
		d.want(tU32)
		v.U = uint64(uint32(d.varint(32)) - hookStep)
	}
	for _, i := range m.Order() {
		x := m.Fields[i]
		switch x.Card {
		case Repeated:
			d.want(tSlice)
			d.want(Tag(x.Type))
			d.want(tU32)
			n := d.varint(32)
			fv := &Val{}
			for ; n > 0; n-- {
				fv.L = append(fv.L, d.elem(x.Type, x.Ref, true))
			}
			v.F[i] = fv
		case Map:
			if d.nilHere() {
				d.loose = true
				v.F[i] = &Val{}
				continue
			}
			d.want(tMap)
			d.want(Tag(x.Key))
			d.want(Tag(x.Type))
			d.want(tU32)
			n := d.varint(32)
			fv := &Val{}
			seen := map[string]bool{}
			for ; n > 0; n-- {
				k := d.elem(x.Key, "", true)
				id := fmt.Sprint(k.U, string(k.B))
				if seen[id] {
					d.loose = true // the documentation does not say what a repeated key means
				}
				seen[id] = true
				fv.M = append(fv.M, [2]*Val{k, d.elem(x.Type, x.Ref, true)})
			}
			v.F[i] = fv
		default:
			v.F[i] = d.elem(x.Type, x.Ref, false)
		}
	}
	return v
}

// Decode is the reference decoder. It returns the message, how many bytes it takes, and the verdict. With verdict Unspec
// an implementation may refuse the input or return this message.
func (f *File) Decode(m *Msg, b []byte) (v *Val, n int, verdict Verdict) {
	d := &dec{f: f, b: b}
	defer func() {
		if x := recover(); x != nil {
			if _, ok := x.(badInput); !ok {
				panic(x)
			}
			v, n, verdict = nil, d.p, Bad
		}
	}()
	v = d.msg(m)
	if d.loose {
		return v, d.p, Unspec
	}
	return v, d.p, OK
}

func key(v *Val) string { return fmt.Sprintf("%016x %x", v.U, v.B) }

// Canon writes a value so that equal values have equal texts. Maps are sorted. With nilIsEmpty an absent message equals
// one whose fields are all default (v1 messages always hold their nested messages).
func (f *File) Canon(m *Msg, v *Val, nilIsEmpty bool) string {
	var b bytes.Buffer
	f.canonMsg(&b, m, v, nilIsEmpty)
	return b.String()
}

func (f *File) isDefault(m *Msg, v *Val) bool {
	if v == nil {
		return true
	}
	if f.Hook && v.U != 0 {
		return false
	}
	for i, x := range m.Fields {
		w := v.F[i]
		if w == nil {
			continue
		}
		if x.singularMsg() {
			if !f.isDefault(f.Msg(x.Ref), w) {
				return false
			}
		} else if x.Card != Repeated && x.Card != Map && w.U != 0 || len(w.B) > 0 || len(w.L) > 0 || len(w.M) > 0 {
			return false
		}
	}
	return true
}

func (f *File) canonElem(b *bytes.Buffer, t int32, ref string, v *Val, nie bool) {
	if t == Message {
		f.canonMsg(b, f.Msg(ref), v, nie)
		return
	}
	if v == nil {
		v = &Val{}
	}
	switch Tag(t) {
	case tString:
		fmt.Fprintf(b, "%q", v.B)
	case tBytes:
		b.WriteString("0x" + hex.EncodeToString(v.B))
	case tI32, tI64:
		fmt.Fprintf(b, "%d", int64(v.U))
	case tF32:
		fmt.Fprintf(b, "f32:%08x", v.U)
	case tF64:
		fmt.Fprintf(b, "f64:%016x", v.U)
	default:
		fmt.Fprintf(b, "%d", v.U)
	}
}

func (f *File) canonMsg(b *bytes.Buffer, m *Msg, v *Val, nie bool) {
	if v == nil || nie && f.isDefault(m, v) {
		b.WriteString("nil")
		return
	}
	b.WriteString("{")
	if f.Hook {
		fmt.Fprintf(b, "<mark %d> ", uint32(v.U))
	}
	for i, x := range m.Fields {
		if i > 0 {
			b.WriteString(" ")
		}
		b.WriteString(x.Name + ":")
		w := v.F[i]
		switch x.Card {
		case Repeated:
			b.WriteString("[")
			if w != nil {
				for j, y := range w.L {
					if j > 0 {
						b.WriteString(" ")
					}
					f.canonListElem(b, x, y, nie)
				}
			}
			b.WriteString("]")
		case Map:
			b.WriteString("map[")
			if w != nil {
				es := append([][2]*Val{}, w.M...)
				sort.SliceStable(es, func(i, j int) bool { return key(es[i][0]) < key(es[j][0]) })
				for j, y := range es {
					if j > 0 {
						b.WriteString(" ")
					}
					f.canonElem(b, x.Key, "", y[0], nie)
					b.WriteString(":")
					f.canonListElem(b, x, y[1], nie)
				}
			}
			b.WriteString("]")
		default:
			f.canonElem(b, x.Type, x.Ref, w, nie)
		}
	}
	b.WriteString("}")
}

// List elements and map values that are messages are always present; an absent one reads as an empty one.
func (f *File) canonListElem(b *bytes.Buffer, x *Field, v *Val, nie bool) {
	if x.Type == Message && v == nil {
		v = f.Empty(f.Msg(x.Ref))
	}
	f.canonElem(b, x.Type, x.Ref, v, nie)
}

func Clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func CountFields(v *Val) int {
	if v == nil {
		return 0
	}
	n := 1
	for _, x := range v.L {
		n += CountFields(x)
	}
	for _, x := range v.M {
		n += CountFields(x[1])
	}
	for _, x := range v.F {
		n += CountFields(x)
	}
	return n
}

var _ = strings.Join

// The custom code of files with Hook set: every message carries a mark (Val.U), written as a number hookStep larger in front
// of its fields, and an error in place of the message is kept.
const hookStep = 41

const HookFields = `// {{ .Custom }} fields: "quoted" <&> %s %!d
VerifErr  error
VerifMark uint32
`

// HookNames are the names that the generated code around custom code has for the message, the buffer, the decoder and the error.
type HookNames struct{ X, B, D, Err string }

func (n HookNames) put(code string) string {
	return strings.NewReplacer("$x", n.X, "$b", n.B, "$d", n.D, "$err", n.Err).Replace(code)
}

func (n HookNames) Encode() string {
	return n.put(`if $x.VerifErr != nil {
	polyglot.Encoder($b).Error($x.VerifErr)
	return
}
polyglot.Encoder($b).Uint32($x.VerifMark + 41) // <&> "{{ range }}" %v
`)
}

func (n HookNames) Decode() string {
	return n.put(`$x.VerifErr, $err = $d.Error()
if $err == nil {
	return nil
}
$x.VerifMark, $err = $d.Uint32()
if $err != nil {
	return $err
}
$x.VerifMark -= 41
`)
}

// SetMarks gives every message of a value a mark.
func (f *File) SetMarks(m *Msg, v *Val, next func() uint32) {
	if v == nil {
		return
	}
	v.U = uint64(next())
	for i, x := range m.Fields {
		w := v.F[i]
		if x.Type != Message || w == nil {
			continue
		}
		sub := f.Msg(x.Ref)
		switch x.Card {
		case Repeated:
			for _, y := range w.L {
				f.SetMarks(sub, y, next)
			}
		case Map:
			for _, y := range w.M {
				f.SetMarks(sub, y[1], next)
			}
		default:
			f.SetMarks(sub, w, next)
		}
	}
}

// HookFieldCount is the number of fields the custom code adds to every struct.
func (f *File) HookFieldCount() int {
	if f.Hook {
		return 2
	}
	return 0
}
