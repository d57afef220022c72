package schema

import (
	"fmt"

	"pgregory.net/rapid"

	"verif/harness/gen"
)

// ValOpts narrows the values drawn.
type ValOpts struct {
	Text      bool // only valid UTF-8 in strings
	EnumKnown bool // only declared enum numbers
	Present   bool // nested messages are never absent (Rust)
	Big       bool
}

// CanHold says whether the message can be a present list element, map value or nested message without being mistaken for
// an absent one, given the options.
func (f *File) CanHold(m *Msg, o ValOpts) bool {
	return f.Solid(m)
}

type vgen struct {
	f    *File
	t    *rapid.T
	o    ValOpts
	left int
}

func (g *vgen) elem(t int32, ref string, depth int) *Val {
	g.left--
	v := &Val{}
	switch t {
	case Message:
		return g.msg(g.f.Msg(ref), depth+1)
	case EnumType:
		e := g.f.Enum(ref)
		if g.o.EnumKnown || rapid.IntRange(0, 3).Draw(g.t, "known") > 0 {
			v.U = uint64(uint32(rapid.SampledFrom(e.Values).Draw(g.t, "enum").Num))
		} else {
			v.U = gen.Bits(g.t, 32, "enum")
		}
	case Bool:
		v.U = uint64(rapid.IntRange(0, 1).Draw(g.t, "bool"))
	case Float:
		v.U = gen.FloatBits(g.t, 32, "f32")
	case Double:
		v.U = gen.FloatBits(g.t, 64, "f64")
	case Uint32, Fixed32:
		v.U = gen.Bits(g.t, 32, "u32")
	case Uint64, Fixed64:
		v.U = gen.Bits(g.t, 64, "u64")
	case Int32, Sint32, Sfixed32:
		v.U = uint64(int64(int32(uint32(gen.Bits(g.t, 32, "i32")))))
	case Int64, Sint64, Sfixed64:
		v.U = gen.Bits(g.t, 64, "i64")
	case String:
		v.B = gen.Text(g.t, gen.Opts{RawText: !g.o.Text, Big: g.o.Big && g.left > 0}, "string")
	case Bytes:
		n := gen.Length(g.t, gen.Opts{Big: g.o.Big && g.left > 0}, "bytes")
		v.B = gen.Payload(g.t, n, "bytes")
	}
	return v
}

func (g *vgen) n(depth int) int {
	if g.left <= 0 || depth > 4 {
		return 0
	}
	hi := 3
	switch rapid.IntRange(0, 19).Draw(g.t, "n?") {
	case 0:
		hi = 12
	case 1:
		if depth == 0 {
			return rapid.SampledFrom([]int{127, 128, 130, 255, 256, 300}).Draw(g.t, "n")
		}
	case 2, 3, 4:
		return 0
	}
	return rapid.IntRange(0, hi).Draw(g.t, "n")
}

// mustHold: in Rust mode nested messages cannot be absent, so a type whose nested message cannot be present has no values.
func (g *vgen) msg(m *Msg, depth int) *Val {
	v := &Val{F: make([]*Val, len(m.Fields))}
	forced := m.Forced()
	for i, x := range m.Fields {
		switch {
		case x.singularMsg():
			sub := g.f.Msg(x.Ref)
			switch {
			case i == forced || g.o.Present:
				v.F[i] = g.msg(sub, depth+1)
			case !g.f.Solid(sub) || depth > 4 || g.left <= 0:
			case rapid.IntRange(0, 2).Draw(g.t, "absent") > 0:
				v.F[i] = g.msg(sub, depth+1)
			}
		case x.Card == Repeated:
			v.F[i] = &Val{}
			if x.Type == Message && !g.f.Solid(g.f.Msg(x.Ref)) {
				continue
			}
			for n := g.n(depth); n > 0; n-- {
				v.F[i].L = append(v.F[i].L, g.elem(x.Type, x.Ref, depth))
			}
			if len(v.F[i].L) == 0 && rapid.Bool().Draw(g.t, "empty, not nil") {
				v.F[i].U = 1
			}
		case x.Card == Map:
			v.F[i] = &Val{}
			if x.Type == Message && !g.f.Solid(g.f.Msg(x.Ref)) {
				continue
			}
			seen := map[string]bool{}
			for n := g.n(depth); n > 0; n-- {
				k := g.elem(x.Key, "", depth)
				id := fmt.Sprint(k.U, string(k.B))
				if seen[id] {
					continue
				}
				seen[id] = true
				v.F[i].M = append(v.F[i].M, [2]*Val{k, g.elem(x.Type, x.Ref, depth)})
			}
			if len(v.F[i].M) == 0 && rapid.Bool().Draw(g.t, "empty, not nil") {
				v.F[i].U = 1
			}
		default:
			v.F[i] = g.elem(x.Type, x.Ref, depth)
		}
	}
	return v
}

// Root says whether values of m can be drawn as a whole message.
func (f *File) Root(m *Msg, o ValOpts) bool {
	if m.Forced() >= 0 && !f.Solid(m) {
		return false
	}
	if o.Present {
		// every message reachable through singular fields must be solid
		for _, x := range f.Reach(m) {
			if f.SingularCycle(x) {
				return false
			}
			for _, y := range x.Fields {
				if y.singularMsg() && !f.Solid(f.Msg(y.Ref)) {
					return false
				}
			}
		}
	}
	return true
}

// GenVal draws a value of m. Root(m) must hold.
func (f *File) GenVal(t *rapid.T, m *Msg, o ValOpts) *Val {
	g := &vgen{f: f, t: t, o: o, left: 60}
	return g.msg(m, 0)
}
