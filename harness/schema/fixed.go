package schema

import (
	"fmt"
	"unicode/utf8"
)

// Fixed lists hand-written schemas that together use every element type in every position, so that each run covers them.
func Fixed() []*File {
	var out []*File
	add := func(f *File) { out = append(out, f.Link()) }
	kind := &Enum{Name: "Kind", Values: []EVal{{Name: "K_ZERO", Num: 0}, {Name: "K_FIVE", Num: 5}, {Name: "K_NEG", Num: -1}, {Name: "K_BIG", Num: 1<<31 - 1}}}
	sub := func() *Msg {
		return &Msg{Name: "Sub", Fields: []*Field{{Name: "id", Num: 1, Card: Singular, Type: Uint32}, {Name: "text", Num: 2, Card: Singular, Type: String}}}
	}
	ref := func(t int32, pkg string) string {
		switch t {
		case EnumType:
			return join(pkg, "Kind")
		case Message:
			return join(pkg, "Sub")
		}
		return ""
	}
	each := func(pkg, name, card string) *Msg {
		m := &Msg{Name: name}
		for i, t := range ElemTypes {
			m.Fields = append(m.Fields, &Field{Name: fmt.Sprintf("f_%s", TypeName(t)), Num: int32(i + 1), Card: card, Type: t, Ref: ref(t, pkg)})
		}
		return m
	}
	// every type: singular, list, map value, map key
	for _, pkg := range []string{"", "every.v1"} {
		keys, vals := &Msg{Name: "Keys"}, &Msg{Name: "Values"}
		for i, t := range KeyTypes {
			keys.Fields = append(keys.Fields, &Field{Name: "k_" + TypeName(t), Num: int32(i + 1), Card: Map, Key: t, Type: ElemTypes[i%len(ElemTypes)], Ref: ref(ElemTypes[i%len(ElemTypes)], pkg)})
		}
		for i, t := range ElemTypes {
			vals.Fields = append(vals.Fields, &Field{Name: "v_" + TypeName(t), Num: int32(i + 1), Card: Map, Key: KeyTypes[(i*5)%len(KeyTypes)], Type: t, Ref: ref(t, pkg)})
		}
		k := *kind
		add(&File{Path: "every.proto", Pkg: pkg, GoPkg: "example.com/gen/every;every", Enums: []*Enum{&k}, Msgs: []*Msg{sub(), each(pkg, "Singles", Singular), each(pkg, "Lists", Repeated), keys, vals}})
	}
	// fields of the three groups interleaved
	mixed := &Msg{Name: "Mixed"}
	for i, c := range []string{Map, Singular, Repeated, Singular, Map, Repeated, Singular, Optional, Repeated, Singular} {
		x := &Field{Name: fmt.Sprintf("m%d", i), Num: int32(20 - i), Card: c, Type: []int32{String, Message, Int64, Uint32, Message, Message, EnumType, Bool, Bytes, Double}[i], Key: Int32}
		if c != Map {
			x.Key = 0
		}
		x.Ref = ref(x.Type, "mix")
		mixed.Fields = append(mixed.Fields, x)
	}
	plain := &Msg{Name: "Mixed"}
	for _, x := range mixed.Fields {
		y := *x
		if y.Card == Optional {
			y.Card = Singular
		}
		if y.Ref != "" {
			y.Ref = "plain" + y.Ref[len("mix"):]
		}
		plain.Fields = append(plain.Fields, &y)
	}
	k2 := *kind
	add(&File{Path: "plain.proto", Pkg: "plain", GoPkg: "example.com/gen/plain;plain", Enums: []*Enum{&k2}, Msgs: []*Msg{plain, sub()}})
	k := *kind
	add(&File{Path: "mixed.proto", Pkg: "mix", GoPkg: "example.com/gen/mixed;mixed", Enums: []*Enum{&k}, Msgs: []*Msg{mixed, sub()}})
	// recursion through every kind of field
	tree := &Msg{Name: "Tree", Fields: []*Field{
		{Name: "label", Num: 1, Card: Singular, Type: String}, {Name: "left", Num: 2, Card: Singular, Type: Message, Ref: "Tree"}, {Name: "right", Num: 3, Card: Singular, Type: Message, Ref: "Tree"},
		{Name: "children", Num: 4, Card: Repeated, Type: Message, Ref: "Tree"}, {Name: "named", Num: 5, Card: Map, Key: String, Type: Message, Ref: "Tree"}, {Name: "other", Num: 6, Card: Singular, Type: Message, Ref: "Other"}}}
	other := &Msg{Name: "Other", Fields: []*Field{{Name: "n", Num: 1, Card: Singular, Type: Sint64}, {Name: "back", Num: 2, Card: Singular, Type: Message, Ref: "Tree"}}}
	add(&File{Path: "tree.proto", GoPkg: "example.com/gen/tree;tree", Msgs: []*Msg{tree, other}})
	// nesting
	deep := &Msg{Name: "L0", Fields: []*Field{{Name: "v", Num: 1, Card: Singular, Type: Sint32}}}
	full := []string{"nest.L0"}
	cur := deep
	for i := 1; i <= 4; i++ {
		n := fmt.Sprintf("L%d", i)
		full = append(full, full[i-1]+"."+n)
		x := &Msg{Name: n, Fields: []*Field{{Name: "v", Num: 1, Card: Repeated, Type: Sfixed32}}, Enums: []*Enum{{Name: fmt.Sprintf("E%d", i), Values: []EVal{{Name: fmt.Sprintf("A%d", i), Num: 0}, {Name: fmt.Sprintf("B%d", i), Num: 1}}}}}
		x.Fields = append(x.Fields, &Field{Name: "e", Num: 2, Card: Repeated, Type: EnumType, Ref: full[i] + fmt.Sprintf(".E%d", i)})
		cur.Msgs = append(cur.Msgs, x)
		cur.Fields = append(cur.Fields, &Field{Name: "down", Num: 3, Card: Singular, Type: Message, Ref: full[i]}, &Field{Name: "all", Num: 4, Card: Repeated, Type: Message, Ref: full[i]})
		cur = x
	}
	add(&File{Path: "nest.proto", Pkg: "nest", GoPkg: "example.com/gen/nest;nest", Msgs: []*Msg{deep}})
	// shapes with no scalar first
	add(&File{Path: "odd.proto", Pkg: "odd", GoPkg: "example.com/gen/odd;odd", Msgs: []*Msg{
		{Name: "Empty"},
		{Name: "OnlyMap", Fields: []*Field{{Name: "m", Num: 1, Card: Map, Key: Uint64, Type: Bytes}}},
		{Name: "OnlyList", Fields: []*Field{{Name: "l", Num: 1, Card: Repeated, Type: Bytes}}},
		{Name: "OnlySub", Fields: []*Field{{Name: "s", Num: 1, Card: Singular, Type: Message, Ref: "odd.OnlyList"}}},
		{Name: "Holds", Fields: []*Field{{Name: "a", Num: 1, Card: Singular, Type: Message, Ref: "odd.OnlyMap"}, {Name: "b", Num: 2, Card: Repeated, Type: Message, Ref: "odd.OnlySub"}, {Name: "c", Num: 3, Card: Map, Key: Bool, Type: Message, Ref: "odd.OnlyList"}, {Name: "d", Num: 4, Card: Singular, Type: Fixed64}}},
	}})
	return out
}

// RustOK says whether the Rust generator supports the file: acyclic, no proto3 optional, no names the generated code uses.
func (f *File) RustOK() bool {
	if !f.Acyclic() {
		return false
	}
	for _, e := range f.AllEnums() {
		if rustTaken[GoName(e.Full())] {
			return false
		}
	}
	for _, m := range f.AllMsgs() {
		if rustTaken[GoName(m.Full())] {
			return false
		}
		for _, x := range m.Fields {
			if x.Card == Optional && !f.Proto2 {
				return false
			}
		}
	}
	return true
}

// RustHolds says whether a Rust message can hold the value: text is UTF-8, enum numbers are declared, nothing is absent.
func (f *File) RustHolds(m *Msg, v *Val) bool {
	ok := func(t int32, ref string, v *Val) bool {
		switch t {
		case Message:
			return v != nil && f.RustHolds(f.Msg(ref), v)
		case String:
			return utf8.Valid(v.B)
		case EnumType:
			for _, x := range f.Enum(ref).Values {
				if uint64(uint32(x.Num)) == v.U {
					return true
				}
			}
			return false
		}
		return true
	}
	for i, x := range m.Fields {
		w := v.F[i]
		switch x.Card {
		case Repeated:
			for _, y := range w.L {
				if !ok(x.Type, x.Ref, y) {
					return false
				}
			}
		case Map:
			for _, y := range w.M {
				if !ok(x.Key, "", y[0]) || !ok(x.Type, x.Ref, y[1]) {
					return false
				}
			}
		default:
			if !ok(x.Type, x.Ref, w) {
				return false
			}
		}
	}
	return true
}

// RustScalar is the Rust type of a scalar.
func RustScalar(t int32) string { return rustScalar[t] }

// Acyclic says whether no message of the file contains itself through singular fields and no enum has aliases: what the
// Rust generator supports.
func (f *File) Acyclic() bool {
	for _, m := range f.AllMsgs() {
		if f.SingularCycle(m) {
			return false
		}
	}
	for _, e := range f.AllEnums() {
		if e.Alias {
			return false
		}
	}
	return true
}
