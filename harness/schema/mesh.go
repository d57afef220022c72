package schema

import (
	"fmt"

	"pgregory.net/rapid"
)

// Mesh draws a file of messages that refer to one another so densely that there are astronomically many ways through
// them: a ladder, where each refers twice to the next, or a net, where each refers to each.
func Mesh(t *rapid.T, index int, rust bool) *File {
	f := &File{Pkg: fmt.Sprintf("mesh%d", index), Path: fmt.Sprintf("mesh%d.proto", index), GoPkg: fmt.Sprintf("example.com/gen/mesh%d;mesh", index)}
	net := rapid.Bool().Draw(t, "net")
	n := rapid.IntRange(40, 60).Draw(t, "rungs")
	if net {
		n = rapid.IntRange(13, 20).Draw(t, "knots")
	}
	keyed := rapid.Bool().Draw(t, "keyed")
	nested := !net && rapid.Bool().Draw(t, "nested")
	e := &Enum{Name: "Last", Values: []EVal{{Name: "LAST_NONE"}, {Name: "LAST_ONE", Num: 1}}}
	if rapid.Bool().Draw(t, "enum") {
		f.Enums = append(f.Enums, e)
	}
	var all []*Msg
	for i := 0; i < n; i++ {
		m := &Msg{Name: fmt.Sprintf("Knot%d", i)}
		all = append(all, m)
		if nested && i > 0 && i < 8 {
			all[i-1].Msgs = append(all[i-1].Msgs, m)
		} else {
			f.Msgs = append(f.Msgs, m)
		}
	}
	f.Link()
	card := Singular
	if rust && net || rapid.Bool().Draw(t, "lists") {
		card = Repeated
	}
	for i, m := range all {
		add := func(name string, to *Msg, card string) {
			x := &Field{Name: name, Num: int32(len(m.Fields) + 1), Type: Message, Ref: to.full, Card: card}
			if card == Map {
				x.Key = String
			}
			m.Fields = append(m.Fields, x)
		}
		switch {
		case net:
			for j := range all {
				add(fmt.Sprintf("to%d", j), all[(i+j)%n], card)
			}
		case i+1 < n:
			add("left", all[i+1], card)
			add("right", all[i+1], card)
			if keyed && rapid.Bool().Draw(t, "third") {
				add("keyed", all[i+1], Map)
			}
		default:
			m.Fields = append(m.Fields, &Field{Name: "end", Num: 1, Type: Uint32, Card: Singular})
			if len(f.Enums) > 0 && rapid.Bool().Draw(t, "last enum") {
				*m.Fields[0] = Field{Name: "end", Num: 1, Type: EnumType, Ref: e.full, Card: Singular}
			}
			if rapid.Bool().Draw(t, "last map") {
				m.Fields = append(m.Fields, &Field{Name: "by_name", Num: 2, Type: Uint32, Card: Map, Key: String})
			}
		}
	}
	return f.Link()
}
