package schema

import "fmt"

// stretchable lists the fields of m that Stretch can make long: lists and maps, and nested messages of the type itself.
func (f *File) stretchable(m *Msg, v *Val) (at []int) {
	forced := m.Forced()
	for i, x := range m.Fields {
		switch {
		case v.F[i] == nil:
		case x.Card == Repeated && len(v.F[i].L) > 0:
			at = append(at, i)
		case x.Card == Map && len(v.F[i].M) > 0 && x.Key != Bool:
			at = append(at, i)
		case x.singularMsg() && i != forced && f.Msg(x.Ref) == m:
			at = append(at, i)
		}
	}
	return
}

// Stretch returns the message with one of its fields (chosen by at, scaled) made long: a list of n elements or, if they are
// messages, a fiftieth of it; a map of a tenth; nested messages of its own type a hundredth deep (at most 300). Elements
// are those of v, over and over.
func (f *File) Stretch(m *Msg, v *Val, at uint32, n int) *Val {
	can := f.stretchable(m, v)
	if len(can) == 0 || n == 0 {
		return v
	}
	if data, _ := f.Encode(m, v); len(data) > 2000 { // elements may be long
		n = n * 2000 / len(data)
	}
	i := can[int(uint64(at)*uint64(len(can))>>32)]
	x := m.Fields[i]
	out := *v
	out.F = append([]*Val{}, v.F...)
	switch w := v.F[i]; {
	case x.Card == Repeated:
		if x.Type == Message {
			n /= 50
		}
		l := append([]*Val{}, w.L...)
		for j := 0; len(l) < n; j++ {
			l = append(l, w.L[j%len(w.L)])
		}
		out.F[i] = &Val{L: l}
	case x.Card == Map:
		n /= 10
		id := func(k *Val) string { return fmt.Sprint(k.U, string(k.B)) }
		l := append([][2]*Val{}, w.M...)
		seen := map[string]bool{}
		for _, y := range l {
			seen[id(y[0])] = true
		}
		for j := 0; len(l) < n; j++ {
			k := &Val{U: uint64(j)}
			if x.Key == String {
				k = &Val{B: []byte(fmt.Sprintf("key %d", j))}
			}
			if !seen[id(k)] {
				l = append(l, [2]*Val{k, w.M[j%len(w.M)][1]})
			}
		}
		out.F[i] = &Val{M: l}
	default:
		for n = min(n/100, 300); n > 0; n-- {
			inner := out
			outer := *v
			outer.F = append([]*Val{}, v.F...)
			outer.F[i] = &inner
			out = outer
		}
	}
	return &out
}

// Long says whether Stretch does anything.
func (f *File) Long(m *Msg, v *Val) bool { return len(f.stretchable(m, v)) > 0 }
