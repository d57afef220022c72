package schema

import (
	"fmt"
	"strings"
)

// Split deals the top-level declarations of a file out to several files of the same package; of[i] is the file wished for
// the i-th one (enums first). A declaration moves to an earlier file when one there refers to it.
func (f *File) Split(n int, of []int) []*File {
	f.Link()
	at := map[string]int{} // top-level full name -> file
	var tops []string
	for _, e := range f.Enums {
		tops = append(tops, e.full)
	}
	for _, m := range f.Msgs {
		tops = append(tops, m.full)
	}
	for i, x := range tops {
		at[x] = of[i] % n
	}
	top := func(ref string) string {
		for ; ref != ""; ref = ref[:max(strings.LastIndexByte(ref, '.'), 0)] {
			if _, ok := at[ref]; ok {
				return ref
			}
		}
		panic("no top-level declaration")
	}
	refs := map[string]map[string]bool{}
	var rec func(t string, m *Msg)
	rec = func(t string, m *Msg) {
		for _, x := range m.Fields {
			if x.Ref != "" {
				refs[t][top(x.Ref)] = true
			}
		}
		for _, x := range m.Msgs {
			rec(t, x)
		}
	}
	for _, m := range f.Msgs {
		refs[m.full] = map[string]bool{}
		rec(m.full, m)
	}
	for changed := true; changed; {
		changed = false
		for a, rs := range refs {
			for b := range rs {
				if at[b] > at[a] {
					at[b], changed = at[a], true
				}
			}
		}
	}
	out := make([]*File, n)
	for i := range out {
		g := *f
		g.Path = fmt.Sprintf("%s_part%d.proto", strings.TrimSuffix(f.Path, ".proto"), i)
		g.Enums, g.Msgs, g.Deps = nil, nil, nil
		if i > 0 {
			g.Opts = 0 // its declarations would be there twice
		}
		dep := map[int]bool{}
		for _, e := range f.Enums {
			if at[e.full] == i {
				g.Enums = append(g.Enums, e)
			}
		}
		for _, m := range f.Msgs {
			if at[m.full] == i {
				g.Msgs = append(g.Msgs, m)
				for r := range refs[m.full] {
					dep[at[r]] = true
				}
			}
		}
		for j := 0; j < i; j++ {
			if dep[j] {
				g.Deps = append(g.Deps, out[j].Path)
			}
		}
		out[i] = &g
	}
	return out
}
