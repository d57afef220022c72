package prop

import (
	"fmt"

	"pgregory.net/rapid"

	"verif/harness/gen"
	"verif/harness/ref"
	"verif/harness/wire"
)

// ---- shared classification ----

func labelValues(vs []wire.Value) (labels []string, growth bool, wide bool) {
	kinds := map[byte]bool{}
	total := 0
	for _, v := range vs {
		kinds[v.Kind] = true
		n := len(ref.Append(nil, v))
		total += n
		switch v.Kind {
		case wire.Bytes, wire.String, wire.Error:
			if len(v.Data) > 127 {
				labels = append(labels, "payload>127")
				wide = true
			}
			if len(v.Data) > 16383 {
				labels = append(labels, "payload>16383")
			}
			if len(v.Data) == 0 {
				labels = append(labels, "payload-empty")
			}
			if v.Kind != wire.Bytes && !gen.ValidText(v) {
				labels = append(labels, "text-invalid-utf8")
			}
			for _, c := range v.Data {
				if c >= 0x80 {
					wide = true
				}
			}
		case wire.Slice, wire.Map, wire.Uint16, wire.Uint32, wire.Uint64, wire.Int32, wire.Int64:
			if n > 3 {
				wide = true
			}
		case wire.Float32, wire.Float64:
			if gen.IsNaN(v) {
				labels = append(labels, "nan")
			}
			wide = true
		}
	}
	if total > 512 {
		labels = append(labels, "bytes>512")
		growth = true
	}
	for k := range kinds {
		labels = append(labels, "kind-"+wire.KindName(k))
	}
	return dedupe(labels), growth, wide
}

func dedupe(in []string) []string {
	m := map[string]bool{}
	var out []string
	for _, s := range in {
		if !m[s] {
			m[s] = true
			out = append(out, s)
		}
	}
	return out
}

// ---- P01: round trips ----

type tripCase struct {
	Impl   string
	Ctor   gen.Ctor
	Prefix []byte
	Values []wire.Value
	Reads  []wire.Read
	Extra  wire.Read // one more read at the end
}

func (c tripCase) text() string {
	return fmt.Sprintf("%s mode %d (%d,%d) prefix %x values %s", c.Impl, c.Ctor.Mode, c.Ctor.A, c.Ctor.B, c.Prefix, describeAll(c.Values))
}

func genTrip(t *rapid.T, impl string) tripCase {
	o := optsFor(impl)
	c := tripCase{Impl: impl, Ctor: gen.Mode(t, modes[impl])}
	c.Values = gen.Values(t, o, 0, 12)
	if impl != "ts" && impl != "c" && rapid.IntRange(0, 3).Draw(t, "prefix?") == 0 {
		c.Prefix = gen.Payload(t, rapid.IntRange(0, 20).Draw(t, "prefixlen"), "prefix")
	}
	for _, v := range c.Values {
		c.Reads = append(c.Reads, gen.Scratch(t, ref.ReadFor(v), len(v.Data)))
	}
	c.Extra = gen.Read(t, o, "extra")
	return c
}

func checkTrip(e *Env, c tripCase) *Fail {
	x, f := encode(e, c.Impl, c.Ctor, c.Prefix, c.Values)
	if f != nil {
		return f
	}
	b := x.bytes
	if hasPrefix(c.Impl) {
		if len(b) < len(c.Prefix) {
			return failf("%s: buffer holds %d bytes although %d were written before encoding", title[c.Impl], len(b), len(c.Prefix))
		}
		b = b[len(c.Prefix):]
	}
	reads := append(append([]wire.Read{}, c.Reads...), c.Extra)
	d := decode(e, c.Impl, 0, b, reads)
	if f := expectTrip(c.Impl, d, reads, c.Values, b); f != nil {
		return f
	}
	n := len(c.Values)
	if len(d.res) <= n || d.res[n].Status != wire.Failed {
		got := "nothing"
		if len(d.res) > n {
			got = outcome(c.Extra.Kind, d.res[n])
		}
		return failf("%s: after reading back every value, a further %s read gives %s", title[c.Impl], c.Extra.Describe(), got)
	}
	return nil
}

// expectTrip is like expectAll but makes no use of the reference encoding: values and a final remainder of zero.
func expectTrip(impl string, d decoded, reads []wire.Read, vs []wire.Value, b []byte) *Fail {
	if d.flags&8 != 0 {
		return failf("%s: reading from an owned and from a borrowed input gives different results", title[impl])
	}
	for i, v := range vs {
		if i >= len(d.res) {
			return failf("%s: read %d (%s) was not answered", title[impl], i, reads[i].Describe())
		}
		res := d.res[i]
		if res.Status != wire.OK || !same(impl, v.Kind, res, v.Num, v.Data) {
			return failf("%s: %s was read back (as %s, item %d) as %s from %s", title[impl], v.Describe(), reads[i].Describe(), i, outcome(v.Kind, res), hexs(b))
		}
	}
	if n := len(vs); n > 0 && remainKnown(d.res[n-1]) && d.res[n-1].Remain != 0 {
		return failf("%s: %d bytes are left over after reading back %d values", title[impl], int32(d.res[n-1].Remain), n)
	}
	return nil
}

func classTrip(c tripCase) Class {
	l, growth, wide := labelValues(c.Values)
	l = append(l, fmt.Sprintf("%s-mode%d", c.Impl, c.Ctor.Mode))
	return Class{NonTrivial: len(c.Values) >= 2 && (wide || growth), Labels: l}
}

const tripRule = "at least two values of which one needs several bytes (multi-byte varint, float, container, or payload with non-ASCII or over 127 bytes), or more than 512 bytes in total"

// ---- huge payloads ----

type hugeCase struct {
	Impl string
	Kind byte
	N    uint32
}

var hugeEdges = []uint32{0, 1, 126, 127, 128, 129, 16382, 16383, 16384, 16385, 2097150, 2097151, 2097152, 2097153, 5000000}
var hugest = []uint32{1<<28 - 1, 1 << 28, 1<<28 + 1}

// checkHuges checks all three kinds at the drawn length.
func checkHuges(e *Env, c hugeCase) *Fail {
	for k := byte(wire.Bytes); k <= wire.Error; k++ {
		if f := checkHuge(e, hugeCase{c.Impl, k, c.N}); f != nil {
			return f
		}
	}
	return nil
}

func checkHuge(e *Env, c hugeCase) *Fail {
	w := &wire.W{}
	w.U8(c.Kind)
	w.U32(c.N)
	r := e.A(c.Impl).Do('G', w.B)
	what := fmt.Sprintf("%s: %s of %d bytes", title[c.Impl], wire.KindName(c.Kind), c.N)
	if st := r.U8(); st != wire.OK {
		return failf("%s: %s", what, r.Str())
	}
	n := r.U32()
	head := r.Bytes()
	same, back := r.U8() == 1, r.U8() == 1
	if r.Bad {
		infra("short huge answer")
	}
	want := []byte{c.Kind}
	if c.Kind == wire.Error {
		want = append(want, wire.String)
	}
	want = ref.Varint(append(want, wire.Uint32), uint64(c.N))
	if int(n) != len(want)+int(c.N) || string(head[:min(len(head), len(want))]) != string(want[:min(len(head), len(want))]) {
		return failf("%s: encodes to %d bytes starting %x, not %d bytes starting %x", what, n, head, len(want)+int(c.N), want)
	}
	if !same {
		return failf("%s: the encoding does not end with the payload", what)
	}
	if !back {
		return failf("%s: does not read back", what)
	}
	return nil
}

// ---- P02 / P03 ----

type crossCase struct {
	Values []wire.Value
	Ctors  []gen.Ctor // one per implementation
	Prefix []byte
	From   int // P03: the encoding side
}

func (c crossCase) text() string {
	return fmt.Sprintf("from %d ctors %v prefix %x values %s", c.From, c.Ctors, c.Prefix, describeAll(c.Values))
}

func genCross(t *rapid.T) crossCase {
	c := crossCase{Values: gen.Values(t, gen.Opts{Big: true, NoNUL: rapid.IntRange(0, 3).Draw(t, "nul?") != 0}, 1, 12)}
	for _, impl := range Impls {
		c.Ctors = append(c.Ctors, gen.Mode(t, modes[impl]))
	}
	if rapid.IntRange(0, 2).Draw(t, "prefix?") == 0 {
		c.Prefix = gen.Payload(t, rapid.IntRange(0, 40).Draw(t, "prefixlen"), "prefix")
	}
	c.From = rapid.IntRange(0, 4).Draw(t, "from")
	return c
}

func classCross(c crossCase) Class {
	l, growth, wide := labelValues(c.Values)
	if len(c.Prefix) > 0 {
		l = append(l, "prefix")
	}
	l = append(l, "from-"+Impls[c.From])
	return Class{NonTrivial: len(c.Values) >= 2 && (wide || growth), Labels: l}
}

func checkBytes(e *Env, c crossCase) *Fail {
	for i, impl := range Impls {
		if !fits(impl, c.Values) {
			continue
		}
		vs := jsNaN(impl, c.Values)
		want := ref.Encode(vs)
		if hasPrefix(impl) {
			want = append(append([]byte{}, c.Prefix...), want...)
		}
		x, f := encode(e, impl, c.Ctors[i], c.Prefix, vs)
		if f != nil {
			return f
		}
		cmp := x.bytes
		k := 0
		if hasPrefix(impl) {
			k = len(c.Prefix)
		}
		if len(cmp) < k || string(cmp[:k]) != string(want[:k]) || !canonical(impl, cmp[k:], want[k:], vs) {
			at := diffAt(cmp, want)
			return failf("%s (buffer mode %d, %d, %d): encoded bytes differ from the canonical ones at offset %d: got %d bytes %s, want %d bytes %s; values %s", title[impl], c.Ctors[i].Mode, c.Ctors[i].A, c.Ctors[i].B,
				at, len(cmp), hexs(cmp[min(at, len(cmp)):]), len(want), hexs(want[min(at, len(want)):]), describeAll(vs))
		}
	}
	return nil
}

func checkInterop(e *Env, c crossCase) *Fail {
	from := Impls[c.From]
	if !fits(from, c.Values) {
		return nil
	}
	vs := jsNaN(from, c.Values)
	x, f := encode(e, from, c.Ctors[c.From], nil, vs)
	if f != nil {
		return f
	}
	reads := readsFor(vs)
	extra := append(append([]wire.Read{}, reads...), wire.Read{Kind: wire.Uint8})
	for _, to := range Impls {
		if !fits(to, vs) {
			continue
		}
		d := decode(e, to, 0, x.bytes, extra)
		if f := expectTrip(to, d, extra, vs, x.bytes); f != nil {
			return &Fail{"encoded by " + title[from] + ", decoded by " + f.Msg}
		}
		if n := len(vs); len(d.res) <= n || d.res[n].Status != wire.Failed {
			return failf("encoded by %s, decoded by %s: something is left over after all values", title[from], title[to])
		}
	}
	return nil
}

// ---- P04 / P05: arbitrary input ----

type inputCase struct {
	Impl  string
	Input []byte
	Reads []wire.Read
}

func (c inputCase) text() string {
	return fmt.Sprintf("%s input %s reads %s", c.Impl, hexs(c.Input), describeReads(c.Reads))
}

func genInput(t *rapid.T, impl string, maxReads int) inputCase {
	o := gen.Opts{RawText: true, Any: impl == "ts"}
	c := inputCase{Impl: impl, Input: gen.Input(t, o)}
	c.Reads = gen.Reads(t, c.Input, o, maxReads)
	return c
}

func checkNoCrash(e *Env, c inputCase) *Fail {
	d := decode(e, c.Impl, 0, c.Input, c.Reads)
	if d.flags&8 != 0 {
		return failf("%s: reading from an owned and from a borrowed input gives different results", title[c.Impl])
	}
	for i, res := range d.res {
		if !ordinary(c.Impl, c.Reads[i], res) {
			return failf("%s: read %d (%s) of input %s ended in %s", title[c.Impl], i, c.Reads[i].Describe(), hexs(c.Input), outcome(c.Reads[i].Kind, res))
		}
		if remainKnown(res) && int(res.Remain) > len(c.Input) {
			return failf("%s: after read %d (%s) the decoder stands outside the %d input bytes (%d left)", title[c.Impl], i, c.Reads[i].Describe(), len(c.Input), int32(res.Remain))
		}
	}
	if len(d.res) != len(c.Reads) {
		return failf("%s: only %d of %d reads were answered", title[c.Impl], len(d.res), len(c.Reads))
	}
	return nil
}

// reach counts what a sequence of reads meets, by the reference model.
func reach(c inputCase) (good, mismatch, malformed, other int) {
	p := 0
	for _, rd := range c.Reads {
		x := ref.Decode(c.Input, p, rd)
		switch x.Class {
		case ref.Good:
			good++
			p = x.Next
		case ref.Mismatch:
			mismatch++
		case ref.Malformed:
			malformed++
			return
		default:
			other++
			p = x.Next
		}
	}
	return
}

func classInput(c inputCase) Class {
	good, mis, mal, oth := reach(c)
	var l []string
	for _, x := range []struct {
		n int
		s string
	}{{good, "reads-good"}, {mis, "reads-mismatch"}, {mal, "reads-malformed"}, {oth, "reads-nonminimal-or-bad-text"}} {
		if x.n > 0 {
			l = append(l, x.s)
		}
	}
	p := 0
	for _, rd := range c.Reads {
		x := ref.Decode(c.Input, p, rd)
		if x.Class == ref.Malformed {
			l = append(l, "malformed: "+x.Reason, "malformed-"+wire.KindName(rd.Kind))
			break
		}
		if x.Class != ref.Mismatch {
			p = x.Next
		}
	}
	return Class{NonTrivial: mal > 0 || oth > 0 || (good > 0 && mis > 0), Labels: dedupe(l)}
}

const inputRule = "by the reference model the reads meet a malformed, over-long, non-minimal or non-UTF-8 item, or both a well-formed and a mismatching one"

func checkStrict(e *Env, c inputCase) *Fail {
	d := decode(e, c.Impl, 0, c.Input, c.Reads)
	if d.flags&8 != 0 {
		return failf("%s: reading from an owned and from a borrowed input gives different results", title[c.Impl])
	}
	p := 0
	for i, rd := range c.Reads {
		if i >= len(d.res) {
			return failf("%s: read %d was not answered", title[c.Impl], i)
		}
		var f *Fail
		if p, f = expect(c.Impl, c.Input, p, rd, d.res[i]); f != nil {
			return f
		}
		if p < 0 {
			break
		}
	}
	return nil
}

// Every truncation of a valid sequence.
type cutCase struct {
	Impl   string
	Values []wire.Value
}

func checkCuts(e *Env, c cutCase) *Fail {
	if !fits(c.Impl, c.Values) {
		return nil
	}
	full := ref.Encode(c.Values)
	reads := readsFor(c.Values)
	step := 1
	if len(full) > 120 {
		step = len(full)/120 + 1
	}
	for n := 0; n < len(full); n++ {
		if n > 24 && n < len(full)-24 && n%step != 0 {
			continue
		}
		if f := checkStrict(e, inputCase{c.Impl, full[:n], reads}); f != nil {
			return f
		}
	}
	return nil
}

// ---- P06 ----

type mismatchCase struct {
	Impl   string
	Values []wire.Value
	Before [][]wire.Read // reads attempted before each value, and at the end
	Odd    []byte        `json:",omitempty"` // at the end: an item of a kind nobody asks for, and one behind it
}

func (c mismatchCase) text() string {
	s := c.Impl
	for i, v := range c.Values {
		s += fmt.Sprintf(" tries %s then %s;", describeReads(c.Before[i]), v.Describe())
	}
	return s + " finally " + describeReads(c.Before[len(c.Values)]) + " at " + hexs(c.Odd)
}

func genMismatch(t *rapid.T, impl string) mismatchCase {
	o := optsFor(impl)
	c := mismatchCase{Impl: impl}
	if rapid.IntRange(0, 2).Draw(t, "containers?") == 0 {
		n := rapid.IntRange(1, 4).Draw(t, "n")
		for i := 0; i < n; i++ {
			c.Values = append(c.Values, gen.ValueOf(t, byte(rapid.IntRange(wire.Slice, wire.Map).Draw(t, "c")), o, "v"))
		}
	} else {
		c.Values = gen.Values(t, o, 0, 6)
	}
	if rapid.IntRange(0, 3).Draw(t, "odd?") == 0 {
		c.Odd = []byte{rapid.SampledFrom([]byte{wire.Any, wire.Any, 16, 17, 31, 32, 64, 127, 128, 255}).Draw(t, "odd")}
		c.Odd = ref.Append(c.Odd, gen.Value(t, o, "behind"))
	}
	for i := 0; i <= len(c.Values); i++ {
		var tries []wire.Read
		n := rapid.IntRange(0, 4).Draw(t, "tries")
		if i == len(c.Values) && c.Odd != nil {
			n += 2
		}
		for j := 0; j < n; j++ {
			var rd wire.Read
			if i < len(c.Values) && (c.Values[i].Kind == wire.Slice || c.Values[i].Kind == wire.Map) && rapid.Bool().Draw(t, "near?") {
				// the same container with one kind changed
				rd = ref.ReadFor(c.Values[i])
				if rd.Kind == wire.Slice || rapid.Bool().Draw(t, "elem?") {
					rd.VK = (rd.VK + byte(rapid.IntRange(1, 15).Draw(t, "k"))) % 16
				} else {
					rd.KK = (rd.KK + byte(rapid.IntRange(1, 15).Draw(t, "k"))) % 16
				}
			} else {
				rd = gen.Read(t, o, "try")
				at := c.Odd
				if i < len(c.Values) {
					at = ref.Append(nil, c.Values[i])
				}
				if ref.Decode(at, 0, rd).Class != ref.Mismatch {
					rd.Kind = (rd.Kind + 1) % 16
					if rd.Kind == wire.Any {
						rd.Kind = wire.Bytes
						rd.Scratch = -1
					}
				}
			}
			tries = append(tries, rd)
		}
		c.Before = append(c.Before, tries)
	}
	return c
}

func checkMismatch(e *Env, c mismatchCase) *Fail {
	in := ref.Encode(c.Values)
	var reads []wire.Read
	for i, v := range c.Values {
		reads = append(append(reads, c.Before[i]...), ref.ReadFor(v))
	}
	reads = append(reads, c.Before[len(c.Values)]...)
	in = append(in, c.Odd...)
	return checkStrict(e, inputCase{c.Impl, in, reads})
}

func classMismatch(c mismatchCase) Class {
	var l []string
	n, near := 0, 0
	for i, v := range c.Values {
		n += len(c.Before[i])
		for _, rd := range c.Before[i] {
			if rd.Kind == v.Kind && (rd.Kind == wire.Slice || rd.Kind == wire.Map) {
				near++
			}
		}
	}
	if near > 0 {
		l = append(l, "same-container-other-kinds")
	}
	if n > 0 {
		l = append(l, "mismatch-before-value")
	}
	if c.Odd != nil {
		n += len(c.Before[len(c.Values)])
		l = append(l, "unasked-kind")
	} else if len(c.Before[len(c.Values)]) > 0 {
		l = append(l, "read-at-end")
	}
	return Class{NonTrivial: n > 0, Labels: l}
}

// ---- P07 ----

type allocCase inputCase

func genAlloc(t *rapid.T, impl string) allocCase {
	var b []byte
	var reads []wire.Read
	n := rapid.IntRange(1, 3).Draw(t, "items")
	for i := 0; i < n; i++ {
		k := rapid.SampledFrom([]byte{wire.Bytes, wire.String, wire.Error, wire.Slice, wire.Map}).Draw(t, "kind")
		rd := wire.Read{Kind: k, Scratch: -1}
		b = append(b, k)
		switch k {
		case wire.Slice:
			rd.VK = gen.Kind(t, "e")
			b = append(b, rd.VK)
		case wire.Map:
			rd.KK, rd.VK = gen.Kind(t, "k"), gen.Kind(t, "e")
			b = append(b, rd.KK, rd.VK)
		case wire.Error:
			b = append(b, wire.String)
		}
		decl := gen.Bits(t, 32, "declared")
		if rapid.IntRange(0, 2).Draw(t, "big?") != 0 {
			decl = uint64(rapid.Uint32Range(1<<20, 1<<31).Draw(t, "declared"))
		}
		b = ref.Varint(append(b, wire.Uint32), decl)
		if k == wire.Bytes || k == wire.String || k == wire.Error {
			body := rapid.IntRange(0, 64).Draw(t, "body")
			if rapid.Bool().Draw(t, "complete?") && decl < 5000 {
				body = int(decl)
			}
			b = append(b, gen.Text(t, gen.Opts{}, "text")...)
			for j := 0; j < body; j++ {
				b = append(b, 'x')
			}
			if rd.Kind == wire.Bytes && rapid.Bool().Draw(t, "scratch?") {
				rd.Scratch = int32(rapid.IntRange(0, 16).Draw(t, "scratch"))
			}
		}
		reads = append(reads, rd)
	}
	return allocCase{impl, b, reads}
}

func (c allocCase) text() string { return inputCase(c).text() }

func checkAlloc(e *Env, c allocCase) *Fail {
	d := decode(e, c.Impl, Measure, c.Input, c.Reads)
	limit := uint64(4*len(c.Input) + 64<<10)
	for i, res := range d.res {
		if res.Alloc > limit {
			return failf("%s: read %d (%s) of a %d byte input allocated %d bytes: %s", title[c.Impl], i, c.Reads[i].Describe(), len(c.Input), res.Alloc, hexs(c.Input))
		}
		if !ordinary(c.Impl, c.Reads[i], res) {
			return failf("%s: read %d (%s) of input %s ended in %s", title[c.Impl], i, c.Reads[i].Describe(), hexs(c.Input), outcome(c.Reads[i].Kind, res))
		}
		x := ref.Decode(c.Input, 0, c.Reads[i])
		if i == 0 && x.Class == ref.Malformed && res.Status == wire.OK {
			return failf("%s: %s of input %s (%s) was accepted", title[c.Impl], c.Reads[i].Describe(), hexs(c.Input), x.Reason)
		}
	}
	return nil
}

func classAlloc(c allocCase) Class {
	x := ref.Decode(c.Input, 0, c.Reads[0])
	l := []string{"first-" + x.Class.String(), "kind-" + wire.KindName(c.Reads[0].Kind)}
	return Class{NonTrivial: x.Reason == "payload longer than input" || (c.Reads[0].Kind <= wire.Map && x.Num > 1<<20), Labels: l}
}

// ---- P24 ----

// longCase is a stream of values repeated so often that costs that grow with the square of its length show.
type longCase struct {
	Impl   string
	Ctor   gen.Ctor
	Raw    bool // Go: the bytes are appended with Write
	Rounds int
	Values []wire.Value
}

func (c longCase) text() string {
	return fmt.Sprintf("%s mode %v raw %v, %d times %s", c.Impl, c.Ctor, c.Raw, c.Rounds, describeAll(c.Values))
}

func genLong(t *rapid.T, impl string, giant bool) longCase {
	o := optsFor(impl)
	o.Big = false
	c := longCase{Impl: impl, Ctor: gen.Mode(t, modes[impl])}
	n := rapid.IntRange(1, 6).Draw(t, "n")
	one := byte(rapid.IntRange(0, 15).Draw(t, "one")) // a stream of one kind of value, or a mixture
	mixed := giant || rapid.Bool().Draw(t, "mixed?")
	for i := 0; i < n; i++ {
		var v wire.Value
		if one == wire.Any && impl != "ts" || mixed {
			v = gen.Value(t, o, "v")
		} else {
			v = gen.ValueOf(t, one, o, "v")
		}
		if gen.IsNaN(v) {
			v.Num = 0
		}
		if giant && len(v.Data) > 16 {
			v.Data = []byte("sixteen  letters")
		}
		c.Values = append(c.Values, v)
	}
	unit := len(ref.Encode(c.Values))
	if giant {
		c.Rounds = 1200000 / n
		if impl == "ts" {
			c.Rounds /= 2
		}
		return c
	}
	if isGo(impl) {
		c.Raw = rapid.IntRange(0, 4).Draw(t, "raw?") == 0
	}
	c.Rounds = min(max(rapid.SampledFrom([]int{2000, 20000, 100000, 250000}).Draw(t, "size")/unit, 2), 30000)
	return c
}

func checkLong(e *Env, c longCase) *Fail {
	unit := ref.Encode(c.Values)
	reads := readsFor(c.Values)
	w := &wire.W{}
	w.U8(c.Ctor.Mode)
	w.U32(c.Ctor.A)
	w.U32(c.Ctor.B)
	raw := byte(0)
	if c.Raw {
		raw = 1
	}
	w.U8(raw)
	w.U32(uint32(c.Rounds))
	w.Bytes(unit)
	w.U32(uint32(len(c.Values)))
	for _, v := range c.Values {
		wire.PutValue(w, v)
	}
	w.U32(uint32(len(reads)))
	for _, rd := range reads {
		wire.PutRead(w, rd)
	}
	r := e.A(c.Impl).Do('L', w.B)
	if st := r.U8(); st != wire.OK {
		return failf("%s: %d times %s: %s", title[c.Impl], c.Rounds, describeAll(c.Values), r.Str())
	}
	n, at, encA, decA, fails := int(r.U32()), r.U32(), r.U64(), r.U64(), r.U32()
	d := decoded{}
	for i, m := 0, int(r.U32()); i < m && i < len(reads); i++ {
		d.res = append(d.res, wire.GetResult(r, reads[i].Kind))
	}
	if r.Bad {
		infra("short answer for a long stream")
	}
	if total := len(unit) * c.Rounds; n != total || at != 1<<32-1 {
		return failf("%s: %d times %s encodes to %d bytes, not %d (first difference at %d)", title[c.Impl], c.Rounds, describeAll(c.Values), n, total, int32(at))
	}
	if fails != 0 {
		return failf("%s: reading back %d times %s, %d reads failed", title[c.Impl], c.Rounds, describeAll(c.Values), fails)
	}
	if f := expectAll(c.Impl, d, reads, c.Values, len(unit)); f != nil {
		f.Msg = fmt.Sprintf("at the end of %d repetitions: %s", c.Rounds, f.Msg)
		return f
	}
	items := uint64(c.Rounds * len(c.Values))
	if limit := 16*uint64(n) + 32*items + 64<<10; encA > limit {
		return failf("%s: encoding %d times %s (%d bytes) allocated %d bytes, more than %d", title[c.Impl], c.Rounds, describeAll(c.Values), n, encA, limit)
	}
	if limit := 16*uint64(n) + 256*items + 64<<10; decA > limit {
		return failf("%s: decoding %d times %s (%d bytes) allocated %d bytes, more than %d", title[c.Impl], c.Rounds, describeAll(c.Values), n, decA, limit)
	}
	return nil
}

func classLong(c longCase) Class {
	l, _, _ := labelValues(c.Values)
	unit := len(ref.Encode(c.Values))
	return Class{NonTrivial: unit*c.Rounds >= 16384 && c.Rounds >= 100, Labels: append(l, fmt.Sprintf("mode-%d", c.Ctor.Mode))}
}

// ---- P08 ----

type aliasCase struct {
	Impl   string
	Ctor   gen.Ctor
	Values []wire.Value
	Reads  []wire.Read
}

func (c aliasCase) text() string {
	return fmt.Sprintf("%s mode %v values %s reads %s", c.Impl, c.Ctor, describeAll(c.Values), describeReads(c.Reads))
}

func genAlias(t *rapid.T, impl string) aliasCase {
	o := optsFor(impl)
	c := aliasCase{Impl: impl, Ctor: gen.Mode(t, modes[impl])}
	n := rapid.IntRange(1, 6).Draw(t, "n")
	for i := 0; i < n; i++ {
		if rapid.IntRange(0, 4).Draw(t, "other?") == 0 {
			c.Values = append(c.Values, gen.Value(t, o, "v"))
		} else {
			c.Values = append(c.Values, gen.ValueOf(t, rapid.SampledFrom([]byte{wire.Bytes, wire.Bytes, wire.String, wire.Error}).Draw(t, "k"), o, "v"))
		}
	}
	for _, v := range c.Values {
		c.Reads = append(c.Reads, gen.Scratch(t, ref.ReadFor(v), len(v.Data)))
	}
	return c
}

func checkAlias(e *Env, c aliasCase) *Fail {
	x, f := encode(e, c.Impl, c.Ctor, nil, c.Values)
	if f != nil {
		return f
	}
	if x.flags&1 != 0 {
		return failf("%s: the encoded bytes changed when the encoded values were overwritten afterwards: %s", title[c.Impl], describeAll(c.Values))
	}
	if x.flags&2 != 0 {
		return failf("%s: encoding changed the values being encoded (or memory next to the output): %s", title[c.Impl], describeAll(c.Values))
	}
	in := ref.Encode(c.Values)
	d := decode(e, c.Impl, Scribble, in, c.Reads)
	if d.flags&1 != 0 {
		return failf("%s: decoding modified its input: %s", title[c.Impl], describeReads(c.Reads))
	}
	if d.flags&2 != 0 {
		return failf("%s: a decoded value changed when the input was overwritten: values %s reads %s", title[c.Impl], describeAll(c.Values), describeReads(c.Reads))
	}
	if d.flags&4 != 0 {
		return failf("%s: writing to a decoded byte slice reached the input: values %s reads %s", title[c.Impl], describeAll(c.Values), describeReads(c.Reads))
	}
	return expectAll(c.Impl, d, c.Reads, c.Values, len(in))
}

func classAlias(c aliasCase) Class {
	var l []string
	n := 0
	for i, v := range c.Values {
		if len(v.Data) > 0 {
			n++
		}
		if v.Kind == wire.Bytes {
			s := int(c.Reads[i].Scratch)
			switch {
			case s < 0:
				l = append(l, "scratch-nil")
			case s == len(v.Data):
				l = append(l, "scratch-exact")
			case s > len(v.Data):
				l = append(l, "scratch-longer")
			default:
				l = append(l, "scratch-shorter")
			}
		}
	}
	return Class{NonTrivial: n > 0, Labels: dedupe(l)}
}

// Builds of the implementations beside the ordinary ones: Go programs in which int has 32 bits, and optimised Rust, in
// which arithmetic wraps around.
var builds = map[string]string{"gov1-32": "gov1", "gov2-32": "gov2", "rust-rel": "rust"}

func init() {
	for _, build := range []string{"gov1-32", "gov2-32", "rust-rel"} {
		impl := builds[build]
		as := map[string]string{impl: build}
		needs := []string{build}
		Define(Part{Prop: "P01", Name: "P01-trip-" + build, Needs: needs, As: as, Quick: 10000, Thorough: 200000, Rule: tripRule},
			Spec[tripCase]{Gen: func(t *rapid.T) tripCase { return genTrip(t, impl) }, Check: checkTrip, Class: classTrip, Text: tripCase.text})
		Define(Part{Prop: "P04", Name: "P04-bytes-" + build, Needs: needs, As: as, Quick: 60000, Thorough: 1500000, Rule: inputRule},
			Spec[inputCase]{Gen: func(t *rapid.T) inputCase { return genInput(t, impl, 12) }, Check: checkNoCrash, Class: classInput, Text: inputCase.text})
		Define(Part{Prop: "P05", Name: "P05-strict-" + build, Needs: needs, As: as, Quick: 60000, Thorough: 1500000, Rule: inputRule},
			Spec[inputCase]{Gen: func(t *rapid.T) inputCase { return genInput(t, impl, 5) }, Check: checkStrict, Class: classInput, Text: inputCase.text})
		Define(Part{Prop: "P06", Name: "P06-mismatch-" + build, Needs: needs, As: as, Quick: 20000, Thorough: 500000, Rule: "a mismatched read is attempted before some value"},
			Spec[mismatchCase]{Gen: func(t *rapid.T) mismatchCase { return genMismatch(t, impl) }, Check: checkMismatch, Class: classMismatch, Text: mismatchCase.text})
		Define(Part{Prop: "P07", Name: "P07-alloc-" + build, Needs: needs, As: as, Quick: 10000, Thorough: 300000, Rule: "the first item declares more than the input holds, or a container size above a million"},
			Spec[allocCase]{Gen: func(t *rapid.T) allocCase { return genAlloc(t, impl) }, Check: checkAlloc, Class: classAlloc, Text: allocCase.text})
	}
	for _, impl := range Impls {
		slow := 1
		if impl == "c" {
			slow = 2
		}
		Define(Part{Prop: "P01", Name: "P01-trip-" + impl, Needs: []string{impl}, Quick: 20000 / slow, Thorough: 400000 / slow, Rule: tripRule},
			Spec[tripCase]{Gen: func(t *rapid.T) tripCase { return genTrip(t, impl) }, Check: checkTrip, Class: classTrip, Text: tripCase.text})
		Define(Part{Prop: "P01", Name: "P01-huge-" + impl, Needs: []string{impl}, Quick: 40, Thorough: 400, Rule: "payload of at least 127 bytes"},
			Spec[hugeCase]{Gen: func(t *rapid.T) hugeCase {
				c := hugeCase{Impl: impl, Kind: wire.Bytes}
				if m := rapid.IntRange(0, 99).Draw(t, "huge?"); m < 60 {
					c.N = rapid.SampledFrom(hugeEdges).Draw(t, "n")
				} else {
					c.N = rapid.Uint32Range(0, 1<<22).Draw(t, "n")
				}
				return c
			}, Check: checkHuges, Class: func(c hugeCase) Class {
				return Class{NonTrivial: c.N >= 127, Labels: []string{fmt.Sprintf("size-of-%d-bytes", len(ref.Varint(nil, uint64(c.N))))}}
			}})
		// long payloads: the bytes of every implementation are the canonical ones (P02) and read back by each (P03)
		for _, p := range []string{"P02", "P03"} {
			Define(Part{Prop: p, Name: p + "-huge-" + impl, Needs: []string{impl}, Quick: 40, Thorough: 400, Rule: "payload of at least 127 bytes"},
				Spec[hugeCase]{Gen: func(t *rapid.T) hugeCase {
					return hugeCase{impl, wire.Bytes, rapid.SampledFrom(hugeEdges).Draw(t, "n")}
				}, Check: checkHuges, Class: func(c hugeCase) Class {
					return Class{NonTrivial: c.N >= 127, Labels: []string{fmt.Sprintf("size-of-%d-bytes", len(ref.Varint(nil, uint64(c.N))))}}
				}})
		}
		Define(Part{Prop: "P01", Name: "P01-hugest-" + impl, Needs: []string{impl}, Quick: 1, Thorough: 9, Rule: "every case: a payload whose length needs five bytes, or one byte less"},
			Spec[hugeCase]{Gen: func(t *rapid.T) hugeCase {
				return hugeCase{Impl: impl, Kind: byte(rapid.IntRange(wire.Bytes, wire.Error).Draw(t, "kind")), N: rapid.SampledFrom(hugest).Draw(t, "n")}
			}, Check: func(e *Env, c hugeCase) *Fail {
				// all three kinds at the drawn size, so that one case decides the boundary
				for k := byte(wire.Bytes); k <= wire.Error; k++ {
					if Tier != "thorough" && k != c.Kind && c.Impl == "ts" {
						continue
					}
					if f := checkHuge(e, hugeCase{c.Impl, k, max(c.N, 1<<28)}); f != nil {
						return f
					}
				}
				if Tier == "thorough" {
					return checkHuge(e, c)
				}
				return nil
			}, Class: func(c hugeCase) Class { return Class{NonTrivial: true, Labels: []string{fmt.Sprint(c.N)}} }})
		Define(Part{Prop: "P04", Name: "P04-bytes-" + impl, Needs: []string{impl}, Quick: 60000 / slow, Thorough: 1500000 / slow, Shards: 2, Rule: inputRule},
			Spec[inputCase]{Gen: func(t *rapid.T) inputCase { return genInput(t, impl, 12) }, Check: checkNoCrash, Class: classInput, Text: inputCase.text})
		Define(Part{Prop: "P05", Name: "P05-strict-" + impl, Needs: []string{impl}, Quick: 60000 / slow, Thorough: 1500000 / slow, Shards: 2, Rule: inputRule},
			Spec[inputCase]{Gen: func(t *rapid.T) inputCase { return genInput(t, impl, 5) }, Check: checkStrict, Class: classInput, Text: inputCase.text})
		Define(Part{Prop: "P05", Name: "P05-cut-" + impl, Needs: []string{impl}, Quick: 2000 / slow, Thorough: 40000 / slow, Rule: "at least one value; every case is read at every (or, beyond 120 bytes, a spread of) truncation point"},
			Spec[cutCase]{Gen: func(t *rapid.T) cutCase { return cutCase{impl, gen.Values(t, optsFor(impl), 1, 4)} }, Check: checkCuts,
				Class: func(c cutCase) Class { l, _, _ := labelValues(c.Values); return Class{len(c.Values) > 0, l} },
				Text:  func(c cutCase) string { return c.Impl + " " + describeAll(c.Values) }})
		Define(Part{Prop: "P06", Name: "P06-mismatch-" + impl, Needs: []string{impl}, Quick: 40000 / slow, Thorough: 1000000 / slow, Rule: "a mismatched read is attempted before some value"},
			Spec[mismatchCase]{Gen: func(t *rapid.T) mismatchCase { return genMismatch(t, impl) }, Check: checkMismatch, Class: classMismatch, Text: mismatchCase.text})
		Define(Part{Prop: "P07", Name: "P07-alloc-" + impl, Needs: []string{impl}, Quick: 15000, Thorough: 400000, Rule: "the first item declares more than the input holds, or a container size above a million"},
			Spec[allocCase]{Gen: func(t *rapid.T) allocCase { return genAlloc(t, impl) }, Check: checkAlloc, Class: classAlloc, Text: allocCase.text})
		Define(Part{Prop: "P24", Name: "P24-long-" + impl, Needs: []string{impl}, Quick: 500, Thorough: 8000, Rule: "at least 100 repetitions and 16 KiB"},
			Spec[longCase]{Gen: func(t *rapid.T) longCase { return genLong(t, impl, false) }, Check: checkLong, Class: classLong, Text: longCase.text})
		Define(Part{Prop: "P24", Name: "P24-giant-" + impl, Needs: []string{impl}, Quick: 3, Thorough: 30, Weight: 1, Rule: "at least 100 repetitions and 16 KiB (every case: 1.2 million values, in TypeScript 600000)"},
			Spec[longCase]{Gen: func(t *rapid.T) longCase { return genLong(t, impl, true) }, Check: checkLong, Class: classLong, Text: longCase.text})
		Define(Part{Prop: "P08", Name: "P08-alias-" + impl, Needs: []string{impl}, Quick: 25000 / slow, Thorough: 500000 / slow, Rule: "at least one non-empty payload"},
			Spec[aliasCase]{Gen: func(t *rapid.T) aliasCase { return genAlias(t, impl) }, Check: checkAlias, Class: classAlias, Text: aliasCase.text})
	}
	Define(Part{Prop: "P02", Name: "P02-bytes", Needs: Impls, Quick: 5000, Thorough: 150000, Shards: 4, Rule: tripRule},
		Spec[crossCase]{Gen: genCross, Check: checkBytes, Class: classCross, Text: crossCase.text})
	Define(Part{Prop: "P03", Name: "P03-interop", Needs: Impls, Quick: 15000, Thorough: 400000, Shards: 4, Rule: tripRule},
		Spec[crossCase]{Gen: genCross, Check: checkInterop, Class: classCross, Text: crossCase.text})
}
