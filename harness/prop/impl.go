package prop

import (
	"bytes"
	"fmt"
	"math"
	"strings"

	"verif/harness/gen"
	"verif/harness/ref"
	"verif/harness/wire"
)

// Impls are the five implementations.
var Impls = []string{"gov1", "gov2", "rust", "c", "ts"}

var title = map[string]string{"gov1": "Go v1", "gov2": "Go v2", "rust": "Rust", "c": "C", "ts": "TypeScript"}

// modes is the number of ways to obtain an encoding buffer besides the default one.
var modes = map[string]int{"gov1": 3, "gov2": 4, "rust": 2, "c": 1, "ts": 2}

func hasPrefix(impl string) bool { return impl == "gov1" || impl == "gov2" || impl == "rust" }
func isGo(impl string) bool      { return impl == "gov1" || impl == "gov2" }

func optsFor(impl string) gen.Opts {
	return gen.Opts{Any: impl == "ts", RawText: isGo(impl), NoNUL: impl == "c", Big: true}
}

// fits says whether an implementation's API can express all the values.
func fits(impl string, vs []wire.Value) bool {
	for _, v := range vs {
		switch {
		case v.Kind == wire.Any && impl != "ts":
			return false
		case !isGo(impl) && !gen.ValidText(v):
			return false
		case impl == "c" && gen.HasNUL(v):
			return false
		}
	}
	return true
}

type encoded struct {
	flags byte
	bytes []byte
}

func encode(e *Env, impl string, c gen.Ctor, prefix []byte, vs []wire.Value) (encoded, *Fail) {
	w := &wire.W{}
	w.U8(c.Mode)
	w.U32(c.A)
	w.U32(c.B)
	if !hasPrefix(impl) {
		prefix = nil
	}
	w.Bytes(prefix)
	w.U32(uint32(len(vs)))
	for _, v := range vs {
		wire.PutValue(w, v)
	}
	r := e.A(impl).Do('E', w.B)
	switch st := r.U8(); st {
	case wire.OK:
		x := encoded{flags: r.U8()}
		x.bytes = append([]byte{}, r.Bytes()...)
		if r.Bad {
			infra("%s: short encode answer", impl)
		}
		return x, nil
	case wire.Failed:
		return encoded{}, failf("%s: encoding failed: %s", title[impl], r.Str())
	default:
		return encoded{}, failf("%s: encoding panicked: %s", title[impl], r.Str())
	}
}

type decoded struct {
	flags byte
	res   []wire.Result
}

const (
	Scribble = 1
	Measure  = 2
)

func decode(e *Env, impl string, flags byte, in []byte, reads []wire.Read) decoded {
	w := &wire.W{}
	w.U8(flags)
	w.Bytes(in)
	w.U32(uint32(len(reads)))
	for _, rd := range reads {
		wire.PutRead(w, rd)
	}
	r := e.A(impl).Do('D', w.B)
	d := decoded{flags: r.U8()}
	n := int(r.U32())
	for i := 0; i < n && i < len(reads); i++ {
		d.res = append(d.res, wire.GetResult(r, reads[i].Kind))
	}
	if r.Bad {
		infra("%s: short decode answer", impl)
	}
	return d
}

func describeAll(vs []wire.Value) string {
	var s []string
	for _, v := range vs {
		s = append(s, v.Describe())
	}
	return "[" + strings.Join(s, ", ") + "]"
}

func describeReads(rs []wire.Read) string {
	var s []string
	for _, v := range rs {
		s = append(s, v.Describe())
	}
	return "[" + strings.Join(s, ", ") + "]"
}

func hexs(b []byte) string {
	if len(b) > 160 {
		return fmt.Sprintf("%x...(%d bytes)", b[:80], len(b))
	}
	return fmt.Sprintf("%x", b)
}

func nanBits(kind byte, bits uint64) bool { return gen.IsNaN(wire.Value{Kind: kind, Num: bits}) }

// same compares a read's outcome with the expected payload.
func same(impl string, kind byte, res wire.Result, num uint64, data []byte) bool {
	switch kind {
	case wire.Nil, wire.Any:
		return true
	case wire.Bytes, wire.String, wire.Error:
		return bytes.Equal(res.Data, data)
	}
	if wd := wire.Width(kind); wd < 8 {
		num &= 1<<(8*uint(wd)) - 1
	}
	if impl == "ts" && nanBits(kind, num) {
		return nanBits(kind, res.Num)
	}
	return res.Num == num
}

func payload(kind byte, num uint64, data []byte) string {
	return wire.Value{Kind: kind, Num: num, Data: data}.Describe()
}

func outcome(kind byte, res wire.Result) string {
	switch res.Status {
	case wire.OK:
		return payload(kind, res.Num, res.Data)
	case wire.Failed:
		return "error(" + res.Err + ")"
	}
	return "crash(" + res.Err + ")"
}

// remains says what an implementation can tell about unread input after a read.
func remainKnown(res wire.Result) bool { return res.Remain != wire.Unknown }

// expectAll checks that reads return exactly the values, consuming everything.
func expectAll(impl string, d decoded, reads []wire.Read, vs []wire.Value, total int) *Fail {
	if d.flags&8 != 0 {
		return failf("%s: reading from an owned and from a borrowed input gives different results", title[impl])
	}
	ends := make([]int, len(vs))
	p := 0
	for i, v := range vs {
		p += len(ref.Append(nil, v))
		ends[i] = p
	}
	for i, v := range vs {
		if i >= len(d.res) {
			return failf("%s: read %d (%s) was not answered", title[impl], i, reads[i].Describe())
		}
		res := d.res[i]
		if res.Status != wire.OK {
			return failf("%s: read %d (%s) of %s gave %s", title[impl], i, reads[i].Describe(), v.Describe(), outcome(v.Kind, res))
		}
		if !same(impl, v.Kind, res, v.Num, v.Data) {
			return failf("%s: read %d (%s) of %s gave %s", title[impl], i, reads[i].Describe(), v.Describe(), outcome(v.Kind, res))
		}
		if remainKnown(res) && int(res.Remain) != total-ends[i] {
			return failf("%s: after read %d (%s) of %s %d bytes are left, not %d", title[impl], i, reads[i].Describe(), v.Describe(), int32(res.Remain), total-ends[i])
		}
	}
	return nil
}

func readsFor(vs []wire.Value) []wire.Read {
	rs := make([]wire.Read, len(vs))
	for i, v := range vs {
		rs[i] = ref.ReadFor(v)
	}
	return rs
}

// canonical compares encoder output with the reference encoding. In TypeScript a NaN has no observable payload, so any
// NaN of the right width stands for any other.
func canonical(impl string, got, want []byte, vs []wire.Value) bool {
	if bytes.Equal(got, want) {
		return true
	}
	if impl != "ts" || len(got) != len(want) {
		return false
	}
	p := 0
	for _, v := range vs {
		one := ref.Append(nil, v)
		g := got[p : p+len(one)]
		p += len(one)
		if bytes.Equal(g, one) {
			continue
		}
		if !gen.IsNaN(v) || g[0] != v.Kind {
			return false
		}
		x := ref.Decode(g, 0, ref.ReadFor(v))
		if x.Class != ref.Good || !nanBits(v.Kind, x.Num) {
			return false
		}
	}
	return true
}

func diffAt(a, b []byte) int {
	for i := range min(len(a), len(b)) {
		if a[i] != b[i] {
			return i
		}
	}
	return min(len(a), len(b))
}

// jsText replaces NaNs by the canonical one for implementations that cannot carry payloads.
func jsNaN(impl string, vs []wire.Value) []wire.Value {
	if impl != "ts" {
		return vs
	}
	out := append([]wire.Value{}, vs...)
	for i, v := range out {
		if gen.IsNaN(v) {
			if v.Kind == wire.Float32 {
				out[i].Num = uint64(math.Float32bits(float32(math.NaN()))) | 0x7fc00000
			} else {
				out[i].Num = 0x7ff8000000000000
			}
		}
	}
	return out
}

var kindNames = map[string]bool{}

func init() {
	for i, n := range wire.KindNames {
		if i != wire.Any {
			kindNames[n] = true
		}
	}
	kindNames["any"] = true
}

// ordinary says whether an outcome is a value or the implementation's ordinary error.
func ordinary(impl string, rd wire.Read, res wire.Result) bool {
	switch res.Status {
	case wire.OK:
		return true
	case wire.Failed:
		return impl == "c" || kindNames[res.Err]
	}
	return false
}

// expect checks one read of arbitrary input at position p against the format. It returns the next position, or -1 when
// what follows is unspecified.
func expect(impl string, in []byte, p int, rd wire.Read, res wire.Result) (int, *Fail) {
	x := ref.Decode(in, p, rd)
	where := func(format string, a ...any) *Fail {
		return failf("%s: reading %s at offset %d of %s: %s", title[impl], rd.Describe(), p, hexs(in), fmt.Sprintf(format, a...))
	}
	if !ordinary(impl, rd, res) {
		return -1, where("%s", outcome(rd.Kind, res))
	}
	at := func(pos int) *Fail {
		if remainKnown(res) && int(int32(res.Remain)) != len(in)-pos {
			return where("%d bytes are left, not %d", int32(res.Remain), len(in)-pos)
		}
		return nil
	}
	switch x.Class {
	case ref.Mismatch:
		if res.Status == wire.OK {
			return -1, where("no such item there, but got %s", outcome(rd.Kind, res))
		}
		if impl != "c" && res.Err != wire.KindName(rd.Kind) {
			return -1, where("the error is the one for %s", res.Err)
		}
		return p, at(p)
	case ref.Malformed:
		if res.Status == wire.OK {
			return -1, where("not a complete well-formed encoding (%s), but got %s", x.Reason, outcome(rd.Kind, res))
		}
		return -1, nil
	case ref.NonMinimal:
		if res.Status == wire.OK {
			if x.Data != nil && (rd.Kind == wire.String || rd.Kind == wire.Error) && !validText(x.Data) {
				return -1, nil
			}
			if cutShort(impl, rd.Kind, x.Data) {
				return -1, where("a C string cannot hold %s, but got %s", payload(rd.Kind, x.Num, x.Data), outcome(rd.Kind, res))
			}
			if !same(impl, rd.Kind, res, x.Num, x.Data) {
				return -1, where("denotes %s, but got %s", payload(rd.Kind, x.Num, x.Data), outcome(rd.Kind, res))
			}
			return x.Next, at(x.Next)
		}
		return -1, nil
	case ref.BadText:
		if isGo(impl) {
			if res.Status != wire.OK || !bytes.Equal(res.Data, x.Data) {
				return -1, where("the text is %q, but got %s", x.Data, outcome(rd.Kind, res))
			}
			return x.Next, at(x.Next)
		}
		if impl == "ts" {
			if res.Status == wire.OK {
				return x.Next, at(x.Next)
			}
			return -1, nil
		}
		if res.Status == wire.OK {
			return -1, where("accepted text that is not valid UTF-8: %s", outcome(rd.Kind, res))
		}
		return -1, nil
	}
	if res.Status != wire.OK {
		if cutShort(impl, rd.Kind, x.Data) {
			return -1, nil // a C string cannot hold a NUL
		}
		return -1, where("a complete well-formed %s, but got %s", payload(rd.Kind, x.Num, x.Data), outcome(rd.Kind, res))
	}
	if cutShort(impl, rd.Kind, x.Data) {
		return -1, where("a C string cannot hold %s, but got %s", payload(rd.Kind, x.Num, x.Data), outcome(rd.Kind, res))
	}
	if !same(impl, rd.Kind, res, x.Num, x.Data) {
		return -1, where("the value is %s, but got %s", payload(rd.Kind, x.Num, x.Data), outcome(rd.Kind, res))
	}
	return x.Next, at(x.Next)
}

func validText(b []byte) bool { return gen.ValidText(wire.Value{Kind: wire.String, Data: b}) }

// cutShort says whether a NUL-terminated string would silently show only the start of a text.
func cutShort(impl string, kind byte, d []byte) bool {
	return impl == "c" && (kind == wire.String || kind == wire.Error) && bytes.IndexByte(d, 0) >= 0
}
