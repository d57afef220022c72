// Package gen holds the rapid generators shared by the properties.
package gen

import (
	"bytes"
	"unicode/utf8"

	"pgregory.net/rapid"

	"verif/harness/ref"
	"verif/harness/wire"
)

// Opts narrows what values are drawn to what an implementation's API can express.
type Opts struct {
	Any     bool // the "any" kind (TypeScript only)
	RawText bool // text that is not valid UTF-8 (Go only)
	NoNUL   bool // no NUL inside text (C only)
	Big     bool // occasionally payloads of tens of kilobytes
}

func mask(bits int) uint64 {
	if bits >= 64 {
		return ^uint64(0)
	}
	return 1<<uint(bits) - 1
}

// Bits draws an integer of the given width, biased to bit lengths and to the neighbourhood of powers of two.
func Bits(t *rapid.T, bits int, label string) uint64 {
	switch rapid.IntRange(0, 6).Draw(t, label+"?") {
	case 0:
		return rapid.Uint64Range(0, 3).Draw(t, label)
	case 1, 2:
		k := rapid.IntRange(0, bits).Draw(t, label+"len")
		return rapid.Uint64Range(0, mask(k)).Draw(t, label)
	case 3:
		k := rapid.IntRange(0, bits-1).Draw(t, label+"pow")
		d := rapid.IntRange(-1, 1).Draw(t, label+"off")
		return (uint64(1)<<uint(k) + uint64(int64(d))) & mask(bits)
	case 4:
		k := rapid.IntRange(1, (bits-1)/7).Draw(t, label+"group")
		d := rapid.IntRange(-1, 1).Draw(t, label+"off")
		return (uint64(1)<<uint(7*k) + uint64(int64(d))) & mask(bits)
	case 5:
		// near the top, and near the sign boundary
		base := mask(bits)
		if rapid.Bool().Draw(t, label+"sign") {
			base = 1 << uint(bits-1)
		}
		return (base - rapid.Uint64Range(0, 2).Draw(t, label)) & mask(bits)
	default:
		// full-width bit patterns, in zig-zag order half of the time
		v := rapid.Uint64().Draw(t, label) & mask(bits)
		return v
	}
}

var f32special = []uint64{0, 0x80000000, 1, 0x80000001, 0x007fffff, 0x00800000, 0x7f7fffff, 0xff7fffff, 0x7f800000, 0xff800000,
	0x7fc00000, 0xffc00000, 0x7f800001, 0x7fffffff, 0xffffffff, 0x3f800000, 0x7fc01234}
var f64special = []uint64{0, 1 << 63, 1, 1<<63 | 1, 0x000fffffffffffff, 0x0010000000000000, 0x7fefffffffffffff, 0xffefffffffffffff,
	0x7ff0000000000000, 0xfff0000000000000, 0x7ff8000000000000, 0xfff8000000000000, 0x7ff0000000000001, 0x7fffffffffffffff,
	0xffffffffffffffff, 0x3ff0000000000000, 0x7ff8dead0000beef, 0x3ff0000000000001, 0x4340000000000000}

func FloatBits(t *rapid.T, bits int, label string) uint64 {
	if rapid.IntRange(0, 2).Draw(t, label+"?") == 0 {
		if bits == 32 {
			return rapid.SampledFrom(f32special).Draw(t, label)
		}
		return rapid.SampledFrom(f64special).Draw(t, label)
	}
	return rapid.Uint64().Draw(t, label) & mask(bits)
}

var edges = []int{126, 127, 128, 129, 130, 250, 251, 252, 253, 254, 255, 256, 257, 505, 508, 509, 510, 511, 512, 513, 514, 1018, 1020, 1021,
	1022, 1023, 1024, 1025, 2046, 2047, 2048, 4095, 4096, 4097}
var bigEdges = []int{16381, 16382, 16383, 16384, 16385, 32767, 32768, 65535, 65536}

// Length draws a payload length.
func Length(t *rapid.T, o Opts, label string) int {
	switch m := rapid.IntRange(0, 99).Draw(t, label+"?"); {
	case m < 70:
		return rapid.IntRange(0, 20).Draw(t, label)
	case m < 84:
		return rapid.IntRange(0, 200).Draw(t, label)
	case m < 97 || !o.Big:
		return rapid.SampledFrom(edges).Draw(t, label)
	default:
		return rapid.SampledFrom(bigEdges).Draw(t, label)
	}
}

// Payload draws raw bytes. Long payloads repeat a short drawn pattern with a running counter, so that a misplaced
// byte shows.
func Payload(t *rapid.T, n int, label string) []byte {
	if n <= 24 {
		return rapid.SliceOfN(rapid.Byte(), n, n).Draw(t, label)
	}
	seed := rapid.Uint32().Draw(t, label)
	b := make([]byte, n)
	x := seed | 1
	for i := range b {
		x = x*1664525 + 1013904223
		b[i] = byte(x >> 24)
	}
	switch rapid.IntRange(0, 11).Draw(t, label+"run?") {
	case 0, 1: // a run of one byte at the end, at the beginning, or throughout
		c := rapid.SampledFrom([]byte{0, 0xff, ' ', 0x80, '\n', 0x01}).Draw(t, label+"runOf")
		r := rapid.OneOf(rapid.IntRange(1, 16), rapid.IntRange(1, n)).Draw(t, label+"run")
		r = min(r, n)
		at := rapid.SampledFrom([]int{n - r, 0, (n - r) / 2}).Draw(t, label+"runAt")
		for i := at; i < at+r; i++ {
			b[i] = c
		}
	}
	return b
}

var runes = []rune{'a', 'b', 'Z', '0', ' ', '\n', '\r', '\t', '"', '\\', '%', '/', 0x7f, 0x80, 0xe9, 0x7ff, 0x800, 0x20ac, 0x2028, 0xd7ff, 0xe000,
	0xfeff, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x1f600, 0x10ffff, 0x301, 0}
var texts = []string{"", "\uFEFF", "\uFEFFabc", "a\uFEFF", "EOF", "invalid error encoding", "invalid string encoding", "polyglot: error", "nil", "<nil>",
	"Hello, World!", "\x00", "a\x00b", "日本語テキスト", "👩‍👩‍👧‍👦", "%s%d%!v(MISSING)", "Error", "test error"}
var badTexts = []string{"\xff", "a\x80", "\xc0\xaf", "\xed\xa0\x80", "\xf4\x90\x80\x80", "abc\xe2\x82", "\xe2\x28\xa1z", "\xf0\x9f\x98"}

func fixText(s []byte, o Opts) []byte {
	if o.NoNUL {
		for i, c := range s {
			if c == 0 {
				s[i] = '.'
			}
		}
	}
	return s
}

// Text draws the bytes of a string.
func Text(t *rapid.T, o Opts, label string) []byte {
	if o.RawText && rapid.IntRange(0, 7).Draw(t, label+"raw?") == 0 {
		if rapid.Bool().Draw(t, label+"sampled") {
			return fixText([]byte(rapid.SampledFrom(badTexts).Draw(t, label)), o)
		}
		return fixText(Payload(t, rapid.IntRange(0, 24).Draw(t, label+"n"), label), o)
	}
	if rapid.IntRange(0, 5).Draw(t, label+"known?") == 0 {
		return fixText([]byte(rapid.SampledFrom(texts).Draw(t, label)), o)
	}
	n := Length(t, o, label+"n")
	if n <= 20 {
		rs := rapid.SliceOfN(rapid.OneOf(rapid.SampledFrom(runes), rapid.RuneFrom([]rune("abcdefghijklmnopqrstuvwxyz"))), 0, n).Draw(t, label)
		return fixText([]byte(string(rs)), o)
	}
	// exact byte length matters more than content for long text: fill with mixed-width characters, pad with ASCII
	unit := rapid.SampledFrom([]string{"x", "é", "€", "😀", "aé€😀", "hello ", "\x00", " ", "a\r\n", "\uFEFF"}).Draw(t, label+"unit")
	b := make([]byte, 0, n)
	for len(b)+len(unit) <= n {
		b = append(b, unit...)
	}
	for i := 0; len(b) < n; i++ {
		b = append(b, byte('0'+i%10))
	}
	switch rapid.IntRange(0, 7).Draw(t, label+"spot?") {
	case 0: // one different character somewhere
		r := string(rapid.SampledFrom(runes).Draw(t, label+"rune"))
		at := rapid.IntRange(0, len(b)-1).Draw(t, label+"at")
		if rapid.IntRange(0, 2).Draw(t, label+"end?") == 0 {
			at = rapid.SampledFrom([]int{0, len(b)}).Draw(t, label+"end")
		}
		at = runeStart(b, at)
		b = append(append(append(make([]byte, 0, len(b)+4), b[:at]...), r...), b[at:]...)
		return fixText(b, o)
	case 3: // a run of one character at the end or at the beginning, in place of what is there
		r := []byte(string(rapid.SampledFrom(runes).Draw(t, label+"rune")))
		r = bytes.Repeat(r, rapid.IntRange(1, min(12, len(b)/len(r))).Draw(t, label+"run"))
		if at := len(b) - len(r); rapid.IntRange(0, 2).Draw(t, label+"end?") != 0 && runeStart(b, at) == at {
			copy(b[at:], r)
		} else if runeStart(b, len(r)) == len(r) {
			copy(b, r)
		}
		return fixText(b, o)
	case 1, 2: // text that goes wrong at one place
		if o.RawText {
			at := rapid.IntRange(0, len(b)-1).Draw(t, label+"at")
			bad := rapid.SampledFrom(badTexts).Draw(t, label+"bad")
			copy(b[at:], bad)
			return fixText(b, o)
		}
	}
	return fixText(b, o)
}

func runeStart(b []byte, i int) int {
	for i > 0 && i < len(b) && !utf8.RuneStart(b[i]) {
		i--
	}
	return i
}

var scalarKinds = []byte{wire.Nil, wire.Slice, wire.Map, wire.Bytes, wire.String, wire.Error, wire.Bool, wire.Uint8, wire.Uint16, wire.Uint32,
	wire.Uint64, wire.Int32, wire.Int64, wire.Float32, wire.Float64}

func Kind(t *rapid.T, label string) byte { return byte(rapid.IntRange(0, 15).Draw(t, label)) }

// Value draws one encodable value.
func Value(t *rapid.T, o Opts, label string) wire.Value {
	ks := scalarKinds
	if o.Any && rapid.IntRange(0, 15).Draw(t, label+"any?") == 0 {
		return wire.Value{Kind: wire.Any}
	}
	return ValueOf(t, rapid.SampledFrom(ks).Draw(t, label+"kind"), o, label)
}

func ValueOf(t *rapid.T, k byte, o Opts, label string) wire.Value {
	v := wire.Value{Kind: k}
	switch k {
	case wire.Slice:
		v.VK = Kind(t, label+"elem")
		v.Num = Bits(t, 32, label)
	case wire.Map:
		v.KK = Kind(t, label+"key")
		v.VK = Kind(t, label+"elem")
		v.Num = Bits(t, 32, label)
	case wire.Bytes:
		v.Data = Payload(t, Length(t, o, label+"n"), label)
	case wire.String, wire.Error:
		v.Data = Text(t, o, label)
	case wire.Bool:
		v.Num = uint64(rapid.IntRange(0, 1).Draw(t, label))
	case wire.Uint8:
		v.Num = Bits(t, 8, label)
	case wire.Uint16:
		v.Num = Bits(t, 16, label)
	case wire.Uint32, wire.Int32:
		v.Num = Bits(t, 32, label)
	case wire.Uint64, wire.Int64:
		v.Num = Bits(t, 64, label)
	case wire.Float32:
		v.Num = FloatBits(t, 32, label)
	case wire.Float64:
		v.Num = FloatBits(t, 64, label)
	}
	return v
}

// Values draws a sequence.
func Values(t *rapid.T, o Opts, lo, hi int) []wire.Value {
	n := rapid.IntRange(lo, hi).Draw(t, "count")
	if hi >= 8 && rapid.IntRange(0, 19).Draw(t, "long?") == 0 {
		n = rapid.IntRange(hi, hi*8).Draw(t, "count")
	}
	vs := make([]wire.Value, n)
	for i := range vs {
		vs[i] = Value(t, o, "v")
	}
	return vs
}

// Ctor is how an encoding buffer is made.
type Ctor struct {
	Mode byte
	A, B uint32
}

// Mode draws a constructor; maxMode is the number of constructors the implementation has besides the default. Sizes are
// small most of the time so that growth happens inside the sequence, at every remaining capacity from 0 up.
func Mode(t *rapid.T, maxMode int) Ctor {
	c := Ctor{Mode: byte(rapid.IntRange(0, maxMode).Draw(t, "mode"))}
	if c.Mode != 0 {
		c.A = smallSize(t, "a")
		c.B = smallSize(t, "b")
	}
	return c
}

func smallSize(t *rapid.T, label string) uint32 {
	switch rapid.IntRange(0, 5).Draw(t, label+"?") {
	case 0:
		return 0
	case 1, 2, 3:
		return uint32(rapid.IntRange(0, 24).Draw(t, label))
	case 4:
		return uint32(rapid.IntRange(0, 600).Draw(t, label))
	}
	return uint32(rapid.SampledFrom([]int{63, 64, 127, 128, 255, 256, 510, 511, 512, 513, 1023, 1024, 4096}).Draw(t, label))
}

// Scratch gives byte-slice reads varied scratch arguments.
func Scratch(t *rapid.T, rd wire.Read, n int) wire.Read {
	if rd.Kind == wire.Bytes {
		switch rapid.IntRange(0, 3).Draw(t, "scratch?") {
		case 0:
			rd.Scratch = -1
		case 1:
			rd.Scratch = 0
			rd.ScratchCap = uint32(max(0, n+rapid.IntRange(-3, 3).Draw(t, "scratchcap")))
		default:
			rd.Scratch = int32(max(0, n+rapid.IntRange(-3, 3).Draw(t, "scratch")))
			rd.ScratchCap = uint32(rapid.IntRange(0, 4).Draw(t, "scratchcap"))
		}
	}
	return rd
}

// Read draws a read of any type.
func Read(t *rapid.T, o Opts, label string) wire.Read {
	ks := scalarKinds
	if o.Any {
		ks = append(append([]byte{}, ks...), wire.Any)
	}
	r := wire.Read{Kind: rapid.SampledFrom(ks).Draw(t, label), Scratch: -1}
	switch r.Kind {
	case wire.Slice:
		r.VK = Kind(t, label+"elem")
	case wire.Map:
		r.KK = Kind(t, label+"key")
		r.VK = Kind(t, label+"elem")
	case wire.Bytes:
		if rapid.Bool().Draw(t, label+"scratch?") {
			r.Scratch = int32(rapid.IntRange(0, 40).Draw(t, label+"scratch"))
			r.ScratchCap = uint32(rapid.IntRange(0, 8).Draw(t, label+"cap"))
		}
	}
	return r
}

// varintEdge draws the raw bytes of a varint field: minimal, padded, over-long, unterminated, or with excess high bits.
func varintEdge(t *rapid.T, bits int) []byte {
	maxLen := (bits + 6) / 7
	switch rapid.IntRange(0, 7).Draw(t, "varint?") {
	case 0: // minimal
		return ref.Varint(nil, Bits(t, bits, "vi"))
	case 1: // padded with redundant zero groups, possibly past the maximum
		b := ref.Varint(nil, Bits(t, bits, "vi"))
		n := rapid.IntRange(len(b), maxLen+2).Draw(t, "padto")
		for len(b) < n {
			b[len(b)-1] |= 0x80
			b = append(b, 0)
		}
		return b
	case 2: // maximum length with any last group: in or out of range
		b := make([]byte, maxLen)
		fill := byte(rapid.SampledFrom([]int{0x80, 0xff, 0x81, 0xaa}).Draw(t, "fill"))
		for i := range b {
			b[i] = fill
		}
		b[maxLen-1] = byte(rapid.IntRange(0, 255).Draw(t, "last"))
		return b
	case 3: // over-long: continuation bits through and past the maximum
		n := rapid.IntRange(maxLen, maxLen+3).Draw(t, "contlen")
		b := make([]byte, n)
		for i := range b {
			b[i] = 0x80 | byte(rapid.IntRange(0, 127).Draw(t, "g"))
		}
		return append(b, byte(rapid.IntRange(0, 1).Draw(t, "end")))
	case 4: // unterminated: only continuation bytes
		n := rapid.IntRange(0, maxLen).Draw(t, "contlen")
		b := make([]byte, n)
		for i := range b {
			b[i] = 0x80 | byte(rapid.IntRange(0, 127).Draw(t, "g"))
		}
		return b
	case 5: // just past the range of the type
		if bits < 64 {
			return ref.Varint(nil, uint64(1)<<uint(bits)+Bits(t, bits, "vi"))
		}
		return []byte{0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, byte(rapid.IntRange(1, 127).Draw(t, "last"))}
	case 6: // a wider varint than the type holds
		return ref.Varint(nil, Bits(t, 64, "vi"))
	default:
		return rapid.SliceOfN(rapid.Byte(), 0, maxLen+1).Draw(t, "raw")
	}
}

func sizeKind(t *rapid.T) []byte {
	if rapid.IntRange(0, 9).Draw(t, "sizekind?") == 0 {
		return rapid.SliceOfN(rapid.ByteRange(0, 20), 0, 2).Draw(t, "sizekind")
	}
	return []byte{wire.Uint32}
}

// Craft builds one item of a kind from its grammar with deviations at a drawn place.
func Craft(t *rapid.T) []byte {
	k := rapid.SampledFrom(scalarKinds).Draw(t, "craft")
	b := []byte{k}
	switch k {
	case wire.Nil:
	case wire.Slice:
		b = append(b, rapid.ByteRange(0, 16).Draw(t, "ek"))
		b = append(append(b, sizeKind(t)...), varintEdge(t, 32)...)
	case wire.Map:
		b = append(b, rapid.ByteRange(0, 16).Draw(t, "kk"), rapid.ByteRange(0, 16).Draw(t, "vk"))
		b = append(append(b, sizeKind(t)...), varintEdge(t, 32)...)
	case wire.Bytes, wire.String, wire.Error:
		if k == wire.Error {
			if rapid.IntRange(0, 7).Draw(t, "estr?") == 0 {
				b = append(b, rapid.SliceOfN(rapid.ByteRange(0, 20), 0, 2).Draw(t, "estr")...)
			} else {
				b = append(b, wire.String)
			}
		}
		b = append(b, sizeKind(t)...)
		var body []byte
		if k == wire.Bytes {
			body = Payload(t, rapid.IntRange(0, 20).Draw(t, "n"), "body")
		} else {
			body = Text(t, Opts{RawText: true}, "body")
		}
		if rapid.IntRange(0, 2).Draw(t, "len?") == 0 {
			b = append(b, varintEdge(t, 32)...)
		} else {
			n := uint64(max(0, len(body)+rapid.SampledFrom([]int{0, 0, 0, 1, -1, 2, 100, 1 << 20, 1 << 28, 1<<31 - 1, 1 << 31}).Draw(t, "lendiff")))
			b = ref.Varint(b, n&0xFFFFFFFF)
		}
		b = append(b, body...)
	case wire.Bool:
		b = append(b, rapid.SampledFrom([]byte{0, 1, 1, 2, 3, 0x7f, 0x80, 0x81, 0xff}).Draw(t, "bool"))
	case wire.Uint8:
		b = append(b, rapid.Byte().Draw(t, "u8"))
	case wire.Uint16:
		b = append(b, varintEdge(t, 16)...)
	case wire.Uint32, wire.Int32:
		b = append(b, varintEdge(t, 32)...)
	case wire.Uint64, wire.Int64:
		b = append(b, varintEdge(t, 64)...)
	case wire.Float32:
		b = append(b, rapid.SliceOfN(rapid.Byte(), 4, 4).Draw(t, "f32")...)
	case wire.Float64:
		b = append(b, rapid.SliceOfN(rapid.Byte(), 8, 8).Draw(t, "f64")...)
	}
	return b
}

// Input draws decoder input: arbitrary bytes, crafted items, and valid encodings with edits.
func Input(t *rapid.T, o Opts) []byte {
	var b []byte
	switch rapid.IntRange(0, 11).Draw(t, "input?") {
	case 10:
		return LongText(t)
	case 0:
		return rapid.SliceOfN(rapid.Byte(), 0, 40).Draw(t, "raw")
	case 1:
		return rapid.SliceOfN(rapid.OneOf(rapid.ByteRange(0, 16), rapid.SampledFrom([]byte{0x80, 0xff, 0x7f})), 0, 30).Draw(t, "tags")
	case 2, 3, 4, 5:
		n := rapid.IntRange(1, 4).Draw(t, "items")
		for i := 0; i < n; i++ {
			if rapid.IntRange(0, 2).Draw(t, "ok?") == 0 {
				b = ref.Append(b, Value(t, Opts{RawText: true}, "v"))
			} else {
				b = append(b, Craft(t)...)
			}
		}
	default:
		b = ref.Encode(Values(t, Opts{RawText: o.RawText}, 1, 6))
	}
	return Edit(t, b)
}

// LongText is an item with a long payload that is right except, most of the time, at one place.
func LongText(t *rapid.T) []byte {
	k := rapid.SampledFrom([]byte{wire.String, wire.Error, wire.Bytes}).Draw(t, "long")
	n := rapid.SampledFrom(edges).Draw(t, "n")
	if rapid.Bool().Draw(t, "anyn") {
		n = rapid.IntRange(1, 1500).Draw(t, "n")
	}
	unit := rapid.SampledFrom([]string{"x", "x", "Zebra ", "é", "a€"}).Draw(t, "unit")
	b := bytes.Repeat([]byte(unit), n/len(unit)+1)[:n/len(unit)*len(unit)]
	for len(b) < n {
		b = append(b, '.')
	}
	at := rapid.IntRange(0, n-1).Draw(t, "at")
	if rapid.IntRange(0, 3).Draw(t, "tail?") == 0 {
		at = n - 1 - rapid.IntRange(0, min(n-1, 4)).Draw(t, "tail")
	}
	diff := 0
	switch rapid.IntRange(0, 5).Draw(t, "fault") {
	case 0, 1:
		copy(b[at:], rapid.SampledFrom(badTexts).Draw(t, "bad"))
	case 2:
		b[at] = rapid.SampledFrom([]byte{0x80, 0xbf, 0xc0, 0xe2, 0xf0, 0xff}).Draw(t, "byte")
	case 3:
		b[at] = 0
	case 4:
		diff = rapid.SampledFrom([]int{-1, 1, 2, 128, 256}).Draw(t, "lendiff")
	}
	out := []byte{k}
	if k == wire.Error {
		out = append(out, wire.String)
	}
	out = append(ref.Varint(append(out, wire.Uint32), uint64(max(0, n+diff))), b...)
	return ref.Append(out, Value(t, Opts{}, "after"))
}

// Edit truncates, flips, inserts, deletes or duplicates at drawn places.
func Edit(t *rapid.T, b []byte) []byte {
	b = append([]byte{}, b...)
	n := rapid.IntRange(0, 3).Draw(t, "edits")
	for i := 0; i < n && len(b) > 0; i++ {
		p := rapid.IntRange(0, len(b)-1).Draw(t, "at")
		switch rapid.IntRange(0, 5).Draw(t, "edit") {
		case 0, 1:
			b = b[:p]
		case 2:
			b[p] ^= 1 << uint(rapid.IntRange(0, 7).Draw(t, "bit"))
		case 3:
			b[p] = rapid.Byte().Draw(t, "byte")
		case 4:
			x := rapid.SampledFrom([]byte{0x80, 0xff, 0x00, 0x01, 0x0a, 0x7f}).Draw(t, "ins")
			b = append(b[:p:p], append([]byte{x}, b[p:]...)...)
		case 5:
			b = append(b[:p:p], b[p+1:]...)
		}
	}
	return b
}

// Reads draws a read sequence for an input: what the input's tags suggest, with deviations.
func Reads(t *rapid.T, b []byte, o Opts, maxReads int) []wire.Read {
	var rs []wire.Read
	p := 0
	n := rapid.IntRange(1, maxReads).Draw(t, "reads")
	for i := 0; i < n; i++ {
		rd, ok := ref.Next(b, p)
		if !ok || (!o.Any && rd.Kind == wire.Any) || rapid.IntRange(0, 4).Draw(t, "stray?") == 0 {
			rd = Read(t, o, "read")
		} else if rd.Kind == wire.Bytes && rapid.IntRange(0, 2).Draw(t, "scratch?") == 0 {
			rd.Scratch = int32(rapid.IntRange(0, 40).Draw(t, "scratch"))
			rd.ScratchCap = uint32(rapid.IntRange(0, 8).Draw(t, "cap"))
		}
		rs = append(rs, rd)
		if x := ref.Decode(b, p, rd); x.Class == ref.Good || x.Class == ref.BadText || x.Class == ref.NonMinimal {
			p = x.Next
		}
	}
	return rs
}

func ValidText(v wire.Value) bool {
	return (v.Kind != wire.String && v.Kind != wire.Error) || utf8.Valid(v.Data)
}

func HasNUL(v wire.Value) bool {
	if v.Kind != wire.String && v.Kind != wire.Error {
		return false
	}
	for _, c := range v.Data {
		if c == 0 {
			return true
		}
	}
	return false
}

func IsNaN(v wire.Value) bool {
	switch v.Kind {
	case wire.Float32:
		return v.Num&0x7f800000 == 0x7f800000 && v.Num&0x007fffff != 0
	case wire.Float64:
		return v.Num&0x7ff0000000000000 == 0x7ff0000000000000 && v.Num&0x000fffffffffffff != 0
	}
	return false
}
