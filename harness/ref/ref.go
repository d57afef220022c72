// Package ref is an independent reference model of the polyglot wire format, written from the format's description:
// a kind byte per item, base-128 varints of at most ceil(bits/7) bytes, zig-zag for signed numbers, big-endian IEEE
// floats, and u32-tagged length prefixes. It shares no code with any implementation.
package ref

import (
	"fmt"
	"unicode/utf8"

	"verif/harness/wire"
)

func Varint(b []byte, v uint64) []byte {
	for v > 127 {
		b = append(b, byte(v%128)+128)
		v /= 128
	}
	return append(b, byte(v))
}

func zig(v int64, bits uint) uint64 {
	u := uint64(v<<1) ^ uint64(v>>63)
	if bits == 32 {
		u &= 0xFFFFFFFF
	}
	return u
}

func unzig(u uint64) int64 { return int64(u>>1) ^ -int64(u&1) }

func size(b []byte, n uint64) []byte { return Varint(append(b, wire.Uint32), n) }

// Append appends the canonical encoding of v.
func Append(b []byte, v wire.Value) []byte {
	switch v.Kind {
	case wire.Nil, wire.Any:
		return append(b, v.Kind)
	case wire.Slice:
		return size(append(b, wire.Slice, v.VK), uint64(uint32(v.Num)))
	case wire.Map:
		return size(append(b, wire.Map, v.KK, v.VK), uint64(uint32(v.Num)))
	case wire.Bytes, wire.String:
		return append(size(append(b, v.Kind), uint64(len(v.Data))), v.Data...)
	case wire.Error:
		return append(size(append(b, wire.Error, wire.String), uint64(len(v.Data))), v.Data...)
	case wire.Bool:
		if v.Num != 0 {
			return append(b, wire.Bool, 1)
		}
		return append(b, wire.Bool, 0)
	case wire.Uint8:
		return append(b, wire.Uint8, byte(v.Num))
	case wire.Uint16:
		return Varint(append(b, wire.Uint16), uint64(uint16(v.Num)))
	case wire.Uint32:
		return Varint(append(b, wire.Uint32), uint64(uint32(v.Num)))
	case wire.Uint64:
		return Varint(append(b, wire.Uint64), v.Num)
	case wire.Int32:
		return Varint(append(b, wire.Int32), zig(int64(int32(v.Num)), 32))
	case wire.Int64:
		return Varint(append(b, wire.Int64), zig(int64(v.Num), 64))
	case wire.Float32:
		return be(append(b, wire.Float32), v.Num, 4)
	case wire.Float64:
		return be(append(b, wire.Float64), v.Num, 8)
	}
	panic(fmt.Sprintf("ref: kind %d", v.Kind))
}

func be(b []byte, v uint64, n int) []byte {
	for i := n - 1; i >= 0; i-- {
		b = append(b, byte(v>>(8*uint(i))))
	}
	return b
}

func Encode(vs []wire.Value) []byte {
	var b []byte
	for _, v := range vs {
		b = Append(b, v)
	}
	return b
}

// Class is what the format says about reading an item of some type at some position.
type Class int

const (
	Good       Class = iota // one complete well-formed encoding
	Mismatch                // end of input or an item of another kind: refuse, consume nothing
	Malformed               // right kind but not a complete well-formed encoding: refuse
	NonMinimal              // denotes a value, but with a redundant varint byte: that value or a refusal
	BadText                 // complete, but the text is not valid UTF-8
)

func (c Class) String() string {
	return [...]string{"good", "mismatch", "malformed", "non-minimal", "bad-text"}[c]
}

type Reading struct {
	Class  Class
	Num    uint64
	Data   []byte
	Next   int
	Reason string
}

type scan struct {
	b          []byte
	p          int
	nonMinimal bool
	reason     string
}

func (s *scan) varint(bits uint) (uint64, bool) {
	maxLen := int((bits + 6) / 7)
	var v uint64
	for i := 0; i < maxLen; i++ {
		if s.p >= len(s.b) {
			s.reason = "truncated varint"
			return 0, false
		}
		c := s.b[s.p]
		s.p++
		d := uint64(c & 0x7F)
		sh := uint(7 * i)
		if bits-sh < 7 && d>>(bits-sh) != 0 {
			s.reason = "varint out of range"
			return 0, false
		}
		v |= d << sh
		if c < 0x80 {
			if c == 0 && i > 0 {
				s.nonMinimal = true
			}
			return v, true
		}
	}
	s.reason = "over-long varint"
	return 0, false
}

func (s *scan) size() (uint64, bool) {
	if s.p >= len(s.b) {
		s.reason = "missing size"
		return 0, false
	}
	if s.b[s.p] != wire.Uint32 {
		s.reason = "size is not a u32"
		return 0, false
	}
	s.p++
	return s.varint(32)
}

// Decode reads one item of the requested type at position p.
func Decode(b []byte, p int, rd wire.Read) Reading {
	mal := func(reason string) Reading { return Reading{Class: Malformed, Reason: reason, Next: -1} }
	mis := Reading{Class: Mismatch, Next: p}
	if p >= len(b) || b[p] != rd.Kind {
		return mis
	}
	s := &scan{b: b, p: p + 1}
	good := func(num uint64, data []byte) Reading {
		c := Good
		if s.nonMinimal {
			c = NonMinimal
		}
		return Reading{Class: c, Num: num, Data: data, Next: s.p}
	}
	fixed := func(n int) Reading {
		if len(b)-s.p < n {
			return mal("truncated")
		}
		var v uint64
		for _, c := range b[s.p : s.p+n] {
			v = v<<8 | uint64(c)
		}
		s.p += n
		return good(v, nil)
	}
	kind := func(k byte) (ok bool, r Reading) {
		if s.p >= len(b) {
			return false, mal("truncated container kinds")
		}
		if b[s.p] != k {
			return false, mis
		}
		s.p++
		return true, r
	}
	text := func() Reading {
		n, ok := s.size()
		if !ok {
			return mal(s.reason)
		}
		if uint64(len(b)-s.p) < n {
			return mal("payload longer than input")
		}
		d := b[s.p : s.p+int(n)]
		s.p += int(n)
		r := good(0, d)
		if rd.Kind != wire.Bytes && r.Class == Good && !utf8.Valid(d) {
			r.Class = BadText
		}
		return r
	}
	switch rd.Kind {
	case wire.Nil, wire.Any:
		return good(0, nil)
	case wire.Slice:
		if ok, r := kind(rd.VK); !ok {
			return r
		}
		n, ok := s.size()
		if !ok {
			return mal(s.reason)
		}
		return good(n, nil)
	case wire.Map:
		if len(b)-s.p < 2 {
			return mal("truncated container kinds")
		}
		if ok, r := kind(rd.KK); !ok {
			return r
		}
		if ok, r := kind(rd.VK); !ok {
			return r
		}
		n, ok := s.size()
		if !ok {
			return mal(s.reason)
		}
		return good(n, nil)
	case wire.Bytes, wire.String:
		return text()
	case wire.Error:
		if s.p >= len(b) || b[s.p] != wire.String {
			return mal("error without a string")
		}
		s.p++
		return text()
	case wire.Bool:
		r := fixed(1)
		if r.Class == Good && r.Num > 1 {
			return mal("bool byte other than 0 and 1")
		}
		return r
	case wire.Uint8:
		return fixed(1)
	case wire.Uint16, wire.Uint32, wire.Uint64, wire.Int32, wire.Int64:
		bits := map[byte]uint{wire.Uint16: 16, wire.Uint32: 32, wire.Uint64: 64, wire.Int32: 32, wire.Int64: 64}[rd.Kind]
		v, ok := s.varint(bits)
		if !ok {
			return mal(s.reason)
		}
		switch rd.Kind {
		case wire.Int32:
			v = uint64(uint32(unzig(v)))
		case wire.Int64:
			v = uint64(unzig(v))
		}
		return good(v, nil)
	case wire.Float32:
		return fixed(4)
	case wire.Float64:
		return fixed(8)
	}
	panic(fmt.Sprintf("ref: read kind %d", rd.Kind))
}

// ReadFor is the read that matches an encoded value.
func ReadFor(v wire.Value) wire.Read {
	return wire.Read{Kind: v.Kind, KK: v.KK, VK: v.VK, Scratch: -1}
}

// Next guesses the read that would match whatever item starts at p (false at the end or on an unknown kind).
func Next(b []byte, p int) (wire.Read, bool) {
	if p < 0 || p >= len(b) || b[p] > wire.Float64 || b[p] == wire.Any {
		return wire.Read{}, false
	}
	r := wire.Read{Kind: b[p], Scratch: -1}
	if r.Kind == wire.Slice && p+1 < len(b) {
		r.VK = b[p+1]
	}
	if r.Kind == wire.Map && p+2 < len(b) {
		r.KK, r.VK = b[p+1], b[p+2]
	}
	if r.KK > 15 || r.VK > 15 {
		return wire.Read{}, false
	}
	return r, true
}
