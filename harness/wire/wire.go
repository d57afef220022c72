// Package wire is the vocabulary shared by the property harness and the adapter processes: value operations, read
// operations and the length-prefixed framing between the two. It knows nothing about polyglot's own wire format.
package wire

import (
	"bufio"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math"
)

// Kinds, numbered as the documented kind table.
const (
	Nil     = 0
	Slice   = 1
	Map     = 2
	Any     = 3
	Bytes   = 4
	String  = 5
	Error   = 6
	Bool    = 7
	Uint8   = 8
	Uint16  = 9
	Uint32  = 10
	Uint64  = 11
	Int32   = 12
	Int64   = 13
	Float32 = 14
	Float64 = 15
)

var KindNames = []string{"nil", "slice", "map", "any", "bytes", "string", "error", "bool", "u8", "u16", "u32", "u64", "i32", "i64", "f32", "f64"}

// Value is one encodable item. Num carries every numeric payload as raw bits (floats as IEEE bits, signed integers as
// two's complement of 64 bits) and container sizes; KK and VK are element kinds of containers.
type Value struct {
	Kind byte
	KK   byte
	VK   byte
	Num  uint64
	Data []byte
}

func (v Value) GoString() string { return v.Describe() }

// Describe renders a value for replay files and samples.
func (v Value) Describe() string {
	switch v.Kind {
	case Nil:
		return "nil"
	case Slice:
		return fmt.Sprintf("slice(%s,%d)", kn(v.VK), uint32(v.Num))
	case Map:
		return fmt.Sprintf("map(%s,%s,%d)", kn(v.KK), kn(v.VK), uint32(v.Num))
	case Bytes, String, Error:
		if len(v.Data) > 48 {
			return fmt.Sprintf("%s(len=%d,%q...)", kn(v.Kind), len(v.Data), v.Data[:24])
		}
		return fmt.Sprintf("%s(%q)", kn(v.Kind), v.Data)
	case Bool:
		return fmt.Sprintf("bool(%v)", v.Num != 0)
	case Int32:
		return fmt.Sprintf("i32(%d)", int32(v.Num))
	case Int64:
		return fmt.Sprintf("i64(%d)", int64(v.Num))
	case Float32:
		return fmt.Sprintf("f32(%v,0x%08x)", math.Float32frombits(uint32(v.Num)), uint32(v.Num))
	case Float64:
		return fmt.Sprintf("f64(%v,0x%016x)", math.Float64frombits(v.Num), v.Num)
	default:
		return fmt.Sprintf("%s(%d)", kn(v.Kind), v.Num)
	}
}

func kn(k byte) string {
	if int(k) < len(KindNames) {
		return KindNames[k]
	}
	return fmt.Sprintf("kind%d", k)
}

func KindName(k byte) string { return kn(k) }

// Width is the number of bytes of Num on the adapter protocol.
func Width(k byte) int {
	switch k {
	case Bool, Uint8:
		return 1
	case Uint16:
		return 2
	case Uint32, Int32, Float32, Slice, Map:
		return 4
	case Uint64, Int64, Float64:
		return 8
	}
	return 0
}

// Read is one decode request. For Bytes, Scratch<0 asks for a nil scratch slice, otherwise a slice of that length
// (with ScratchCap extra capacity) filled with a non-zero pattern is passed where the API takes one.
type Read struct {
	Kind       byte
	KK, VK     byte
	Scratch    int32
	ScratchCap uint32
}

func (r Read) Describe() string {
	switch r.Kind {
	case Slice:
		return fmt.Sprintf("slice<%s>", kn(r.VK))
	case Map:
		return fmt.Sprintf("map<%s,%s>", kn(r.KK), kn(r.VK))
	case Bytes:
		if r.Scratch >= 0 {
			return fmt.Sprintf("bytes[scratch %d/%d]", r.Scratch, uint32(r.Scratch)+r.ScratchCap)
		}
	}
	return kn(r.Kind)
}

// Outcomes of one operation.
const (
	OK     = 0
	Failed = 1
	Panic  = 2
)

// Result is the outcome of one read.
type Result struct {
	Status byte
	Err    string // canonical name of the type the error belongs to, or text
	Num    uint64
	Data   []byte
	Remain uint32 // Unknown when the API does not expose it
	Alloc  uint64
}

const Unknown = 0xFFFFFFFF

// ---- buffers ----

type W struct{ B []byte }

func (w *W) U8(v byte)    { w.B = append(w.B, v) }
func (w *W) U16(v uint16) { w.B = binary.BigEndian.AppendUint16(w.B, v) }
func (w *W) U32(v uint32) { w.B = binary.BigEndian.AppendUint32(w.B, v) }
func (w *W) U64(v uint64) { w.B = binary.BigEndian.AppendUint64(w.B, v) }
func (w *W) Bytes(b []byte) {
	w.U32(uint32(len(b)))
	w.B = append(w.B, b...)
}
func (w *W) Str(s string) { w.Bytes([]byte(s)) }
func (w *W) Num(width int, v uint64) {
	switch width {
	case 1:
		w.U8(byte(v))
	case 2:
		w.U16(uint16(v))
	case 4:
		w.U32(uint32(v))
	case 8:
		w.U64(v)
	}
}

type R struct {
	B   []byte
	Pos int
	Bad bool
}

func (r *R) take(n int) []byte {
	if n < 0 || r.Pos+n > len(r.B) {
		r.Bad = true
		r.Pos = len(r.B)
		return make([]byte, max(0, min(n, 8)))
	}
	b := r.B[r.Pos : r.Pos+n]
	r.Pos += n
	return b
}
func (r *R) U8() byte    { return r.take(1)[0] }
func (r *R) U16() uint16 { return binary.BigEndian.Uint16(r.take(2)) }
func (r *R) U32() uint32 { return binary.BigEndian.Uint32(r.take(4)) }
func (r *R) U64() uint64 { return binary.BigEndian.Uint64(r.take(8)) }
func (r *R) Bytes() []byte {
	n := int(r.U32())
	if r.Bad || r.Pos+n > len(r.B) {
		r.Bad = true
		return nil
	}
	return r.take(n)
}
func (r *R) Str() string { return string(r.Bytes()) }
func (r *R) Num(width int) uint64 {
	switch width {
	case 1:
		return uint64(r.U8())
	case 2:
		return uint64(r.U16())
	case 4:
		return uint64(r.U32())
	case 8:
		return r.U64()
	}
	return 0
}

func PutValue(w *W, v Value) {
	w.U8(v.Kind)
	switch v.Kind {
	case Nil, Any:
	case Slice:
		w.U8(v.VK)
		w.U32(uint32(v.Num))
	case Map:
		w.U8(v.KK)
		w.U8(v.VK)
		w.U32(uint32(v.Num))
	case Bytes, String, Error:
		w.Bytes(v.Data)
	default:
		w.Num(Width(v.Kind), v.Num)
	}
}

func GetValue(r *R) (v Value) {
	v.Kind = r.U8()
	switch v.Kind {
	case Nil, Any:
	case Slice:
		v.VK = r.U8()
		v.Num = uint64(r.U32())
	case Map:
		v.KK = r.U8()
		v.VK = r.U8()
		v.Num = uint64(r.U32())
	case Bytes, String, Error:
		v.Data = r.Bytes()
	default:
		v.Num = r.Num(Width(v.Kind))
	}
	return
}

func PutRead(w *W, d Read) {
	w.U8(d.Kind)
	switch d.Kind {
	case Slice:
		w.U8(d.VK)
	case Map:
		w.U8(d.KK)
		w.U8(d.VK)
	case Bytes:
		w.U32(uint32(d.Scratch))
		w.U32(d.ScratchCap)
	}
}

func GetRead(r *R) (d Read) {
	d.Kind = r.U8()
	switch d.Kind {
	case Slice:
		d.VK = r.U8()
	case Map:
		d.KK = r.U8()
		d.VK = r.U8()
	case Bytes:
		d.Scratch = int32(r.U32())
		d.ScratchCap = r.U32()
	}
	return
}

// PutResult and GetResult carry one read outcome: status, payload or error text, remaining input, allocated bytes.
func PutResult(w *W, kind byte, x Result) {
	w.U8(x.Status)
	if x.Status == OK {
		switch kind {
		case Bytes, String, Error:
			w.Bytes(x.Data)
		default:
			w.Num(Width(kind), x.Num)
		}
	} else {
		w.Str(x.Err)
	}
	w.U32(x.Remain)
	w.U64(x.Alloc)
}

func GetResult(r *R, kind byte) (x Result) {
	x.Status = r.U8()
	if x.Status == OK {
		switch kind {
		case Bytes, String, Error:
			x.Data = r.Bytes()
		default:
			x.Num = r.Num(Width(kind))
		}
	} else {
		x.Err = r.Str()
	}
	x.Remain = r.U32()
	x.Alloc = r.U64()
	return
}

// ---- framing ----

var ErrFrame = errors.New("frame too large")

func ReadFrame(r *bufio.Reader, buf []byte) ([]byte, error) {
	var h [4]byte
	if _, err := io.ReadFull(r, h[:]); err != nil {
		return nil, err
	}
	n := int(binary.BigEndian.Uint32(h[:]))
	if n > 1<<30 {
		return nil, ErrFrame
	}
	if cap(buf) < n {
		buf = make([]byte, n)
	}
	buf = buf[:n]
	_, err := io.ReadFull(r, buf)
	return buf, err
}

func WriteFrame(w *bufio.Writer, b []byte) error {
	var h [4]byte
	binary.BigEndian.PutUint32(h[:], uint32(len(b)))
	if _, err := w.Write(h[:]); err != nil {
		return err
	}
	if _, err := w.Write(b); err != nil {
		return err
	}
	return w.Flush()
}
