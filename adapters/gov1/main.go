// Adapter process for the Go v1 implementation (module github.com/loopholelabs/polyglot).
package main

import (
	"errors"
	"math"
	"unsafe"

	"github.com/loopholelabs/polyglot"

	"verif/harness/kit"
	"verif/harness/wire"
)

var kinds = []polyglot.Kind{polyglot.NilKind, polyglot.SliceKind, polyglot.MapKind, polyglot.AnyKind, polyglot.BytesKind,
	polyglot.StringKind, polyglot.ErrorKind, polyglot.BoolKind, polyglot.Uint8Kind, polyglot.Uint16Kind, polyglot.Uint32Kind,
	polyglot.Uint64Kind, polyglot.Int32Kind, polyglot.Int64Kind, polyglot.Float32Kind, polyglot.Float64Kind}

var errs = map[string]error{"slice": polyglot.InvalidSlice, "map": polyglot.InvalidMap, "bytes": polyglot.InvalidBytes,
	"string": polyglot.InvalidString, "error": polyglot.InvalidError, "bool": polyglot.InvalidBool, "u8": polyglot.InvalidUint8,
	"u16": polyglot.InvalidUint16, "u32": polyglot.InvalidUint32, "u64": polyglot.InvalidUint64, "i32": polyglot.InvalidInt32,
	"i64": polyglot.InvalidInt64, "f32": polyglot.InvalidFloat32, "f64": polyglot.InvalidFloat64}

type buf struct {
	b   *polyglot.Buffer
	e   *polyglot.BufferEncoder
	ops int
}

func (x *buf) Encode(v kit.Input) {
	e := x.e
	if e == nil || x.ops%2 == 1 {
		e = polyglot.Encoder(x.b)
	}
	x.ops++
	switch v.Kind {
	case wire.Nil:
		e = e.Nil()
	case wire.Slice:
		e = e.Slice(uint32(v.Num), kinds[v.VK])
	case wire.Map:
		e = e.Map(uint32(v.Num), kinds[v.KK], kinds[v.VK])
	case wire.Bytes:
		e = e.Bytes(v.Data)
	case wire.String:
		e = e.String(v.Str)
	case wire.Error:
		e = e.Error(v.Err)
	case wire.Bool:
		e = e.Bool(v.Num != 0)
	case wire.Uint8:
		e = e.Uint8(uint8(v.Num))
	case wire.Uint16:
		e = e.Uint16(uint16(v.Num))
	case wire.Uint32:
		e = e.Uint32(uint32(v.Num))
	case wire.Uint64:
		e = e.Uint64(v.Num)
	case wire.Int32:
		e = e.Int32(int32(v.Num))
	case wire.Int64:
		e = e.Int64(int64(v.Num))
	case wire.Float32:
		e = e.Float32(math.Float32frombits(uint32(v.Num)))
	case wire.Float64:
		e = e.Float64(math.Float64frombits(v.Num))
	}
	x.e = e
}
func (x *buf) Write(b []byte) int { return x.b.Write(b) }
func (x *buf) Bytes() []byte      { return x.b.Bytes() }
func (x *buf) Len() int           { return x.b.Len() }
func (x *buf) Reset()             { x.b.Reset() }
func (x *buf) Cap() int           { return 0 }
func (x *buf) Grow(int)           {}
func (x *buf) Move(int)           {}
func (x *buf) ID() uintptr        { return uintptr(unsafe.Pointer(x.b)) }

type dec struct{ d *polyglot.Decoder }

func (x *dec) Read(r wire.Read, scratch []byte) (o kit.Out) {
	d := x.d
	switch r.Kind {
	case wire.Nil:
		o.Fail = !d.Nil()
		return
	case wire.Slice:
		var n uint32
		n, o.Err = d.Slice(kinds[r.VK])
		o.Num = uint64(n)
	case wire.Map:
		var n uint32
		n, o.Err = d.Map(kinds[r.KK], kinds[r.VK])
		o.Num = uint64(n)
	case wire.Bytes:
		o.B, o.Err = d.Bytes(scratch)
	case wire.String:
		o.S, o.Err = d.String()
	case wire.Error:
		o.E, o.Err = d.Error()
		if o.Err == nil && o.E == nil {
			panic("Error() returned neither a value nor a failure")
		}
	case wire.Bool:
		var b bool
		b, o.Err = d.Bool()
		if b {
			o.Num = 1
		}
	case wire.Uint8:
		var n uint8
		n, o.Err = d.Uint8()
		o.Num = uint64(n)
	case wire.Uint16:
		var n uint16
		n, o.Err = d.Uint16()
		o.Num = uint64(n)
	case wire.Uint32:
		var n uint32
		n, o.Err = d.Uint32()
		o.Num = uint64(n)
	case wire.Uint64:
		o.Num, o.Err = d.Uint64()
	case wire.Int32:
		var n int32
		n, o.Err = d.Int32()
		o.Num = uint64(uint32(n))
	case wire.Int64:
		var n int64
		n, o.Err = d.Int64()
		o.Num = uint64(n)
	case wire.Float32:
		var f float32
		f, o.Err = d.Float32()
		o.Num = uint64(math.Float32bits(f))
	case wire.Float64:
		var f float64
		f, o.Err = d.Float64()
		o.Num = math.Float64bits(f)
	}
	o.Fail = o.Err != nil
	return
}
func (x *dec) Remain() uint32 { return wire.Unknown }
func (x *dec) Release()       { x.d.Return() }
func (x *dec) ID() uintptr    { return uintptr(unsafe.Pointer(x.d)) }

func main() {
	kit.Serve(&kit.Impl{
		NewBuf: func(mode byte, a, b uint32) kit.Buf {
			switch mode {
			case 1: // zero-length buffer with capacity a
				x := make(polyglot.Buffer, 0, a)
				return &buf{b: &x}
			case 2: // caller bytes: length a of capacity a+b, emptied by Reset
				x := make(polyglot.Buffer, a, a+b)
				for i := range x[:a+b] {
					x[:a+b][i] = 0xDD
				}
				x.Reset()
				return &buf{b: &x}
			case 3:
				var x polyglot.Buffer
				return &buf{b: &x}
			}
			return &buf{b: polyglot.NewBuffer()}
		},
		NewDec: func(in []byte) kit.Dec { return &dec{polyglot.GetDecoder(in)} },
		ErrName: func(err error) string {
			if err == nil {
				return "nil"
			}
			for n, e := range errs {
				if errors.Is(err, e) {
					return n
				}
			}
			return "other:" + err.Error()
		},
		PoolGet:  func(int) kit.Buf { return &buf{b: polyglot.NewBuffer()} },
		PoolPut:  func(int, kit.Buf) {},
		PoolNil:  func(int) { polyglot.ReturnDecoder(nil) },
		ZeroPool: func(int) {},
		MakeErr:  func(s string) error { return polyglot.Error(s) },
	})
}
