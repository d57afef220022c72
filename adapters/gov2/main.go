// Adapter process for the Go v2 implementation (module github.com/loopholelabs/polyglot/v2).
package main

import (
	"errors"
	"math"
	"reflect"
	"unsafe"

	polyglot "github.com/loopholelabs/polyglot/v2"

	"verif/harness/kit"
	"verif/harness/wire"
)

var kinds = []polyglot.Kind{polyglot.NilKind, polyglot.SliceKind, polyglot.MapKind, polyglot.AnyKind, polyglot.BytesKind,
	polyglot.StringKind, polyglot.ErrorKind, polyglot.BoolKind, polyglot.Uint8Kind, polyglot.Uint16Kind, polyglot.Uint32Kind,
	polyglot.Uint64Kind, polyglot.Int32Kind, polyglot.Int64Kind, polyglot.Float32Kind, polyglot.Float64Kind}

var errs = map[string]error{"slice": polyglot.ErrInvalidSlice, "map": polyglot.ErrInvalidMap, "bytes": polyglot.ErrInvalidBytes,
	"string": polyglot.ErrInvalidString, "error": polyglot.ErrInvalidError, "bool": polyglot.ErrInvalidBool, "u8": polyglot.ErrInvalidUint8,
	"u16": polyglot.ErrInvalidUint16, "u32": polyglot.ErrInvalidUint32, "u64": polyglot.ErrInvalidUint64, "i32": polyglot.ErrInvalidInt32,
	"i64": polyglot.ErrInvalidInt64, "f32": polyglot.ErrInvalidFloat32, "f64": polyglot.ErrInvalidFloat64}

type buf struct {
	b   *polyglot.Buffer
	e   *polyglot.BufferEncoder
	ops int
}

func (x *buf) Encode(v kit.Input) {
	e := x.e
	if e == nil || x.ops%2 == 1 {
		e = polyglot.Encoder(x.b)
	}
	x.ops++
	switch v.Kind {
	case wire.Nil:
		e = e.Nil()
	case wire.Slice:
		e = e.Slice(uint32(v.Num), kinds[v.VK])
	case wire.Map:
		e = e.Map(uint32(v.Num), kinds[v.KK], kinds[v.VK])
	case wire.Bytes:
		e = e.Bytes(v.Data)
	case wire.String:
		e = e.String(v.Str)
	case wire.Error:
		e = e.Error(v.Err)
	case wire.Bool:
		e = e.Bool(v.Num != 0)
	case wire.Uint8:
		e = e.Uint8(uint8(v.Num))
	case wire.Uint16:
		e = e.Uint16(uint16(v.Num))
	case wire.Uint32:
		e = e.Uint32(uint32(v.Num))
	case wire.Uint64:
		e = e.Uint64(v.Num)
	case wire.Int32:
		e = e.Int32(int32(v.Num))
	case wire.Int64:
		e = e.Int64(int64(v.Num))
	case wire.Float32:
		e = e.Float32(math.Float32frombits(uint32(v.Num)))
	case wire.Float64:
		e = e.Float64(math.Float64frombits(v.Num))
	}
	x.e = e
}
func (x *buf) Write(b []byte) int { return x.b.Write(b) }
func (x *buf) Bytes() []byte      { return x.b.Bytes() }
func (x *buf) Len() int           { return x.b.Len() }
func (x *buf) Reset()             { x.b.Reset() }
func (x *buf) Cap() int           { return x.b.Cap() }
func (x *buf) Grow(n int)         { x.b.Grow(n) }
func (x *buf) Move(n int)         { x.b.MoveOffset(n) }
func (x *buf) ID() uintptr        { return uintptr(unsafe.Pointer(x.b)) }

type dec struct{ d *polyglot.BufferDecoder }

func (x *dec) Read(r wire.Read, scratch []byte) (o kit.Out) {
	d := x.d
	switch r.Kind {
	case wire.Nil:
		o.Fail = !d.Nil()
		return
	case wire.Slice:
		var n uint32
		n, o.Err = d.Slice(kinds[r.VK])
		o.Num = uint64(n)
	case wire.Map:
		var n uint32
		n, o.Err = d.Map(kinds[r.KK], kinds[r.VK])
		o.Num = uint64(n)
	case wire.Bytes:
		o.B, o.Err = d.Bytes(scratch)
	case wire.String:
		o.S, o.Err = d.String()
	case wire.Error:
		o.E, o.Err = d.Error()
		if o.Err == nil && o.E == nil {
			panic("Error() returned neither a value nor a failure")
		}
	case wire.Bool:
		var b bool
		b, o.Err = d.Bool()
		if b {
			o.Num = 1
		}
	case wire.Uint8:
		var n uint8
		n, o.Err = d.Uint8()
		o.Num = uint64(n)
	case wire.Uint16:
		var n uint16
		n, o.Err = d.Uint16()
		o.Num = uint64(n)
	case wire.Uint32:
		var n uint32
		n, o.Err = d.Uint32()
		o.Num = uint64(n)
	case wire.Uint64:
		o.Num, o.Err = d.Uint64()
	case wire.Int32:
		var n int32
		n, o.Err = d.Int32()
		o.Num = uint64(uint32(n))
	case wire.Int64:
		var n int64
		n, o.Err = d.Int64()
		o.Num = uint64(n)
	case wire.Float32:
		var f float32
		f, o.Err = d.Float32()
		o.Num = uint64(math.Float32bits(f))
	case wire.Float64:
		var f float64
		f, o.Err = d.Float64()
		o.Num = math.Float64bits(f)
	}
	o.Fail = o.Err != nil
	return
}

// Remain asks the type itself, which a change may well make another than a slice.
func (x *dec) Remain() uint32 {
	if v := reflect.ValueOf(x.d).Elem(); v.Kind() == reflect.Slice {
		return uint32(v.Len())
	}
	return wire.Unknown
}
func (x *dec) Release()    {}
func (x *dec) ID() uintptr { return uintptr(unsafe.Pointer(x.d)) }

var pools []*polyglot.Pool

func main() {
	kit.Serve(&kit.Impl{
		HasCap: true,
		NewBuf: func(mode byte, a, b uint32) kit.Buf {
			switch mode {
			case 1:
				return &buf{b: polyglot.NewBufferSize(int(a))}
			case 2: // caller bytes of length a, capacity a+b
				x := make([]byte, a, a+b)
				for i := range x[:a+b] {
					x[:a+b][i] = 0xDD
				}
				return &buf{b: polyglot.NewBufferFromBytes(x)}
			case 3:
				return &buf{b: &polyglot.Buffer{}}
			case 4:
				return &buf{b: polyglot.GetBuffer()}
			}
			return &buf{b: polyglot.NewBuffer()}
		},
		NewDec: func(in []byte) kit.Dec { return &dec{polyglot.Decoder(in)} },
		ErrName: func(err error) string {
			if err == nil {
				return "nil"
			}
			for n, e := range errs {
				if errors.Is(err, e) {
					return n
				}
			}
			return "other:" + err.Error()
		},
		PoolGet: func(p int) kit.Buf {
			if p == 0 {
				return &buf{b: polyglot.GetBuffer()}
			}
			return &buf{b: pools[p-1].Get()}
		},
		PoolPut: func(p int, b kit.Buf) {
			if p == 0 {
				polyglot.PutBuffer(b.(*buf).b)
				return
			}
			pools[p-1].Put(b.(*buf).b)
		},
		PoolNil: func(p int) {
			if p == 0 {
				polyglot.PutBuffer(nil)
				return
			}
			pools[p-1].Put(nil)
		},
		ZeroPool: func(n int) {
			pools = nil
			for i := 0; i < n; i++ {
				pools = append(pools, polyglot.NewPool())
			}
		},
		MakeErr: func(s string) error { return polyglot.Error(s) },
	})
}
