// Package kit serves the adapter protocol for a Go implementation of polyglot. The implementation is passed in as a
// small table of constructors, so the v1 and v2 adapters share everything but the API calls themselves.
package kit

import (
	"bufio"
	"errors"
	"fmt"
	"io"
	"os"
	"runtime"
	"runtime/debug"
	"sync"
	"sync/atomic"
	"unsafe"

	"verif/harness/wire"
)

// Buf is a buffer under test together with encoders over it.
type Buf interface {
	Encode(v Input)
	Write(b []byte) int
	Bytes() []byte
	Len() int
	Reset()
	// Cap, Grow and Move exist in v2 only; v1 returns 0 / does nothing.
	Cap() int
	Grow(n int)
	Move(n int)
	ID() uintptr
}

// Input is a value whose payload memory the adapter owns and may overwrite after the call.
type Input struct {
	wire.Value
	Str string // shares memory with Data
	Err error
}

type Out struct {
	Num   uint64
	B     []byte
	S     string
	IsStr bool
	E     error // decoded error value
	Err   error // failure of the read
	Fail  bool
}

type Dec interface {
	Read(r wire.Read, scratch []byte) Out
	Remain() uint32
	Release()
	ID() uintptr
}

type Impl struct {
	HasCap   bool
	NewBuf   func(mode byte, a, b uint32) Buf
	NewDec   func(in []byte) Dec
	ErrName  func(error) string
	PoolGet  func(pool int) Buf // v2: pool 0 is the package-level pool
	PoolPut  func(pool int, b Buf)
	PoolNil  func(pool int)
	MakeErr  func(msg string) error // polyglot.Error
	ZeroPool func(n int)
}

type textErr struct{ s string }

func (e *textErr) Error() string { return e.s }

func own(v wire.Value) Input {
	in := Input{Value: v}
	switch v.Kind {
	case wire.Bytes, wire.String, wire.Error:
		in.Data = append(make([]byte, 0, len(v.Data)+8), v.Data...)
		if len(v.Data) == 0 {
			in.Data = nil
		}
		if len(in.Data) > 0 {
			in.Str = unsafe.String(&in.Data[0], len(in.Data))
		}
		in.Err = makeErr(in.Str)
	}
	return in
}

func scribble(b []byte) {
	for i := range b {
		b[i] ^= 0xA5
	}
}

func guard(f func()) (msg string, ok bool) {
	defer func() {
		if x := recover(); x != nil {
			msg = fmt.Sprintf("%v", x)
			ok = false
		}
	}()
	f()
	return "", true
}

func (im *Impl) encode(r *wire.R, w *wire.W) {
	mode, a, b := r.U8(), r.U32(), r.U32()
	prefix := r.Bytes()
	n := int(r.U32())
	vals := make([]Input, 0, n)
	for i := 0; i < n && !r.Bad; i++ {
		vals = append(vals, own(wire.GetValue(r)))
	}
	var got, again []byte
	changed := false
	msg, ok := guard(func() {
		buf := im.NewBuf(mode, a, b)
		if len(prefix) > 0 {
			buf.Write(prefix)
		}
		for _, v := range vals {
			before := string(v.Data)
			buf.Encode(v)
			if string(v.Data) != before {
				changed = true
			}
		}
		got = append([]byte{}, buf.Bytes()...)
		if buf.Len() != len(got) {
			panic(fmt.Sprintf("buffer length %d but %d bytes", buf.Len(), len(got)))
		}
		for _, v := range vals {
			scribble(v.Data)
		}
		again = append([]byte{}, buf.Bytes()...)
	})
	if !ok {
		w.U8(wire.Panic)
		w.Str(msg)
		return
	}
	w.U8(wire.OK)
	var fl byte
	if string(again) != string(got) {
		fl |= 1
	}
	if changed {
		fl |= 2
	}
	w.U8(fl)
	w.Bytes(got)
}

func (o Out) dump(kind byte) wire.Result {
	res := wire.Result{Num: o.Num}
	switch kind {
	case wire.Bytes:
		res.Data = append([]byte{}, o.B...)
	case wire.String:
		res.Data = []byte(o.S)
	case wire.Error:
		if o.E != nil {
			res.Data = []byte(o.E.Error())
		}
	}
	return res
}

func (im *Impl) runReads(dec Dec, reads []wire.Read, measure bool) (outs []Out, results []wire.Result) {
	var m0, m1 runtime.MemStats
	for _, rd := range reads {
		var scratch []byte
		if rd.Kind == wire.Bytes && rd.Scratch >= 0 {
			scratch = make([]byte, int(rd.Scratch), int(rd.Scratch)+int(rd.ScratchCap))
			full := scratch[:cap(scratch)]
			for i := range full {
				full[i] = 0xEE
			}
		}
		var o Out
		if measure {
			runtime.ReadMemStats(&m0)
		}
		msg, ok := guard(func() { o = dec.Read(rd, scratch) })
		var alloc uint64
		if measure {
			runtime.ReadMemStats(&m1)
			alloc = m1.TotalAlloc - m0.TotalAlloc
		}
		outs = append(outs, o)
		var res wire.Result
		switch {
		case !ok:
			res = wire.Result{Status: wire.Panic, Err: msg}
		case o.Fail:
			res = wire.Result{Status: wire.Failed, Err: im.ErrName(o.Err)}
		default:
			res = o.dump(rd.Kind)
		}
		res.Remain = dec.Remain()
		res.Alloc = alloc
		results = append(results, res)
		if !ok {
			break
		}
	}
	return
}

func (im *Impl) decode(r *wire.R, w *wire.W) {
	flags := r.U8()
	in := append([]byte{}, r.Bytes()...)
	orig := string(in)
	n := int(r.U32())
	reads := make([]wire.Read, 0, n)
	for i := 0; i < n && !r.Bad; i++ {
		reads = append(reads, wire.GetRead(r))
	}
	dec := im.NewDec(in)
	outs, results := im.runReads(dec, reads, flags&2 != 0)
	var fl byte
	if string(in) != orig {
		fl |= 1
	}
	if flags&1 != 0 {
		scribble(in)
		for i, o := range outs {
			if results[i].Status != wire.OK {
				continue
			}
			again := o.dump(reads[i].Kind)
			if string(again.Data) != string(results[i].Data) {
				fl |= 2
			}
		}
		// Overwriting decoded byte slices must not reach the input either.
		for i := range in {
			in[i] = 0x5A
		}
		for i, o := range outs {
			if results[i].Status == wire.OK && reads[i].Kind == wire.Bytes {
				b := o.B[:cap(o.B)]
				for j := range b {
					b[j] = 0xC3
				}
			}
		}
		for i := range in {
			if in[i] != 0x5A {
				fl |= 4
				break
			}
		}
	}
	dec.Release()
	w.U8(fl)
	w.U32(uint32(len(results)))
	for i, res := range results {
		wire.PutResult(w, reads[i].Kind, res)
	}
}

// buffer runs a history over one buffer and reports its state after every step.
func (im *Impl) buffer(r *wire.R, w *wire.W) {
	mode, a, b := r.U8(), r.U32(), r.U32()
	var buf Buf
	msg, ok := guard(func() { buf = im.NewBuf(mode, a, b) })
	state := func(st byte, ret uint32, msg string) {
		w.U8(st)
		if st != wire.OK {
			w.Str(msg)
			return
		}
		w.U32(ret)
		w.U32(uint32(buf.Len()))
		w.U32(uint32(buf.Cap()))
		w.Bytes(buf.Bytes())
	}
	if !ok {
		state(wire.Panic, 0, msg)
		return
	}
	state(wire.OK, 0, "")
	n := int(r.U32())
	for i := 0; i < n && !r.Bad; i++ {
		var ret uint32
		var do func()
		switch op := r.U8(); op {
		case 0:
			data := append([]byte{}, r.Bytes()...)
			do = func() { ret = uint32(buf.Write(data)); scribble(data) }
		case 1:
			v := own(wire.GetValue(r))
			do = func() { buf.Encode(v); scribble(v.Data) }
		case 2:
			k := int(r.U32())
			do = func() { buf.Grow(k) }
		case 3:
			k := int(int32(r.U32()))
			do = func() { buf.Move(k) }
		case 4:
			do = func() { buf.Reset() }
		case 5:
			data := r.Bytes()
			do = func() {
				buf.Grow(len(data))
				s := buf.Bytes()
				n := len(s)
				copy(s[n:n+len(data)], data)
				buf.Move(len(data))
			}
		}
		var m string
		var good bool
		m, good = guard(func() { do() })
		if !good {
			state(wire.Panic, 0, m)
			return
		}
		var st wire.W
		m, good = guard(func() {
			save := w.B
			state(wire.OK, ret, "")
			st.B = w.B
			w.B = save
		})
		if !good {
			state(wire.Panic, 0, m)
			return
		}
		w.B = st.B
	}
}

// pool runs a history of gets, uses and puts over several pools.
//
//	0 get(pool)->slot   1 put(slot)   2 write(slot,data)   3 putNil(pool)   4 encode(slot,value)
//	5 getDecoder(bytes)->slot   6 read(slot)   7 return(slot)   8 gc
func (im *Impl) poolHistory(r *wire.R, w *wire.W) {
	type slot struct {
		b    Buf
		d    Dec
		pool int
	}
	slots := map[uint32]*slot{}
	im.ZeroPool(int(r.U8()))
	n := int(r.U32())
	for i := 0; i < n && !r.Bad; i++ {
		op := r.U8()
		var rec wire.W
		var do func()
		switch op {
		case 0:
			pool, id := int(r.U8()), r.U32()
			do = func() {
				b := im.PoolGet(pool)
				shared := byte(0)
				for _, s := range slots {
					if s.b != nil && s.b.ID() == b.ID() {
						shared = 1
					}
				}
				slots[id] = &slot{b: b, pool: pool}
				rec.U8(shared)
				rec.U32(uint32(b.Len()))
				rec.Bytes(b.Bytes())
			}
		case 1:
			id := r.U32()
			do = func() { s := slots[id]; delete(slots, id); im.PoolPut(s.pool, s.b) }
		case 2:
			id, data := r.U32(), r.Bytes()
			do = func() { s := slots[id]; s.b.Write(data); rec.Bytes(s.b.Bytes()) }
		case 3:
			pool := int(r.U8())
			do = func() { im.PoolNil(pool) }
		case 4:
			id := r.U32()
			v := own(wire.GetValue(r))
			do = func() { s := slots[id]; s.b.Encode(v); rec.Bytes(s.b.Bytes()) }
		case 5:
			id := r.U32()
			in := append([]byte{}, r.Bytes()...)
			do = func() {
				d := im.NewDec(in)
				shared := byte(0)
				for _, s := range slots {
					if s.d != nil && s.d.ID() == d.ID() {
						shared = 1
					}
				}
				slots[id] = &slot{d: d}
				rec.U8(shared)
			}
		case 6:
			id := r.U32()
			rd := wire.GetRead(r)
			do = func() {
				_, res := im.runReads(slots[id].d, []wire.Read{rd}, false)
				wire.PutResult(&rec, rd.Kind, res[0])
			}
		case 7:
			id := r.U32()
			do = func() { s := slots[id]; delete(slots, id); s.d.Release() }
		case 8:
			do = func() { runtime.GC() }
		}
		msg, ok := guard(do)
		if !ok {
			w.U8(wire.Panic)
			w.Str(msg)
			return
		}
		w.U8(wire.OK)
		w.B = append(w.B, rec.B...)
	}
}

// concurrent runs independent workloads at once. Each workload encodes its values (over a pooled or private buffer),
// then decodes the bytes, `rounds` times; the bytes and read results of every round are compared with the first.
func (im *Impl) concurrent(r *wire.R, w *wire.W) {
	nw, rounds := int(r.U8()), int(r.U32())
	type load struct {
		pooled bool
		vals   []Input
		reads  []wire.Read
		bytes  []byte
		res    wire.W
		diff   string
	}
	loads := make([]*load, nw)
	for i := range loads {
		l := &load{pooled: r.U8() != 0}
		n := int(r.U32())
		for j := 0; j < n && !r.Bad; j++ {
			l.vals = append(l.vals, own(wire.GetValue(r)))
		}
		n = int(r.U32())
		for j := 0; j < n && !r.Bad; j++ {
			l.reads = append(l.reads, wire.GetRead(r))
		}
		loads[i] = l
	}
	im.ZeroPool(2)
	var wg sync.WaitGroup
	start := make(chan struct{})
	for _, l := range loads {
		wg.Add(1)
		go func(l *load) {
			defer wg.Done()
			<-start
			msg, ok := guard(func() {
				for k := 0; k < rounds && l.diff == ""; k++ {
					var b Buf
					if l.pooled {
						b = im.PoolGet(k % 2)
						if b.Len() != 0 {
							l.diff = fmt.Sprintf("round %d: pooled buffer not empty", k)
							return
						}
					} else {
						b = im.NewBuf(0, 0, 0)
					}
					for _, v := range l.vals {
						b.Encode(v)
						if k%3 == 0 {
							runtime.Gosched()
						}
					}
					got := append([]byte{}, b.Bytes()...)
					d := im.NewDec(got)
					var res wire.W
					_, results := im.runReads(d, l.reads, false)
					for i, x := range results {
						wire.PutResult(&res, l.reads[i].Kind, x)
					}
					d.Release()
					if l.pooled {
						im.PoolPut(k%2, b)
					}
					if k == 0 {
						l.bytes, l.res = got, res
					} else if string(got) != string(l.bytes) {
						l.diff = fmt.Sprintf("round %d encoded %x, round 0 %x", k, got, l.bytes)
					} else if string(res.B) != string(l.res.B) {
						l.diff = fmt.Sprintf("round %d decoded differently from round 0", k)
					}
				}
			})
			if !ok {
				l.diff = "panic: " + msg
			}
		}(l)
	}
	close(start)
	wg.Wait()
	for _, l := range loads {
		w.Str(l.diff)
		w.Bytes(l.bytes)
		w.Bytes(l.res.B)
	}
}

// interleaved keeps several encoders and decoders in use at once in one goroutine and takes their steps in the order
// given: a session's next encode or, with the top bit set, its next read. All results are looked at when everything is over.
func (im *Impl) interleaved(r *wire.R, w *wire.W) {
	type session struct {
		mode    byte
		a, b    uint32
		vals    []Input
		in      []byte
		reads   []wire.Read
		buf     Buf
		dec     Dec
		outs    []Out
		results []wire.Result
		nv, nr  int
		diff    string
	}
	ss := make([]*session, int(r.U8()))
	for i := range ss {
		s := &session{mode: r.U8(), a: r.U32(), b: r.U32()}
		n := int(r.U32())
		for j := 0; j < n && !r.Bad; j++ {
			s.vals = append(s.vals, own(wire.GetValue(r)))
		}
		s.in = append([]byte{}, r.Bytes()...)
		n = int(r.U32())
		for j := 0; j < n && !r.Bad; j++ {
			s.reads = append(s.reads, wire.GetRead(r))
		}
		ss[i] = s
	}
	order := append([]byte{}, r.Bytes()...)
	step := func(s *session, read bool) bool {
		if s.diff != "" || read && s.nr == len(s.reads) || !read && s.nv == len(s.vals) {
			return false
		}
		msg, ok := guard(func() {
			if read {
				if s.dec == nil {
					s.dec = im.NewDec(s.in)
				}
				o, res := im.runReads(s.dec, s.reads[s.nr:s.nr+1], false)
				s.outs, s.results = append(s.outs, o...), append(s.results, res...)
				s.nr++
				if s.nr == len(s.reads) {
					s.dec.Release()
				}
				return
			}
			if s.buf == nil {
				s.buf = im.NewBuf(s.mode, s.a, s.b)
			}
			s.buf.Encode(s.vals[s.nv])
			s.nv++
		})
		if !ok {
			s.diff = "panic: " + msg
		}
		return true
	}
	for _, x := range order {
		step(ss[int(x&0x7f)%len(ss)], x&0x80 != 0)
	}
	for _, s := range ss {
		for step(s, false) {
		}
		for step(s, true) {
		}
	}
	for _, s := range ss {
		w.Str(s.diff)
		var b []byte
		if s.buf != nil {
			b = s.buf.Bytes()
		}
		w.Bytes(b)
		var res wire.W
		for i, x := range s.results {
			if x.Status == wire.OK {
				again := s.outs[i].dump(s.reads[i].Kind)
				x.Num, x.Data = again.Num, again.Data
			}
			wire.PutResult(&res, s.reads[i].Kind, x)
		}
		w.Bytes(res.B)
	}
}

// holders has several goroutines take objects from shared pools, hold some at once, use them and return them. What is
// taken must be empty and in no other hands, and keep its contents while it is held. It answers the first fault.
func (im *Impl) holders(r *wire.R, w *wire.W) {
	workers, rounds, hold, npools, yield := int(r.U8()), int(r.U32()), int(r.U8()), int(r.U8()), int(r.U8())
	im.ZeroPool(npools)
	var owners sync.Map
	var faults sync.Map
	var stop atomic.Bool
	fail := func(format string, a ...any) {
		faults.LoadOrStore(0, fmt.Sprintf(format, a...))
		stop.Store(true)
	}
	claim := func(kind string, id uintptr, who int) {
		if other, taken := owners.LoadOrStore(id, who); taken {
			fail("worker %d was handed a %s that worker %d still holds", who, kind, other)
		}
	}
	type item struct {
		b    Buf
		d    Dec
		pool int
		want []byte
		vals []uint32
	}
	var wg sync.WaitGroup
	start := make(chan struct{})
	for g := 0; g < workers; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			<-start
			msg, ok := guard(func() {
				items := make([]item, hold)
				for k := 0; k < rounds && !stop.Load(); k++ {
					n := 1 + (g+k)%hold
					for i := 0; i < n; i++ {
						it := &items[i]
						*it = item{pool: (g*3 + k + i) % (npools + 1)}
						it.b = im.PoolGet(it.pool)
						claim("buffer", it.b.ID(), g)
						if it.b.Len() != 0 || len(it.b.Bytes()) != 0 {
							fail("worker %d was handed a buffer that holds %x", g, it.b.Bytes())
						}
						it.vals = []uint32{uint32(g), uint32(k), uint32(i)}
						for _, v := range it.vals {
							it.b.Encode(Input{Value: wire.Value{Kind: wire.Uint32, Num: uint64(v)}})
						}
						it.want = append([]byte{}, it.b.Bytes()...)
						it.d = im.NewDec(it.want)
						if id := it.d.ID(); id != 0 {
							claim("decoder", id, g)
						}
					}
					for y := 0; y < yield; y++ {
						runtime.Gosched()
					}
					for i := 0; i < n; i++ {
						it := &items[i]
						if string(it.b.Bytes()) != string(it.want) {
							fail("worker %d: the buffer it holds changed from %x to %x", g, it.want, it.b.Bytes())
						}
						for _, v := range it.vals {
							if o := it.d.Read(wire.Read{Kind: wire.Uint32}, nil); o.Fail || uint32(o.Num) != v {
								fail("worker %d: its decoder read %d (failed: %v), not %d", g, o.Num, o.Fail, v)
							}
						}
						owners.Delete(it.b.ID())
						owners.Delete(it.d.ID())
						im.PoolPut(it.pool, it.b)
						it.d.Release()
						if k%7 == 3 {
							im.PoolNil(it.pool)
						}
					}
				}
			})
			if !ok {
				fail("worker %d panics: %s", g, msg)
			}
		}(g)
	}
	close(start)
	wg.Wait()
	text := ""
	if f, ok := faults.Load(0); ok {
		text = f.(string)
	}
	w.Str(text)
}

// identity encodes and decodes an error and reports how it compares with others.
func (im *Impl) identity(r *wire.R, w *wire.W) {
	msg := r.Str()
	n := int(r.U32())
	others := make([]string, 0, n)
	for i := 0; i < n && !r.Bad; i++ {
		others = append(others, r.Str())
	}
	m, ok := guard(func() {
		b := im.NewBuf(0, 0, 0)
		b.Encode(Input{Value: wire.Value{Kind: wire.Error, Data: []byte(msg)}, Str: msg, Err: makeErr(msg)})
		d := im.NewDec(append([]byte{}, b.Bytes()...))
		o := d.Read(wire.Read{Kind: wire.Error}, nil)
		if o.Fail || o.E == nil {
			panic(fmt.Sprintf("error did not decode: %v", o.Err))
		}
		d.Release()
		// and once more: an error that was itself decoded is encoded again
		b2 := im.NewBuf(0, 0, 0)
		b2.Encode(Input{Value: wire.Value{Kind: wire.Error, Data: []byte(msg)}, Str: msg, Err: o.E})
		var rec wire.W
		rec.Str(o.E.Error())
		rec.U8(bit(string(b2.Bytes()) == string(b.Bytes())))
		for _, s := range others {
			rec.U8(bit(errors.Is(o.E, errors.New(s))))
			rec.U8(bit(errors.Is(o.E, im.MakeErr(s))))
			rec.U8(bit(errors.Is(fmt.Errorf("wrapped: %w", o.E), errors.New(s))))
			rec.U8(bit(errors.Is(im.MakeErr(s), o.E)))
		}
		rec.U8(bit(errors.Is(o.E, nil)))
		w.U8(wire.OK)
		w.B = append(w.B, rec.B...)
	})
	if !ok {
		w.U8(wire.Panic)
		w.Str(m)
	}
}

// huge encodes and decodes one payload of n bytes (pattern-filled) and reports the header and whether the rest matches.
func (im *Impl) huge(r *wire.R, w *wire.W) {
	kind, n := r.U8(), int(r.U32())
	msg, ok := guard(func() {
		data := make([]byte, n)
		for i := range data {
			data[i] = byte('a' + i%23)
		}
		str := unsafe.String(unsafe.SliceData(data), n)
		b := im.NewBuf(0, 0, 0)
		b.Encode(Input{Value: wire.Value{Kind: kind, Data: data}, Str: str, Err: &textErr{str}})
		got := b.Bytes()
		h := min(len(got), 16)
		tail := len(got) - n
		same := tail >= 0 && string(got[tail:]) == str
		d := im.NewDec(got)
		o := d.Read(wire.Read{Kind: kind, Scratch: -1}, nil)
		back := false
		if !o.Fail {
			switch kind {
			case wire.Bytes:
				back = string(o.B) == str
			case wire.String:
				back = o.S == str
			case wire.Error:
				back = o.E != nil && o.E.Error() == str
			}
		}
		w.U8(wire.OK)
		w.U32(uint32(len(got)))
		w.Bytes(got[:h])
		w.U8(bit(same))
		w.U8(bit(back))
	})
	if !ok {
		w.U8(wire.Panic)
		w.Str(msg)
	}
	debug.FreeOSMemory()
}

// long encodes the given values over and over into one buffer and reads them back with one decoder. It reports the length
// of the output, where it first differs from the expected repetition, how much was allocated for encoding and for decoding
// (of all but the last round), how many reads failed, and the results of the last round.
func (im *Impl) long(r *wire.R, w *wire.W) {
	mode, a, b := r.U8(), r.U32(), r.U32()
	raw := r.U8() == 1
	rounds := int(r.U32())
	unit := append([]byte{}, r.Bytes()...)
	vals := make([]Input, int(r.U32()))
	for i := range vals {
		vals[i] = own(wire.GetValue(r))
	}
	reads := make([]wire.Read, int(r.U32()))
	for i := range reads {
		reads[i] = wire.GetRead(r)
	}
	if r.Bad {
		return
	}
	msg, ok := guard(func() {
		var m0, m1, m2, m3 runtime.MemStats
		buf := im.NewBuf(mode, a, b)
		start := buf.Len()
		runtime.ReadMemStats(&m0)
		for k := 0; k < rounds; k++ {
			if raw {
				buf.Write(unit)
				continue
			}
			for i := range vals {
				buf.Encode(vals[i])
			}
		}
		got := buf.Bytes()
		runtime.ReadMemStats(&m1)
		got = got[start:]
		at := -1
		for i, c := range got {
			if c != unit[i%len(unit)] {
				at = i
				break
			}
		}
		fails := 0
		dec := im.NewDec(got)
		runtime.ReadMemStats(&m2)
		for k := 0; k < rounds-1; k++ {
			for _, rd := range reads {
				if dec.Read(rd, nil).Fail {
					fails++
				}
			}
		}
		runtime.ReadMemStats(&m3)
		_, results := im.runReads(dec, reads, false)
		dec.Release()
		w.U8(wire.OK)
		w.U32(uint32(len(got)))
		w.U32(uint32(at))
		w.U64(m1.TotalAlloc - m0.TotalAlloc)
		w.U64(m3.TotalAlloc - m2.TotalAlloc)
		w.U32(uint32(fails))
		w.U32(uint32(len(results)))
		for i, res := range results {
			wire.PutResult(w, reads[i].Kind, res)
		}
	})
	if !ok {
		w.B = w.B[:0]
		w.U8(wire.Panic)
		w.Str(msg)
	}
}

func bit(b bool) byte {
	if b {
		return 1
	}
	return 0
}

func Serve(im *Impl) {
	in := bufio.NewReaderSize(os.Stdin, 1<<16)
	out := bufio.NewWriterSize(os.Stdout, 1<<16)
	var frame []byte
	for {
		var err error
		frame, err = wire.ReadFrame(in, frame)
		if err != nil {
			return
		}
		r := &wire.R{B: frame, Pos: 1}
		w := &wire.W{}
		switch frame[0] {
		case 'E':
			im.encode(r, w)
		case 'D':
			im.decode(r, w)
		case 'B':
			im.buffer(r, w)
		case 'P':
			im.poolHistory(r, w)
		case 'C':
			im.concurrent(r, w)
		case 'V':
			im.interleaved(r, w)
		case 'I':
			im.identity(r, w)
		case 'H':
			im.holders(r, w)
		case 'G':
			im.huge(r, w)
		case 'L':
			im.long(r, w)
		}
		if r.Bad {
			fmt.Fprintln(os.Stderr, "adapter: malformed request")
			os.Exit(3)
		}
		if err := wire.WriteFrame(out, w.B); err != nil {
			return
		}
	}
}

// Errors of several kinds: what travels is the text Error gives, whatever else there is to an error.
type (
	wrapErr struct { // wraps an error with another text
		s     string
		cause error
	}
	joinErr struct { // stands for several errors
		s string
		l []error
	}
	stringErr string
	oddErr    struct{ s string } // has an opinion on being compared and formatted
)

func (e *wrapErr) Error() string  { return e.s }
func (e *wrapErr) Unwrap() error  { return e.cause }
func (e joinErr) Error() string   { return e.s }
func (e joinErr) Unwrap() []error { return e.l }
func (e stringErr) Error() string { return string(e) }
func (e oddErr) Error() string    { return e.s }
func (e oddErr) Is(error) bool    { return true }
func (e oddErr) String() string   { return "String of oddErr" }
func (e oddErr) GoString() string { return "GoString of oddErr" }
func (e oddErr) Format(f fmt.State, _ rune) {
	f.Write([]byte("Format of oddErr"))
}

func makeErr(msg string) error {
	h := uint32(len(msg))
	for i := 0; i < len(msg) && i < 16; i++ {
		h = h*31 + uint32(msg[i])
	}
	switch h % 7 {
	case 0:
		return errors.New(msg)
	case 1:
		return &wrapErr{msg, errors.New("cause")}
	case 2:
		return &wrapErr{msg, &wrapErr{"cause", io.EOF}}
	case 3:
		return joinErr{msg, []error{errors.New("first"), errors.New("second")}}
	case 4:
		return stringErr(msg)
	case 5:
		return oddErr{msg}
	}
	return &textErr{msg}
}
