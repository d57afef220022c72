package prop

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"strings"

	"pgregory.net/rapid"

	"verif/harness/gen"
	"verif/harness/ref"
	"verif/harness/wire"
)

// ---- P09: buffer histories against a byte-list model ----

type bufOp struct {
	Op    byte // 0 write, 1 encode, 2 grow, 3 move, 4 reset, 5 direct write (grow, fill the space behind the contents, move over it)
	Data  []byte
	Value wire.Value
	N     int32
}

type bufCase struct {
	Impl string
	Ctor gen.Ctor
	Ops  []bufOp
}

func (o bufOp) text() string {
	switch o.Op {
	case 0:
		return "write " + hexs(o.Data)
	case 1:
		return "encode " + o.Value.Describe()
	case 2:
		return fmt.Sprintf("grow %d", o.N)
	case 3:
		return fmt.Sprintf("move %d", o.N)
	case 4:
		return "reset"
	case 6:
		return "clear"
	}
	return "direct " + hexs(o.Data)
}

func (c bufCase) text() string {
	var s []string
	for _, o := range c.Ops {
		s = append(s, o.text())
	}
	return fmt.Sprintf("%s mode %d (%d,%d): %s", c.Impl, c.Ctor.Mode, c.Ctor.A, c.Ctor.B, strings.Join(s, "; "))
}

// largeN draws a size between 1 KiB and 4 MiB.
func largeN(t *rapid.T, label string) int {
	return max(0, 1<<rapid.IntRange(10, 21).Draw(t, label)+rapid.IntRange(0, 3).Draw(t, label+"?")*rapid.IntRange(-512, 1<<16).Draw(t, label+"+"))
}

func genBuf(t *rapid.T, impl string, large bool) bufCase {
	o := optsFor(impl)
	c := bufCase{Impl: impl}
	if c.Ctor = gen.Mode(t, modes[impl]); impl == "rust" {
		c.Ctor = gen.Mode(t, 3) // 3: over earlier contents
	}
	n := 0
	if large {
		if n = rapid.IntRange(2, 7).Draw(t, "ops"); c.Ctor.Mode != 0 && rapid.IntRange(0, 2).Draw(t, "largector?") == 0 {
			c.Ctor.A = uint32(largeN(t, "a"))
		}
	} else if n = rapid.IntRange(1, 25).Draw(t, "ops"); rapid.IntRange(0, 9).Draw(t, "many?") == 0 {
		n = rapid.IntRange(25, 120).Draw(t, "ops")
	}
	ops := map[string][]byte{"gov1": {0, 0, 1, 1, 1, 4}, "gov2": {0, 0, 0, 1, 1, 1, 1, 2, 2, 3, 4, 5}, "ts": {1}, "rust": {0, 0, 1, 1, 1, 1, 3, 4, 6}}[impl]
	length := 0
	for i := 0; i < n; i++ {
		op := bufOp{Op: rapid.SampledFrom(ops).Draw(t, "op")}
		if op.Op&^2 == 4 && rapid.IntRange(0, 1).Draw(t, "reallyreset?") == 0 {
			op.Op = 1
		}
		switch op.Op {
		case 0, 5:
			n := gen.Length(t, gen.Opts{Big: true}, "n")
			if large && rapid.IntRange(0, 3).Draw(t, "large?") > 0 {
				n = largeN(t, "n")
			}
			op.Data = gen.Payload(t, n, "data")
			length += len(op.Data)
		case 1:
			if large && rapid.IntRange(0, 2).Draw(t, "large?") > 0 {
				op.Value = wire.Value{Kind: wire.Bytes, Data: gen.Payload(t, largeN(t, "n"), "v")}
			} else {
				op.Value = gen.Value(t, o, "v")
			}
			length += len(ref.Append(nil, op.Value))
		case 2:
			if op.N = int32(gen.Length(t, gen.Opts{}, "grow")); large {
				op.N = int32(largeN(t, "grow"))
			}
		case 3: // only backwards: dropping what was written last
			back := min(length, 20)
			if large || rapid.IntRange(0, 4).Draw(t, "far?") == 0 {
				back = length
			}
			op.N = -int32(rapid.IntRange(0, back).Draw(t, "back"))
			length += int(op.N)
		case 4, 6:
			length = 0
		}
		c.Ops = append(c.Ops, op)
	}
	return c
}

func checkBuf(e *Env, c bufCase) *Fail {
	w := &wire.W{}
	w.U8(c.Ctor.Mode)
	w.U32(c.Ctor.A)
	w.U32(c.Ctor.B)
	w.U32(uint32(len(c.Ops)))
	for _, o := range c.Ops {
		w.U8(o.Op)
		switch o.Op {
		case 0, 5:
			w.Bytes(o.Data)
		case 1:
			wire.PutValue(w, o.Value)
		case 2, 3:
			w.U32(uint32(o.N))
		}
	}
	r := e.A(c.Impl).Do('B', w.B)
	var model []byte
	var vs []wire.Value // values since the model was last byte-exact, for NaN in TypeScript
	step := func(i int) *Fail {
		name := "construction"
		if i >= 0 {
			name = fmt.Sprintf("step %d (%s)", i, c.Ops[i].text())
		}
		if st := r.U8(); st != wire.OK {
			return failf("%s: %s of [%s] failed: %s", title[c.Impl], name, c.text(), r.Str())
		}
		ret, n, capacity := r.U32(), r.U32(), r.U32()
		b := r.Bytes()
		if r.Bad {
			infra("%s: short buffer answer", c.Impl)
		}
		if int(n) != len(b) {
			return failf("%s: after %s of [%s] Len is %d but Bytes has %d", title[c.Impl], name, c.text(), n, len(b))
		}
		if !canonical2(c.Impl, b, model, vs) {
			at := diffAt(b, model)
			return failf("%s: after %s the buffer differs from what was written at offset %d of %d/%d: got %s, want %s [%s]", title[c.Impl], name, at, len(b), len(model), hexs(b[min(at, len(b)):]), hexs(model[min(at, len(model)):]), c.text())
		}
		if i >= 0 {
			o := c.Ops[i]
			if o.Op == 0 && int(ret) != len(o.Data) {
				return failf("%s: %s reports %d bytes written of %d [%s]", title[c.Impl], name, ret, len(o.Data), c.text())
			}
			if c.Impl == "gov2" && o.Op == 2 && int(capacity)-int(n) < int(o.N) {
				return failf("%s: after %s there is room for %d bytes only (length %d, capacity %d) [%s]", title[c.Impl], name, int(capacity)-int(n), n, capacity, c.text())
			}
		}
		return nil
	}
	if f := step(-1); f != nil {
		return f
	}
	for i, o := range c.Ops {
		switch o.Op {
		case 0, 5:
			model = append(model, o.Data...)
		case 1:
			v := o.Value
			if c.Impl == "ts" {
				v = jsNaN("ts", []wire.Value{v})[0]
				vs = append(vs, v)
			}
			model = ref.Append(model, v)
		case 3:
			model = model[:len(model)+int(o.N)]
		case 4, 6:
			model = nil
		}
		if f := step(i); f != nil {
			return f
		}
	}
	return nil
}

func canonical2(impl string, got, want []byte, vs []wire.Value) bool {
	if impl == "ts" {
		return canonical(impl, got, want, vs)
	}
	return string(got) == string(want)
}

func classBuf(c bufCase) Class {
	var l []string
	room, length, grew, back, reset := 512, 0, 0, 0, 0
	switch {
	case c.Ctor.Mode == 1 || c.Ctor.Mode == 2:
		room = int(c.Ctor.A)
	case c.Ctor.Mode == 3:
		room = 0
	}
	for _, o := range c.Ops {
		n := len(o.Data)
		switch o.Op {
		case 1:
			n = len(ref.Append(nil, o.Value))
		case 3:
			back++
			length += int(o.N)
		case 4, 6:
			reset++
			length = 0
		case 5:
			l = append(l, "direct")
		}
		length += n
		if length > room {
			grew++
			room = 2 * length
		}
	}
	if grew > 0 {
		l = append(l, "outgrows-initial-size")
	}
	if grew > 1 {
		l = append(l, "grows-repeatedly")
	}
	if back > 0 {
		l = append(l, "moved-back")
	}
	if reset > 0 {
		l = append(l, "reset")
	}
	l = append(l, fmt.Sprintf("mode%d", c.Ctor.Mode))
	return Class{NonTrivial: grew > 0 && len(c.Ops) >= 3, Labels: dedupe(l)}
}

// ---- P10: pool histories ----

type poolOp struct {
	Op    byte // as in kit: 0 get 1 put 2 write 3 putNil 4 encode 5 getDecoder 6 read 7 return 8 gc
	Pool  byte
	Slot  uint32
	Data  []byte
	Value wire.Value
	Read  wire.Read
}

type poolCase struct {
	Impl  string
	Pools byte // pools besides the package-level one
	Ops   []poolOp
}

func (c poolCase) text() string {
	var s []string
	for _, o := range c.Ops {
		switch o.Op {
		case 0:
			s = append(s, fmt.Sprintf("#%d=get(pool %d)", o.Slot, o.Pool))
		case 1:
			s = append(s, fmt.Sprintf("put(#%d)", o.Slot))
		case 2:
			s = append(s, fmt.Sprintf("#%d.write(%s)", o.Slot, hexs(o.Data)))
		case 3:
			s = append(s, fmt.Sprintf("put(pool %d, nil)", o.Pool))
		case 4:
			s = append(s, fmt.Sprintf("#%d.encode(%s)", o.Slot, o.Value.Describe()))
		case 5:
			s = append(s, fmt.Sprintf("#%d=decoder(%s)", o.Slot, hexs(o.Data)))
		case 6:
			s = append(s, fmt.Sprintf("#%d.read(%s)", o.Slot, o.Read.Describe()))
		case 7:
			s = append(s, fmt.Sprintf("return(#%d)", o.Slot))
		case 8:
			s = append(s, "gc")
		}
	}
	return c.Impl + ": " + strings.Join(s, "; ")
}

// genPool builds legal histories: a slot is used only between its get and its put.
func genPool(t *rapid.T, impl string) poolCase {
	c := poolCase{Impl: impl, Pools: byte(rapid.IntRange(0, 2).Draw(t, "pools"))}
	o := optsFor(impl)
	o.Big = false
	type dslot struct {
		in  []byte
		pos int
	}
	var bufs []uint32
	var decs []uint32
	dstate := map[uint32]*dslot{}
	next := uint32(0)
	n := rapid.IntRange(2, 40).Draw(t, "ops")
	for i := 0; i < n; i++ {
		kind := rapid.IntRange(0, 11).Draw(t, "op")
		if impl == "gov1" && kind <= 5 { // v1 pools decoders only
			kind = 6 + kind
		}
		switch {
		case kind <= 1 && impl == "gov2":
			c.Ops = append(c.Ops, poolOp{Op: 0, Pool: byte(rapid.IntRange(0, int(c.Pools)).Draw(t, "pool")), Slot: next})
			bufs = append(bufs, next)
			next++
		case kind == 2 && len(bufs) > 0:
			k := rapid.IntRange(0, len(bufs)-1).Draw(t, "slot")
			c.Ops = append(c.Ops, poolOp{Op: 1, Slot: bufs[k]})
			bufs = append(bufs[:k:k], bufs[k+1:]...)
		case (kind == 3 || kind == 4) && len(bufs) > 0:
			op := poolOp{Op: byte(2 * (kind - 2)), Slot: rapid.SampledFrom(bufs).Draw(t, "slot")}
			if op.Op == 2 {
				n := gen.Length(t, o, "n")
				if rapid.IntRange(0, 39).Draw(t, "large?") == 0 { // pools may treat large buffers differently
					n = rapid.SampledFrom([]int{1 << 12, 1 << 14, 1 << 15, 1<<16 - 1, 1 << 16, 1<<16 + 1, 1 << 17, 1 << 18, 1 << 20}).Draw(t, "large")
				}
				op.Data = gen.Payload(t, n, "data")
			} else {
				op.Value = gen.Value(t, o, "v")
			}
			c.Ops = append(c.Ops, op)
		case kind == 5:
			c.Ops = append(c.Ops, poolOp{Op: 3, Pool: byte(rapid.IntRange(0, int(c.Pools)).Draw(t, "pool"))})
		case kind <= 7:
			in := ref.Encode(gen.Values(t, o, 0, 4))
			c.Ops = append(c.Ops, poolOp{Op: 5, Slot: next, Data: in})
			dstate[next] = &dslot{in: in}
			decs = append(decs, next)
			next++
		case kind <= 9 && len(decs) > 0:
			s := rapid.SampledFrom(decs).Draw(t, "slot")
			d := dstate[s]
			rd, ok := ref.Next(d.in, d.pos)
			if !ok || rapid.IntRange(0, 4).Draw(t, "stray?") == 0 {
				rd = gen.Read(t, o, "read")
			}
			if x := ref.Decode(d.in, d.pos, rd); x.Class == ref.Good || x.Class == ref.BadText {
				d.pos = x.Next
			}
			c.Ops = append(c.Ops, poolOp{Op: 6, Slot: s, Read: rd})
		case kind == 10 && len(decs) > 0:
			k := rapid.IntRange(0, len(decs)-1).Draw(t, "slot")
			c.Ops = append(c.Ops, poolOp{Op: 7, Slot: decs[k]})
			decs = append(decs[:k:k], decs[k+1:]...)
		case kind == 11 && rapid.IntRange(0, 9).Draw(t, "gc?") == 0:
			c.Ops = append(c.Ops, poolOp{Op: 8})
		case kind == 11 && impl == "gov1":
			c.Ops = append(c.Ops, poolOp{Op: 3})
		}
	}
	return c
}

func checkPool(e *Env, c poolCase) *Fail {
	w := &wire.W{}
	w.U8(c.Pools)
	w.U32(uint32(len(c.Ops)))
	for _, o := range c.Ops {
		w.U8(o.Op)
		switch o.Op {
		case 0:
			w.U8(o.Pool)
			w.U32(o.Slot)
		case 1, 7:
			w.U32(o.Slot)
		case 2, 5:
			w.U32(o.Slot)
			w.Bytes(o.Data)
		case 3:
			w.U8(o.Pool)
		case 4:
			w.U32(o.Slot)
			wire.PutValue(w, o.Value)
		case 6:
			w.U32(o.Slot)
			wire.PutRead(w, o.Read)
		}
	}
	r := e.A(c.Impl).Do('P', w.B)
	model := map[uint32][]byte{}
	type dslot struct {
		in  []byte
		pos int
	}
	decs := map[uint32]*dslot{}
	for i, o := range c.Ops {
		where := func(format string, a ...any) *Fail {
			return failf("%s: step %d of [%s]: %s", title[c.Impl], i, c.text(), fmt.Sprintf(format, a...))
		}
		if st := r.U8(); st != wire.OK {
			return where("panic: %s", r.Str())
		}
		switch o.Op {
		case 0:
			shared, n, b := r.U8(), r.U32(), r.Bytes()
			if shared != 0 {
				return where("the pool handed out a buffer that another holder still has")
			}
			if n != 0 || len(b) != 0 {
				return where("the buffer from the pool holds %d bytes: %s", n, hexs(b))
			}
			model[o.Slot] = nil
		case 1:
			delete(model, o.Slot)
		case 2, 4:
			if o.Op == 2 {
				model[o.Slot] = append(model[o.Slot], o.Data...)
			} else {
				model[o.Slot] = ref.Append(model[o.Slot], o.Value)
			}
			if b := r.Bytes(); string(b) != string(model[o.Slot]) {
				return where("the buffer holds %s, not %s", hexs(b), hexs(model[o.Slot]))
			}
		case 5:
			if r.U8() != 0 {
				return where("the pool handed out a decoder that another holder still has")
			}
			decs[o.Slot] = &dslot{in: o.Data}
		case 6:
			res := wire.GetResult(r, o.Read.Kind)
			d := decs[o.Slot]
			if d.pos < 0 {
				continue
			}
			var f *Fail
			if d.pos, f = expect(c.Impl, d.in, d.pos, o.Read, res); f != nil {
				return where("%s", f.Msg)
			}
		case 7:
			delete(decs, o.Slot)
		}
		if r.Bad {
			infra("%s: short pool answer", c.Impl)
		}
	}
	return nil
}

func classPool(c poolCase) Class {
	puts, gets, both, used := 0, 0, 0, 0
	var l []string
	for _, o := range c.Ops {
		switch o.Op {
		case 0, 5:
			gets++
			if puts > 0 && used > 0 {
				both++
			}
		case 1, 7:
			puts++
		case 2, 4, 6:
			used++
		case 3:
			l = append(l, "put-nil")
		case 8:
			l = append(l, "gc")
		}
	}
	if both > 0 {
		l = append(l, "get-after-use-and-return")
	}
	return Class{NonTrivial: both > 0, Labels: dedupe(l)}
}

// holdCase has several goroutines share pools.
type holdCase struct {
	Impl                         string
	Workers, Hold, Pools, Yields byte
	Rounds                       uint32
}

func genHold(t *rapid.T, impl string) holdCase {
	return holdCase{Impl: impl, Workers: byte(rapid.IntRange(2, 16).Draw(t, "workers")), Hold: byte(rapid.IntRange(1, 5).Draw(t, "hold")),
		Pools: byte(rapid.IntRange(0, 2).Draw(t, "pools")), Yields: byte(rapid.IntRange(0, 3).Draw(t, "yields")), Rounds: uint32(rapid.IntRange(50, 2000).Draw(t, "rounds"))}
}

func checkHold(e *Env, c holdCase) *Fail {
	// a schedule decides: the same case is played several times
	for i := 0; i < 3; i++ {
		w := &wire.W{}
		w.U8(c.Workers)
		w.U32(c.Rounds)
		w.U8(c.Hold)
		w.U8(c.Pools)
		w.U8(c.Yields)
		r := e.A(c.Impl).Do('H', w.B)
		if s := r.Str(); s != "" {
			return failf("%s: %d goroutines over %d pools, each holding up to %d objects: %s", title[c.Impl], c.Workers, c.Pools+1, c.Hold, s)
		}
	}
	return nil
}

// ---- P11 ----

type load struct {
	Pooled bool
	Values []wire.Value
	Reads  []wire.Read
}

type concCase struct {
	Impl   string
	Rounds uint32
	Loads  []load
}

func (c concCase) text() string {
	s := fmt.Sprintf("%s %d rounds:", c.Impl, c.Rounds)
	for _, l := range c.Loads {
		s += fmt.Sprintf(" {pooled %v %s reads %s}", l.Pooled, describeAll(l.Values), describeReads(l.Reads))
	}
	return s
}

func genConc(t *rapid.T, impl string) concCase {
	base := strings.TrimSuffix(impl, "-race")
	o := optsFor(base)
	o.Big = false
	c := concCase{Impl: impl, Rounds: uint32(rapid.IntRange(2, 12).Draw(t, "rounds"))}
	n := rapid.IntRange(2, 8).Draw(t, "workers")
	for i := 0; i < n; i++ {
		l := load{Pooled: base == "gov2" && rapid.IntRange(0, 3).Draw(t, "pooled?") != 0, Values: gen.Values(t, o, 1, 10)}
		for _, v := range l.Values {
			if rapid.IntRange(0, 5).Draw(t, "stray?") == 0 {
				l.Reads = append(l.Reads, gen.Read(t, o, "read"))
			}
			l.Reads = append(l.Reads, gen.Scratch(t, ref.ReadFor(v), len(v.Data)))
		}
		c.Loads = append(c.Loads, l)
	}
	return c
}

func checkConc(e *Env, c concCase) *Fail {
	base := strings.TrimSuffix(c.Impl, "-race")
	w := &wire.W{}
	w.U8(byte(len(c.Loads)))
	w.U32(c.Rounds)
	for _, l := range c.Loads {
		if l.Pooled {
			w.U8(1)
		} else {
			w.U8(0)
		}
		w.U32(uint32(len(l.Values)))
		for _, v := range l.Values {
			wire.PutValue(w, v)
		}
		w.U32(uint32(len(l.Reads)))
		for _, rd := range l.Reads {
			wire.PutRead(w, rd)
		}
	}
	r := e.A(c.Impl).Do('C', w.B)
	for i, l := range c.Loads {
		diff, b, raw := r.Str(), r.Bytes(), r.Bytes()
		if r.Bad {
			infra("%s: short concurrency answer", c.Impl)
		}
		where := func(format string, a ...any) *Fail {
			return failf("%s: worker %d of %d, values %s: %s", title[base], i, len(c.Loads), describeAll(l.Values), fmt.Sprintf(format, a...))
		}
		if diff != "" {
			return where("%s", diff)
		}
		want := ref.Encode(l.Values)
		if string(b) != string(want) {
			return where("encoded %s, alone it is %s", hexs(b), hexs(want))
		}
		rr := &wire.R{B: raw}
		p := 0
		for _, rd := range l.Reads {
			res := wire.GetResult(rr, rd.Kind)
			if rr.Bad {
				return where("a read was not answered")
			}
			var f *Fail
			if p, f = expect(base, want, p, rd, res); f != nil {
				return where("%s", f.Msg)
			}
			if p < 0 {
				break
			}
		}
	}
	return nil
}

func classConc(c concCase) Class {
	pooled := 0
	for _, l := range c.Loads {
		if l.Pooled {
			pooled++
		}
	}
	var l []string
	if pooled > 1 {
		l = append(l, "several-pooled-workers")
	}
	l = append(l, fmt.Sprintf("workers-%d", len(c.Loads)))
	return Class{NonTrivial: len(c.Loads) >= 3 && c.Rounds >= 4, Labels: l}
}

// Interleaving in one thread: a session is an encoder and a decoder of its own.
type session struct {
	Ctor   gen.Ctor
	Values []wire.Value
	Input  []byte
	Reads  []wire.Read
}

type interCase struct {
	Impl  string
	S     []session
	Order []byte // session whose next encode is made, with the top bit set its next read
}

func (c interCase) text() string {
	s := c.Impl + ":"
	for i, l := range c.S {
		s += fmt.Sprintf(" %d{mode %v values %s input %s reads %s}", i, l.Ctor, describeAll(l.Values), hexs(l.Input), describeReads(l.Reads))
	}
	s += " order"
	for _, x := range c.Order {
		if x&0x80 != 0 {
			s += fmt.Sprintf(" read%d", x&0x7f)
		} else {
			s += fmt.Sprintf(" encode%d", x)
		}
	}
	return s
}

func genInter(t *rapid.T, impl string) interCase {
	o := optsFor(impl)
	o.Big = rapid.IntRange(0, 15).Draw(t, "big") == 0
	in := gen.Opts{RawText: true, Any: o.Any}
	c := interCase{Impl: impl}
	n := rapid.IntRange(2, 5).Draw(t, "sessions")
	for i := 0; i < n; i++ {
		s := session{Ctor: gen.Mode(t, modes[impl]), Values: gen.Values(t, o, 0, 8)}
		if rapid.IntRange(0, 3).Draw(t, "input?") == 0 {
			s.Input = gen.Input(t, in)
			s.Reads = gen.Reads(t, s.Input, in, 8)
		} else {
			vs := s.Values
			if rapid.Bool().Draw(t, "others?") {
				vs = gen.Values(t, o, 0, 8)
			}
			s.Input = ref.Encode(vs)
			for _, v := range vs {
				if rapid.IntRange(0, 5).Draw(t, "stray?") == 0 {
					s.Reads = append(s.Reads, gen.Read(t, o, "read"))
				}
				s.Reads = append(s.Reads, gen.Scratch(t, ref.ReadFor(v), len(v.Data)))
			}
		}
		c.S = append(c.S, s)
	}
	for k := rapid.IntRange(0, 16*n).Draw(t, "steps"); k > 0; k-- {
		x := byte(rapid.IntRange(0, n-1).Draw(t, "session"))
		if rapid.Bool().Draw(t, "read?") {
			x |= 0x80
		}
		c.Order = append(c.Order, x)
	}
	return c
}

func checkInter(e *Env, c interCase) *Fail {
	w := &wire.W{}
	w.U8(byte(len(c.S)))
	for _, s := range c.S {
		w.U8(s.Ctor.Mode)
		w.U32(s.Ctor.A)
		w.U32(s.Ctor.B)
		w.U32(uint32(len(s.Values)))
		for _, v := range s.Values {
			wire.PutValue(w, v)
		}
		w.Bytes(s.Input)
		w.U32(uint32(len(s.Reads)))
		for _, rd := range s.Reads {
			wire.PutRead(w, rd)
		}
	}
	w.Bytes(c.Order)
	r := e.A(c.Impl).Do('V', w.B)
	for i, s := range c.S {
		diff, b, raw := r.Str(), r.Bytes(), r.Bytes()
		if r.Bad {
			infra("%s: short answer to interleaved sessions", c.Impl)
		}
		where := func(format string, a ...any) *Fail {
			return failf("session %d of %d interleaved ones: %s", i, len(c.S), fmt.Sprintf(format, a...))
		}
		if diff != "" {
			return where("%s: %s", title[c.Impl], diff)
		}
		want := ref.Encode(s.Values)
		if !canonical(c.Impl, b, want, s.Values) {
			return where("%s encoded %s, alone it is %s", title[c.Impl], hexs(b), hexs(want))
		}
		rr := &wire.R{B: raw}
		p := 0
		for _, rd := range s.Reads {
			res := wire.GetResult(rr, rd.Kind)
			if rr.Bad {
				return where("%s: a read was not answered", title[c.Impl])
			}
			var f *Fail
			if p, f = expect(c.Impl, s.Input, p, rd, res); f != nil {
				return where("%s", f.Msg)
			}
			if p < 0 {
				break
			}
		}
	}
	return nil
}

func classInter(c interCase) Class {
	// how often one session's step comes between two of another's
	type at struct{ s, kind byte }
	last := byte(0xff)
	seen, back := map[byte]bool{}, 0
	left := map[at]int{}
	for i, s := range c.S {
		left[at{byte(i), 0}], left[at{byte(i), 0x80}] = len(s.Values), len(s.Reads)
	}
	enc, dec := 0, 0
	for _, x := range c.Order {
		k := at{x & 0x7f, x & 0x80}
		if left[k] == 0 {
			continue
		}
		left[k]--
		if k.kind == 0 {
			enc++
		} else {
			dec++
		}
		if k.s != last && seen[k.s] {
			back++
		}
		seen[k.s], last = true, k.s
	}
	return Class{NonTrivial: back >= 2 && enc >= 2 && dec >= 2, Labels: []string{fmt.Sprintf("sessions-%d", len(c.S))}}
}

// ---- P12 ----

type errCase struct {
	Impl   string
	Text   []byte
	Others [][]byte
}

func (c errCase) text() string { return fmt.Sprintf("%s error %q others %q", c.Impl, c.Text, c.Others) }

var libErrors = []string{"invalid slice encoding", "invalid map encoding", "invalid bytes encoding", "invalid string encoding", "invalid error encoding",
	"invalid bool encoding", "invalid uint8 encoding", "error is nil", "unable to decode error", "InvalidErrorError", "unexpected EOF", "EOF", "error"}

func genErr(t *rapid.T, impl string) errCase {
	o := optsFor(impl)
	text := func(label string) []byte {
		if rapid.IntRange(0, 3).Draw(t, label+"lib?") == 0 {
			return []byte(rapid.SampledFrom(libErrors).Draw(t, label))
		}
		return gen.Text(t, o, label)
	}
	c := errCase{Impl: impl, Text: text("text")}
	n := rapid.IntRange(1, 5).Draw(t, "others")
	for i := 0; i < n; i++ {
		x := append([]byte{}, c.Text...)
		switch rapid.IntRange(0, 6).Draw(t, "other?") {
		case 0:
		case 1: // differs in one byte
			if len(x) > 0 {
				x[rapid.IntRange(0, len(x)-1).Draw(t, "at")] ^= 1 << uint(rapid.IntRange(0, 6).Draw(t, "bit"))
			}
		case 2:
			x = append(x, rapid.SampledFrom([]byte{'x', 0, ' '}).Draw(t, "tail"))
		case 3:
			if len(x) > 0 {
				x = x[:len(x)-1]
			}
		case 4:
			x = nil
		case 5:
			x = append([]byte("wrapped: "), x...)
		default:
			x = text("other")
		}
		c.Others = append(c.Others, x)
	}
	return c
}

func checkErr(e *Env, c errCase) *Fail {
	v := wire.Value{Kind: wire.Error, Data: c.Text}
	vs := []wire.Value{v, {Kind: wire.Uint8, Num: 7}}
	x, f := encode(e, c.Impl, gen.Ctor{}, nil, vs)
	if f != nil {
		return f
	}
	// read as a string (which it is not), then as an error, then on
	reads := []wire.Read{{Kind: wire.String}, {Kind: wire.Error}, {Kind: wire.Uint8}, {Kind: wire.Error}}
	d := decode(e, c.Impl, 0, x.bytes, reads)
	if len(d.res) < 4 || d.res[0].Status != wire.Failed || d.res[1].Status != wire.OK || string(d.res[1].Data) != string(c.Text) || d.res[2].Status != wire.OK || d.res[2].Num != 7 || d.res[3].Status != wire.Failed {
		var s []string
		for i, r := range d.res {
			s = append(s, reads[i].Describe()+" -> "+outcome(reads[i].Kind, r))
		}
		return failf("%s: an error with message %q was encoded, then a u8; reads gave %s", title[c.Impl], c.Text, strings.Join(s, "; "))
	}
	if !isGo(c.Impl) {
		// the message must survive passing through every other implementation too
		for _, to := range []string{"gov1", "gov2"} {
			d := decode(e, to, 0, x.bytes, []wire.Read{{Kind: wire.Error}})
			if len(d.res) < 1 || d.res[0].Status != wire.OK || string(d.res[0].Data) != string(c.Text) {
				return failf("an error with message %q encoded by %s is not decoded as such by %s", c.Text, title[c.Impl], title[to])
			}
		}
		return nil
	}
	w := &wire.W{}
	w.Bytes(c.Text)
	w.U32(uint32(len(c.Others)))
	for _, s := range c.Others {
		w.Bytes(s)
	}
	r := e.A(c.Impl).Do('I', w.B)
	if st := r.U8(); st != wire.OK {
		return failf("%s: error %q: %s", title[c.Impl], c.Text, r.Str())
	}
	msg, again := r.Str(), r.U8()
	if msg != string(c.Text) {
		return failf("%s: error %q came back as %q", title[c.Impl], c.Text, msg)
	}
	if again != 1 {
		return failf("%s: re-encoding the decoded error %q gives different bytes", title[c.Impl], c.Text)
	}
	for _, s := range c.Others {
		want := byte(0)
		if string(s) == string(c.Text) {
			want = 1
		}
		names := []string{"errors.Is(decoded, errors.New(other))", "errors.Is(decoded, polyglot.Error(other))", "errors.Is(wrapped decoded, errors.New(other))", "errors.Is(polyglot.Error(other), decoded)"}
		for _, n := range names {
			if got := r.U8(); got != want {
				return failf("%s: decoded error %q, other %q: %s is %v", title[c.Impl], c.Text, s, n, got == 1)
			}
		}
	}
	if r.U8() != 0 {
		return failf("%s: decoded error %q compares equal to nil", title[c.Impl], c.Text)
	}
	if r.Bad {
		infra("short identity answer")
	}
	return nil
}

func classErr(c errCase) Class {
	eq, ne := 0, 0
	for _, s := range c.Others {
		if string(s) == string(c.Text) {
			eq++
		} else {
			ne++
		}
	}
	var l []string
	if eq > 0 {
		l = append(l, "compared-with-equal")
	}
	if ne > 0 {
		l = append(l, "compared-with-different")
	}
	for _, s := range libErrors {
		if s == string(c.Text) {
			l = append(l, "library-message")
		}
	}
	return Class{NonTrivial: len(c.Text) > 0 && (ne > 0 || !isGo(c.Impl)), Labels: l}
}

// ---- P13: C call histories ----

type cOp struct {
	Op    byte // as in the adapter: 0 new enc 1 free enc 2 encode 3 size 4 buffer 5 new dec 6 free dec 7 read 8 reread and free 9 free nothing
	Slot  byte // 0xFF: null handle
	Null  bool // null payload pointer
	Value wire.Value
	How   byte // buffer: 0 exact 1 larger 2 smaller 3 null
	K     uint32
	Data  []byte
	Read  wire.Read
	Hold  byte // 0xFF: free at once
}

type cCase struct{ Ops []cOp }

const none = 0xFF

func (c cCase) text() string {
	h := func(s byte) string {
		if s == none {
			return "NULL"
		}
		return fmt.Sprintf("#%d", s)
	}
	var out []string
	for _, o := range c.Ops {
		switch o.Op {
		case 0:
			out = append(out, fmt.Sprintf("enc#%d=new", o.Slot))
		case 1:
			out = append(out, fmt.Sprintf("free(enc#%d)", o.Slot))
		case 2:
			v := o.Value.Describe()
			if o.Null {
				v = wire.KindName(o.Value.Kind) + "(NULL)"
			}
			out = append(out, fmt.Sprintf("encode(%s, %s)", h(o.Slot), v))
		case 3:
			out = append(out, fmt.Sprintf("size(%s)", h(o.Slot)))
		case 4:
			out = append(out, fmt.Sprintf("buffer(%s, %s %d)", h(o.Slot), []string{"exact", "larger", "smaller", "NULL"}[o.How], o.K))
		case 5:
			out = append(out, fmt.Sprintf("dec#%d=new(%s null=%v)", o.Slot, hexs(o.Data), o.Null))
		case 6:
			out = append(out, fmt.Sprintf("free(dec#%d)", o.Slot))
		case 7:
			out = append(out, fmt.Sprintf("read(%s, %s, hold %d)", h(o.Slot), o.Read.Describe(), int8(o.Hold)))
		case 8:
			out = append(out, fmt.Sprintf("free(held#%d)", o.Hold))
		case 9:
			out = append(out, "free NULLs")
		}
	}
	return strings.Join(out, "; ")
}

func genC(t *rapid.T) cCase {
	large := rapid.IntRange(0, 11).Draw(t, "large") == 0 // a history with payloads beyond 64 KB
	o := gen.Opts{NoNUL: true, Big: large}
	text := func(v wire.Value) wire.Value {
		if large && (v.Kind == wire.Bytes || v.Kind == wire.String || v.Kind == wire.Error) && rapid.IntRange(0, 2).Draw(t, "large?") == 0 {
			v.Data = bytes.Repeat([]byte{'a', 'b', 'c'}, rapid.SampledFrom([]int{5461, 21843, 21845, 21846, 22000, 50000}).Draw(t, "thirds"))
		}
		return v
	}
	var c cCase
	enc := map[byte]bool{}
	type dslot struct {
		in  []byte
		pos int
		bad bool
	}
	dec := map[byte]*dslot{}
	held := map[byte]bool{}
	free := func(used func(byte) bool) (byte, bool) {
		for i := byte(0); i < 8; i++ {
			if !used(i) {
				return i, true
			}
		}
		return 0, false
	}
	pick := func(used func(byte) bool, label string) (byte, bool) {
		var l []byte
		for i := byte(0); i < 8; i++ {
			if used(i) {
				l = append(l, i)
			}
		}
		if len(l) == 0 {
			return 0, false
		}
		return rapid.SampledFrom(l).Draw(t, label), true
	}
	hasEnc := func(i byte) bool { return enc[i] }
	hasDec := func(i byte) bool { return dec[i] != nil }
	hasHeld := func(i byte) bool { return held[i] }
	n := rapid.IntRange(1, 40).Draw(t, "ops")
	first := rapid.IntRange(0, 3).Draw(t, "first") // most histories begin with an encoder or a decoder
	for i := 0; i < n; i++ {
		k := rapid.IntRange(0, 19).Draw(t, "op")
		if i == 0 && first > 0 {
			k = 1
			if first == 3 {
				k = 12
			}
		}
		switch {
		case k <= 1:
			if s, ok := free(hasEnc); ok {
				enc[s] = true
				c.Ops = append(c.Ops, cOp{Op: 0, Slot: s})
			}
		case k == 2:
			if s, ok := pick(hasEnc, "e"); ok {
				delete(enc, s)
				c.Ops = append(c.Ops, cOp{Op: 1, Slot: s})
			}
		case k <= 7:
			s, ok := pick(hasEnc, "e")
			if !ok || rapid.IntRange(0, 11).Draw(t, "nullhandle?") == 0 {
				s = none
			}
			ov := o
			ov.RawText = rapid.IntRange(0, 3).Draw(t, "raw?") == 0
			op := cOp{Op: 2, Slot: s, Value: text(gen.Value(t, ov, "v"))}
			if op.Value.Kind >= wire.Bytes && op.Value.Kind <= wire.Error {
				op.Null = rapid.IntRange(0, 7).Draw(t, "nullarg?") == 0
			}
			c.Ops = append(c.Ops, op)
		case k == 8:
			s, ok := pick(hasEnc, "e")
			if !ok || rapid.IntRange(0, 5).Draw(t, "nullhandle?") == 0 {
				s = none
			}
			c.Ops = append(c.Ops, cOp{Op: 3, Slot: s})
		case k <= 10:
			s, ok := pick(hasEnc, "e")
			if !ok || rapid.IntRange(0, 7).Draw(t, "nullhandle?") == 0 {
				s = none
			}
			c.Ops = append(c.Ops, cOp{Op: 4, Slot: s, How: byte(rapid.IntRange(0, 3).Draw(t, "how")), K: uint32(rapid.IntRange(0, 40).Draw(t, "k"))})
		case k <= 12:
			if s, ok := free(hasDec); ok {
				op := cOp{Op: 5, Slot: s, Null: rapid.IntRange(0, 9).Draw(t, "nullbuf?") == 0}
				if rapid.IntRange(0, 2).Draw(t, "valid?") != 0 {
					vs := gen.Values(t, o, 0, 6)
					for i := range vs {
						vs[i] = text(vs[i])
					}
					op.Data = ref.Encode(vs)
				} else {
					op.Data = gen.Input(t, gen.Opts{})
				}
				if !op.Null {
					dec[s] = &dslot{in: op.Data}
				}
				c.Ops = append(c.Ops, op)
			}
		case k == 13:
			if s, ok := pick(hasDec, "d"); ok {
				delete(dec, s)
				c.Ops = append(c.Ops, cOp{Op: 6, Slot: s})
			}
		case k <= 17:
			s, ok := pick(hasDec, "d")
			if !ok || rapid.IntRange(0, 11).Draw(t, "nullhandle?") == 0 {
				s = none
			}
			op := cOp{Op: 7, Slot: s, Hold: none}
			good := false
			if s != none {
				d := dec[s]
				rd, ok := ref.Next(d.in, d.pos)
				if !ok || d.bad || rapid.IntRange(0, 4).Draw(t, "stray?") == 0 {
					rd = gen.Read(t, o, "read")
				}
				rd.Scratch = -1
				op.Read = rd
				if !d.bad {
					x := ref.Decode(d.in, d.pos, rd)
					switch x.Class {
					case ref.Good, ref.NonMinimal:
						d.pos = x.Next
						good = x.Class == ref.Good
					case ref.Mismatch:
					default:
						d.bad = true
					}
				}
			} else {
				op.Read = gen.Read(t, o, "read")
			}
			if good && op.Read.Kind >= wire.Bytes && op.Read.Kind <= wire.Error && rapid.Bool().Draw(t, "hold?") {
				if hs, ok := free(hasHeld); ok {
					held[hs] = true
					op.Hold = hs
				}
			}
			c.Ops = append(c.Ops, op)
		case k == 18:
			if h, ok := pick(hasHeld, "h"); ok {
				delete(held, h)
				c.Ops = append(c.Ops, cOp{Op: 8, Hold: h})
			}
		case k == 19:
			c.Ops = append(c.Ops, cOp{Op: 9})
		}
	}
	return c
}

// Status codes of the C API.
const (
	stPass = 0
	stFail = 1
	stNull = 2
)

func checkC(e *Env, c cCase) *Fail {
	w := &wire.W{}
	w.U32(uint32(len(c.Ops)))
	for _, o := range c.Ops {
		w.U8(o.Op)
		nul := byte(0)
		if o.Null {
			nul = 1
		}
		switch o.Op {
		case 0, 1, 3, 6:
			w.U8(o.Slot)
		case 2:
			w.U8(o.Slot)
			w.U8(nul)
			wire.PutValue(w, o.Value)
		case 4:
			w.U8(o.Slot)
			w.U8(o.How)
			w.U32(o.K)
		case 5:
			w.U8(o.Slot)
			w.U8(nul)
			w.Bytes(o.Data)
		case 7:
			w.U8(o.Slot)
			w.U8(o.Hold)
			wire.PutRead(w, o.Read)
		case 8:
			w.U8(o.Hold)
		}
	}
	r := e.A("c").Do('H', w.B)
	encs := map[byte][]byte{}
	type dslot struct {
		in  []byte
		pos int
	}
	decs := map[byte]*dslot{}
	held := map[byte][]byte{}
	for i, o := range c.Ops {
		st := r.U8()
		out := r.Bytes()
		if r.Bad {
			infra("short history answer")
		}
		where := func(format string, a ...any) *Fail {
			one := cCase{[]cOp{o}}
			return failf("C: step %d (%s): %s; history: %s", i, one.text(), fmt.Sprintf(format, a...), c.text())
		}
		want := func(code byte, why string) *Fail {
			if st != code {
				return where("status is %s, not %s (%s)", statusName(st), statusName(code), why)
			}
			return nil
		}
		var f *Fail
		switch o.Op {
		case 0:
			f = want(stPass, "a new encoder")
			encs[o.Slot] = []byte{}
		case 1:
			delete(encs, o.Slot)
		case 2:
			switch {
			case o.Slot == none:
				f = want(stNull, "null encoder")
			case o.Null:
				// a null payload: an empty payload or a refusal with nothing written
				if st == stPass && o.Value.Kind == wire.Bytes && len(o.Value.Data) == 0 {
					encs[o.Slot] = ref.Append(encs[o.Slot], o.Value)
				} else if st != stNull && st != stFail {
					f = where("status is %s although the payload pointer is null", statusName(st))
				}
			default:
				if !gen.ValidText(o.Value) {
					// refused, and nothing of it is written: later sizes and contents show that
					f = want(stFail, "text that is not valid UTF-8")
					break
				}
				f = want(stPass, "a legal value")
				encs[o.Slot] = ref.Append(encs[o.Slot], o.Value)
			}
		case 3:
			if o.Slot == none {
				f = want(stNull, "null encoder")
			} else if f = want(stPass, "a live encoder"); f == nil {
				if n := binary.BigEndian.Uint32(out); int(n) != len(encs[o.Slot]) {
					f = where("size is %d, not %d", n, len(encs[o.Slot]))
				}
			}
		case 4:
			if o.Slot == none || o.How == 3 {
				f = want(stNull, "null handle or buffer")
				break
			}
			rr := &wire.R{B: out}
			capacity := int(rr.U32())
			got := rr.Bytes()
			full := encs[o.Slot]
			if st == 0x44 {
				f = where("bytes outside the caller's buffer were written")
			} else if capacity < len(full) {
				f = want(stFail, "the buffer is too small")
				if f != nil && st != stPass && st < 8 {
					f = nil
				}
			} else if f = want(stPass, "the buffer is large enough"); f == nil && string(got[:len(full)]) != string(full) {
				f = where("the buffer received %s, not %s", hexs(got[:len(full)]), hexs(full))
			}
		case 5:
			if o.Null {
				f = want(stNull, "null buffer")
			} else {
				f = want(stPass, "a buffer")
				decs[o.Slot] = &dslot{in: o.Data}
			}
		case 6:
			delete(decs, o.Slot)
		case 7:
			if o.Slot == none {
				if o.Read.Kind == wire.Nil {
					// the nil probe answers through its result; whatever the status, the answer must be no
					if st == 0x40 || st == stNull || st == stFail {
						break
					}
				}
				f = want(stNull, "null decoder")
				break
			}
			d := decs[o.Slot]
			res := wire.Result{Remain: wire.Unknown}
			switch st {
			case stPass:
				rr := &wire.R{B: out}
				if o.Read.Kind >= wire.Bytes && o.Read.Kind <= wire.Error {
					res.Data = rr.Bytes()
				} else {
					res.Num = rr.Num(wire.Width(o.Read.Kind))
				}
			case stFail, 0x40:
				res.Status = wire.Failed
			default:
				res.Status, res.Err = wire.Panic, "status "+statusName(st)
			}
			if o.Hold != none && st == stPass {
				held[o.Hold] = append([]byte{}, res.Data...)
			}
			if d.pos < 0 {
				if res.Status == wire.Panic {
					f = where("%s", res.Err)
				}
				break
			}
			if d.pos, f = expect("c", d.in, d.pos, o.Read, res); f != nil {
				f = where("%s", f.Msg)
			}
		case 8:
			rr := &wire.R{B: out}
			if got := rr.Bytes(); string(got) != string(held[o.Hold]) {
				f = where("the value held was %q and is now %q", held[o.Hold], got)
			}
			delete(held, o.Hold)
		}
		if f != nil {
			return f
		}
	}
	if leak := int64(r.U64()); leak != 0 {
		return failf("C: %d blocks are still allocated after everything was freed; history: %s", leak, c.text())
	}
	return nil
}

func statusName(s byte) string {
	switch s {
	case stPass:
		return "PASS"
	case stFail:
		return "FAIL"
	case stNull:
		return "NULL_PTR"
	case 0x77:
		return "never set"
	case 0x40:
		return "PASS with a negative answer"
	case 0x41:
		return "failure with a positive answer"
	case 0x42:
		return "PASS without a result"
	case 0x43:
		return "failure with a result"
	}
	return fmt.Sprintf("0x%x", s)
}

func classC(c cCase) Class {
	m := map[string]bool{}
	n := 0
	for _, o := range c.Ops {
		switch {
		case o.Slot == none && o.Op != 8 && o.Op != 9:
			m["null-handle"] = true
		case o.Null:
			m["null-payload"] = true
		case o.Op == 4 && o.How == 2:
			m["buffer-too-small"] = true
		case o.Op == 7 && o.Hold != none:
			m["value-held"] = true
		case o.Op == 8:
			m["held-value-freed-later"] = true
		}
		if o.Op == 2 || o.Op == 7 {
			n++
		}
	}
	var l []string
	for k := range m {
		l = append(l, k)
	}
	return Class{NonTrivial: n >= 2 && len(m) > 0, Labels: l}
}

func init() {
	for _, impl := range []string{"gov1", "gov2", "ts", "rust"} {
		Define(Part{Prop: "P09", Name: "P09-buffer-" + impl, Needs: []string{impl}, Quick: 4000, Thorough: 80000, Shards: 2, Rule: "at least three steps and the contents outgrow the initial size"},
			Spec[bufCase]{Gen: func(t *rapid.T) bufCase { return genBuf(t, impl, false) }, Check: checkBuf, Class: classBuf, Text: bufCase.text})
		Define(Part{Prop: "P09", Name: "P09-large-" + impl, Needs: []string{impl}, Quick: 120, Thorough: 4000, Shards: 2, Rule: "at least three steps and the contents outgrow the initial size"},
			Spec[bufCase]{Gen: func(t *rapid.T) bufCase { return genBuf(t, impl, true) }, Check: checkBuf, Class: classBuf, Text: bufCase.text})
	}
	for _, build := range []string{"gov1-32", "gov2-32", "rust-rel"} {
		impl := builds[build]
		Define(Part{Prop: "P09", Name: "P09-buffer-" + build, Needs: []string{build}, As: map[string]string{impl: build}, Quick: 3000, Thorough: 60000, Rule: "at least three steps and the contents outgrow the initial size"},
			Spec[bufCase]{Gen: func(t *rapid.T) bufCase { return genBuf(t, impl, false) }, Check: checkBuf, Class: classBuf, Text: bufCase.text})
	}
	for _, impl := range []string{"gov1", "gov2"} {
		Define(Part{Prop: "P10", Name: "P10-pool-" + impl, Needs: []string{impl}, Quick: 4000, Thorough: 80000, Shards: 2, Rule: "something is taken from a pool after an earlier holder used and returned it"},
			Spec[poolCase]{Gen: func(t *rapid.T) poolCase { return genPool(t, impl) }, Check: checkPool, Class: classPool, Text: poolCase.text})
	}
	for _, impl := range []string{"gov1", "gov2", "gov1-race", "gov2-race"} {
		Define(Part{Prop: "P10", Name: "P10-holders-" + impl, Needs: []string{impl}, Quick: 120, Thorough: 3000, Rule: "at least three goroutines and 500 rounds"},
			Spec[holdCase]{Gen: func(t *rapid.T) holdCase { return genHold(t, impl) }, Check: checkHold, Replays: 50,
				Class: func(c holdCase) Class {
					l := []string{fmt.Sprintf("pools-%d", c.Pools+1), fmt.Sprintf("hold-%d", c.Hold)}
					return Class{NonTrivial: c.Workers >= 3 && c.Rounds >= 500, Labels: l}
				}, Text: func(c holdCase) string { return fmt.Sprintf("%+v", c) }})
	}
	for _, impl := range []string{"gov1-race", "gov2-race", "rust", "c"} {
		Define(Part{Prop: "P11", Name: "P11-concurrent-" + impl, Needs: []string{impl}, Quick: 900, Thorough: 15000, Rule: "at least three workers and four rounds"},
			Spec[concCase]{Gen: func(t *rapid.T) concCase { return genConc(t, impl) }, Check: checkConc, Class: classConc, Text: concCase.text, Replays: 50})
	}
	for _, impl := range Impls {
		slow := 1
		if impl == "c" || impl == "ts" {
			slow = 2
		}
		Define(Part{Prop: "P11", Name: "P11-interleaved-" + impl, Needs: []string{impl}, Quick: 12000 / slow, Thorough: 300000 / slow,
			Rule: "a session is taken up again at least twice after another one, with at least two encodes and two reads"},
			Spec[interCase]{Gen: func(t *rapid.T) interCase { return genInter(t, impl) }, Check: checkInter, Class: classInter, Text: interCase.text})
	}
	for _, impl := range Impls {
		needs := []string{impl}
		if !isGo(impl) {
			needs = append(needs, "gov1", "gov2")
		}
		Define(Part{Prop: "P12", Name: "P12-errors-" + impl, Needs: needs, Quick: 20000, Thorough: 500000, Rule: "a non-empty message, compared (Go) with at least one different message"},
			Spec[errCase]{Gen: func(t *rapid.T) errCase { return genErr(t, impl) }, Check: checkErr, Class: classErr, Text: errCase.text})
	}
	for build, shards := range map[string]int{"c": 3, "c-rel": 1} {
		Define(Part{Prop: "P13", Name: "P13-history-" + build, Needs: []string{build}, As: map[string]string{"c": build}, Quick: 20000, Thorough: 600000, Shards: shards,
			Rule: "at least two encodes or reads, and a null argument, a too small buffer or a value held across other calls"},
			Spec[cCase]{Gen: genC, Check: checkC, Class: classC, Text: cCase.text})
	}
}
