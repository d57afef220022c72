// Adapter process for the TypeScript implementation. Speaks the framing of /verif/harness/wire.
// Bundled by esbuild with the alias "polyglot-under-test" -> /repo/index.ts.
import * as fs from "fs";
import * as P from "polyglot-under-test";

const K = P.Kind;
const kinds = [K.Null, K.Array, K.Map, K.Any, K.Uint8Array, K.String, K.Error, K.Boolean, K.Uint8, K.Uint16, K.Uint32,
  K.Uint64, K.Int32, K.Int64, K.Float32, K.Float64];

// Allocation measurement: every typed array or buffer the library constructs with a length is counted.
let allocated = 0;
const RealU8 = globalThis.Uint8Array;
const RealAB = globalThis.ArrayBuffer;
(globalThis as any).Uint8Array = new Proxy(RealU8, {
  construct(t, args, nt) {
    if (typeof args[0] === "number") allocated += args[0];
    else if (ArrayBuffer.isView(args[0])) allocated += args[0].byteLength;
    return Reflect.construct(t, args, nt === (globalThis as any).Uint8Array ? t : nt);
  },
});
(globalThis as any).ArrayBuffer = new Proxy(RealAB, {
  construct(t, args, nt) {
    if (typeof args[0] === "number") allocated += args[0];
    return Reflect.construct(t, args, nt === (globalThis as any).ArrayBuffer ? t : nt);
  },
});
for (const proto of [RealU8.prototype as any, Buffer.prototype as any]) {
  const slice = RealU8.prototype.slice;
  if (proto === RealU8.prototype) {
    proto.slice = function (...a: any[]) {
      const r = slice.apply(this, a as any);
      allocated += r.length;
      return r;
    };
  }
}

class R {
  p = 1;
  dv: DataView;
  constructor(public b: Buffer) {
    this.dv = new DataView(b.buffer, b.byteOffset, b.length);
  }
  u8() { return this.dv.getUint8(this.p++); }
  u16() { const v = this.dv.getUint16(this.p); this.p += 2; return v; }
  u32() { const v = this.dv.getUint32(this.p); this.p += 4; return v; }
  i32() { const v = this.dv.getInt32(this.p); this.p += 4; return v; }
  u64() { const v = this.dv.getBigUint64(this.p); this.p += 8; return v; }
  bytes(): Uint8Array {
    const n = this.u32();
    if (this.p + n > this.b.length) throw new RangeError("malformed request");
    const r = new RealU8(n);
    r.set(this.b.subarray(this.p, this.p + n));
    this.p += n;
    return r;
  }
}
class W {
  b = Buffer.alloc(1 << 16);
  n = 0;
  need(k: number) {
    if (this.n + k > this.b.length) {
      const nb = Buffer.alloc((this.n + k) * 2);
      this.b.copy(nb, 0, 0, this.n);
      this.b = nb;
    }
  }
  u8(v: number) { this.need(1); this.b[this.n++] = v; }
  u16(v: number) { this.need(2); this.b.writeUInt16BE(v, this.n); this.n += 2; }
  u32(v: number) { this.need(4); this.b.writeUInt32BE(v, this.n); this.n += 4; }
  u64(v: bigint) { this.need(8); this.b.writeBigUInt64BE(v, this.n); this.n += 8; }
  raw(v: Uint8Array) { this.need(v.length); this.b.set(v, this.n); this.n += v.length; }
  bytes(v: Uint8Array) { this.u32(v.length); this.raw(v); }
  str(s: string) { this.bytes(Buffer.from(s, "utf8")); }
}

type Val = { kind: number; kk: number; vk: number; num: number; big: bigint; data: Uint8Array; str: string };
const utf8 = new TextDecoder("utf-8", { ignoreBOM: true });
const scratch = new DataView(new RealAB(8));

function getVal(r: R): Val {
  const v: Val = { kind: r.u8(), kk: 0, vk: 0, num: 0, big: 0n, data: new RealU8(0), str: "" };
  switch (v.kind) {
    case 0: case 3: break;
    case 1: v.vk = r.u8(); v.num = r.u32(); break;
    case 2: v.kk = r.u8(); v.vk = r.u8(); v.num = r.u32(); break;
    case 4: v.data = shaped(r.bytes()); break;
    case 5: case 6: v.str = utf8.decode(r.bytes()); break;
    case 7: case 8: v.num = r.u8(); break;
    case 9: v.num = r.u16(); break;
    case 10: v.num = r.u32(); break;
    case 12: v.num = r.i32(); break;
    case 11: v.big = r.u64(); break;
    case 13: v.big = BigInt.asIntN(64, r.u64()); break;
    case 14: scratch.setUint32(0, r.u32()); v.num = scratch.getFloat32(0); break;
    case 15: scratch.setBigUint64(0, r.u64()); v.num = scratch.getFloat64(0); break;
    default: throw new RangeError("malformed request");
  }
  return v;
}

// Errors of several kinds: what travels is the message.
class OddError extends Error {
  constructor(message: string) {
    super(message);
    this.name = "OddError";
  }
  toString() { return "toString of OddError"; }
  toJSON() { return "toJSON of OddError"; }
}
function makeError(s: string): Error {
  let h = s.length >>> 0;
  for (let i = 0; i < s.length && i < 16; i++) h = (Math.imul(h, 31) + s.charCodeAt(i)) >>> 0;
  switch (h % 6) {
    case 0: return new Error(s);
    case 1: return new OddError(s);
    case 2: return new TypeError(s);
    case 3: return new (Error as any)(s, { cause: new Error("cause") });
    case 4: return new (globalThis as any).AggregateError([new Error("first"), new Error("second")], s);
    default: {
      const e = new Error(s);
      e.name = "";
      e.stack = "stack";
      return e;
    }
  }
}
function enc(e: P.Encoder, v: Val): P.Encoder {
  switch (v.kind) {
    case 0: return e.null();
    case 3: return e.any();
    case 1: return e.array(v.num, kinds[v.vk]);
    case 2: return e.map(v.num, kinds[v.kk], kinds[v.vk]);
    case 4: return e.uint8Array(v.data);
    case 5: return e.string(v.str);
    case 6: return e.error(makeError(v.str));
    case 7: return e.boolean(v.num !== 0);
    case 8: return e.uint8(v.num);
    case 9: return e.uint16(v.num);
    case 10: return e.uint32(v.num);
    case 11: return e.uint64(v.big);
    case 12: return e.int32(v.num);
    case 13: return e.int64(v.big);
    case 14: return e.float32(v.num);
    default: return e.float64(v.num);
  }
}

// Byte arrays come in several shapes: of their own, windows of something larger, Node's Buffers (a Uint8Array whose slice
// is a view), other subclasses, over shared memory. Which one is a function of the contents.
const Sub = class extends RealU8 {};
function shaped(data: Uint8Array): Uint8Array {
  let h = data.length;
  for (let i = 0; i < data.length && i < 64; i += 1) h = (h * 31 + data[i]) >>> 0;
  let big: Uint8Array;
  switch (h % 8) {
    case 0: case 1: return data;
    case 2: case 3: big = new RealU8(data.length + 24); break;
    case 4: big = Buffer.alloc(data.length); big.set(data); return big;
    case 5: big = Buffer.alloc(data.length + 24); break;
    case 6: big = new Sub(data.length + 24); break;
    default: big = new RealU8(new SharedArrayBuffer(data.length + 24)); break;
  }
  big.fill(0x5e);
  big.set(data, 8);
  return big.subarray(8, 8 + data.length);
}

// mode 0: default encoder; 1: caller array of a bytes; 2: caller array that is a window of a larger buffer
function newEncoder(mode: number, a: number, b: number): P.Encoder {
  if (mode === 1) return new P.Encoder(new RealU8(a).fill(0xdd));
  if (mode === 2) {
    const big = b % 2 === 1 ? Buffer.alloc(a + b + 16, 0xdd) : new RealU8(a + b + 16).fill(0xdd);
    return new P.Encoder(big.subarray(8, 8 + a));
  }
  return new P.Encoder();
}

function doEncode(r: R, w: W) {
  const mode = r.u8();
  const a = r.u32();
  const b = r.u32();
  r.bytes(); // no raw writes in this API: no prefix
  const n = r.u32();
  const vals: Val[] = [];
  for (let i = 0; i < n; i += 1) vals.push(getVal(r));
  let got: Uint8Array;
  let fl = 0;
  try {
    const e = newEncoder(mode, a, b);
    let chain = e;
    vals.forEach((v, i) => {
      const before = v.kind === 4 ? Buffer.from(v.data) : null;
      chain = enc(i % 2 === 0 ? chain : e, v);
      if (before && !before.equals(v.data)) fl |= 2;
    });
    got = Buffer.from(e.bytes);
    vals.forEach((v) => v.data.fill(0x5a));
    if (!Buffer.from(e.bytes).equals(got)) fl |= 1;
  } catch (x: any) {
    w.u8(2);
    w.str(`${x?.name}: ${x?.message}`);
    return;
  }
  w.u8(0);
  w.u8(fl);
  w.bytes(got);
}

const errs: [any, string][] = [
  [P.InvalidArrayError, "slice"], [P.InvalidMapError, "map"], [P.InvalidUint8ArrayError, "bytes"],
  [P.InvalidStringError, "string"], [P.InvalidErrorError, "error"], [P.InvalidBooleanError, "bool"],
  [P.InvalidUint8Error, "u8"], [P.InvalidUint16Error, "u16"], [P.InvalidUint32Error, "u32"], [P.InvalidUint64Error, "u64"],
  [P.InvalidInt32Error, "i32"], [P.InvalidInt64Error, "i64"], [P.InvalidFloat32Error, "f32"], [P.InvalidFloat64Error, "f64"],
];

type Rd = { kind: number; kk: number; vk: number };
function getRead(r: R): Rd {
  const d: Rd = { kind: r.u8(), kk: 0, vk: 0 };
  if (d.kind === 1) d.vk = r.u8();
  else if (d.kind === 2) { d.kk = r.u8(); d.vk = r.u8(); }
  else if (d.kind === 4) { r.u32(); r.u32(); }
  return d;
}

const NOTNIL = {};
const NOTANY = {};
function readOne(d: P.Decoder, rd: Rd): any {
  switch (rd.kind) {
    case 0: if (!d.null()) throw NOTNIL; return null;
    case 3: if (!d.any()) throw NOTANY; return null;
    case 1: return d.array(kinds[rd.vk]);
    case 2: return d.map(kinds[rd.kk], kinds[rd.vk]);
    case 4: return d.uint8Array();
    case 5: return d.string();
    case 6: return d.error();
    case 7: return d.boolean();
    case 8: return d.uint8();
    case 9: return d.uint16();
    case 10: return d.uint32();
    case 11: return d.uint64();
    case 12: return d.int32();
    case 13: return d.int64();
    case 14: return d.float32();
    default: return d.float64();
  }
}

// Values outside the type's range come back as an implausible result rather than being squeezed into the protocol.
function putPayload(w: W, rd: Rd, v: any): string | null {
  const int = (lo: number, hi: number) => (typeof v === "number" && Number.isInteger(v) && v >= lo && v <= hi ? null : `not in range: ${v}`);
  let bad: string | null = null;
  switch (rd.kind) {
    case 0: case 3: return null;
    case 1: case 2: case 10: if ((bad = int(0, 4294967295))) return bad; w.u32(v); return null;
    case 4: if (!(v instanceof RealU8)) return "not a Uint8Array"; w.bytes(v); return null;
    case 5: if (typeof v !== "string") return "not a string"; w.str(v); return null;
    case 6: if (!(v instanceof Error)) return "not an Error"; w.str(v.message); return null;
    case 7: if (typeof v !== "boolean") return "not a boolean"; w.u8(v ? 1 : 0); return null;
    case 8: if ((bad = int(0, 255))) return bad; w.u8(v); return null;
    case 9: if ((bad = int(0, 65535))) return bad; w.u16(v); return null;
    case 11: if (typeof v !== "bigint" || BigInt.asUintN(64, v) !== v) return `not in range: ${v}`; w.u64(v); return null;
    case 12: if ((bad = int(-2147483648, 2147483647))) return bad; w.u32(v < 0 ? v + 4294967296 : v); return null;
    case 13: if (typeof v !== "bigint" || BigInt.asIntN(64, v) !== v) return `not in range: ${v}`; w.u64(BigInt.asUintN(64, v)); return null;
    case 14: if (typeof v !== "number") return `not a number: ${v}`; scratch.setFloat32(0, v); w.u32(scratch.getUint32(0)); return null;
    default: if (typeof v !== "number") return `not a number: ${v}`; scratch.setFloat64(0, v); w.u64(scratch.getBigUint64(0)); return null;
  }
}

function failName(x: any): string {
  if (x === NOTNIL) return "nil";
  if (x === NOTANY) return "any";
  let name = `other:${x?.name}: ${x?.message}`;
  for (const [c, n] of errs) if (x instanceof c) name = n;
  return name;
}

function runReads(d: P.Decoder, reads: Rd[], w: W, keep?: any[]): void {
  for (const rd of reads) {
    const before = allocated;
    let res: any;
    let failed = false;
    let name = "";
    try {
      res = readOne(d, rd);
    } catch (x: any) {
      failed = true;
      name = failName(x);
    }
    const alloc = allocated - before;
    if (keep) keep.push(failed ? undefined : res);
    if (failed) {
      w.u8(1);
      w.str(name);
    } else {
      const at = w.n;
      w.u8(0);
      const bad = putPayload(w, rd, res);
      if (bad !== null) {
        w.n = at;
        w.u8(2);
        w.str(bad);
      }
    }
    w.u32(d.length < 0 ? 0xfffffffe : d.length);
    w.u64(BigInt(alloc));
  }
}

function doDecode(r: R, w: W) {
  const flags = r.u8();
  const data = r.bytes();
  const input = shaped(data);
  const orig = Buffer.from(input);
  const n = r.u32();
  const reads: Rd[] = [];
  for (let i = 0; i < n; i += 1) reads.push(getRead(r));
  const out = new W();
  const kept: any[] = [];
  const d = new P.Decoder(input);
  runReads(d, reads, out, kept);
  let fl = 0;
  if (!orig.equals(input)) fl |= 1;
  if (flags & 1) {
    const snaps = kept.map((v) => (v instanceof RealU8 ? Buffer.from(v) : null));
    input.fill(0x5a);
    kept.forEach((v, i) => {
      if (snaps[i] && !snaps[i]!.equals(v)) fl |= 2;
    });
    kept.forEach((v) => { if (v instanceof RealU8) v.fill(0xc3); });
    if (!input.every((x) => x === 0x5a)) fl |= 4;
  }
  w.u8(fl);
  w.u32(n);
  w.raw(out.b.subarray(0, out.n));
}

function doHuge(r: R, w: W) {
  const kind = r.u8();
  const n = r.u32();
  try {
    const data = Buffer.alloc(n);
    for (let i = 0; i < n; i += 1) data[i] = 97 + (i % 23);
    const e = new P.Encoder();
    if (kind === 4) e.uint8Array(data);
    else if (kind === 5) e.string(data.toString("latin1"));
    else e.error(new Error(data.toString("latin1")));
    const got = e.bytes;
    const same = got.length >= n && Buffer.compare(got.subarray(got.length - n), data) === 0;
    const d = new P.Decoder(got);
    let back = false;
    if (kind === 4) back = Buffer.compare(d.uint8Array(), data) === 0;
    else back = (kind === 5 ? d.string() : d.error().message) === data.toString("latin1");
    w.u8(0);
    w.u32(got.length);
    w.bytes(got.slice(0, 16));
    w.u8(same ? 1 : 0);
    w.u8(back ? 1 : 0);
  } catch (x: any) {
    w.u8(2);
    w.str(`${x?.name}: ${x?.message}`);
  }
}

// A long stream: the values over and over into one encoder, read back from one decoder.
function doLong(r: R, w: W) {
  const mode = r.u8();
  const a = r.u32();
  const b = r.u32();
  r.u8();
  const rounds = r.u32();
  const unit = r.bytes();
  const vals: Val[] = [];
  const reads: Rd[] = [];
  for (let n = r.u32(); n > 0; n -= 1) vals.push(getVal(r));
  for (let n = r.u32(); n > 0; n -= 1) reads.push(getRead(r));
  try {
    const e = newEncoder(mode, a, b);
    const t0 = allocated;
    for (let k = 0; k < rounds; k += 1) for (let i = 0; i < vals.length; i += 1) enc(e, vals[i]);
    const got = e.bytes;
    const t1 = allocated;
    let at = 0xffffffff;
    for (let i = 0, j = 0; i < got.length; i += 1) {
      if (got[i] !== unit[j]) {
        at = i;
        break;
      }
      j += 1;
      if (j === unit.length) j = 0;
    }
    let fails = 0;
    const t2 = allocated;
    const d = new P.Decoder(got);
    for (let k = 1; k < rounds; k += 1) {
      for (let i = 0; i < reads.length; i += 1) {
        try {
          readOne(d, reads[i]);
        } catch (x: any) {
          fails += 1;
          if (fails > 1000) throw x;
        }
      }
    }
    const t3 = allocated;
    const out = new W();
    runReads(d, reads, out);
    w.u8(0);
    w.u32(got.length);
    w.u32(at);
    w.u64(BigInt(t1 - t0));
    w.u64(BigInt(t3 - t2));
    w.u32(fails);
    w.u32(reads.length);
    w.raw(out.b.subarray(0, out.n));
  } catch (x: any) {
    w.u8(2);
    w.str(`${failName(x)}`);
  }
}

// state of one encoder after every step (only encodes: the API has no other buffer operations)
function doBuffer(r: R, w: W) {
  const mode = r.u8();
  const a = r.u32();
  const b = r.u32();
  const e = newEncoder(mode, a, b);
  const state = () => {
    w.u8(0);
    w.u32(0);
    const got = e.bytes;
    w.u32(got.length);
    w.u32(0);
    w.bytes(got);
  };
  state();
  const n = r.u32();
  for (let i = 0; i < n; i += 1) {
    r.u8();
    const v = getVal(r);
    try {
      enc(e, v);
      v.data.fill(0x5a);
      state();
    } catch (x: any) {
      w.u8(2);
      w.str(`${x?.name}: ${x?.message}`);
      return;
    }
  }
}

// Several encoders and decoders in use at once, their steps taken in the order given (top bit: a read). All results are
// looked at when everything is over.
function doInterleaved(r: R, w: W) {
  type S = { mode: number; a: number; b: number; vals: Val[]; input: Uint8Array; reads: Rd[]; e?: P.Encoder; d?: P.Decoder; nv: number; nr: number;
    diff: string; outs: { ok: boolean; v: any; name: string; left: number }[] };
  const ss: S[] = [];
  const n = r.u8();
  for (let i = 0; i < n; i += 1) {
    const s: S = { mode: r.u8(), a: r.u32(), b: r.u32(), vals: [], input: new RealU8(0), reads: [], nv: 0, nr: 0, diff: "", outs: [] };
    const nv = r.u32();
    for (let j = 0; j < nv; j += 1) s.vals.push(getVal(r));
    s.input = r.bytes();
    const nr = r.u32();
    for (let j = 0; j < nr; j += 1) s.reads.push(getRead(r));
    ss.push(s);
  }
  const order = r.bytes();
  const step = (s: S, read: boolean): boolean => {
    if (s.diff !== "" || (read ? s.nr === s.reads.length : s.nv === s.vals.length)) return false;
    if (read) {
      if (!s.d) s.d = new P.Decoder(s.input);
      const o = { ok: true, v: undefined as any, name: "", left: 0 };
      try {
        o.v = readOne(s.d, s.reads[s.nr]);
      } catch (x: any) {
        o.ok = false;
        o.name = failName(x);
      }
      o.left = s.d.length;
      s.outs.push(o);
      s.nr += 1;
      return true;
    }
    try {
      if (!s.e) s.e = newEncoder(s.mode, s.a, s.b);
      enc(s.e, s.vals[s.nv]);
    } catch (x: any) {
      s.diff = `encoding failed: ${x?.name}: ${x?.message}`;
    }
    s.nv += 1;
    return true;
  };
  order.forEach((x) => step(ss[(x & 0x7f) % ss.length], (x & 0x80) !== 0));
  for (const s of ss) {
    while (step(s, false));
    while (step(s, true));
  }
  for (const s of ss) {
    w.str(s.diff);
    w.bytes(s.e ? s.e.bytes : new RealU8(0));
    const out = new W();
    s.outs.forEach((o, i) => {
      if (!o.ok) {
        out.u8(1);
        out.str(o.name);
      } else {
        const at = out.n;
        out.u8(0);
        const bad = putPayload(out, s.reads[i], o.v);
        if (bad !== null) {
          out.n = at;
          out.u8(2);
          out.str(bad);
        }
      }
      out.u32(o.left < 0 ? 0xfffffffe : o.left);
      out.u64(0n);
    });
    w.bytes(out.b.subarray(0, out.n));
  }
}

function readFully(buf: Buffer): boolean {
  let got = 0;
  while (got < buf.length) {
    let k = 0;
    try {
      k = fs.readSync(0, buf, got, buf.length - got, null);
    } catch (x: any) {
      if (x.code === "EAGAIN") continue;
      if (x.code === "EOF") return false;
      throw x;
    }
    if (k === 0) return false;
    got += k;
  }
  return true;
}

function writeFully(b: Buffer) {
  let done = 0;
  while (done < b.length) {
    try {
      done += fs.writeSync(1, b, done, b.length - done);
    } catch (x: any) {
      if (x.code !== "EAGAIN") throw x;
    }
  }
}

const head = Buffer.alloc(4);
while (readFully(head)) {
  const frame = Buffer.alloc(head.readUInt32BE(0));
  if (!readFully(frame)) break;
  const r = new R(frame);
  const w = new W();
  w.u32(0);
  switch (String.fromCharCode(frame[0])) {
    case "E": doEncode(r, w); break;
    case "D": doDecode(r, w); break;
    case "G": doHuge(r, w); break;
    case "L": doLong(r, w); break;
    case "B": doBuffer(r, w); break;
    case "V": doInterleaved(r, w); break;
    default: break;
  }
  w.b.writeUInt32BE(w.n - 4, 0);
  writeFully(w.b.subarray(0, w.n));
}
