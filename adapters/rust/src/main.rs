//! Adapter process for the Rust implementation. Speaks the framing of /verif/harness/wire.
use polyglot_rs::{Decoder, DecodingError, Encoder, EncodingError, Kind};
use std::alloc::{GlobalAlloc, Layout, System};
use std::error::Error;
use std::fmt;
use std::io::{Cursor, Read, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};

struct Counting;
static ALLOCATED: AtomicU64 = AtomicU64::new(0);
static MOVED: AtomicU64 = AtomicU64::new(0); // what reallocation may have had to copy
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        ALLOCATED.fetch_add(l.size() as u64, Ordering::Relaxed);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        ALLOCATED.fetch_add(l.size() as u64, Ordering::Relaxed);
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        ALLOCATED.fetch_add(n.saturating_sub(l.size()) as u64, Ordering::Relaxed);
        MOVED.fetch_add(n.min(l.size()) as u64, Ordering::Relaxed);
        System.realloc(p, l, n)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
}
#[global_allocator]
static A: Counting = Counting;

#[derive(Debug)]
struct Msg(String);
impl fmt::Display for Msg {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl Error for Msg {}

// Errors of several kinds: what travels is the text Display gives.
#[derive(Debug)]
struct Caused(String, Option<Box<dyn Error>>);
impl fmt::Display for Caused {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl Error for Caused {
    fn source(&self) -> Option<&(dyn Error + 'static)> {
        self.1.as_deref()
    }
    #[allow(deprecated)]
    fn description(&self) -> &str {
        "description"
    }
}

fn make_err(s: &str) -> Box<dyn Error> {
    let h = s.bytes().take(16).fold(s.len() as u32, |h, b| h.wrapping_mul(31).wrapping_add(b as u32));
    match h % 6 {
        0 => Box::new(Msg(s.to_string())),
        1 => Box::new(Caused(s.to_string(), Some(Box::new(Msg("cause".into()))))),
        2 => Box::new(Caused(s.to_string(), Some(Box::new(Caused("cause".into(), Some(Box::new(fmt::Error))))))),
        3 => s.into(),
        4 => Box::new(std::io::Error::new(std::io::ErrorKind::Other, Msg(s.to_string()))),
        _ => Box::new(Caused(s.to_string(), None)),
    }
}

struct R<'a> {
    b: &'a [u8],
    p: usize,
}
impl<'a> R<'a> {
    fn take(&mut self, n: usize) -> &'a [u8] {
        if self.p + n > self.b.len() {
            eprintln!("adapter: malformed request");
            std::process::exit(3);
        }
        let s = &self.b[self.p..self.p + n];
        self.p += n;
        s
    }
    fn u8(&mut self) -> u8 {
        self.take(1)[0]
    }
    fn u16(&mut self) -> u16 {
        u16::from_be_bytes(self.take(2).try_into().unwrap())
    }
    fn u32(&mut self) -> u32 {
        u32::from_be_bytes(self.take(4).try_into().unwrap())
    }
    fn u64(&mut self) -> u64 {
        u64::from_be_bytes(self.take(8).try_into().unwrap())
    }
    fn bytes(&mut self) -> &'a [u8] {
        let n = self.u32() as usize;
        self.take(n)
    }
}

#[derive(Clone)]
enum Val {
    Nil,
    Slice(u8, u32),
    Map(u8, u8, u32),
    Bytes(Vec<u8>),
    Str(String),
    Err(String),
    Bool(bool),
    U8(u8),
    U16(u16),
    U32(u32),
    U64(u64),
    I32(i32),
    I64(i64),
    F32(u32),
    F64(u64),
}

fn get_val(r: &mut R) -> Val {
    match r.u8() {
        0 => Val::Nil,
        1 => {
            let k = r.u8();
            Val::Slice(k, r.u32())
        }
        2 => {
            let k = r.u8();
            let v = r.u8();
            Val::Map(k, v, r.u32())
        }
        4 => Val::Bytes(r.bytes().to_vec()),
        5 => Val::Str(String::from_utf8_lossy(r.bytes()).into_owned()),
        6 => Val::Err(String::from_utf8_lossy(r.bytes()).into_owned()),
        7 => Val::Bool(r.u8() != 0),
        8 => Val::U8(r.u8()),
        9 => Val::U16(r.u16()),
        10 => Val::U32(r.u32()),
        11 => Val::U64(r.u64()),
        12 => Val::I32(r.u32() as i32),
        13 => Val::I64(r.u64() as i64),
        14 => Val::F32(r.u32()),
        15 => Val::F64(r.u64()),
        k => {
            eprintln!("adapter: bad value kind {k}");
            std::process::exit(3)
        }
    }
}

// A kind by its name in the API; the conversion from a number is exercised next to it.
fn kind(k: u8) -> Kind {
    match k {
        0 => Kind::None,
        1 => Kind::Array,
        2 => Kind::Map,
        3 => Kind::Any,
        4 => Kind::Bytes,
        5 => Kind::String,
        6 => Kind::Error,
        7 => Kind::Bool,
        8 => Kind::U8,
        9 => Kind::U16,
        10 => Kind::U32,
        11 => Kind::U64,
        12 => Kind::I32,
        13 => Kind::I64,
        14 => Kind::F32,
        15 => Kind::F64,
        _ => Kind::Unknown,
    }
}
fn kind_for(k: u8, number: bool) -> Kind {
    if number { Kind::from(k) } else { kind(k) }
}

fn enc<'a>(c: &'a mut Cursor<Vec<u8>>, v: &Val, i: usize) -> Result<&'a mut Cursor<Vec<u8>>, EncodingError> {
    match v {
        Val::Nil => c.encode_none(),
        Val::Slice(k, n) => c.encode_array(*n as usize, kind_for(*k, i % 2 == 1)),
        Val::Map(k, w, n) => c.encode_map(*n as usize, kind_for(*k, i % 2 == 1), kind_for(*w, i % 3 == 1)),
        Val::Bytes(b) => c.encode_bytes(b),
        Val::Str(s) => {
            if i % 2 == 0 {
                c.encode_string(s)
            } else {
                c.encode_str(s)
            }
        }
        Val::Err(s) => c.encode_error(make_err(s)),
        Val::Bool(b) => c.encode_bool(*b),
        Val::U8(n) => c.encode_u8(*n),
        Val::U16(n) => c.encode_u16(*n),
        Val::U32(n) => c.encode_u32(*n),
        Val::U64(n) => c.encode_u64(*n),
        Val::I32(n) => c.encode_i32(*n),
        Val::I64(n) => c.encode_i64(*n),
        Val::F32(n) => c.encode_f32(f32::from_bits(*n)),
        Val::F64(n) => c.encode_f64(f64::from_bits(*n)),
    }
}

fn panic_text(e: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".into()
    }
}

fn put_bytes(w: &mut Vec<u8>, b: &[u8]) {
    w.extend_from_slice(&(b.len() as u32).to_be_bytes());
    w.extend_from_slice(b);
}

fn encode(r: &mut R, w: &mut Vec<u8>) {
    let mode = r.u8();
    let a = r.u32() as usize;
    let b = r.u32() as usize;
    let prefix = r.bytes().to_vec();
    let n = r.u32();
    let vals: Vec<Val> = (0..n).map(|_| get_val(r)).collect();
    let res = catch_unwind(AssertUnwindSafe(|| -> Result<Vec<u8>, String> {
        let mut c = match mode {
            1 => Cursor::new(Vec::with_capacity(a)),
            2 => {
                // a recycled vector: old contents cleared, capacity kept
                let mut v = vec![0xDDu8; a + b];
                v.clear();
                Cursor::new(v)
            }
            _ => Cursor::new(Vec::new()),
        };
        c.write_all(&prefix).map_err(|e| e.to_string())?;
        let mut i = 0;
        while i < vals.len() {
            // chain two at a time where possible: the encoder is returned by value
            let first = enc(&mut c, &vals[i], i).map_err(|e| e.to_string())?;
            if i + 1 < vals.len() && i % 4 == 0 {
                enc(first, &vals[i + 1], i + 1).map_err(|e| e.to_string())?;
                i += 1;
            }
            i += 1;
        }
        if c.position() as usize != c.get_ref().len() {
            return Err(format!("position {} but {} bytes", c.position(), c.get_ref().len()));
        }
        Ok(c.into_inner())
    }));
    match res {
        Ok(Ok(v)) => {
            w.push(0);
            w.push(0);
            put_bytes(w, &v);
        }
        Ok(Err(s)) => {
            w.push(1);
            put_bytes(w, s.as_bytes());
        }
        Err(e) => {
            w.push(2);
            put_bytes(w, panic_text(e).as_bytes());
        }
    }
}

// A history of writes to one cursor: what counts is the vector up to the cursor's position.
fn buffer(r: &mut R, w: &mut Vec<u8>) {
    let mode = r.u8();
    let a = r.u32() as usize;
    let b = r.u32() as usize;
    let mut c = match mode {
        1 => Cursor::new(Vec::with_capacity(a)),
        2 => {
            let mut v = vec![0xDDu8; a + b];
            v.clear();
            Cursor::new(v)
        }
        3 => Cursor::new(vec![0xDDu8; a + b]), // written over from the start
        _ => Cursor::new(Vec::new()),
    };
    let n = r.u32();
    fn show(w: &mut Vec<u8>, c: &Cursor<Vec<u8>>, ret: u32) {
        let at = c.position() as usize;
        w.push(0);
        w.extend_from_slice(&ret.to_be_bytes());
        w.extend_from_slice(&(at as u32).to_be_bytes());
        w.extend_from_slice(&(c.get_ref().capacity() as u32).to_be_bytes());
        put_bytes(w, &c.get_ref()[..at.min(c.get_ref().len())]);
    }
    show(w, &c, 0);
    for i in 0..n as usize {
        let op = r.u8();
        let res = catch_unwind(AssertUnwindSafe(|| -> Result<u32, String> {
            match op {
                0 => {
                    let d = r.bytes();
                    c.write_all(d).map_err(|e| e.to_string())?;
                    return Ok(d.len() as u32);
                }
                1 => {
                    let v = get_val(r);
                    enc(&mut c, &v, i).map_err(|e| e.to_string())?;
                }
                3 => {
                    let k = r.u32() as i32;
                    let at = c.position() as i64 + k as i64;
                    c.set_position(at as u64);
                }
                4 => c.set_position(0), // the old contents stay behind the cursor
                6 => {
                    c.get_mut().clear();
                    c.set_position(0);
                }
                k => {
                    eprintln!("adapter: bad buffer step {k}");
                    std::process::exit(3)
                }
            }
            Ok(0)
        }));
        match res {
            Ok(Ok(ret)) => show(w, &c, ret),
            Ok(Err(s)) => {
                w.push(1);
                put_bytes(w, s.as_bytes());
                return;
            }
            Err(e) => {
                w.push(2);
                put_bytes(w, panic_text(e).as_bytes());
                return;
            }
        }
    }
}

fn err_name(e: &DecodingError) -> &'static str {
    use DecodingError::*;
    match e {
        InvalidNone => "nil",
        InvalidArray => "slice",
        InvalidMap => "map",
        InvalidBytes => "bytes",
        InvalidString => "string",
        InvalidError => "error",
        InvalidBool => "bool",
        InvalidU8 => "u8",
        InvalidU16 => "u16",
        InvalidU32 => "u32",
        InvalidU64 => "u64",
        InvalidI32 => "i32",
        InvalidI64 => "i64",
        InvalidF32 => "f32",
        InvalidF64 => "f64",
        InvalidEnum => "enum",
        InvalidStruct => "struct",
    }
}

struct Rd {
    kind: u8,
    kk: u8,
    vk: u8,
}
fn get_read(r: &mut R) -> Rd {
    let kind = r.u8();
    let (mut kk, mut vk) = (0, 0);
    match kind {
        1 => vk = r.u8(),
        2 => {
            kk = r.u8();
            vk = r.u8();
        }
        4 => {
            r.u32();
            r.u32();
        }
        _ => {}
    }
    Rd { kind, kk, vk }
}

// The payload of a successful read, already in protocol form.
fn read_one<T: AsRef<[u8]>>(c: &mut Cursor<T>, d: &Rd) -> Result<Vec<u8>, DecodingError> {
    Ok(match d.kind {
        0 => {
            if c.decode_none() {
                vec![]
            } else {
                return Err(DecodingError::InvalidNone);
            }
        }
        1 => (c.decode_array(kind_for(d.vk, c.position() % 2 == 1))? as u32).to_be_bytes().to_vec(),
        2 => (c.decode_map(kind_for(d.kk, c.position() % 2 == 1), kind_for(d.vk, c.position() % 3 == 1))? as u32).to_be_bytes().to_vec(),
        4 => c.decode_bytes()?,
        5 => c.decode_string()?.into_bytes(),
        6 => c.decode_error()?.to_string().into_bytes(),
        7 => vec![c.decode_bool()? as u8],
        8 => vec![c.decode_u8()?],
        9 => c.decode_u16()?.to_be_bytes().to_vec(),
        10 => c.decode_u32()?.to_be_bytes().to_vec(),
        11 => c.decode_u64()?.to_be_bytes().to_vec(),
        12 => c.decode_i32()?.to_be_bytes().to_vec(),
        13 => c.decode_i64()?.to_be_bytes().to_vec(),
        14 => c.decode_f32()?.to_bits().to_be_bytes().to_vec(),
        15 => c.decode_f64()?.to_bits().to_be_bytes().to_vec(),
        k => {
            eprintln!("adapter: bad read kind {k}");
            std::process::exit(3)
        }
    })
}

fn run_reads<T: AsRef<[u8]>>(c: &mut Cursor<T>, reads: &[Rd], out: &mut Vec<u8>) -> u32 {
    let mut count = 0;
    for d in reads {
        let before = ALLOCATED.load(Ordering::Relaxed);
        let res = catch_unwind(AssertUnwindSafe(|| read_one(c, d)));
        let alloc = ALLOCATED.load(Ordering::Relaxed) - before;
        count += 1;
        let mut stop = false;
        match res {
            Ok(Ok(v)) => {
                out.push(0);
                if (4..=6).contains(&d.kind) {
                    put_bytes(out, &v);
                } else {
                    out.extend_from_slice(&v);
                }
            }
            Ok(Err(e)) => {
                out.push(1);
                put_bytes(out, err_name(&e).as_bytes());
            }
            Err(e) => {
                out.push(2);
                put_bytes(out, panic_text(e).as_bytes());
                stop = true;
            }
        }
        let len = c.get_ref().as_ref().len() as u64;
        // a position past the end shows as a huge remainder
        out.extend_from_slice(&(len.wrapping_sub(c.position()) as u32).to_be_bytes());
        out.extend_from_slice(&alloc.to_be_bytes());
        if stop {
            break;
        }
    }
    count
}

fn decode(r: &mut R, w: &mut Vec<u8>) {
    let _flags = r.u8();
    let input = r.bytes().to_vec();
    let n = r.u32();
    let reads: Vec<Rd> = (0..n).map(|_| get_read(r)).collect();
    let mut out = Vec::new();
    let mut c = Cursor::new(input.clone());
    let count = run_reads(&mut c, &reads, &mut out);
    // the same through a borrowing cursor must behave identically
    let mut out2 = Vec::new();
    let mut c2 = Cursor::new(&input[..]);
    run_reads(&mut c2, &reads, &mut out2);
    let mut fl = 0u8;
    if c.get_ref() != &input {
        fl |= 1;
    }
    if strip(&out, &reads) != strip(&out2, &reads) {
        fl |= 8;
    }
    w.push(fl);
    w.extend_from_slice(&count.to_be_bytes());
    w.extend_from_slice(&out);
}

// results without the allocation counters
fn strip(out: &[u8], reads: &[Rd]) -> Vec<u8> {
    let mut r = R { b: out, p: 0 };
    let mut v = Vec::new();
    for d in reads {
        if r.p >= out.len() {
            break;
        }
        let st = r.u8();
        v.push(st);
        if st == 0 {
            match d.kind {
                4..=6 => v.extend_from_slice(r.bytes()),
                0 => {}
                7 | 8 => v.extend_from_slice(r.take(1)),
                9 => v.extend_from_slice(r.take(2)),
                11 | 13 | 15 => v.extend_from_slice(r.take(8)),
                _ => v.extend_from_slice(r.take(4)),
            }
        } else {
            v.extend_from_slice(r.bytes());
        }
        v.extend_from_slice(r.take(4));
        r.take(8);
    }
    v
}

fn huge(r: &mut R, w: &mut Vec<u8>) {
    let kind = r.u8();
    let n = r.u32() as usize;
    let res = catch_unwind(|| {
        let mut data = vec![0u8; n];
        for (i, x) in data.iter_mut().enumerate() {
            *x = b'a' + (i % 23) as u8;
        }
        let s = String::from_utf8(data).unwrap();
        let mut c = Cursor::new(Vec::new());
        let v = match kind {
            4 => c.encode_bytes(s.as_bytes()).is_ok(),
            5 => c.encode_str(&s).is_ok(),
            _ => c.encode_error(make_err(&s)).is_ok(),
        };
        assert!(v);
        let got = c.into_inner();
        let same = got.len() >= n && &got[got.len() - n..] == s.as_bytes();
        let mut d = Cursor::new(&got[..]);
        let back = match kind {
            4 => d.decode_bytes().map(|b| b == s.as_bytes()).unwrap_or(false),
            5 => d.decode_string().map(|b| b == s).unwrap_or(false),
            _ => d.decode_error().map(|b| b.to_string() == s).unwrap_or(false),
        };
        (got.len() as u32, got[..got.len().min(16)].to_vec(), same, back)
    });
    match res {
        Ok((l, h, same, back)) => {
            w.push(0);
            w.extend_from_slice(&l.to_be_bytes());
            put_bytes(w, &h);
            w.push(same as u8);
            w.push(back as u8);
        }
        Err(e) => {
            w.push(2);
            put_bytes(w, panic_text(e).as_bytes());
        }
    }
}

// A long stream: the values over and over into one cursor, read back from one cursor, as in the Go adapters.
fn long(r: &mut R, w: &mut Vec<u8>) {
    let mode = r.u8();
    let a = r.u32() as usize;
    let b = r.u32() as usize;
    let _raw = r.u8();
    let rounds = r.u32();
    let unit = r.bytes().to_vec();
    let n = r.u32();
    let vals: Vec<Val> = (0..n).map(|_| get_val(r)).collect();
    let n = r.u32();
    let reads: Vec<Rd> = (0..n).map(|_| get_read(r)).collect();
    let total = || ALLOCATED.load(Ordering::Relaxed) + MOVED.load(Ordering::Relaxed);
    let res = catch_unwind(AssertUnwindSafe(|| -> Result<Vec<u8>, String> {
        let mut c = match mode {
            1 => Cursor::new(Vec::with_capacity(a)),
            2 => {
                let mut v = vec![0xDDu8; a + b];
                v.clear();
                Cursor::new(v)
            }
            _ => Cursor::new(Vec::new()),
        };
        let t0 = total();
        for _ in 0..rounds {
            for (i, v) in vals.iter().enumerate() {
                enc(&mut c, v, i).map_err(|e| e.to_string())?;
            }
        }
        let t1 = total();
        let got = c.into_inner();
        let at = got.iter().zip(unit.iter().cycle()).position(|(x, y)| x != y).map_or(u32::MAX, |x| x as u32);
        let mut d = Cursor::new(&got[..]);
        let mut fails = 0u32;
        let t2 = total();
        for _ in 1..rounds {
            for rd in &reads {
                if read_one(&mut d, rd).is_err() {
                    fails += 1;
                }
            }
        }
        let t3 = total();
        let mut out = vec![];
        let count = run_reads(&mut d, &reads, &mut out);
        let mut w = vec![0u8];
        w.extend_from_slice(&(got.len() as u32).to_be_bytes());
        w.extend_from_slice(&at.to_be_bytes());
        w.extend_from_slice(&(t1 - t0).to_be_bytes());
        w.extend_from_slice(&(t3 - t2).to_be_bytes());
        w.extend_from_slice(&fails.to_be_bytes());
        w.extend_from_slice(&count.to_be_bytes());
        w.extend_from_slice(&out);
        Ok(w)
    }));
    match res {
        Ok(Ok(v)) => w.extend_from_slice(&v),
        Ok(Err(s)) => {
            w.push(1);
            put_bytes(w, s.as_bytes());
        }
        Err(e) => {
            w.push(2);
            put_bytes(w, panic_text(e).as_bytes());
        }
    }
}

// Independent workloads on separate threads, as in the Go adapters.
fn concurrent(r: &mut R, w: &mut Vec<u8>) {
    let nw = r.u8();
    let rounds = r.u32();
    let mut loads = Vec::new();
    for _ in 0..nw {
        r.u8();
        let n = r.u32();
        let vals: Vec<Val> = (0..n).map(|_| get_val(r)).collect();
        let n = r.u32();
        let reads: Vec<Rd> = (0..n).map(|_| get_read(r)).collect();
        loads.push((vals, reads));
    }
    let handles: Vec<_> = loads
        .into_iter()
        .map(|(vals, reads)| {
            std::thread::spawn(move || {
                let mut diff = String::new();
                let mut first: Option<(Vec<u8>, Vec<u8>, Vec<u8>)> = None;
                for k in 0..rounds {
                    let res = catch_unwind(AssertUnwindSafe(|| {
                        let mut c = Cursor::new(Vec::new());
                        for (i, v) in vals.iter().enumerate() {
                            enc(&mut c, v, i).map_err(|e| e.to_string())?;
                        }
                        let got = c.into_inner();
                        let mut d = Cursor::new(&got[..]);
                        let mut out = Vec::new();
                        run_reads(&mut d, &reads, &mut out);
                        let s = strip(&out, &reads);
                        Ok::<_, String>((got, out, s))
                    }));
                    match res {
                        Ok(Ok(x)) => match &first {
                            None => first = Some(x),
                            Some(f) => {
                                if f.0 != x.0 || f.2 != x.2 {
                                    diff = format!("round {k} differs from round 0");
                                    break;
                                }
                            }
                        },
                        Ok(Err(e)) => {
                            diff = e;
                            break;
                        }
                        Err(e) => {
                            diff = panic_text(e);
                            break;
                        }
                    }
                }
                let (b, o, _) = first.unwrap_or_default();
                (diff, b, o)
            })
        })
        .collect();
    for h in handles {
        let (d, b, o) = h.join().unwrap();
        put_bytes(w, d.as_bytes());
        put_bytes(w, &b);
        put_bytes(w, &o);
    }
}

// Several cursors in use at once in one thread, their steps taken in the order given (top bit: a read). All results are
// looked at when everything is over.
#[derive(Default)]
struct Session {
    mode: u8,
    a: usize,
    b: usize,
    vals: Vec<Val>,
    reads: Vec<Rd>,
    enc: Option<Cursor<Vec<u8>>>,
    dec: Option<Cursor<Vec<u8>>>,
    input: Vec<u8>,
    nv: usize,
    nr: usize,
    out: Vec<u8>,
    diff: String,
}

impl Session {
    fn step(&mut self, read: bool) -> bool {
        if !self.diff.is_empty() || (read && self.nr == self.reads.len()) || (!read && self.nv == self.vals.len()) {
            return false;
        }
        if read {
            let input = &self.input;
            let c = self.dec.get_or_insert_with(|| Cursor::new(input.clone()));
            run_reads(c, &self.reads[self.nr..self.nr + 1], &mut self.out);
            self.nr += 1;
            return true;
        }
        let (mode, a, b) = (self.mode, self.a, self.b);
        let c = self.enc.get_or_insert_with(|| match mode {
            1 => Cursor::new(Vec::with_capacity(a)),
            2 => {
                let mut v = vec![0xDDu8; a + b];
                v.clear();
                Cursor::new(v)
            }
            _ => Cursor::new(Vec::new()),
        });
        let (v, i) = (&self.vals[self.nv], self.nv);
        match catch_unwind(AssertUnwindSafe(|| enc(c, v, i).map(|_| ()).map_err(|e| e.to_string()))) {
            Ok(Ok(())) => {}
            Ok(Err(e)) => self.diff = format!("encoding failed: {e}"),
            Err(e) => self.diff = panic_text(e),
        }
        self.nv += 1;
        true
    }
}

fn interleaved(r: &mut R, w: &mut Vec<u8>) {
    let n = r.u8();
    let mut ss = Vec::new();
    for _ in 0..n {
        let mut s = Session { mode: r.u8(), a: r.u32() as usize, b: r.u32() as usize, ..Default::default() };
        let k = r.u32();
        s.vals = (0..k).map(|_| get_val(r)).collect();
        s.input = r.bytes().to_vec();
        let k = r.u32();
        s.reads = (0..k).map(|_| get_read(r)).collect();
        ss.push(s);
    }
    let k = ss.len();
    for x in r.bytes() {
        ss[(x & 0x7f) as usize % k].step(x & 0x80 != 0);
    }
    for s in ss.iter_mut() {
        while s.step(false) {}
        while s.step(true) {}
    }
    for s in ss {
        put_bytes(w, s.diff.as_bytes());
        put_bytes(w, &s.enc.map(|c| c.into_inner()).unwrap_or_default());
        put_bytes(w, &s.out);
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let stdin = std::io::stdin();
    let mut inp = stdin.lock();
    let stdout = std::io::stdout();
    let mut outp = stdout.lock();
    loop {
        let mut h = [0u8; 4];
        if inp.read_exact(&mut h).is_err() {
            return;
        }
        let mut frame = vec![0u8; u32::from_be_bytes(h) as usize];
        if inp.read_exact(&mut frame).is_err() {
            return;
        }
        let mut r = R { b: &frame, p: 1 };
        let mut w = vec![0u8; 4];
        match frame[0] {
            b'E' => encode(&mut r, &mut w),
            b'D' => decode(&mut r, &mut w),
            b'B' => buffer(&mut r, &mut w),
            b'G' => huge(&mut r, &mut w),
            b'L' => long(&mut r, &mut w),
            b'V' => interleaved(&mut r, &mut w),
            b'C' => concurrent(&mut r, &mut w),
            _ => {}
        }
        let n = (w.len() - 4) as u32;
        w[..4].copy_from_slice(&n.to_be_bytes());
        if outp.write_all(&w).is_err() || outp.flush().is_err() {
            return;
        }
    }
}
