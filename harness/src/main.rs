//! gvh: replays scenarios (JSON lines) on the real library and records, for
//! every step, what was observed.  It contains no expectations.
//!
//! usage: gvh run <scenarios.ndjson> <traces.ndjson> [first] [stride]

mod aead;
mod conc;
mod hash;
mod kex;
mod leak;
mod pair;
mod rng;
mod sign;
mod tls;
mod wipe;

use serde_json::{Map, Value, json};
use leak::tr;
use std::cell::RefCell;
use std::collections::HashMap;
use std::io::{BufRead, Write};
use std::panic::{AssertUnwindSafe, catch_unwind};

#[global_allocator]
static ALLOC: wipe::WatchAlloc = wipe::WatchAlloc;

pub type Out = Map<String, Value>;

pub struct World {
    pub objs: HashMap<String, Obj>,
    /// what a concurrent lane shares with the others: the objects made before
    pub base: *const World,
}

impl World {
    pub fn new(base: *const World) -> Self {
        World { objs: HashMap::new(), base }
    }
    pub fn find(&self, h: &str) -> Option<&Obj> {
        match self.objs.get(h) {
            None if !self.base.is_null() => unsafe { (*self.base).find(h) },
            x => x,
        }
    }
}

#[allow(clippy::large_enum_variant)]
pub enum Obj {
    Hash(hash::HashObj),
    Aead(aead::AeadObj),
    Kex(kex::KexObj),
    Sign(sign::SignObj),
    Tls(tls::TlsObj),
}

pub fn unhex(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    let d = |c: u8| match c {
        b'0'..=b'9' => c - b'0',
        b'a'..=b'f' => c - b'a' + 10,
        _ => panic!("harness: bad hex"),
    };
    b.chunks(2).map(|p| (d(p[0]) << 4) | d(p[1])).collect()
}

pub fn hex(b: &[u8]) -> String {
    const H: &[u8; 16] = b"0123456789abcdef";
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        s.push(H[(x >> 4) as usize] as char);
        s.push(H[(x & 15) as usize] as char);
    }
    s
}

pub fn s<'a>(e: &'a Value, k: &str) -> &'a str {
    e[k].as_str().unwrap_or_else(|| fail(&format!("missing string field {k} in {e}")))
}

/// Bytes for the library, placed as the scenario says.
pub fn b(e: &Value, k: &str) -> Buf {
    Buf::new(&raw(e, k), al(e))
}

pub fn raw(e: &Value, k: &str) -> Vec<u8> {
    unhex(s(e, k))
}

pub fn n(e: &Value, k: &str) -> usize {
    e[k].as_u64().unwrap_or_else(|| fail(&format!("missing int field {k} in {e}"))) as usize
}

pub fn bs(e: &Value, k: &str) -> Vec<Buf> {
    e[k].as_array()
        .unwrap_or_else(|| fail(&format!("missing array field {k} in {e}")))
        .iter()
        .map(|x| Buf::new(&unhex(x.as_str().unwrap()), al(e)))
        .collect()
}

/// The harness itself was given something it cannot run: not an observation.
/// The step names an object that does not exist (the call that should have
/// made it failed).
pub struct Absent;
pub fn absent() -> ! {
    std::panic::panic_any(Absent)
}

pub fn fail(m: &str) -> ! {
    eprintln!("harness error: {m}");
    std::process::exit(3);
}

unsafe extern "C" {
    fn mmap(a: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn munmap(a: *mut u8, len: usize) -> i32;
    fn mprotect(a: *mut u8, len: usize, prot: i32) -> i32;
}

/// Message buffers are placed at a chosen misalignment (`al` < 64), so that
/// vector code meets every alignment, or flush against an inaccessible page at
/// their end (`al` = 100) or start (`al` = 101), so that any access outside
/// the buffer is a crash.
pub enum Buf {
    Heap(Vec<u8>, usize),
    Guard { map: *mut u8, map_len: usize, data: *mut u8, len: usize },
}

impl Buf {
    pub fn new(data: &[u8], al: usize) -> Self {
        if al < 100 {
            let mut v = vec![0xa5u8; data.len() + 128];
            let base = v.as_ptr() as usize;
            let off = (64 - base % 64) % 64 + al % 64;
            v[off..off + data.len()].copy_from_slice(data);
            v.truncate(off + data.len());
            return Self::Heap(v, off);
        }
        const PG: usize = 4096;
        let body = data.len().div_ceil(PG).max(1) * PG;
        let map_len = body + 2 * PG;
        unsafe {
            let map = mmap(core::ptr::null_mut(), map_len, 3, 0x22, -1, 0);
            if map as isize == -1 {
                fail("mmap");
            }
            mprotect(map, PG, 0);
            mprotect(map.add(PG + body), PG, 0);
            let d = if al == 100 { map.add(PG + body - data.len()) } else { map.add(PG) };
            core::ptr::copy_nonoverlapping(data.as_ptr(), d, data.len());
            Self::Guard { map, map_len, data: d, len: data.len() }
        }
    }
    pub fn get(&mut self) -> &mut [u8] {
        match self {
            Self::Heap(v, off) => &mut v[*off..],
            Self::Guard { data, len, .. } => unsafe { core::slice::from_raw_parts_mut(*data, *len) },
        }
    }
}

impl std::ops::Deref for Buf {
    type Target = [u8];
    fn deref(&self) -> &[u8] {
        match self {
            Self::Heap(v, off) => &v[*off..],
            Self::Guard { data, len, .. } => unsafe { core::slice::from_raw_parts(*data, *len) },
        }
    }
}

impl AsRef<[u8]> for Buf {
    fn as_ref(&self) -> &[u8] {
        self
    }
}

impl std::ops::DerefMut for Buf {
    fn deref_mut(&mut self) -> &mut [u8] {
        self.get()
    }
}

impl Drop for Buf {
    fn drop(&mut self) {
        if let Self::Guard { map, map_len, .. } = self {
            unsafe { munmap(*map, *map_len) };
        }
    }
}

pub fn al(e: &Value) -> usize {
    e["al"].as_u64().map_or(PLACE.get(), |x| x as usize)
}

pub fn err_name(e: &graviola::Error) -> String {
    let d = format!("{e:?}");
    let end = d.find('(').unwrap_or(d.len());
    format!("err:{}", &d[..end])
}

/// Records `Ok` with the given output fields, or the error's name.
pub fn res<T>(r: Result<T, graviola::Error>, f: impl FnOnce(T, &mut Out)) -> Out {
    let mut o = Out::new();
    match r {
        Ok(v) => {
            o.insert("r".into(), json!("ok"));
            f(v, &mut o);
        }
        Err(e) => {
            o.insert("r".into(), json!(err_name(&e)));
            o.insert("detail".into(), json!(format!("{e:?}")));
        }
    }
    o
}

pub fn ok(f: impl FnOnce(&mut Out)) -> Out {
    let mut o = Out::new();
    o.insert("r".into(), json!("ok"));
    f(&mut o);
    o
}

pub fn put(o: &mut Out, k: &str, v: &[u8]) {
    o.insert(k.into(), json!(hex(v)));
}

pub fn dispatch(w: &mut World, e: &Value) -> Out {
    let op = s(e, "op");
    match op.split('.').next().unwrap() {
        "rng" => rng::step(w, op, e),
        "hash" | "sha3" | "xof" | "hmac" => hash::step(w, op, e),
        "aead" => aead::step(w, op, e),
        "x25519" | "ecdh" | "mlkem" => kex::step(w, op, e),
        "ecdsa" | "ed25519" | "rsa" => sign::step(w, op, e),
        "tls" => tls::step(w, op, e),
        "wipe" => wipe::step(w, op, e),
        "conc" => conc::step(w, op, e),
        "leak" => leak::step(w, op, e),
        "drop" => {
            let o = w.objs.remove(s(e, "h"));
            tr(|| drop(o));
            ok(|_| {})
        }
        _ => fail(&format!("unknown op {op}")),
    }
}

thread_local! {
    /// where buffers go unless a step says otherwise; varies over scenarios
    pub static PLACE: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn run_step(w: &mut World, e: &Value) -> Value {
    rng::begin_step();
    let mut out = match catch_unwind(AssertUnwindSafe(|| dispatch(w, e))) {
        Ok(o) => o,
        Err(p) if p.is::<Absent>() => {
            let mut o = Out::new();
            o.insert("r".into(), json!("absent"));
            o
        }
        Err(_) => {
            let mut o = Out::new();
            o.insert("r".into(), json!("panic"));
            o.insert("detail".into(), json!(PANIC.with(|p| p.borrow().clone())));
            o
        }
    };
    let used = rng::end_step();
    if used.0 > 0 {
        out.insert("rngcalls".into(), json!(used.0));
        out.insert("rnglen".into(), json!(used.1.len()));
        if used.1.len() <= 2048 || e["op"] == "rng.fill" {
            out.insert("rng".into(), json!(hex(&used.1)));
        }
        if used.2 {
            out.insert("rngfail".into(), json!(true));
        }
    }
    let mut m = e.as_object().unwrap().clone();
    m.append(&mut out);
    Value::Object(m)
}

pub fn run_scenario(sc: &Value) -> Value {
    let mut w = World::new(std::ptr::null());
    rng::reset(s(sc, "id"));
    tls::set_clock(-1);
    let h = s(sc, "id").bytes().fold(0x811c9dc5u32, |h, x| (h ^ u32::from(x)).wrapping_mul(0x01000193)) >> 7;
    PLACE.set(match h % 4 {
        0 => 100,
        1 => 101,
        _ => (h / 4 % 64) as usize,
    });
    let mut steps = vec![];
    for e in sc["steps"].as_array().unwrap() {
        let r = run_step(&mut w, e);
        let stop = r["r"] == "panic" || (r["r"] == "absent" && e["opt"] != true);
        steps.push(r);
        if stop {
            break;
        }
    }
    let mut m = sc.as_object().unwrap().clone();
    m.insert("planned".into(), json!(sc["steps"].as_array().unwrap().len()));
    m.insert("steps".into(), Value::Array(steps));
    Value::Object(m)
}

fn main() {
    std::panic::set_hook(Box::new(|i| {
        let m = format!("{i}");
        PANIC.with(|p| *p.borrow_mut() = m.chars().filter(|c| !"\"\\\n".contains(*c)).take(300).collect());
    }));
    let a: Vec<String> = std::env::args().collect();
    let first: usize = a.get(3).map_or(0, |x| x.parse().unwrap());
    let stride: usize = a.get(4).map_or(1, |x| x.parse().unwrap());
    let input = std::io::BufReader::new(std::fs::File::open(&a[1]).unwrap());
    let mut out = std::fs::OpenOptions::new().create(true).append(true).open(&a[2]).unwrap();
    for (i, line) in input.lines().enumerate() {
        if i < first || (i - first) % stride != 0 {
            continue;
        }
        let sc: Value = serde_json::from_str(&line.unwrap()).unwrap();
        let t = run_scenario(&sc);
        let mut l = serde_json::to_string(&json!({"idx": i, "t": t})).unwrap();
        l.push('\n');
        out.write_all(l.as_bytes()).unwrap();
    }
}
