//! The system random source, replaced: a queue of scripted bytes, then either
//! failure or a pseudo-random stream derived from the scenario.

use crate::*;
use std::cell::RefCell;

struct R {
    queue: Vec<u8>,
    pos: usize,
    then: Then,
    ctr: u64,
    key: u64,
    fail_at: Option<usize>,
    calls_total: usize,
    calls: usize,
    used: Vec<u8>,
    failed: bool,
}

#[derive(Clone, Copy, PartialEq)]
enum Then {
    Prng,
    Fail,
    Fill(u8),
}

thread_local! {
    static RNG: RefCell<R> = const { RefCell::new(R {
        queue: Vec::new(), pos: 0, then: Then::Prng, ctr: 0, key: 0, fail_at: None,
        calls_total: 0, calls: 0, used: Vec::new(), failed: false,
    }) };
}

fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e3779b97f4a7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

pub fn reset(id: &str) {
    let key = id.bytes().fold(0xcbf29ce484222325u64, |h, c| mix(h ^ c as u64));
    RNG.with(|r| {
        *r.borrow_mut() = R {
            queue: vec![], pos: 0, then: Then::Prng, ctr: 0, key, fail_at: None,
            calls_total: 0, calls: 0, used: vec![], failed: false,
        }
    });
}

/// something that differs between scenarios and steps
pub fn peek() -> u64 {
    RNG.with(|r| {
        let mut r = r.borrow_mut();
        r.ctr += 8;
        mix(r.key ^ r.ctr)
    })
}

pub fn begin_step() {
    RNG.with(|r| {
        let mut r = r.borrow_mut();
        r.calls = 0;
        r.used.clear();
        r.failed = false;
    })
}

pub fn end_step() -> (usize, Vec<u8>, bool) {
    RNG.with(|r| {
        let r = r.borrow();
        (r.calls, r.used.clone(), r.failed)
    })
}

#[unsafe(no_mangle)]
unsafe extern "Rust" fn __getrandom_v03_custom(dest: *mut u8, len: usize) -> Result<(), getrandom::Error> {
    let dest = unsafe { core::slice::from_raw_parts_mut(dest, len) };
    RNG.with(|r| {
        let mut r = r.borrow_mut();
        r.calls += 1;
        r.calls_total += 1;
        if r.fail_at == Some(r.calls_total) {
            r.failed = true;
            return Err(getrandom::Error::UNSUPPORTED);
        }
        for d in dest.iter_mut() {
            if r.pos < r.queue.len() {
                *d = r.queue[r.pos];
                r.pos += 1;
                continue;
            }
            match r.then {
                Then::Fail => {
                    r.failed = true;
                    return Err(getrandom::Error::UNSUPPORTED);
                }
                Then::Fill(v) => *d = v,
                Then::Prng => {
                    let c = r.ctr;
                    r.ctr += 1;
                    *d = (mix(r.key ^ mix(c / 8)) >> (8 * (c % 8))) as u8;
                }
            }
        }
        r.used.extend_from_slice(dest);
        Ok(())
    })
}

pub fn step(_w: &mut World, op: &str, e: &Value) -> Out {
    match op {
        // bytes: scripted output; then: "prng" | "fail" | "fill"; failat: call number that fails (0 = none)
        "rng.set" => RNG.with(|r| {
            let mut r = r.borrow_mut();
            r.queue = raw(e, "bytes");
            r.pos = 0;
            r.calls_total = 0;
            r.then = match s(e, "then") {
                "prng" => Then::Prng,
                "fail" => Then::Fail,
                "fill" => Then::Fill(n(e, "fill") as u8),
                x => fail(x),
            };
            r.fail_at = match e["failat"].as_u64() {
                None | Some(0) => None,
                Some(x) => Some(x as usize),
            };
            ok(|_| {})
        }),
        "rng.fill" => {
            let mut buf = vec![b(e, "pre")[0]; n(e, "n")];
            let r = graviola::random::fill(&mut buf);
            res(r, |_, o| put(o, "out", &buf))
        }
        _ => fail(op),
    }
}
