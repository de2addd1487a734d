//! Several threads using the same objects at once.
use crate::*;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};

/// orders the starts and ends of all calls as they happen
static TICK: AtomicU64 = AtomicU64::new(1);
/// lanes that have arrived at their next rendezvous, over all rounds
static ARRIVED: AtomicUsize = AtomicUsize::new(0);

thread_local! {
    static LANE: std::cell::Cell<(usize, u64)> = const { std::cell::Cell::new((0, 0)) };
    static MET: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
}

struct Shared(*const World);
unsafe impl Send for Shared {}
struct Lane(World, Vec<Value>);
unsafe impl Send for Lane {}

fn until(f: impl Fn() -> bool) {
    let mut n = 0;
    while !f() {
        core::hint::spin_loop();
        n += 1;
        if n > 20000 {
            std::thread::yield_now();
        }
    }
}

/// Waits until every lane is here (all lanes have the same number of these),
/// then a little more.
pub fn sync(e: &Value) {
    let Some(jitter) = e["sync"].as_u64() else { return };
    let (lanes, mut rnd) = LANE.get();
    if lanes == 0 {
        return;
    }
    MET.set(MET.get() + 1);
    ARRIVED.fetch_add(1, Ordering::SeqCst);
    until(|| ARRIVED.load(Ordering::SeqCst) >= MET.get() * lanes);
    rnd ^= rnd << 13;
    rnd ^= rnd >> 7;
    rnd ^= rnd << 17;
    LANE.set((lanes, rnd));
    for _ in 0..rnd % (jitter + 1) {
        core::hint::black_box(0);
    }
}

pub fn step(w: &mut World, op: &str, e: &Value) -> Out {
    if op != "conc.run" {
        fail(op);
    }
    let lanes = e["lanes"].as_array().unwrap_or_else(|| fail("lanes"));
    let (place, clock) = (PLACE.get(), tls::clock());
    let seed = rng::peek();
    // changes the delays, not the data
    let salt = std::env::var("GVH_SALT").ok().and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
    ARRIVED.store(0, Ordering::SeqCst);
    let gate = AtomicUsize::new(0);
    let done: Vec<Lane> = std::thread::scope(|sc| {
        let hs: Vec<_> = lanes
            .iter()
            .enumerate()
            .map(|(i, steps)| {
                let base = Shared(w);
                let gate = &gate;
                let n = lanes.len();
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn_scoped(sc, move || {
                        let base = base;
                        let mut w = World::new(base.0);
                        rng::reset(&format!("{seed}/{i}"));
                        tls::set_clock(clock);
                        PLACE.set(place);
                        LANE.set((n, (seed ^ (salt << 17) ^ (i as u64 + 1).wrapping_mul(0x9e3779b97f4a7c15)) | 1));
                        MET.set(0);
                        gate.fetch_add(1, Ordering::SeqCst);
                        until(|| gate.load(Ordering::SeqCst) >= n);
                        let mut out = vec![];
                        for s in steps.as_array().unwrap() {
                            let t0 = TICK.fetch_add(1, Ordering::SeqCst);
                            let mut r = run_step(&mut w, s);
                            let t1 = TICK.fetch_add(1, Ordering::SeqCst);
                            r["t0"] = json!(t0);
                            r["t1"] = json!(t1);
                            let stop = r["r"] == "panic" || r["r"] == "absent";
                            out.push(r);
                            if stop {
                                // the others may be waiting
                                ARRIVED.fetch_add(1 << 40, Ordering::SeqCst);
                                break;
                            }
                        }
                        Lane(w, out)
                    })
                    .unwrap()
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| fail("lane"))).collect()
    });
    let mut out = vec![];
    for l in done {
        let Lane(lw, steps) = l;
        w.objs.extend(lw.objs);
        out.push(Value::Array(steps));
    }
    ok(|o| {
        o.insert("lanes".into(), Value::Array(out));
    })
}
