//! What an observer of the processor sees of a call: the address of every
//! instruction executed, the address of every memory operand, and the operands
//! of divisions.  The call is single-stepped (trap flag) in a forked child, so
//! that all runs of one step start from the same memory.
//!
//! GVH_INSNS names the table of memory operands that check.py makes from the
//! disassembly: records of off:u32 disp:i32 base:u8 index:u8 scale:u8 kind:u8.

use crate::*;
use std::sync::atomic::{AtomicBool, Ordering::Relaxed};

static ON: AtomicBool = AtomicBool::new(false);

const MAX: usize = 1 << 26;
struct St {
    base: u64,
    idx: Vec<u32>,
    tab: Vec<[u8; 12]>,
    hash: u64,
    steps: u64,
    /// items of the first run, for finding where another one departs from it
    reference: *mut u64,
    first: bool,
    pos: usize,
    depart: Option<(usize, u64)>,
}
static mut ST: *mut St = core::ptr::null_mut();

fn mix(h: u64, x: u64) -> u64 {
    let z = (h ^ x).wrapping_mul(0x9e3779b97f4a7c15);
    z ^ (z >> 29)
}

/// x86 register numbers as in the encoding; 16 = none
fn reg(g: &[i64; 23], r: u8) -> u64 {
    const MAP: [usize; 16] = [13, 14, 12, 11, 15, 10, 9, 8, 0, 1, 2, 3, 4, 5, 6, 7];
    if r < 16 { g[MAP[r as usize]] as u64 } else { 0 }
}

extern "C" fn on_trap(_: i32, _: *mut libc::siginfo_t, uc: *mut libc::c_void) {
    unsafe {
        let st = &mut *ST;
        let g = &(*(uc as *const libc::ucontext_t)).uc_mcontext.gregs;
        let rip = g[16] as u64;
        let off = rip.wrapping_sub(st.base);
        let mut x = off;
        if off < st.idx.len() as u64 {
            let mut k = st.idx[off as usize] as usize;
            while k != 0 {
                let t = &st.tab[k - 1];
                let disp = i32::from_le_bytes([t[4], t[5], t[6], t[7]]) as i64 as u64;
                match t[11] & 7 {
                    1 => {
                        let a = reg(g, t[8])
                            .wrapping_add(reg(g, t[9]).wrapping_mul(t[10] as u64))
                            .wrapping_add(disp);
                        x = mix(x, a);
                    }
                    2 => x = mix(mix(mix(x, reg(g, 0)), reg(g, 2)), reg(g, t[8])),
                    _ => {}
                }
                k = if t[11] & 8 != 0 { k + 1 } else { 0 };
            }
        }
        st.hash = mix(st.hash, x);
        st.steps += 1;
        if st.pos < MAX {
            let p = st.reference.add(st.pos);
            if st.first {
                *p = x;
            } else if st.depart.is_none() && *p != x {
                st.depart = Some((st.pos, off));
            }
            st.pos += 1;
        }
    }
}

/// Runs a call of the library.  In a traced run, records what it executes.
#[inline(never)]
pub fn tr<R>(f: impl FnOnce() -> R) -> R {
    if !ON.load(Relaxed) {
        return f();
    }
    unsafe {
        core::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq");
    }
    let r = f();
    unsafe {
        core::arch::asm!("pushfq", "and qword ptr [rsp], ~0x100", "popfq");
    }
    r
}

unsafe fn setup() {
    unsafe extern "C" {
        static __executable_start: u8;
    }
    let path = std::env::var("GVH_INSNS").unwrap_or_else(|_| fail("GVH_INSNS"));
    let data = std::fs::read(path).unwrap_or_else(|_| fail("GVH_INSNS"));
    let tab: Vec<[u8; 12]> = data.chunks_exact(12).map(|c| c.try_into().unwrap()).collect();
    let top = tab.iter().map(|t| u32::from_le_bytes([t[0], t[1], t[2], t[3]])).max().unwrap_or(0);
    let mut idx = vec![0u32; top as usize + 1];
    for (k, t) in tab.iter().enumerate().rev() {
        idx[u32::from_le_bytes([t[0], t[1], t[2], t[3]]) as usize] = k as u32 + 1;
    }
    unsafe {
        let reference = libc::mmap(core::ptr::null_mut(), MAX * 8, 3, libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0);
        if reference == libc::MAP_FAILED {
            fail("mmap");
        }
        ST = Box::into_raw(Box::new(St {
            base: (&raw const __executable_start) as u64, idx, tab, hash: 0, steps: 0,
            reference: reference.cast(), first: true, pos: 0, depart: None,
        }));
        let stack = libc::mmap(core::ptr::null_mut(), 1 << 18, 3, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS, -1, 0);
        let ss = libc::stack_t { ss_sp: stack, ss_flags: 0, ss_size: 1 << 18 };
        libc::sigaltstack(&ss, core::ptr::null_mut());
        let mut sa: libc::sigaction = core::mem::zeroed();
        sa.sa_sigaction = on_trap as *const () as usize;
        sa.sa_flags = libc::SA_SIGINFO | libc::SA_ONSTACK;
        libc::sigaction(libc::SIGTRAP, &sa, core::ptr::null_mut());
    }
}

/// Every run in a child of its own, from the same state.
pub fn step(w: &mut World, op: &str, e: &Value) -> Out {
    if op != "leak.run" {
        fail(op);
    }
    unsafe {
        if ST.is_null() {
            setup();
        }
    }
    let runs = e["runs"].as_array().unwrap_or_else(|| fail("runs"));
    // nothing is allocated between one fork and the next
    const ROOM: usize = 1 << 22;
    let room: *mut u8 = unsafe {
        let m = libc::mmap(core::ptr::null_mut(), ROOM * runs.len(), 3, libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0);
        if m == libc::MAP_FAILED {
            fail("mmap");
        }
        m.cast()
    };
    let mut bad = 0;
    for (k, run) in runs.iter().enumerate() {
        unsafe {
            let pid = libc::fork();
            if pid < 0 {
                fail("fork");
            }
            if pid == 0 {
                ON.store(true, Relaxed);
                let st = &mut *ST;
                st.first = k == 0;
                let mut steps = vec![];
                // a copy of its own, at the same place in every run
                let run = run.clone();
                for x in run.as_array().unwrap() {
                    (st.hash, st.steps, st.depart) = (0, 0, None);
                    let mut r = run_step(w, x);
                    r["leak"] = json!(format!("{:016x}", st.hash));
                    r["insns"] = json!(st.steps);
                    if let Some((at, off)) = st.depart {
                        r["depart"] = json!(format!("{at}@{off:x}"));
                    }
                    steps.push(r);
                }
                let v = serde_json::to_vec(&Value::Array(steps)).unwrap();
                if v.len() + 8 > ROOM {
                    libc::_exit(9);
                }
                let out = room.add(ROOM * k);
                core::ptr::copy_nonoverlapping(v.as_ptr(), out.add(8), v.len());
                out.cast::<u64>().write(v.len() as u64);
                libc::_exit(0);
            }
            let mut status = 0;
            libc::waitpid(pid, &mut status, 0);
            if status != 0 {
                bad = status;
            }
        }
    }
    let outs: Vec<Value> = (0..runs.len())
        .map(|k| unsafe {
            let out = room.add(ROOM * k);
            let len = out.cast::<u64>().read() as usize;
            serde_json::from_slice(core::slice::from_raw_parts(out.add(8), len)).unwrap_or(Value::Null)
        })
        .collect();
    unsafe { libc::munmap(room.cast(), ROOM * runs.len()) };
    if bad != 0 {
        let mut o = Out::new();
        o.insert("r".into(), json!(format!("crash status={bad}")));
        return o;
    }
    ok(|o| {
        o.insert("runs".into(), Value::Array(outs));
    })
}
