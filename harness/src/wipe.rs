//! What is left in memory after an object is dropped.
use crate::*;
use std::alloc::{GlobalAlloc, Layout, System, alloc_zeroed, dealloc};
use std::cell::Cell;

thread_local! {
    static WATCH: Cell<bool> = const { Cell::new(false) };
    static FREED: RefCell<Vec<Vec<u8>>> = const { RefCell::new(Vec::new()) };
}

/// Copies the contents of every block freed while watching.
pub struct WatchAlloc;
unsafe impl GlobalAlloc for WatchAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        // nothing of what was in the block before
        unsafe {
            let p = System.alloc(l);
            if !p.is_null() {
                p.write_bytes(0xa7, l.size());
            }
            p
        }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        unsafe { System.alloc_zeroed(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if WATCH.try_with(|w| w.replace(false)).unwrap_or(false) {
            let copy = peek(p, l.size());
            FREED.with(|f| f.borrow_mut().push(copy));
            WATCH.set(true);
        }
        unsafe { System.dealloc(p, l) }
    }
}

fn peek(p: *const u8, n: usize) -> Vec<u8> {
    (0..n).map(|i| unsafe { p.add(i).read_volatile() }).collect()
}

/// Runs `f`; the contents of heap blocks it freed, as they were then.
pub fn watch<T>(f: impl FnOnce() -> T) -> (T, Vec<Vec<u8>>) {
    FREED.with(|v| v.borrow_mut().clear());
    WATCH.set(true);
    let r = catch_unwind(AssertUnwindSafe(f));
    WATCH.set(false);
    let freed = FREED.with(|v| std::mem::take(&mut *v.borrow_mut()));
    match r {
        Ok(r) => (r, freed),
        Err(p) => std::panic::resume_unwind(p),
    }
}

pub fn put_freed(o: &mut Out, freed: &[Vec<u8>]) {
    o.insert("freed".into(), Value::Array(freed.iter().map(|x| json!(hex(x))).collect()));
}

/// Moves the object to fresh memory, drops it there, and records what the
/// memory holds afterwards.
pub fn drop_report<T>(x: T, e: &Value, o: &mut Out) {
    let l = Layout::new::<T>();
    if l.size() == 0 {
        fail("drop_report of an empty type");
    }
    unsafe {
        let p = alloc_zeroed(l) as *mut T;
        p.write(x);
        if e["live"] == true {
            put(o, "live", &peek(p.cast(), l.size()));
        }
        let ((), freed) = watch(|| core::ptr::drop_in_place(p));
        put(o, "left", &peek(p.cast(), l.size()));
        put_freed(o, &freed);
        dealloc(p.cast(), l);
    }
}

/// The same for an object in a box: `left` is empty and its block is in `freed`.
fn drop_box<T: ?Sized>(x: Box<T>, e: &Value, o: &mut Out) {
    if e["live"] == true {
        put(o, "live", &peek((&*x as *const T).cast(), size_of_val(&*x)));
    }
    let ((), freed) = watch(|| drop(x));
    put(o, "left", b"");
    put_freed(o, &freed);
}

pub fn step(w: &mut World, op: &str, e: &Value) -> Out {
    if op != "wipe.drop" {
        fail(op);
    }
    let x = w.objs.remove(s(e, "h")).unwrap_or_else(|| absent());
    ok(|o| match x {
        Obj::Hash(h) => {
            use hash::HashObj::*;
            match h {
                H256(k) => drop_report(k, e, o),
                H384(k) => drop_report(k, e, o),
                H512(k) => drop_report(k, e, o),
                _ => fail("wipe: hash"),
            }
        }
        Obj::Aead(a) => {
            use aead::AeadObj::*;
            match a {
                Gcm(k) => drop_box(k, e, o),
                Cha(k) => drop_report(k, e, o),
                XCha(k) => drop_report(k, e, o),
            }
        }
        Obj::Kex(k) => {
            use kex::KexObj::*;
            match k {
                X(k) => drop_report(k, e, o),
                XS(k) => drop_report(k, e, o),
                E256(k) => drop_report(k, e, o),
                E384(k) => drop_report(k, e, o),
                S256(k) => drop_report(k, e, o),
                S384(k) => drop_report(k, e, o),
                Dk(k) => drop_report(k, e, o),
                _ => fail("wipe: kex"),
            }
        }
        Obj::Sign(k) => {
            use sign::SignObj::*;
            match k {
                S256(k) => drop_report(k, e, o),
                S384(k) => drop_report(k, e, o),
                EdS(k) => drop_report(k, e, o),
                RsaS(k) => drop_box(k, e, o),
                _ => fail("wipe: sign"),
            }
        }
        Obj::Tls(k) => {
            use tls::TlsObj::*;
            match k {
                Enc(k) => drop_box(k, e, o),
                Dec(k) => drop_box(k, e, o),
                Kx(k) => drop_box(k, e, o),
                Ticketer(k) => drop_report(k, e, o),
                Key(k) => drop_report(k, e, o),
                Signer(k) => drop_report(k, e, o),
                _ => fail("wipe: tls"),
            }
        }
    })
}
