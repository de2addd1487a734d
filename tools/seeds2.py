SEEDS = []
SEEDS.append(dict(id="ticket-maxlen-race", property="C24",
  needs="two threads sealing their first tickets with the same ticketer at the same time, the longer one recorded and then overwritten by the shorter",
  breaks="a ticket just issued is refused, because the largest issued length was lost",
  rustls=True,
  edits=[["rustls-graviola/src/ticketer.rs", """        self.maximum_ciphertext_len
            .fetch_max(res.len(), Ordering::SeqCst);
""", """        if res.len() > self.maximum_ciphertext_len.load(Ordering::SeqCst) {
            self.maximum_ciphertext_len
                .store(res.len(), Ordering::SeqCst);
        }
"""]],
  main=r'''
use std::sync::atomic::{AtomicUsize, AtomicBool, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use rustls::server::ProducesTickets;
fn main() {
    const N: usize = 4;
    let slot: Arc<Mutex<Option<Arc<dyn ProducesTickets>>>> = Arc::default();
    let go = Arc::new(AtomicUsize::new(0));
    let done = Arc::new(AtomicUsize::new(0));
    let bad = Arc::new(AtomicBool::new(false));
    let stop = Arc::new(AtomicBool::new(false));
    let longs: Arc<Mutex<Vec<Vec<u8>>>> = Arc::default();
    let arrived = Arc::new(AtomicUsize::new(0));
    let mut hs = vec![];
    for t in 0..N {
        let (slot, go, done, stop, longs, arrived) = (slot.clone(), go.clone(), done.clone(), stop.clone(), longs.clone(), arrived.clone());
        hs.push(std::thread::spawn(move || {
            let mut round = 0;
            let mut x = 88172645463325252u64 + t as u64;
            loop {
                round += 1;
                while go.load(SeqCst) < round { if stop.load(SeqCst) { return; } std::hint::spin_loop(); }
                let tk = slot.lock().unwrap().clone().unwrap();
                let m = vec![7u8; if t == 0 { 40 } else { 39 - t }];
                x ^= x << 13; x ^= x >> 7; x ^= x << 17;
                arrived.fetch_add(1, SeqCst);
                while arrived.load(SeqCst) < round * N { std::hint::spin_loop(); }
                for _ in 0..x % 64 { std::hint::black_box(0); }
                let c = tk.encrypt(&m).unwrap();
                longs.lock().unwrap().push(c);
                done.fetch_add(1, SeqCst);
            }
        }));
    }
    let t0 = std::time::Instant::now();
    let mut round = 0;
    while t0.elapsed().as_secs() < 60 && !bad.load(SeqCst) {
        round += 1;
        let tk = rustls_graviola::Ticketer::new().unwrap();
        *slot.lock().unwrap() = Some(tk.clone());
        longs.lock().unwrap().clear();
        go.store(round, SeqCst);
        while done.load(SeqCst) < round * N { std::hint::spin_loop(); }
        for c in longs.lock().unwrap().iter() {
            if tk.decrypt(c).is_none() { bad.store(true, SeqCst); }
        }
    }
    stop.store(true, SeqCst);
    for h in hs { h.join().unwrap(); }
    eprintln!("{round} rounds");
    assert!(!bad.load(SeqCst), "a ticket was refused by its issuer");
}
'''))
SEEDS.append(dict(id="p256-table-memo", property="C24",
  needs="two threads importing different P-256 public keys at the same time, a third seeing one key's name with the other's table",
  breaks="a P-256 public key gets another key's precomputed table: agreement and verification give wrong answers",
  edits=[["graviola/src/mid/p256.rs", """        Self {
            precomp_w5: point.public_precomp_w5(),
            point,
        }
""", """        // peers often send several messages under one key: remember the last table
        use std::sync::Mutex;
        static LAST_POINT: Mutex<[u64; 8]> = Mutex::new([0; 8]);
        static LAST_TABLE: Mutex<JacobianMontPointTableW5> = Mutex::new([0; 192]);

        let hit = *LAST_POINT.lock().unwrap() == point.xy;
        let precomp_w5 = if hit {
            *LAST_TABLE.lock().unwrap()
        } else {
            let table = point.public_precomp_w5();
            *LAST_POINT.lock().unwrap() = point.xy;
            *LAST_TABLE.lock().unwrap() = table;
            table
        };
        Self { precomp_w5, point }
"""]],
  main=r'''
use graviola::key_agreement::p256::{PublicKey, StaticPrivateKey};
fn main() {
    let keys: Vec<_> = (0..3).map(|_| StaticPrivateKey::new_random().unwrap()).collect();
    let pubs: Vec<_> = keys.iter().map(|k| k.public_key_uncompressed()).collect();
    let want: Vec<_> = (0..3).map(|i| keys[0].diffie_hellman(&PublicKey::from_x962_uncompressed(&pubs[i]).unwrap()).unwrap().0).collect();
    std::thread::scope(|s| {
        for t in 0..6usize {
            let (keys, pubs, want) = (&keys, &pubs, &want);
            s.spawn(move || {
                let mut x = t;
                let t0 = std::time::Instant::now();
                while t0.elapsed().as_secs() < 8 {
                    x = (x * 31 + 7) % 1009;
                    let i = x % 3;
                    let got = keys[0].diffie_hellman(&PublicKey::from_x962_uncompressed(&pubs[i]).unwrap()).unwrap().0;
                    if got != want[i] { eprintln!("wrong shared secret"); std::process::exit(1); }
                }
            });
        }
    });
}
'''))
