use crate::*;
use graviola::hashing::hmac::Hmac;
use graviola::hashing::{Hash, HashContext, HashOutput, Sha256, Sha384, Sha512, sha2, sha3};
use rustls::crypto::hash as rh;

pub enum HashObj {
    S256(<Sha256 as Hash>::Context),
    S384(<Sha384 as Hash>::Context),
    S512(<Sha512 as Hash>::Context),
    R256(sha2::Sha256Context),
    R384(sha2::Sha384Context),
    R512(sha2::Sha512Context),
    T256(Box<dyn rh::Context>),
    T384(Box<dyn rh::Context>),
    H256(Hmac<Sha256>),
    H384(Hmac<Sha384>),
    H512(Hmac<Sha512>),
    S3_256(sha3::Sha3_256Context),
    S3_512(sha3::Sha3_512Context),
    X128(sha3::Shake128),
    X256(sha3::Shake256),
}
use HashObj::*;

fn rustls_hash(bits: usize) -> &'static dyn rh::Hash {
    let s = if bits == 256 {
        rustls_graviola::suites::TLS13_AES_128_GCM_SHA256
    } else {
        rustls_graviola::suites::TLS13_AES_256_GCM_SHA384
    };
    s.tls13().unwrap().common.hash_provider
}

impl HashObj {
    fn new(api: &str, alg: &str) -> Self {
        match (api, alg) {
            ("trait", "sha256") => S256(Sha256::new()),
            ("trait", "sha384") => S384(Sha384::new()),
            ("trait", "sha512") => S512(Sha512::new()),
            ("raw", "sha256") => R256(sha2::Sha256Context::new()),
            ("raw", "sha384") => R384(sha2::Sha384Context::new()),
            ("raw", "sha512") => R512(sha2::Sha512Context::new()),
            ("raw", "sha3_256") => S3_256(sha3::Sha3_256Context::new()),
            ("raw", "sha3_512") => S3_512(sha3::Sha3_512Context::new()),
            ("tls", "sha256") => T256(rustls_hash(256).start()),
            ("tls", "sha384") => T384(rustls_hash(384).start()),
            _ => fail(&format!("hash {api} {alg}")),
        }
    }
    fn update(&mut self, m: &[u8]) {
        match self {
            S256(c) => c.update(m),
            S384(c) => c.update(m),
            S512(c) => c.update(m),
            R256(c) => c.update(m),
            R384(c) => c.update(m),
            R512(c) => c.update(m),
            S3_256(c) => c.update(m),
            S3_512(c) => c.update(m),
            T256(c) | T384(c) => c.update(m),
            H256(c) => c.update(m),
            H384(c) => c.update(m),
            H512(c) => c.update(m),
            X128(_) | X256(_) => fail("xof update"),
        }
    }
    fn fork(&self) -> Self {
        match self {
            S256(c) => S256(c.clone()),
            S384(c) => S384(c.clone()),
            S512(c) => S512(c.clone()),
            R256(c) => R256(c.clone()),
            R384(c) => R384(c.clone()),
            R512(c) => R512(c.clone()),
            T256(c) => T256(c.fork()),
            T384(c) => T384(c.fork()),
            H256(c) => H256(c.clone()),
            H384(c) => H384(c.clone()),
            H512(c) => H512(c.clone()),
            _ => fail("fork"),
        }
    }
    fn finish(self) -> Vec<u8> {
        match self {
            S256(c) => c.finish().as_ref().to_vec(),
            S384(c) => c.finish().as_ref().to_vec(),
            S512(c) => c.finish().as_ref().to_vec(),
            R256(c) => c.finish().to_vec(),
            R384(c) => c.finish().to_vec(),
            R512(c) => c.finish().to_vec(),
            S3_256(c) => c.finish().to_vec(),
            S3_512(c) => c.finish().to_vec(),
            T256(c) | T384(c) => c.finish().as_ref().to_vec(),
            H256(c) => c.finish().as_ref().to_vec(),
            H384(c) => c.finish().as_ref().to_vec(),
            H512(c) => c.finish().as_ref().to_vec(),
            X128(_) | X256(_) => fail("xof finish"),
        }
    }
}

fn get<'a>(w: &'a mut World, e: &Value) -> &'a mut HashObj {
    match w.objs.get_mut(s(e, "h")) {
        Some(Obj::Hash(h)) => h,
        _ => crate::absent(),
    }
}

/// one that may be shared
fn peek<'a>(w: &'a World, e: &Value) -> &'a HashObj {
    match w.find(s(e, "h")) {
        Some(Obj::Hash(h)) => h,
        _ => crate::absent(),
    }
}

fn take(w: &mut World, e: &Value) -> HashObj {
    match w.objs.remove(s(e, "h")) {
        Some(Obj::Hash(h)) => h,
        _ => crate::absent(),
    }
}

fn set(w: &mut World, h: &str, o: HashObj) {
    w.objs.insert(h.to_string(), Obj::Hash(o));
}

fn out_of(alg: &str, v: &[u8]) -> HashOutput {
    let mut o = match alg {
        "sha256" => Sha256::zeroed_output(),
        "sha384" => Sha384::zeroed_output(),
        "sha512" => Sha512::zeroed_output(),
        _ => fail(alg),
    };
    o.as_mut().copy_from_slice(v);
    o
}

pub fn step(w: &mut World, op: &str, e: &Value) -> Out {
    match op {
        "hash.new" => {
            let o = HashObj::new(s(e, "api"), s(e, "alg"));
            set(w, s(e, "h"), o);
            ok(|_| {})
        }
        "hash.update" | "hmac.update" => {
            let mut m = Buf::new(&b(e, "m"), al(e));
            let m = m.get();
            let h = get(w, e);
            tr(|| h.update(m));
            ok(|_| {})
        }
        // the same chunk, many times: messages too long to write out
        "hash.updaterep" => {
            let m = b(e, "m");
            let h = get(w, e);
            let chunk = m.repeat(n(e, "per"));
            for _ in 0..n(e, "times") {
                h.update(&chunk);
            }
            ok(|_| {})
        }
        "hash.clone" | "hmac.clone" => {
            let o = peek(w, e);
            let o = tr(|| o.fork());
            set(w, s(e, "to"), o);
            ok(|_| {})
        }
        "hash.finish" | "hmac.finish" => {
            let o = take(w, e);
            let o = tr(|| o.finish());
            ok(|r| put(r, "out", &o))
        }
        "hash.forkfinish" => {
            let o = match peek(w, e) {
                T256(c) | T384(c) => c.fork_finish().as_ref().to_vec(),
                o => o.fork().finish(),
            };
            ok(|r| put(r, "out", &o))
        }
        "hash.oneshot" => {
            let mut m = Buf::new(&b(e, "m"), al(e));
            let m = m.get();
            let (api, alg) = (s(e, "api"), s(e, "alg"));
            let o = tr(|| match (api, alg) {
                ("trait", "sha256") => Sha256::hash(m).as_ref().to_vec(),
                ("trait", "sha384") => Sha384::hash(m).as_ref().to_vec(),
                ("trait", "sha512") => Sha512::hash(m).as_ref().to_vec(),
                ("tls", "sha256") => rustls_hash(256).hash(m).as_ref().to_vec(),
                ("tls", "sha384") => rustls_hash(384).hash(m).as_ref().to_vec(),
                x => fail(&format!("{x:?}")),
            });
            ok(|r| put(r, "out", &o))
        }
        // comparison of a hash output with arbitrary bytes
        "hash.equal" => {
            let v = out_of(s(e, "alg"), &b(e, "v"));
            let other = b(e, "other");
            let full = tr(|| v.ct_equal(&other));
            let trunc = e["trunc"].as_u64().unwrap();
            let t = tr(|| match trunc {
                0 => full,
                1 => v.truncated_ct_equal::<1>(&other),
                10 => v.truncated_ct_equal::<10>(&other),
                16 => v.truncated_ct_equal::<16>(&other),
                20 => v.truncated_ct_equal::<20>(&other),
                32 => v.truncated_ct_equal::<32>(&other),
                48 => v.truncated_ct_equal::<48>(&other),
                64 => v.truncated_ct_equal::<64>(&other),
                x => fail(&format!("trunc {x}")),
            });
            ok(|r| {
                r.insert("eq".into(), json!(t));
            })
        }
        "hash.cmp" => {
            let x = out_of(s(e, "alg"), &b(e, "v"));
            let y = out_of(s(e, "alg2"), &b(e, "other"));
            ok(|r| {
                r.insert("eq".into(), json!(tr(|| x == y)));
            })
        }
        "hmac.new" => {
            let k = b(e, "k");
            let alg = s(e, "alg");
            let o = tr(|| match alg {
                "sha256" => H256(Hmac::new(&k)),
                "sha384" => H384(Hmac::new(&k)),
                "sha512" => H512(Hmac::new(&k)),
                x => fail(x),
            });
            set(w, s(e, "h"), o);
            ok(|_| {})
        }
        "hmac.verify" => {
            let t = b(e, "tag");
            let c = take(w, e);
            let r = tr(|| match c {
                H256(c) => c.verify(&t),
                H384(c) => c.verify(&t),
                H512(c) => c.verify(&t),
                _ => fail("hmac.verify"),
            });
            res(r, |_, _| {})
        }
        // the HMAC that the TLS provider exposes: one key, many messages
        "hmac.tls" => {
            let suite = if s(e, "alg") == "sha256" {
                rustls_graviola::suites::TLS_ECDHE_RSA_WITH_AES_128_GCM_SHA256
            } else {
                rustls_graviola::suites::TLS_ECDHE_RSA_WITH_AES_256_GCM_SHA384
            };
            let p = match suite {
                rustls::SupportedCipherSuite::Tls12(x) => x.prf_provider,
                _ => fail("suite"),
            };
            let mut o = vec![0u8; n(e, "n")];
            let (k, label, seed) = (b(e, "k"), b(e, "label"), b(e, "seed"));
            tr(|| p.for_secret(&mut o, &k, &label, &seed));
            ok(|r| put(r, "out", &o))
        }
        "sha3.new" => {
            let o = HashObj::new("raw", s(e, "alg"));
            set(w, s(e, "h"), o);
            ok(|_| {})
        }
        "sha3.update" => {
            let m = b(e, "m");
            let h = get(w, e);
            tr(|| h.update(&m));
            ok(|_| {})
        }
        "sha3.finish" => {
            let o = take(w, e);
            let o = tr(|| o.finish());
            ok(|r| put(r, "out", &o))
        }
        "xof.new" => {
            let parts = bs(e, "parts");
            let parts: Vec<&[u8]> = parts.iter().map(|x| &**x).collect();
            let alg = s(e, "alg");
            let o = tr(|| match alg {
                "shake128" => X128(sha3::Shake128::new(&parts)),
                "shake256" => X256(sha3::Shake256::new(&parts)),
                x => fail(x),
            });
            set(w, s(e, "h"), o);
            ok(|_| {})
        }
        "xof.read" => {
            let mut out = vec![0u8; n(e, "n")];
            let x = get(w, e);
            tr(|| match x {
                X128(x) => x.read(&mut out),
                X256(x) => x.read(&mut out),
                _ => fail("xof.read"),
            });
            ok(|r| put(r, "out", &out))
        }
        _ => fail(op),
    }
}
