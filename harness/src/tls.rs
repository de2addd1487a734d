//! The rustls provider.
use crate::*;
use rustls::crypto::cipher::{
    AeadKey, InboundOpaqueMessage, Iv, MessageDecrypter, MessageEncrypter, OutboundChunks, OutboundPlainMessage,
};
use rustls::crypto::tls13::OkmBlock;
use rustls::crypto::{ActiveKeyExchange, CryptoProvider, SupportedKxGroup};
use rustls::pki_types::{PrivateKeyDer, SignatureVerificationAlgorithm};
use rustls::server::ProducesTickets;
use rustls::sign::{Signer, SigningKey};
use rustls::{ContentType, ProtocolVersion, SignatureScheme, SupportedCipherSuite};
use std::sync::Arc;
use std::sync::atomic::{AtomicI64, Ordering};

pub enum TlsObj {
    Enc(Box<dyn MessageEncrypter>),
    Dec(Box<dyn MessageDecrypter>),
    Ticketer(Arc<dyn ProducesTickets>),
    Bytes(Vec<u8>),
    Kx(Box<dyn ActiveKeyExchange>),
    Key(Arc<dyn SigningKey>),
    Signer(Box<dyn Signer>),
    Pair(Box<crate::pair::Pair>),
}
use TlsObj::*;

pub fn get<'a>(w: &'a World, h: &str) -> &'a TlsObj {
    match w.find(h) {
        Some(Obj::Tls(k)) => k,
        _ => crate::absent(),
    }
}

pub fn get_mut<'a>(w: &'a mut World, h: &str) -> &'a mut TlsObj {
    match w.objs.get_mut(h) {
        Some(Obj::Tls(k)) => k,
        _ => crate::absent(),
    }
}

pub fn set(w: &mut World, h: &str, k: TlsObj) {
    w.objs.insert(h.into(), Obj::Tls(k));
}

pub fn suite_name(s: &SupportedCipherSuite) -> String {
    format!("{:?}", s.suite())
}

/// Runs `f`; with `watch`, also says what freed memory held.
fn watched<T>(e: &Value, f: impl FnOnce() -> T) -> (T, Option<Vec<Vec<u8>>>) {
    if e["watch"] != true {
        return (f(), None);
    }
    let (r, freed) = crate::wipe::watch(f);
    (r, Some(freed))
}

fn suite(p: &CryptoProvider, name: &str) -> SupportedCipherSuite {
    *p.cipher_suites.iter().find(|s| suite_name(s) == name).unwrap_or_else(|| crate::absent())
}

fn group(p: &CryptoProvider, name: &str) -> &'static dyn SupportedKxGroup {
    *p.kx_groups.iter().find(|g| format!("{:?}", g.name()) == name).unwrap_or_else(|| crate::absent())
}

/// rustls gives no way of making a key shorter than 32 bytes, but makes them
/// itself for AES-128: the word holding the length is found and changed.
fn aead_key(k: &[u8]) -> AeadKey {
    let mut buf = [0u8; 32];
    buf[..k.len()].copy_from_slice(k);
    let mut key = AeadKey::from(buf);
    if k.len() < 32 {
        let probe = AeadKey::from([0u8; 32]);
        let words = size_of::<AeadKey>() / 8;
        unsafe {
            let p = &probe as *const AeadKey as *const u64;
            let i = (0..words).find(|i| *p.add(*i) == 32).unwrap_or_else(|| fail("AeadKey layout"));
            (&mut key as *mut AeadKey as *mut u64).add(i).write(k.len() as u64);
        }
    }
    if key.as_ref() != k {
        fail("AeadKey");
    }
    key
}

pub fn rres<T>(r: Result<T, rustls::Error>, f: impl FnOnce(T, &mut Out)) -> Out {
    let mut o = Out::new();
    match r {
        Ok(v) => {
            o.insert("r".into(), json!("ok"));
            f(v, &mut o);
        }
        Err(e) => {
            let d = format!("{e:?}");
            let end = d.find(['(', ' ']).unwrap_or(d.len());
            o.insert("r".into(), json!(format!("err:{}", &d[..end])));
            o.insert("detail".into(), json!(d));
        }
    }
    o
}

fn opt(r: Option<Vec<u8>>, f: impl FnOnce(Vec<u8>, &mut Out)) -> Out {
    let mut o = Out::new();
    match r {
        Some(v) => {
            o.insert("r".into(), json!("ok"));
            f(v, &mut o);
        }
        None => {
            o.insert("r".into(), json!("none"));
        }
    }
    o
}

static CLOCK_OFFSET: AtomicI64 = AtomicI64::new(0);
thread_local! {
    static CLOCK_AT: std::cell::Cell<i64> = const { std::cell::Cell::new(-1) };
}

#[repr(C)]
pub struct Timespec {
    sec: i64,
    nsec: i64,
}
unsafe extern "C" {
    fn syscall(n: i64, a: i64, b: *mut Timespec) -> i64;
}
/// The wall clock, replaced so that scenarios set it.
#[unsafe(no_mangle)]
pub unsafe extern "C" fn clock_gettime(clk: i32, ts: *mut Timespec) -> i32 {
    unsafe {
        let r = syscall(228, clk as i64, ts) as i32;
        if clk == 0 && r == 0 {
            let at = CLOCK_AT.try_with(|c| c.get()).unwrap_or(-1);
            if at >= 0 {
                (*ts).sec = at;
                (*ts).nsec = 0;
            }
            (*ts).sec += CLOCK_OFFSET.load(Ordering::Relaxed);
        }
        r
    }
}
pub fn clock() -> i64 {
    CLOCK_AT.get()
}
pub fn set_clock(at: i64) {
    CLOCK_AT.with(|c| c.set(at));
}

/// Takes the bytes of `from` (an object, or the field itself) and applies the mutation.
fn mutated(w: &mut World, e: &Value, field: &str) -> Buf {
    let mut v = match e["from"].as_str() {
        Some(h) => match get(w, h) {
            Bytes(v) => v.clone(),
            _ => fail("from"),
        },
        None => raw(e, field),
    };
    if let Some(i) = e["flip"].as_u64() {
        if (i / 8) as usize >= v.len() {
            fail("flip");
        }
        v[(i / 8) as usize] ^= 1 << (i % 8);
    }
    if e["xorhead"].is_string() {
        for (a, b) in v.iter_mut().zip(raw(e, "xorhead")) {
            *a ^= b;
        }
    }
    if e["xortail"].is_string() {
        for (a, b) in v.iter_mut().rev().zip(raw(e, "xortail").into_iter().rev()) {
            *a ^= b;
        }
    }
    if e["puthead"].is_string() {
        let x = raw(e, "puthead");
        v.drain(..x.len().min(v.len()));
        v.splice(0..0, x);
    }
    if e["puttail"].is_string() {
        let x = raw(e, "puttail");
        v.truncate(v.len().saturating_sub(x.len()));
        v.extend(x);
    }
    if let Some(k) = e["cuthead"].as_u64() {
        v.drain(..(k as usize).min(v.len()));
    }
    if let Some(k) = e["cut"].as_u64() {
        v.truncate(v.len().saturating_sub(k as usize));
    }
    if e["add"].is_string() {
        v.extend(raw(e, "add"));
    }
    Buf::new(&v, al(e))
}

fn find_alg(p: &CryptoProvider, pkalg: &[u8], sigalg: &[u8]) -> Option<&'static dyn SignatureVerificationAlgorithm> {
    p.signature_verification_algorithms
        .all
        .iter()
        .find(|a| a.public_key_alg_id().as_ref() == pkalg && a.signature_alg_id().as_ref() == sigalg)
        .copied()
}

pub fn step(w: &mut World, op: &str, e: &Value) -> Out {
    let p = rustls_graviola::default_provider();
    match op {
        "tls.provider" => ok(|o| {
            o.insert("suites".into(), json!(p.cipher_suites.iter().map(suite_name).collect::<Vec<_>>()));
            o.insert("groups".into(), json!(p.kx_groups.iter().map(|g| format!("{:?}", g.name())).collect::<Vec<_>>()));
            let m = p.signature_verification_algorithms;
            o.insert(
                "schemes".into(),
                json!(m.mapping.iter().map(|(s, a)| json!({"scheme": u16::from(*s), "algs": a.iter().map(|a| json!([hex(a.public_key_alg_id().as_ref()), hex(a.signature_alg_id().as_ref())])).collect::<Vec<_>>()})).collect::<Vec<_>>()),
            );
            o.insert("all".into(), json!(m.all.iter().map(|a| json!([hex(a.public_key_alg_id().as_ref()), hex(a.signature_alg_id().as_ref())])).collect::<Vec<_>>()));
        }),
        "tls.suite" => {
            let s = suite(&p, crate::s(e, "suite"));
            ok(|o| {
                let (hash, sign, klen) = match s {
                    SupportedCipherSuite::Tls13(x) => (x.common.hash_provider, vec![], x.aead_alg.key_len()),
                    SupportedCipherSuite::Tls12(x) => (
                        x.common.hash_provider,
                        x.sign.iter().map(|s| u16::from(*s)).collect(),
                        x.aead_alg.key_block_shape().enc_key_len,
                    ),
                };
                o.insert("ver".into(), json!(u16::from(s.version().version)));
                o.insert("id".into(), json!(u16::from(s.suite())));
                o.insert("hashlen".into(), json!(hash.output_len()));
                o.insert("hashalg".into(), json!(format!("{:?}", hash.algorithm())));
                o.insert("sign".into(), json!(sign));
                o.insert("keylen".into(), json!(klen));
                let limit = match s {
                    SupportedCipherSuite::Tls13(x) => x.common.confidentiality_limit,
                    SupportedCipherSuite::Tls12(x) => x.common.confidentiality_limit,
                };
                put(o, "limit", &limit.to_be_bytes());
                if let SupportedCipherSuite::Tls12(x) = s {
                    let k = x.aead_alg.key_block_shape();
                    o.insert("ivlen".into(), json!(k.fixed_iv_len));
                    o.insert("exlen".into(), json!(k.explicit_nonce_len));
                }
            })
        }
        // ---- key derivation
        "tls.kdf" => {
            let (secret, salt, how) = (b(e, "secret"), b(e, "salt"), s(e, "how"));
            let parts = bs(e, "parts");
            let info: Vec<&[u8]> = parts.iter().map(|x| &x[..]).collect();
            let salt = if e["nosalt"] == true { None } else { Some(&salt[..]) };
            let mut out = vec![0xaa; n(e, "n")];
            let mut o = Out::new();
            let mut r = "ok";
            match suite(&p, s(e, "suite")) {
                SupportedCipherSuite::Tls12(x) => x.prf_provider.for_secret(&mut out, &secret, info[0], info[1]),
                SupportedCipherSuite::Tls13(x) => {
                    let h = x.hkdf_provider;
                    if how == "sign" {
                        out = h.hmac_sign(&OkmBlock::new(&secret), &info.concat()).as_ref().to_vec();
                    } else {
                        let ex = match how {
                            "zero" => h.extract_from_zero_ikm(salt),
                            "secret" => h.extract_from_secret(salt, &secret),
                            _ => h.expander_for_okm(&OkmBlock::new(&secret)),
                        };
                        o.insert("hashlen".into(), json!(ex.hash_len()));
                        if ex.expand_slice(&info, &mut out).is_err() {
                            r = "err:OutputLength";
                        } else {
                            put(&mut o, "block", ex.expand_block(&info).as_ref());
                        }
                    }
                }
            }
            o.insert("r".into(), json!(r));
            if r == "ok" {
                put(&mut o, "out", &out);
            }
            o
        }
        // ---- records
        "tls.cipher" => {
            let (key, iv) = (b(e, "key"), b(e, "iv"));
            let enc = s(e, "dir") == "enc";
            let (suite, ex) = (suite(&p, s(e, "suite")), b(e, "ex"));
            let k = tr(|| match suite {
                SupportedCipherSuite::Tls13(x) => {
                    let iv = Iv::copy(&iv);
                    if enc { Enc(x.aead_alg.encrypter(aead_key(&key), iv)) } else { Dec(x.aead_alg.decrypter(aead_key(&key), iv)) }
                }
                SupportedCipherSuite::Tls12(x) => {
                    if enc {
                        Enc(x.aead_alg.encrypter(aead_key(&key), &iv, &ex))
                    } else {
                        Dec(x.aead_alg.decrypter(aead_key(&key), &iv))
                    }
                }
            });
            set(w, s(e, "h"), k);
            ok(|_| {})
        }
        "tls.extract" => {
            let (key, iv) = (b(e, "key"), b(e, "iv"));
            let r = match suite(&p, s(e, "suite")) {
                SupportedCipherSuite::Tls13(x) => x.aead_alg.extract_keys(aead_key(&key), Iv::copy(&iv)),
                SupportedCipherSuite::Tls12(x) => x.aead_alg.extract_keys(aead_key(&key), &iv, &b(e, "ex")),
            };
            rres(r.map_err(|e| e.into()), |x, o| {
                use rustls::ConnectionTrafficSecrets::*;
                let (n, k, i) = match x {
                    Aes128Gcm { key, iv } => ("aes128gcm", key, iv),
                    Aes256Gcm { key, iv } => ("aes256gcm", key, iv),
                    Chacha20Poly1305 { key, iv } => ("chacha20poly1305", key, iv),
                    _ => fail("secrets"),
                };
                o.insert("kind".into(), json!(n));
                put(o, "okey", k.as_ref());
                put(o, "oiv", i.as_ref());
            })
        }
        "tls.seal" => {
            let parts = bs(e, "parts");
            let refs: Vec<&[u8]> = parts.iter().map(|x| &x[..]).collect();
            let all = OutboundChunks::new(&refs);
            let (_, rest) = all.split_at(n(e, "from"));
            let (payload, _) = rest.split_at(n(e, "len"));
            let m = OutboundPlainMessage {
                typ: ContentType::from(n(e, "typ") as u8),
                version: ProtocolVersion::from(n(e, "ver") as u16),
                payload,
            };
            let seq = u64::from_be_bytes(raw(e, "seq").try_into().unwrap());
            match get_mut(w, s(e, "h")) {
                Enc(x) => {
                    let el = x.encrypted_payload_len(n(e, "len"));
                    let r = tr(|| x.encrypt(m, seq));
                    let mut keep = None;
                    let o = rres(r, |m, o| {
                        o.insert("elen".into(), json!(el));
                        o.insert("otyp".into(), json!(u8::from(m.typ)));
                        o.insert("over".into(), json!(u16::from(m.version)));
                        put(o, "out", m.payload.as_ref());
                        keep = Some(m.payload.as_ref().to_vec());
                    });
            if let (Some(k), Some(to)) = (keep, e["to"].as_str()) {
                        set(w, to, Bytes(k));
                    }
                    o
                }
                _ => fail("seal"),
            }
        }
        "tls.open" => {
            let payload = mutated(w, e, "payload");
            let mut bf = Buf::new(&payload, al(e));
            let seq = u64::from_be_bytes(raw(e, "seq").try_into().unwrap());
            let m = InboundOpaqueMessage::new(
                ContentType::from(n(e, "typ") as u8),
                ProtocolVersion::from(n(e, "ver") as u16),
                bf.get(),
            );
            match get_mut(w, s(e, "h")) {
                Dec(x) => {
                    let mut o = rres(tr(|| x.decrypt(m, seq)), |m, o| {
                        o.insert("otyp".into(), json!(u8::from(m.typ)));
                        o.insert("over".into(), json!(u16::from(m.version)));
                        put(o, "pt", m.payload);
                    });
                    put(&mut o, "payload", &payload);
                    o
                }
                _ => fail("open"),
            }
        }
        // ---- tickets
        "tls.clock" => {
            set_clock(n(e, "at") as i64);
            ok(|_| {})
        }
        "tls.ticketer" => rres(tr(rustls_graviola::Ticketer::new), |t, o| {
            o.insert("lifetime".into(), json!(t.lifetime()));
            o.insert("enabled".into(), json!(t.enabled()));
            set(w, s(e, "h"), Ticketer(t));
        }),
        "tls.tseal" => {
            let m = b(e, "m");
            let (r, freed) = match get(w, s(e, "h")) {
                Ticketer(t) => {
                    crate::conc::sync(e);
                    watched(e, || tr(|| t.encrypt(&m)))
                }
                _ => fail("tseal"),
            };
            let mut o = opt(r, |t, o| {
                put(o, "out", &t);
                if let Some(to) = e["to"].as_str() {
                    set(w, to, Bytes(t));
                }
            });
            freed.map(|f| crate::wipe::put_freed(&mut o, &f));
            o
        }
        "tls.topen" => {
            let t = mutated(w, e, "t");
            let (r, freed) = match get(w, s(e, "h")) {
                Ticketer(x) => {
                    crate::conc::sync(e);
                    watched(e, || tr(|| x.decrypt(&t)))
                }
                _ => fail("topen"),
            };
            let mut o = opt(r, |p, o| put(o, "pt", &p));
            freed.map(|f| crate::wipe::put_freed(&mut o, &f));
            put(&mut o, "t", &t);
            o
        }
        // ---- key exchange
        "tls.kxstart" => rres(group(&p, s(e, "group")).start(), |k, o| {
            put(o, "pub", k.pub_key());
            o.insert("group".into(), json!(format!("{:?}", k.group())));
            match k.hybrid_component() {
                None => put(o, "comp", b""),
                Some((g, p)) => {
                    o.insert("compgroup".into(), json!(format!("{g:?}")));
                    put(o, "comp", p);
                }
            }
            if e["to"].is_string() {
                let v = k.pub_key().to_vec();
                set(w, s(e, "to"), Bytes(v));
            }
            set(w, s(e, "h"), Kx(k));
        }),
        "tls.kxcomplete" => {
            let peer = mutated(w, e, "peer");
            let (r, freed) = match w.objs.remove(s(e, "h")) {
                Some(Obj::Tls(Kx(k))) => watched(e, || {
                    if e["comp"] == true { k.complete_hybrid_component(&peer) } else { k.complete(&peer) }
                }),
                _ => crate::absent(),
            };
            let mut o = rres(r, |x, o| put(o, "ss", x.secret_bytes()));
            freed.map(|f| crate::wipe::put_freed(&mut o, &f));
            put(&mut o, "peer", &peer);
            o
        }
        "tls.kxserve" => {
            let peer = mutated(w, e, "peer");
            let mut keep = None;
            let g = group(&p, s(e, "group"));
            let (r, freed) = watched(e, || g.start_and_complete(&peer));
            let mut o = rres(r, |x, o| {
                o.insert("ogroup".into(), json!(format!("{:?}", x.group)));
                put(o, "pub", &x.pub_key);
                put(o, "ss", x.secret.secret_bytes());
                keep = Some(x.pub_key);
            });
            freed.map(|f| crate::wipe::put_freed(&mut o, &f));
            if let (Some(k), Some(to)) = (keep, e["to"].as_str()) {
                set(w, to, Bytes(k));
            }
            put(&mut o, "peer", &peer);
            o
        }
        "tls.kxversions" => {
            let g = group(&p, s(e, "group"));
            ok(|o| {
                o.insert("v12".into(), json!(g.usable_for_version(ProtocolVersion::TLSv1_2)));
                o.insert("v13".into(), json!(g.usable_for_version(ProtocolVersion::TLSv1_3)));
            })
        }
        // ---- signing and verification
        "tls.keyload" => {
            let d = raw(e, "der");
            let k = match s(e, "fmt") {
                "pkcs8" => PrivateKeyDer::Pkcs8(d.into()),
                "pkcs1" => PrivateKeyDer::Pkcs1(d.into()),
                "sec1" => PrivateKeyDer::Sec1(d.into()),
                x => fail(x),
            };
            rres(p.key_provider.load_private_key(k), |k, o| {
                o.insert("alg".into(), json!(format!("{:?}", k.algorithm())));
                put(o, "pub", &k.public_key().map(|p| p.as_ref().to_vec()).unwrap_or_default());
                set(w, s(e, "h"), Key(k));
            })
        }
        "tls.choose" => {
            let schemes: Vec<SignatureScheme> =
                e["schemes"].as_array().unwrap().iter().map(|x| SignatureScheme::from(x.as_u64().unwrap() as u16)).collect();
            let r = match get(w, s(e, "h")) {
                Key(k) => k.choose_scheme(&schemes),
                _ => fail("choose"),
            };
            let mut o = Out::new();
            match r {
                None => {
                    o.insert("r".into(), json!("none"));
                }
                Some(k) => {
                    o.insert("r".into(), json!("ok"));
                    o.insert("scheme".into(), json!(u16::from(k.scheme())));
                    set(w, s(e, "to"), Signer(k));
                }
            }
            o
        }
        "tls.sign" => {
            let m = b(e, "m");
            let r = match get(w, s(e, "h")) {
                Signer(k) => k.sign(&m),
                _ => fail("sign"),
            };
            let mut keep = None;
            let o = rres(r, |x, o| {
                put(o, "out", &x);
                keep = Some(x);
            });
            if let (Some(k), Some(to)) = (keep, e["to"].as_str()) {
                set(w, to, Bytes(k));
            }
            o
        }
        "tls.verify" => {
            let (pk, m) = (b(e, "pk"), b(e, "m"));
            let sig = mutated(w, e, "sig");
            let mut o = Out::new();
            let r = match find_alg(&p, &b(e, "pkalg"), &b(e, "sigalg")) {
                None => "nosuch",
                Some(a) => match a.verify_signature(&pk, &m, &sig) {
                    Ok(()) => "ok",
                    Err(_) => "err:InvalidSignature",
                },
            };
            o.insert("r".into(), json!(r));
            put(&mut o, "sig", &sig);
            o
        }
        "tls.random" => {
            let mut buf = vec![b(e, "pre")[0]; n(e, "n")];
            let r = p.secure_random.fill(&mut buf);
            rres(r.map_err(|e| e.into()), |_, o| put(o, "out", &buf))
        }
        _ => crate::pair::step(w, op, e),
    }
}
