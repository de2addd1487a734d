use crate::*;
use graviola::key_agreement::{mlkem768, p256, p384, x25519};

#[allow(clippy::large_enum_variant)]
pub enum KexObj {
    X(x25519::PrivateKey),
    XS(x25519::StaticPrivateKey),
    XP(x25519::PublicKey),
    E256(p256::PrivateKey),
    E384(p384::PrivateKey),
    S256(p256::StaticPrivateKey),
    S384(p384::StaticPrivateKey),
    P256(p256::PublicKey),
    P384(p384::PublicKey),
    Dk(mlkem768::DecapKey),
    Ek(mlkem768::EncapKey),
}
use KexObj::*;

fn get<'a>(w: &'a World, h: &str) -> &'a KexObj {
    match w.find(h) {
        Some(Obj::Kex(k)) => k,
        _ => crate::absent(),
    }
}

fn take(w: &mut World, h: &str) -> KexObj {
    match w.objs.remove(h) {
        Some(Obj::Kex(k)) => k,
        _ => crate::absent(),
    }
}

fn set(w: &mut World, h: &str, k: KexObj) {
    w.objs.insert(h.into(), Obj::Kex(k));
}

/// Drops a shared secret; with `watch`, says what its memory holds then.
fn gone<T>(ss: T, e: &Value, o: &mut Out) {
    if e["watch"] == true {
        crate::wipe::drop_report(ss, e, o);
    }
}

fn shared<T>(bytes: Vec<u8>, ss: T, e: &Value) -> (Vec<u8>, Out) {
    let mut o = Out::new();
    gone(ss, e, &mut o);
    (bytes, o)
}

pub fn step(w: &mut World, op: &str, e: &Value) -> Out {
    let h = s(e, "h");
    match op {
        // ---- X25519
        "x25519.generate" => {
            let r = tr(x25519::PrivateKey::new_random);
            res(r, |k, o| {
                put(o, "pub", &tr(|| k.public_key().as_bytes()));
                set(w, h, X(k));
            })
        }
        "x25519.sgenerate" => {
            let r = tr(x25519::StaticPrivateKey::new_random);
            res(r, |k, o| {
                put(o, "pub", &tr(|| k.public_key().as_bytes()));
                put(o, "enc", &tr(|| k.as_bytes()));
                set(w, h, XS(k));
            })
        }
        "x25519.load" => {
            let r = {
                let k = b(e, "k");
                tr(|| x25519::StaticPrivateKey::try_from_slice(&k))
            };
            res(r, |k, o| {
                put(o, "pub", &tr(|| k.public_key().as_bytes()));
                put(o, "enc", &tr(|| k.as_bytes()));
                set(w, h, XS(k));
            })
        }
        "x25519.loadpub" => {
            let r = x25519::PublicKey::try_from_slice(&b(e, "u"));
            res(r, |k, o| {
                put(o, "enc", &k.as_bytes());
                set(w, h, XP(k));
            })
        }
        "x25519.dh" => {
            get(w, h);
            let own = (s(e, "api") != "static").then(|| take(w, h));
            let XP(peer) = get(w, s(e, "peer")) else { fail("peer") };
            let r = match own {
                None => match get(w, h) {
                    XS(k) => tr(|| k.diffie_hellman(peer)),
                    _ => fail("kex"),
                },
                Some(X(k)) => tr(|| k.diffie_hellman(peer)),
                _ => fail("kex"),
            };
            res(r, |ss, o| {
                put(o, "ss", &ss.0);
                gone(ss, e, o);
            })
        }
        // ---- P-256 and P-384
        "ecdh.generate" => match s(e, "curve") {
            "p256" => res(tr(p256::PrivateKey::new_random), |k, o| {
                put(o, "pub", &tr(|| k.public_key_uncompressed()));
                set(w, h, E256(k));
            }),
            _ => res(tr(p384::PrivateKey::new_random), |k, o| {
                put(o, "pub", &tr(|| k.public_key_uncompressed()));
                set(w, h, E384(k));
            }),
        },
        "ecdh.sgenerate" => match s(e, "curve") {
            "p256" => res(tr(p256::StaticPrivateKey::new_random), |k, o| {
                put(o, "pub", &tr(|| k.public_key_uncompressed()));
                put(o, "enc", &tr(|| k.as_bytes()));
                set(w, h, S256(k));
            }),
            _ => res(tr(p384::StaticPrivateKey::new_random), |k, o| {
                put(o, "pub", &tr(|| k.public_key_uncompressed()));
                put(o, "enc", &tr(|| k.as_bytes()));
                set(w, h, S384(k));
            }),
        },
        "ecdh.load" => match s(e, "curve") {
            "p256" => res({ let d = b(e, "k"); tr(|| p256::StaticPrivateKey::from_bytes(&d)) }, |k, o| {
                put(o, "pub", &tr(|| k.public_key_uncompressed()));
                put(o, "enc", &tr(|| k.as_bytes()));
                set(w, h, S256(k));
            }),
            _ => res({ let d = b(e, "k"); tr(|| p384::StaticPrivateKey::from_bytes(&d)) }, |k, o| {
                put(o, "pub", &tr(|| k.public_key_uncompressed()));
                put(o, "enc", &tr(|| k.as_bytes()));
                set(w, h, S384(k));
            }),
        },
        "ecdh.loadpub" => match s(e, "curve") {
            "p256" => res(p256::PublicKey::from_x962_uncompressed(&b(e, "pt")), |k, o| {
                put(o, "enc", &k.as_bytes_uncompressed());
                set(w, h, P256(k));
            }),
            _ => res(p384::PublicKey::from_x962_uncompressed(&b(e, "pt")), |k, o| {
                put(o, "enc", &k.as_bytes_uncompressed());
                set(w, h, P384(k));
            }),
        },
        "ecdh.dh" => {
            get(w, h);
            let own = (s(e, "api") != "static").then(|| take(w, h));
            let r = match (get(w, s(e, "peer")), own) {
                (P256(p), None) => match get(w, h) {
                    S256(k) => tr(|| k.diffie_hellman(p)),
                    _ => fail("kex"),
                }
                .map(|x| shared(x.0.to_vec(), x, e)),
                (P256(p), Some(E256(k))) => tr(|| k.diffie_hellman(p)).map(|x| shared(x.0.to_vec(), x, e)),
                (P384(p), None) => match get(w, h) {
                    S384(k) => tr(|| k.diffie_hellman(p)),
                    _ => fail("kex"),
                }
                .map(|x| shared(x.0.to_vec(), x, e)),
                (P384(p), Some(E384(k))) => tr(|| k.diffie_hellman(p)).map(|x| shared(x.0.to_vec(), x, e)),
                _ => fail("peer"),
            };
            res(r, |(ss, mut seen), o| {
                put(o, "ss", &ss);
                o.append(&mut seen);
            })
        }
        // ---- ML-KEM-768
        "mlkem.generate" => res(mlkem768::DecapKey::generate(), |k, o| {
            put(o, "ek", &tr(|| k.encapsulation_key().as_bytes()));
            put(o, "dk", &tr(|| k.as_bytes()));
            set(w, h, Dk(k));
        }),
        "mlkem.keygen" => {
            let seed = b(e, "seed");
            let seed = (&*seed).try_into().unwrap();
            let k = tr(|| mlkem768::DecapKey::keygen_internal(seed));
            ok(|o| {
                put(o, "ek", &tr(|| k.encapsulation_key().as_bytes()));
                put(o, "dk", &tr(|| k.as_bytes()));
                set(w, h, Dk(k));
            })
        }
        "mlkem.loadek" => {
            let v = b(e, "ek");
            res(mlkem768::EncapKey::from_bytes((&*v).try_into().unwrap()), |k, o| {
                put(o, "enc", &k.as_bytes());
                set(w, h, Ek(k));
            })
        }
        // encapsulate with system randomness (consumes the key)
        "mlkem.encaps" => match take(w, h) {
            Ek(k) => res(tr(|| k.encaps()), |(ss, c), o| {
                put(o, "ss", ss.as_ref());
                put(o, "ct", c.as_ref());
                gone(ss, e, o);
            }),
            _ => fail("ek"),
        },
        "mlkem.encapsm" => match take(w, h) {
            Ek(k) => {
                let m = b(e, "m");
                let m = mlkem768::Message((&*m).try_into().unwrap());
                let (ss, c) = tr(|| k.encaps_internal(m));
                ok(|o| {
                    put(o, "ss", ss.as_ref());
                    put(o, "ct", c.as_ref());
                    gone(ss, e, o);
                })
            }
            _ => fail("ek"),
        },
        "mlkem.decaps" => {
            let c = b(e, "ct");
            let c: [u8; 1088] = (&*c).try_into().unwrap();
            let c = mlkem768::Ciphertext::from(c);
            let ss = match s(e, "api") {
                "once" => match take(w, h) {
                    Dk(k) => tr(|| k.decaps(&c)),
                    _ => fail("dk"),
                },
                _ => match get(w, h) {
                    Dk(k) => tr(|| k.decaps_internal(&c)),
                    _ => fail("dk"),
                },
            };
            ok(|o| {
                put(o, "ss", ss.as_ref());
                gone(ss, e, o);
            })
        }
        _ => fail(op),
    }
}
