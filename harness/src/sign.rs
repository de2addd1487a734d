use crate::*;
use graviola::Error;
use graviola::hashing::{Sha256, Sha384, Sha512};
use graviola::key_agreement::{p256, p384};
use graviola::signing::{ecdsa, eddsa, rsa};

#[allow(clippy::large_enum_variant)]
pub enum SignObj {
    S256(ecdsa::SigningKey<ecdsa::P256>),
    S384(ecdsa::SigningKey<ecdsa::P384>),
    V256(ecdsa::VerifyingKey<ecdsa::P256>),
    V384(ecdsa::VerifyingKey<ecdsa::P384>),
    EdS(eddsa::Ed25519SigningKey),
    EdV(eddsa::Ed25519VerifyingKey),
    RsaS(Box<rsa::SigningKey>),
    RsaV(rsa::VerifyingKey),
}
use SignObj::*;

fn get<'a>(w: &'a World, h: &str) -> &'a SignObj {
    match w.find(h) {
        Some(Obj::Sign(k)) => k,
        _ => crate::absent(),
    }
}

fn set(w: &mut World, h: &str, k: SignObj) {
    w.objs.insert(h.into(), Obj::Sign(k));
}

fn out_buf(e: &Value) -> Buf {
    Buf::new(&vec![0xee; n(e, "n")], al(e))
}

macro_rules! with_hash {
    ($alg:expr, $f:ident, $k:expr, $($a:expr),*) => {
        match $alg {
            "sha256" => $k.$f::<Sha256>($($a),*),
            "sha384" => $k.$f::<Sha384>($($a),*),
            "sha512" => $k.$f::<Sha512>($($a),*),
            x => fail(x),
        }
    };
}

fn bytes_out(r: Result<&[u8], Error>) -> Out {
    res(r, |v, o| put(o, "out", v))
}

macro_rules! ecdsa_sk {
    ($w:ident, $k:ident, $e:ident => $body:expr) => {
        match get($w, s($e, "h")) {
            S256($k) => $body,
            S384($k) => $body,
            _ => fail("ecdsa key"),
        }
    };
}

macro_rules! ecdsa_vk {
    ($w:ident, $k:ident, $e:ident => $body:expr) => {
        match get($w, s($e, "h")) {
            V256($k) => $body,
            V384($k) => $body,
            _ => fail("ecdsa key"),
        }
    };
}

fn rsa_sign<'a>(k: &rsa::SigningKey, pad: &str, hash: &str, sig: &'a mut [u8], m: &[u8]) -> Result<&'a [u8], Error> {
    match (pad, hash) {
        ("pkcs1", "sha256") => k.sign_pkcs1_sha256(sig, m),
        ("pkcs1", "sha384") => k.sign_pkcs1_sha384(sig, m),
        ("pkcs1", "sha512") => k.sign_pkcs1_sha512(sig, m),
        ("pss", "sha256") => k.sign_pss_sha256(sig, m),
        ("pss", "sha384") => k.sign_pss_sha384(sig, m),
        ("pss", "sha512") => k.sign_pss_sha512(sig, m),
        x => fail(&format!("{x:?}")),
    }
}

fn rsa_verify(k: &rsa::VerifyingKey, pad: &str, hash: &str, sig: &[u8], m: &[u8]) -> Result<(), Error> {
    match (pad, hash) {
        ("pkcs1", "sha256") => k.verify_pkcs1_sha256(sig, m),
        ("pkcs1", "sha384") => k.verify_pkcs1_sha384(sig, m),
        ("pkcs1", "sha512") => k.verify_pkcs1_sha512(sig, m),
        ("pss", "sha256") => k.verify_pss_sha256(sig, m),
        ("pss", "sha384") => k.verify_pss_sha384(sig, m),
        ("pss", "sha512") => k.verify_pss_sha512(sig, m),
        x => fail(&format!("{x:?}")),
    }
}

pub fn step(w: &mut World, op: &str, e: &Value) -> Out {
    match op {
        // ---- ECDSA
        "ecdsa.load" => {
            let mut g = Buf::new(&b(e, "der"), 100);
            let d = &*g.get();
            let p256 = s(e, "curve") == "p256";
            let fmt = s(e, "fmt");
            let r = tr(|| match (p256, fmt) {
                (true, "pkcs8") => ecdsa::SigningKey::<ecdsa::P256>::from_pkcs8_der(d).map(S256),
                (true, "sec1") => ecdsa::SigningKey::<ecdsa::P256>::from_sec1_der(d).map(S256),
                (true, _) => p256::StaticPrivateKey::from_bytes(d)
                    .map(|private_key| S256(ecdsa::SigningKey { private_key })),
                (false, "pkcs8") => ecdsa::SigningKey::<ecdsa::P384>::from_pkcs8_der(d).map(S384),
                (false, "sec1") => ecdsa::SigningKey::<ecdsa::P384>::from_sec1_der(d).map(S384),
                (false, _) => p384::StaticPrivateKey::from_bytes(d)
                    .map(|private_key| S384(ecdsa::SigningKey { private_key })),
            });
            res(r, |k, o| {
                match &k {
                    S256(k) => put(o, "d", &tr(|| k.private_key.as_bytes())),
                    S384(k) => put(o, "d", &tr(|| k.private_key.as_bytes())),
                    _ => {}
                }
                set(w, s(e, "h"), k);
            })
        }
        "ecdsa.generate" => {
            let r = match s(e, "curve") {
                "p256" => ecdsa::SigningKey::<ecdsa::P256>::generate().map(S256),
                _ => ecdsa::SigningKey::<ecdsa::P384>::generate().map(S384),
            };
            res(r, |k, o| {
                match &k {
                    S256(k) => put(o, "d", &tr(|| k.private_key.as_bytes())),
                    S384(k) => put(o, "d", &tr(|| k.private_key.as_bytes())),
                    _ => {}
                }
                set(w, s(e, "h"), k);
            })
        }
        "ecdsa.export" => {
            let mut buf = out_buf(e);
            let f = s(e, "fmt");
            ecdsa_sk!(w, k, e => bytes_out(match f {
                "pkcs8" => tr(|| k.to_pkcs8_der(&mut buf)),
                "sec1" => tr(|| k.to_sec1_der(&mut buf)),
                "spki" => k.to_spki_der(&mut buf),
                x => fail(x),
            }))
        }
        "ecdsa.sign" => {
            let mut buf = out_buf(e);
            let m = bs(e, "m");
            let m: Vec<&[u8]> = m.iter().map(|x| &**x).collect();
            let (f, hsh) = (s(e, "form"), s(e, "hash"));
            ecdsa_sk!(w, k, e => bytes_out(match f {
                "fixed" => tr(|| with_hash!(hsh, sign, k, &m, &mut buf)),
                _ => tr(|| with_hash!(hsh, sign_asn1, k, &m, &mut buf)),
            }))
        }
        "ecdsa.loadpub" => {
            let d = b(e, "pt");
            let r = match s(e, "curve") {
                "p256" => ecdsa::VerifyingKey::<ecdsa::P256>::from_x962_uncompressed(&d).map(V256),
                _ => ecdsa::VerifyingKey::<ecdsa::P384>::from_x962_uncompressed(&d).map(V384),
            };
            res(r, |k, _| set(w, s(e, "h"), k))
        }
        "ecdsa.verify" => {
            let m = bs(e, "m");
            let m: Vec<&[u8]> = m.iter().map(|x| &**x).collect();
            let mut sig = Buf::new(&b(e, "sig"), al(e));
            let (f, hsh) = (s(e, "form"), s(e, "hash"));
            ecdsa_vk!(w, k, e => res(match f {
                "fixed" => with_hash!(hsh, verify, k, &m, sig.get()),
                _ => with_hash!(hsh, verify_asn1, k, &m, sig.get()),
            }, |_, _| {}))
        }
        // ---- Ed25519
        "ed25519.load" => {
            let mut g = Buf::new(&b(e, "der"), 100);
            let d = &*g.get();
            let fmt = s(e, "fmt");
            let r = tr(|| match fmt {
                "pkcs8" => eddsa::Ed25519SigningKey::from_pkcs8_der(d),
                _ => eddsa::Ed25519SigningKey::from_bytes(d),
            });
            res(r, |k, o| {
                put(o, "d", &tr(|| k.as_seed()));
                put(o, "pub", &tr(|| k.public_key().as_bytes()));
                set(w, s(e, "h"), EdS(k));
            })
        }
        "ed25519.generate" => res(eddsa::Ed25519SigningKey::generate(), |k, o| {
            put(o, "d", &tr(|| k.as_seed()));
            put(o, "pub", &tr(|| k.public_key().as_bytes()));
            set(w, s(e, "h"), EdS(k));
        }),
        "ed25519.export" => {
            let mut buf = out_buf(e);
            match get(w, s(e, "h")) {
                EdS(k) => bytes_out(tr(|| k.to_pkcs8_der(&mut buf))),
                EdV(k) => bytes_out(k.to_spki_der(&mut buf)),
                _ => fail("ed"),
            }
        }
        "ed25519.sign" => match get(w, s(e, "h")) {
            EdS(k) => {
                let mut m = Buf::new(&b(e, "m"), al(e));
                let m = m.get();
                let v = tr(|| k.sign(m));
                ok(|o| put(o, "out", &v))
            }
            _ => fail("ed"),
        },
        "ed25519.loadpub" => {
            let mut g = Buf::new(&b(e, "der"), 100);
            let d = &*g.get();
            let r = match s(e, "fmt") {
                "spki" => eddsa::Ed25519VerifyingKey::from_spki_der(d),
                _ => eddsa::Ed25519VerifyingKey::from_bytes(d),
            };
            res(r, |k, o| {
                put(o, "enc", &k.as_bytes());
                set(w, s(e, "h"), EdV(k));
            })
        }
        "ed25519.verify" => match get(w, s(e, "h")) {
            EdV(k) => {
                let mut sig = Buf::new(&b(e, "sig"), al(e));
                res(k.verify(sig.get(), &b(e, "m")), |_, _| {})
            }
            _ => fail("ed"),
        },
        // ---- RSA
        "rsa.load" => {
            let mut g = Buf::new(&b(e, "der"), 100);
            let d = &*g.get();
            let fmt = s(e, "fmt");
            let r = tr(|| match fmt {
                "pkcs8" => rsa::SigningKey::from_pkcs8_der(d),
                _ => rsa::SigningKey::from_pkcs1_der(d),
            });
            res(r, |k, o| {
                o.insert("len".into(), json!(k.modulus_len_bytes()));
                set(w, s(e, "h"), RsaS(Box::new(k)));
            })
        }
        "rsa.generate" => match rsa::KeySize::try_from(n(e, "bits")) {
            Ok(size) => res(rsa::SigningKey::generate(size), |k, o| {
                o.insert("len".into(), json!(k.modulus_len_bytes()));
                set(w, s(e, "h"), RsaS(Box::new(k)));
            }),
            Err(_) => {
                let mut o = Out::new();
                o.insert("r".into(), json!("err:size"));
                o
            }
        },
        "rsa.export" => {
            let mut buf = out_buf(e);
            match (get(w, s(e, "h")), s(e, "fmt")) {
                (RsaS(k), "pkcs1") => bytes_out(tr(|| k.to_pkcs1_der(&mut buf))),
                (RsaS(k), "pkcs8") => bytes_out(tr(|| k.to_pkcs8_der(&mut buf))),
                (RsaV(k), "pkcs1") => bytes_out(tr(|| k.to_pkcs1_der(&mut buf))),
                (RsaV(k), "spki") => bytes_out(k.to_spki_der(&mut buf)),
                _ => fail("rsa.export"),
            }
        }
        "rsa.pub" => {
            let k = match get(w, s(e, "h")) {
                RsaS(k) => tr(|| k.public_key()),
                _ => fail("rsa.pub"),
            };
            set(w, s(e, "to"), RsaV(k));
            ok(|_| {})
        }
        "rsa.sign" => {
            let mut buf = out_buf(e);
            match get(w, s(e, "h")) {
                RsaS(k) => {
                    let (pad, hash, m) = (s(e, "pad"), s(e, "hash"), b(e, "m"));
                    bytes_out(tr(|| rsa_sign(k, pad, hash, &mut buf, &m)))
                },
                _ => fail("rsa.sign"),
            }
        }
        "rsa.loadpub" => res(rsa::VerifyingKey::from_pkcs1_der(Buf::new(&b(e, "der"), 100).get()), |k, _| {
            set(w, s(e, "h"), RsaV(k));
        }),
        "rsa.verify" => match get(w, s(e, "h")) {
            RsaV(k) => {
                let mut sig = Buf::new(&b(e, "sig"), al(e));
                res(rsa_verify(k, s(e, "pad"), s(e, "hash"), sig.get(), &b(e, "m")), |_, _| {})
            }
            _ => fail("rsa.verify"),
        },
        _ => fail(op),
    }
}
