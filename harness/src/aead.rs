use crate::*;
use graviola::aead::{AesGcm, ChaCha20Poly1305, XChaCha20Poly1305};

pub enum AeadObj {
    Gcm(Box<AesGcm>),
    Cha(ChaCha20Poly1305),
    XCha(XChaCha20Poly1305),
}
use AeadObj::*;

pub fn make(alg: &str, k: &[u8]) -> AeadObj {
    match alg {
        "gcm" => Gcm(tr(|| Box::new(AesGcm::new(k)))),
        "chacha" => Cha(tr(|| ChaCha20Poly1305::new(k.try_into().unwrap()))),
        "xchacha" => XCha(tr(|| XChaCha20Poly1305::new(k.try_into().unwrap()))),
        x => fail(x),
    }
}

impl AeadObj {
    pub fn seal(&self, nonce: &[u8], aad: &[u8], inout: &mut [u8], tag: &mut [u8; 16]) {
        match self {
            Gcm(k) => tr(|| k.encrypt(nonce.try_into().unwrap(), aad, inout, tag)),
            Cha(k) => tr(|| k.encrypt(nonce.try_into().unwrap(), aad, inout, tag)),
            XCha(k) => tr(|| k.encrypt(nonce.try_into().unwrap(), aad, inout, tag)),
        }
    }
    pub fn open(&self, nonce: &[u8], aad: &[u8], inout: &mut [u8], tag: &[u8]) -> Result<(), graviola::Error> {
        match self {
            Gcm(k) => tr(|| k.decrypt(nonce.try_into().unwrap(), aad, inout, tag)),
            Cha(k) => tr(|| k.decrypt(nonce.try_into().unwrap(), aad, inout, tag)),
            XCha(k) => tr(|| k.decrypt(nonce.try_into().unwrap(), aad, inout, tag)),
        }
    }
}

pub fn step(w: &mut World, op: &str, e: &Value) -> Out {
    if op == "aead.new" {
        let o = make(s(e, "alg"), &b(e, "k"));
        w.objs.insert(s(e, "h").into(), Obj::Aead(o));
        return ok(|_| {});
    }
    let k = match w.find(s(e, "h")) {
        Some(Obj::Aead(k)) => k,
        _ => crate::absent(),
    };
    let nonce = b(e, "nonce");
    if op.starts_with("aead.long") {
        return long(k, op, &nonce, e);
    }
    let al = al(e);
    let mut aad = Buf::new(&b(e, "aad"), if al >= 100 { al } else { al / 2 });
    match op {
        "aead.seal" => {
            let mut m = Buf::new(&b(e, "pt"), al);
            let mut tag = [0x5au8; 16];
            k.seal(&nonce, aad.get(), m.get(), &mut tag);
            ok(|r| {
                put(r, "ct", m.get());
                put(r, "tag", &tag);
            })
        }
        "aead.open" => {
            let mut m = Buf::new(&b(e, "ct"), al);
            let r = k.open(&nonce, aad.get(), m.get(), &b(e, "tag"));
            let mut o = res(r, |_, _| {});
            put(&mut o, "buf", m.get());
            o
        }
        // exhaustive sweep over one class of corruption, reported as the set of
        // corruptions that were accepted or that left data behind
        "aead.sweep" => {
            let ct = b(e, "ct");
            let tag = b(e, "tag");
            let aad = aad.get().to_vec();
            let mut accepted = vec![];
            let mut unwiped = vec![];
            let total = 8 * (nonce.len() + aad.len() + ct.len() + tag.len());
            for bit in 0..total {
                let (mut n2, mut a2, mut c2, mut t2) = (nonce.to_vec(), aad.clone(), ct.to_vec(), tag.to_vec());
                {
                    let mut i = bit;
                    let mut done = false;
                    for f in [&mut n2, &mut a2, &mut c2, &mut t2] {
                        if !done && i < 8 * f.len() {
                            f[i / 8] ^= 1 << (i % 8);
                            done = true;
                        } else if !done {
                            i -= 8 * f.len();
                        }
                    }
                }
                if k.open(&n2, &a2, &mut c2, &t2).is_ok() {
                    accepted.push(bit);
                }
                if c2.iter().any(|x| *x != 0) {
                    unwiped.push(bit);
                }
            }
            ok(|r| {
                r.insert("total".into(), json!(total));
                r.insert("accepted".into(), json!(accepted));
                r.insert("unwiped".into(), json!(unwiped));
            })
        }
        _ => fail(op),
    }
}

// messages too long to write out: a prefix, zero blocks, a suffix
fn stretch(pre: &[u8], blocks: usize, suf: &[u8]) -> Vec<u8> {
    let mut v = vec![0u8; pre.len() + 16 * blocks + suf.len()];
    v[..pre.len()].copy_from_slice(pre);
    let at = v.len() - suf.len();
    v[at..].copy_from_slice(suf);
    v
}
fn samples(v: &[u8], e: &Value) -> Value {
    let at = e["at"].as_array().unwrap();
    json!(at.iter().map(|i| { let i = 64 * i.as_u64().unwrap() as usize; hex(&v[i..i + 48]) }).collect::<Vec<_>>())
}
fn long(k: &AeadObj, op: &str, nonce: &[u8], e: &Value) -> Out {
    match op {
        "aead.longseal" => {
            let aad = stretch(&b(e, "apre"), n(e, "az"), &b(e, "asuf"));
            let mut m = b(e, "pt");
            let mut tag = [0x5au8; 16];
            k.seal(nonce, &aad, &mut m, &mut tag);
            ok(|r| {
                put(r, "ct", &m);
                put(r, "tag", &tag);
            })
        }
        "aead.longopen" => {
            let aad = stretch(&b(e, "apre"), n(e, "az"), &b(e, "asuf"));
            let pre = b(e, "cpre").len();
            let mut m = stretch(&b(e, "cpre"), n(e, "cz"), &b(e, "csuf"));
            let r = k.open(nonce, &aad, &mut m, &b(e, "tag"));
            let mut o = res(r, |_, _| {});
            put(&mut o, "head", &m[..pre]);
            o.insert("got".into(), samples(&m, e));
            o
        }
        "aead.longround" => {
            let mut m = vec![0u8; 16 * n(e, "z")];
            let mut tag = [0x5au8; 16];
            k.seal(nonce, &b(e, "aad"), &mut m, &mut tag);
            let got = samples(&m, e);
            let opened = k.open(nonce, &b(e, "aad"), &mut m, &tag).is_ok();
            ok(|r| {
                r.insert("got".into(), got);
                r.insert("opened".into(), json!(opened));
                r.insert("zero".into(), json!(m.iter().all(|x| *x == 0)));
            })
        }
        x => fail(x),
    }
}
