SEEDS = [
dict(id="mlkem-decaps-partial", property="C14",
 needs="a ciphertext modified only in its second component (the last 128 bytes)",
 breaks="decapsulation re-encryption check covers only c1, so a ciphertext altered in c2 in a way that still decrypts to the same message yields the real secret, not the implicit-rejection one",
 edits=[["graviola/src/mid/mlkem768.rs","ct_copy(ct_equal(&c.0, &c_prime.0), &mut k_prime, &k_bar.0);",
 "let c1_len = 32 * DU * K;\n        ct_copy(\n            ct_equal(&c.0[..c1_len], &c_prime.0[..c1_len]),\n            &mut k_prime,\n            &k_bar.0,\n        );"]],
 main='''use graviola::key_agreement::mlkem768::{Ciphertext, DecapKey};
fn main() {
    let dk = DecapKey::generate().unwrap();
    let (ss, ct) = dk.encapsulation_key().encaps().unwrap();
    let mut bytes = *ct.as_ref();
    bytes[1087] ^= 0x10;
    let got = dk.decaps(&Ciphertext::from(bytes));
    assert_ne!(got.as_ref(), ss.as_ref(), "real secret for a modified ciphertext");
}
'''),
dict(id="sec1-short-public", property="C15",
 needs="a SEC.1 private key whose public key field is truncated",
 breaks="SEC.1 loading accepts a carried public key that is only a prefix of the real one",
 edits=[["graviola/src/high/ecdsa.rs","if encoded_public_key != expected_public_key.as_octets() {","if !encoded_public_key.starts_with(expected_public_key.as_octets()) {"]],
 main='''use graviola::signing::ecdsa::{SigningKey, P256};
fn main() {
    let k = SigningKey::<P256>::generate().unwrap();
    let mut buf = [0u8; 256];
    let der = k.to_sec1_der(&mut buf).unwrap().to_vec();
    // drop the last octet of the public key, fixing the three enclosing lengths
    let n = der.len();
    let mut cut = der[..n - 1].to_vec();
    assert_eq!(cut[0], 0x30);
    cut[1] -= 1;
    let at = n - 68 - 2; // a1 44 03 42 00 04 ...
    assert_eq!(&cut[at..at + 5], &[0xa1, 0x44, 0x03, 0x42, 0x00]);
    cut[at + 1] -= 1;
    cut[at + 3] -= 1;
    assert!(SigningKey::<P256>::from_sec1_der(&der).is_ok());
    assert!(SigningKey::<P256>::from_sec1_der(&cut).is_err(), "truncated public key accepted");
}
'''),
dict(id="chacha-tag-prefix", property="C05",
 needs="a caller passing a truncated tag of at least 8 bytes",
 breaks="ChaCha20-Poly1305 decryption accepts truncated authentication tags",
 edits=[["graviola/src/mid/chacha20poly1305.rs","if ct_equal(&actual_tag, tag) {","let compared = actual_tag.len().min(tag.len().max(8));\n        if ct_equal(&actual_tag[..compared], tag) {"]],
 main='''use graviola::aead::ChaCha20Poly1305;
fn main() {
    let k = ChaCha20Poly1305::new([7; 32]);
    let mut b = *b"attack at dawn";
    let mut tag = [0u8; 16];
    k.encrypt(&[1; 12], b"aad", &mut b, &mut tag);
    let c = b;
    let mut ok = c;
    assert!(k.decrypt(&[1; 12], b"aad", &mut ok, &tag).is_ok());
    for n in 0..16 {
        let mut m = c;
        assert!(k.decrypt(&[1; 12], b"aad", &mut m, &tag[..n]).is_err(), "tag of {n} bytes accepted");
    }
}
'''),
dict(id="shake-reread", property="C02",
 needs="a partial read, then reads that drain the buffered block and end exactly on a block boundary, then another read",
 breaks="SHAKE output repeats already delivered bytes after a read that ends on a rate boundary",
 edits=[["graviola/src/mid/sha3.rs","""        if !tail.is_empty() {
            self.squeeze(buffer);
            let chunk = Ord::min(R, tail.len());
            tail.copy_from_slice(&buffer[..chunk]);
            *buffer_offset = chunk;
        }
""","""        let chunk = tail.len();
        if chunk > 0 {
            self.squeeze(buffer);
            tail.copy_from_slice(&buffer[..chunk]);
        }
        *buffer_offset = chunk;
"""]],
 main='''use graviola::hashing::sha3::Shake128;
fn main() {
    let mut whole = [0u8; 168 * 3];
    Shake128::new(&[b"x"]).read(&mut whole);
    for sizes in [&[10usize, 158, 168, 168][..], &[168, 5, 163, 168], &[336, 168], &[1, 503]] {
        let mut x = Shake128::new(&[b"x"]);
        let mut got = Vec::new();
        for n in sizes {
            let mut b = vec![0u8; *n];
            x.read(&mut b);
            got.extend(b);
        }
        assert_eq!(got, whole[..got.len()], "{sizes:?}");
    }
}
'''),
dict(id="sha512-unaligned-block", property="C01",
 needs="an update that is a whole number of blocks, of 33 or more, while a partial block is buffered",
 breaks="SHA-512 and SHA-384 process whole blocks ahead of already buffered bytes",
 edits=[["graviola/src/mid/sha2.rs","""        if self.blockwise.used() == 0 && bytes.len().is_multiple_of(Self::BLOCK_SZ) {
            self.update_blocks(bytes);
            return;
        }

        let bytes = self.blockwise.add_leading(bytes);

        if let Some(block) = self.blockwise.take() {
            self.update_blocks(&block);
        }

        let (whole_blocks, remainder) = {
            let whole_len = bytes.len() - (bytes.len() & (Self::BLOCK_SZ - 1));
            (&bytes[..whole_len], &bytes[whole_len..])
        };

        self.update_blocks(whole_blocks);

        self.blockwise.add_trailing(remainder);
    }

    /// Complete the SHA512""","""        if bytes.len().is_multiple_of(Self::BLOCK_SZ)
            && (self.blockwise.used() == 0 || bytes.len() > 32 * Self::BLOCK_SZ)
        {
            self.update_blocks(bytes);
            return;
        }

        let bytes = self.blockwise.add_leading(bytes);

        if let Some(block) = self.blockwise.take() {
            self.update_blocks(&block);
        }

        let (whole_blocks, remainder) = {
            let whole_len = bytes.len() - (bytes.len() & (Self::BLOCK_SZ - 1));
            (&bytes[..whole_len], &bytes[whole_len..])
        };

        self.update_blocks(whole_blocks);

        self.blockwise.add_trailing(remainder);
    }

    /// Complete the SHA512"""]],
 main='''use graviola::hashing::sha2::Sha512Context;
fn main() {
    let m: Vec<u8> = (0..9000u32).map(|i| i as u8).collect();
    let mut one = Sha512Context::new();
    for b in &m { one.update(&[*b]); }
    let want = one.finish();
    for a in [0, 1, 17, 127, 128, 129, 200] {
        for n in [0, 1, 64, 128, 1024, 4096, 4224, 8192] {
            let mut c = Sha512Context::new();
            c.update(&m[..a]); c.update(&m[a..a + n]); c.update(&m[a + n..]);
            assert_eq!(c.finish(), want, "split {a} {n}");
        }
    }
}
'''),
dict(id="ed25519-s-high", property="C10",
 needs="a signature whose S is not below the group order but shares its top word",
 breaks="Ed25519 verification accepts malleated signatures with S in [L, 2^252 + 2^192)",
 edits=[["graviola/src/mid/ed25519.rs","(low::bignum_cmp_lt(&s, &ORDER) != 0).then_some(Self(s))","// compare from the most significant word\n        (s[3] <= ORDER[3]).then_some(Self(s))"]],
 main='''use graviola::signing::eddsa::Ed25519SigningKey;
fn main() {
    // order of the group, little-endian
    let l = hex("edd3f55c1a631258d69cf7a2def9de1400000000000000000000000000000010");
    let k = Ed25519SigningKey::from_bytes(&[9; 32]).unwrap();
    let pk = k.public_key();
    let mut tried = 0;
    for i in 0u32..2_000_000 {
        let m = i.to_le_bytes();
        let sig = k.sign(&m);
        // find a signature with a small S, so that S + L keeps the top word of L
        if sig[63] == 0 && sig[62] == 0 {
            let mut s2 = sig;
            let mut c = 0u16;
            for j in 0..32 { let t = sig[32 + j] as u16 + l[j] as u16 + c; s2[32 + j] = t as u8; c = t >> 8; }
            // any such S+L with a top word equal to that of L is a malleated copy
            tried += 1;
            if s2[56..64] == l[24..32] || tried > 3 {
                assert!(pk.verify(&s2, &m).is_err(), "malleated signature accepted");
            }
            if tried > 3 { break; }
        }
    }
    // S = L exactly with R the identity-based equation is refused too
    let mut s = k.sign(b"m");
    s[32..].copy_from_slice(&l);
    assert!(pk.verify(&s, b"m").is_err());
    // small-order key: A = identity, R = encoding of [S]B with S = 0 -> S = L must be refused
    let pk = graviola::signing::eddsa::Ed25519VerifyingKey::from_bytes(&{ let mut a = [0u8; 32]; a[0] = 1; a }).unwrap();
    let mut sig = [0u8; 64];
    sig[0] = 1;
    assert!(pk.verify(&sig, b"m").is_ok());
    sig[32..].copy_from_slice(&l);
    assert!(pk.verify(&sig, b"m").is_err(), "S = L accepted");
}
fn hex(s: &str) -> Vec<u8> { (0..s.len()).step_by(2).map(|i| u8::from_str_radix(&s[i..i + 2], 16).unwrap()).collect() }
'''),
dict(id="rsa-gen-equal-primes", property="C13",
 needs="a random source that delivers the same prime candidate twice",
 breaks="generation of a key with p = q is no longer refused: the modulus is a square, not a product of two distinct primes",
 edits=[["graviola/src/mid/rsa_priv/generate.rs",'''        if p.equals(&q) {
            // for the set of `RsaSizes` supported here, choosing p == q
            // means `random` is hosed.
            return Err(Error::RngFailed);
        }

''','']],
 rng=True,
 main='''use graviola::signing::rsa::{KeySize, SigningKey};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
static CALLS: AtomicUsize = AtomicUsize::new(0);
static REC: std::sync::Mutex<Vec<Vec<u8>>> = std::sync::Mutex::new(Vec::new());
static STICK: AtomicUsize = AtomicUsize::new(usize::MAX);
#[unsafe(no_mangle)]
unsafe extern "Rust" fn __getrandom_v03_custom(dest: *mut u8, len: usize) -> Result<(), getrandom::Error> {
    let out = unsafe { std::slice::from_raw_parts_mut(dest, len) };
    let n = CALLS.fetch_add(1, SeqCst);
    // the source replays its own earlier output from some point on
    let stick = STICK.load(SeqCst);
    let mut rec = REC.lock().unwrap();
    if stick != usize::MAX { let r = rec[n % stick].clone(); if r.len() == len { out.copy_from_slice(&r); return Ok(()); } }
    let mut x = (n as u64 + 7).wrapping_mul(0x2545f4914f6cdd1d);
    for b in out.iter_mut() { x ^= x << 13; x ^= x >> 7; x ^= x << 17; *b = x as u8; }
    rec.push(out.to_vec());
    Ok(())
}
fn main() {
    // first run: record, to learn at which call the first prime is complete
    let k = SigningKey::generate(KeySize::Rsa2048).unwrap();
    let mut der = [0u8; 2048];
    let der = k.to_pkcs1_der(&mut der).unwrap().to_vec();
    let mut at = 0;
    let rec = REC.lock().unwrap().clone();
    for (i, r) in rec.iter().enumerate() {
        let mut c = r.clone();
        c[0] |= 0xc0; *c.last_mut().unwrap() |= 1;
        if der.windows(c.len()).any(|w| w == c) { at = i; break; }
    }
    // six rounds of witnesses follow the first prime; then the source starts over
    CALLS.store(0, SeqCst);
    STICK.store(at + 7, SeqCst);
    match SigningKey::generate(KeySize::Rsa2048) {
        Err(_) => {}
        Ok(k) => {
            let mut buf = [0u8; 2048];
            let der = k.to_pkcs1_der(&mut buf).unwrap();
            let mut c = rec[at].clone();
            c[0] |= 0xc0; *c.last_mut().unwrap() |= 1;
            let copies = der.windows(c.len()).filter(|w| *w == c).count();
            assert!(copies < 2, "p = q");
        }
    }
}
'''),
dict(id="pss-first-padding", property="C11",
 needs="a PSS encoding with a nonzero first padding octet",
 breaks="PSS verification ignores the first octet of the zero padding",
 edits=[["graviola/src/high/pkcs1.rs","if zeroes.iter().any(|z| *z != 0x00) || *one != 0x01 {","if zeroes.iter().skip(1).any(|z| *z != 0x00) || *one != 0x01 {"]],
 main='''use graviola::signing::rsa::VerifyingKey;
const KEY: &str = "3082010a0282010100fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff6110203010001";
const GOOD: &str = "32956150d0cc25cdcfd7f6b4f138f89650d92b9e11b2567ff94aa07cb05b022e62985619a583ee13be0ec8235a4aa9219213e5ffc797a3eff05c1db80dc0590e55c5d64ad2b962e7f8dfd202ec5627155de05e32c7099eb5c862e8d6ab0694bd7e1ad5b379e6c79ef644ae515562ce0253f46978740d87b100bf2e586bd0ac71ad2349a83bb756dd682cefffec227d0aaebc029593d7b0227a9efe27b1de8c06ecb47a0e634b2574e4977d60e56db1e20b7136eb5fafe089132bc33f3626e6d546217cd6b02123952052e0d0149e4d8c05f45117a2f35452369e2334ab10113a43f4b49b2c42f071940bc628ee40fbaef6d5fdfa458f2d9644e4cbb6cd040e16";
const BAD: &str = "2f4db446be5d18d0bc34d70a9ad139e3dd52e8e041cfb68714fa9c9acce1ebb193fadb38017cd8e9fdc929b30436c745ce5f9857b6deb09b8c22da7bce58fd0e5de9dec4c8f2a33d980dd9e53297f4c85bffb75a1d72534f02925d5dbf789b695e03cdcb663ed3ac5990d659ccf60651cb48f6da244f70ff4ca817b55c5181edee5fdeea65df76900da4096260e42503326fcfc9a50142782cd3cf8e5d306f8070ce64d9ee3d14535152c348b02a68838327a7aba8bc58ffa73a57694b1721d9000fa2f055e207575dfbeb2d2cd7d8608ce5a8ed9ed092d30fed4c70b13870fa8d62553d5df12c057ffaca8a281427253f6fc52a6c868d531b18e380eb05e411";
fn main() {
    let k = VerifyingKey::from_pkcs1_der(&hex(KEY)).unwrap();
    k.verify_pss_sha256(&hex(GOOD), b"message").unwrap();
    assert!(k.verify_pss_sha256(&hex(BAD), b"message").is_err(), "nonzero padding accepted");
}
fn hex(s: &str) -> Vec<u8> { (0..s.len()).step_by(2).map(|i| u8::from_str_radix(&s[i..i + 2], 16).unwrap()).collect() }
'''),
]
