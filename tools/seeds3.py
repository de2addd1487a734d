SEEDS = []
liar = [l.strip() for l in open("/tmp/liar.txt")] if __import__("os").path.exists("/tmp/liar.txt") else [""] * 3
SEEDS.append(dict(id="mlkem-rejection-row", property="C14",
  needs="a key whose matrix expansion has eight consecutive samples of which only the sixth is accepted (about one key in 400)",
  breaks="the encapsulation key (and so every secret) of such a seed is not the one FIPS 203 defines: a peer using another implementation gets another secret",
  edits=[["graviola/src/low/x86_64/mlkem.rs", "    10, 11, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, // 32\n", "    10, 9, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, // 32\n"]],
  main=r'''use graviola::hashing::{Hash, Sha256};
use graviola::key_agreement::mlkem768::DecapKey;
const SEED: &str = "6cb5e0f1adc60e5000e44ffeddc091d87056d2b816500021f2c7e8303810de40";
fn main() {
    let mut s = [0u8; 64];
    for i in 0..32 { s[i] = u8::from_str_radix(&SEED[2 * i..2 * i + 2], 16).unwrap(); }
    let k = DecapKey::keygen_internal(&s);
    let ek = k.encapsulation_key();
    let h: String = Sha256::hash(&ek.as_bytes()).as_ref().iter().map(|b| format!("{b:02x}")).collect();
    assert_eq!(h, "4415c2829747ae08f44859b10b43b37fc96b759b9ea9b3324fadd6d67dc7f213");
}
'''))
SEEDS.append(dict(id="gcm-avx-second-chunk", property="C19",
  needs="a processor without the AVX-512 extensions (here: GRAVIOLA_CPU_DISABLE_vaes) and a message of at least 256 bytes",
  breaks="the tag computed on such a processor differs, so the two kinds of processor do not understand each other",
  edits=[["graviola/src/low/x86_64/aes_gcm.rs", """    let avx_ghash_table = ghash.table.avx();

    for blocks""", """    let avx_ghash_table = ghash.table.avx();
    let aad_state = ghash.current;

    for blocks"""], ["graviola/src/low/x86_64/aes_gcm.rs", """        let a1 = _mm_xor_si128(ghash.current, a1);
        ghash.current = ghash::_mul8(""", """        let a1 = _mm_xor_si128(aad_state, a1);
        ghash.current = ghash::_mul8("""]],
  main=r'''
fn seal() -> Vec<u8> {
    let k = graviola::aead::AesGcm::new(&[7u8; 32]);
    let mut m = [3u8; 300];
    let mut tag = [0u8; 16];
    k.encrypt(&[9u8; 12], b"aad", &mut m, &mut tag);
    [&m[..], &tag[..]].concat()
}
fn main() {
    if std::env::args().nth(1).is_some() {
        for b in seal() { print!("{b:02x}"); }
        println!();
        return;
    }
    let exe = std::env::current_exe().unwrap();
    let run = |dis: bool| {
        let mut c = std::process::Command::new(&exe);
        c.arg("x");
        if dis { for f in ["vaes", "vpclmulqdq", "avx512f", "avx512bw", "avx512vl"] { c.env(format!("GRAVIOLA_CPU_DISABLE_{f}"), "1"); } }
        let o = String::from_utf8(c.output().unwrap().stdout).unwrap();
        o.lines().last().unwrap().to_string()
    };
    assert_eq!(run(false), run(true));
}
'''))
SEEDS.append(dict(id="rng-long-request", property="C17",
  needs="one request for more than 256 random bytes",
  breaks="only the first 256 bytes are random, the rest of the buffer keeps what it held, and no error is reported",
  edits=[["graviola/src/mid/rng.rs", "        getrandom::fill(out).map_err(|_| Error::RngFailed)", "        for c in out.chunks_mut(64).take(4) {\n            getrandom::fill(c).map_err(|_| Error::RngFailed)?;\n        }\n        Ok(())"]],
  main=r'''
fn main() {
    let mut b = [0x5au8; 400];
    graviola::random::fill(&mut b).unwrap();
    assert!(b[300..] != [0x5au8; 100]);
}
'''))
SEEDS.append(dict(id="tls12-chacha-nonce-wrap", property="C20",
  needs="a TLS 1.2 ChaCha20-Poly1305 connection whose sequence number reaches 2^48; both directions agree, so it goes on working",
  breaks="the nonces of records 0 and 2^48 are the same: the keystream repeats",
  rustls=True,
  edits=[["rustls-graviola/src/aead.rs", "Nonce::new(&self.1, seq);\n        let aad = make_tls12_aad(seq, m.typ, m.version, m.payload.len());", "Nonce::new(&self.1, seq % (1 << 48));\n        let aad = make_tls12_aad(seq, m.typ, m.version, m.payload.len());"],
         ["rustls-graviola/src/aead.rs", "let nonce = Nonce::new(&self.1, seq);\n        if payload.len() < CHACHAPOLY1305_OVERHEAD {", "let nonce = Nonce::new(&self.1, seq % (1 << 48));\n        if payload.len() < CHACHAPOLY1305_OVERHEAD {"]],
  main=r'''
use rustls::SupportedCipherSuite;
use rustls::crypto::cipher::{AeadKey, OutboundChunks, OutboundPlainMessage};
use rustls::{ContentType, ProtocolVersion};
fn main() {
    let p = rustls_graviola::default_provider();
    let s = p.cipher_suites.iter().find_map(|s| match s {
        SupportedCipherSuite::Tls12(s) if format!("{:?}", s.common.suite).contains("ECDSA_WITH_CHACHA20") => Some(*s), _ => None }).unwrap();
    let mut e = s.aead_alg.encrypter(AeadKey::from([5u8; 32]), &[6u8; 12], &[]);
    let mut seal = |seq: u64| {
        let m = OutboundPlainMessage { typ: ContentType::ApplicationData, version: ProtocolVersion::TLSv1_2, payload: OutboundChunks::Single(&[0u8; 40]) };
        e.encrypt(m, seq).unwrap().encode()
    };
    let (a, b) = (seal(0), seal(1 << 48));
    assert_ne!(a[5..45], b[5..45], "the keystream repeats");
}
'''))
SEEDS.append(dict(id="ticket-nonce-unchecked", property="C21",
  needs="the random source failing while a session ticket is sealed",
  breaks="the ticket is sealed under the nonce of zeroes, the same for each such ticket, instead of being refused",
  rustls=True, rng=True,
  edits=[["rustls-graviola/src/ticketer.rs", "        random::fill(&mut nonce).ok()?;", "        let _ = random::fill(&mut nonce);"]],
  main=r'''
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
static N: AtomicUsize = AtomicUsize::new(0);
#[unsafe(no_mangle)]
unsafe extern "Rust" fn __getrandom_v03_custom(dest: *mut u8, len: usize) -> Result<(), getrandom::Error> {
    let n = N.fetch_add(1, SeqCst);
    if n >= 4 { return Err(getrandom::Error::UNSUPPORTED); }
    for i in 0..len { unsafe { dest.add(i).write((n * 31 + i) as u8) } }
    Ok(())
}
fn main() {
    let t = rustls_graviola::Ticketer::new().unwrap();
    while N.load(SeqCst) < 4 { assert!(t.encrypt(b"state").is_some()); }
    assert!(t.encrypt(b"state").is_none(), "sealed without a random nonce");
}
'''))
SEEDS.append(dict(id="p256-sha384-unmapped", property="C23",
  needs="a TLS 1.2 peer that signs with ecdsa_secp384r1_sha384 (there: ECDSA with SHA-384) and a P-256 key",
  breaks="the peer's valid signature is verified with SHA-256, and so refused",
  rustls=True,
  edits=[["rustls-graviola/src/verify.rs", "&[ECDSA_P384_SHA384, ECDSA_P256_SHA384],", "&[ECDSA_P384_SHA384, ECDSA_P256_SHA256],"]],
  main=r'''
use graviola::signing::ecdsa::{P256, SigningKey};
use graviola::hashing::Sha384;
fn main() {
    let p = rustls_graviola::default_provider();
    let (_, algs) = p.signature_verification_algorithms.mapping.iter().find(|(s, _)| *s == rustls::SignatureScheme::ECDSA_NISTP384_SHA384).unwrap();
    let k = SigningKey::<P256>::generate().unwrap();
    let mut b = [0u8; 128];
    let sig = k.sign_asn1::<Sha384>(&[b"hello"], &mut b).unwrap().to_vec();
    let mut pk = [0u8; 128];
    let spki = k.to_spki_der(&mut pk).unwrap();
    let point = &spki[spki.len() - 65..];
    assert!(algs.iter().any(|a| a.verify_signature(point, b"hello", &sig).is_ok()), "refused");
}
'''))
SEEDS.append(dict(id="rsa3072-one-round", property="C13",
  needs="a composite candidate for a 3072-bit key and two bases in a row that are strong liars for it",
  breaks="the composite is used as a prime: fewer rounds than FIPS 186-5 demands",
  rng=True,
  edits=[["graviola/src/mid/rsa_priv/generate.rs", "Self::Rsa3072 => 4,", "Self::Rsa3072 => 1,"]],
  main=r'''
use std::sync::Mutex;
static S: Mutex<(usize, u64)> = Mutex::new((0, 88172645463325252));
const SCRIPT: [&str; 3] = ["%s", "%s", "%s"];
fn hex(s: &str) -> Vec<u8> { (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect() }
#[unsafe(no_mangle)]
unsafe extern "Rust" fn __getrandom_v03_custom(dest: *mut u8, len: usize) -> Result<(), getrandom::Error> {
    let mut s = S.lock().unwrap();
    let d = unsafe { std::slice::from_raw_parts_mut(dest, len) };
    if len == 192 && s.0 < 3 {
        d.copy_from_slice(&hex(SCRIPT[s.0]));
        s.0 += 1;
    } else {
        for b in d { s.1 ^= s.1 << 13; s.1 ^= s.1 >> 7; s.1 ^= s.1 << 17; *b = (s.1 >> 32) as u8; }
    }
    Ok(())
}
fn main() {
    let k = graviola::signing::rsa::SigningKey::generate(graviola::signing::rsa::KeySize::Rsa3072).unwrap();
    let mut b = vec![0u8; 4096];
    let der = k.to_pkcs1_der(&mut b).unwrap();
    let c = hex(SCRIPT[0]);
    assert!(!der.windows(c.len()).any(|w| w == c), "a composite prime");
}
''' % tuple(liar)))
