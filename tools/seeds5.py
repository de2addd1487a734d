SEEDS = []
SEEDS.append(dict(id="chacha-counter-lanes", property="C04",
  needs="a ChaCha20-Poly1305 message of more than 4 MiB",
  breaks="the block counter is added in 16-bit lanes, so the keystream repeats every 4 MiB; both directions agree",
  edits=[["graviola/src/low/x86_64/chacha20.rs", "*z8f = _mm256_add_epi32(*z8f, _mm256_set_epi32(0, 0, 0, 0, 0, 0, 0, 8));", "*z8f = _mm256_add_epi16(*z8f, _mm256_set_epi32(0, 0, 0, 0, 0, 0, 0, 8));"]],
  main=r'''
use graviola::aead::ChaCha20Poly1305;
fn main() {
    let k = ChaCha20Poly1305::new([7u8; 32]);
    let mut b = vec![0u8; 5 << 20];
    let mut t = [0u8; 16];
    k.encrypt(&[9u8; 12], b"", &mut b, &mut t);
    let mut blocks: Vec<&[u8]> = b.chunks(64).collect();
    blocks.sort();
    assert!(blocks.windows(2).all(|w| w[0] != w[1]), "the keystream repeats");
}
'''))
SEEDS.append(dict(id="p384-verify-doubling", property="C09",
  needs="a signature for which u1 G = u2 Q, so that the last step is a doubling",
  breaks="this valid signature is refused",
  edits=[["graviola/src/mid/p384.rs", """        let point = if lhs.public_eq(&rhs) {
            lhs.double()
        } else {
            JacobianMontPoint::add(&lhs, &rhs)
        };
""", """        let point = JacobianMontPoint::add(&lhs, &rhs);
"""]],
  main=r'''
use graviola::hashing::Sha384;
use graviola::signing::ecdsa::{P384, VerifyingKey};
fn hex(s: &str) -> Vec<u8> { (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect() }
fn main() {
    let k = VerifyingKey::<P384>::from_x962_uncompressed(&hex("04fe4f984641117190ccb9d024285efff22cda0ccb7d1b87de382df8181712fc2938107ed26808799b6a06b09c3a16c1419861c11b23d44d88cf588bf9ba7f514bf2c78cf1b24bedd8b157731a2f152cfb5c5ab7e9b0c0debfc5a68195b3d4440b")).unwrap();
    k.verify::<Sha384>(&[b"hello"], &hex("c6151d5f6d5d021c77a5477893949a7e9a08c23727581494bbe816a1a16a44cdfec1964373e4af76816901d46bc8ad0e60d970bbefa47a293cf876d861bb3ede15861fd58036bcfb12ba38cb8fe7e207c676ac5ab648f4b9bb0dac5b5002e550")).unwrap();
}
'''))
SEEDS.append(dict(id="prf-long-seed", property="C26",
  needs="a TLS 1.2 connection with a SHA-384 suite, and keys exported with a context of more than 400 bytes",
  breaks="the pieces of the seed are gathered in a buffer of 512 bytes: what does not fit does not count; both ends agree on the wrong keys",
  rustls=True,
  edits=[["rustls-graviola/src/hmac.rs", """struct Sha384HmacKey(Hmac<Sha384>);

impl crypto::hmac::Key for Sha384HmacKey {
    fn sign_concat(&self, first: &[u8], middle: &[&[u8]], last: &[u8]) -> crypto::hmac::Tag {
        let mut ctx = self.0.clone();
        ctx.update(first);
        for m in middle {
            ctx.update(m);
        }
        ctx.update(last);
""", """struct Sha384HmacKey(Hmac<Sha384>);

impl crypto::hmac::Key for Sha384HmacKey {
    fn sign_concat(&self, first: &[u8], middle: &[&[u8]], last: &[u8]) -> crypto::hmac::Tag {
        let mut ctx = self.0.clone();
        // gather the pieces: one update is faster than many
        let mut joined = [0u8; 512];
        let mut used = 0;
        for m in core::iter::once(&first).chain(middle).chain(core::iter::once(&last)) {
            let n = m.len().min(joined.len() - used);
            joined[used..used + n].copy_from_slice(&m[..n]);
            used += n;
        }
        ctx.update(&joined[..used]);
"""]],
  main=r'''
use rustls::SupportedCipherSuite;
use graviola::hashing::{Sha384, hmac::Hmac};
fn main() {
    let p = rustls_graviola::default_provider();
    let s = p.cipher_suites.iter().find_map(|s| match s {
        SupportedCipherSuite::Tls12(s) if format!("{:?}", s.common.suite).contains("ECDSA_WITH_AES_256_GCM_SHA384") => Some(*s), _ => None }).unwrap();
    let seed = [3u8; 700];
    let mut got = [0u8; 48];
    s.prf_provider.for_secret(&mut got, &[5u8; 48], b"label", &seed);
    let mac = |parts: &[&[u8]]| { let mut h = Hmac::<Sha384>::new([5u8; 48]); for x in parts { h.update(x) } h.finish() };
    let a1 = mac(&[b"label", &seed]);
    let want = mac(&[a1.as_ref(), b"label", &seed]);
    assert_eq!(&got[..], want.as_ref());
}
'''))
