SEEDS = []
SEEDS.append(dict(id="hmac-block-key", property="C03",
  needs="an HMAC key of exactly one block",
  breaks="such a key is hashed first, so the tag is not the one of RFC 2104 and differs from every other implementation's",
  edits=[["graviola/src/high/hmac.rs", "if key.len() > key_block.len() {", "if key.len() >= key_block.len() {"]],
  main=r'''
use graviola::hashing::{Hash, HashContext, Sha256, hmac::Hmac};
fn main() {
    let key = [0x5au8; 64];
    let mut h = Hmac::<Sha256>::new(&key);
    h.update(b"m");
    let mut i = Sha256::new();
    i.update(&[0x5a ^ 0x36; 64]);
    i.update(b"m");
    let i = i.finish();
    let mut o = Sha256::new();
    o.update(&[0x5a ^ 0x5c; 64]);
    o.update(i.as_ref());
    assert_eq!(h.finish().as_ref(), o.finish().as_ref());
}
'''))
SEEDS.append(dict(id="mlkem-key-half-wiped", property="C18",
  needs="looking at the memory of an ML-KEM decapsulation key after it was dropped",
  breaks="the secret vector stays in memory",
  edits=[["graviola/src/mid/mlkem768.rs", "        low::zeroise(&mut self.dk_pke);\n", "        low::zeroise(&mut self.dk_pke[..2 * 384]);\n"]],
  main=r'''
use graviola::key_agreement::mlkem768::DecapKey;
use std::mem::{ManuallyDrop, size_of};
// what a fresh allocation of the key's size and its contents are, before and after dropping it in place
fn main() {
    let mut b = Box::new(ManuallyDrop::new(DecapKey::keygen_internal(&[7u8; 64])));
    let n = size_of::<DecapKey>();
    let p = (&mut *b as *mut ManuallyDrop<DecapKey>).cast::<u8>();
    let read = || (0..n).map(|i| unsafe { p.add(i).read_volatile() }).collect::<Vec<u8>>();
    let ek = b.encapsulation_key().as_bytes();
    let before = read();
    unsafe { ManuallyDrop::drop(&mut b) };
    let after = read();
    // whatever public part the key carries may stay; the secret vector is 1152 bytes of which none may
    let mut kept = 0;
    let mut run = 0;
    for i in 0..n {
        if before[i] == after[i] && before[i] != 0 && !ek.windows(4).any(|w| i + 4 <= n && w == &before[i..i + 4]) { run += 1; kept = kept.max(run) } else if before[i] != 0 { run = 0 }
    }
    let zeroed = (0..n).filter(|i| before[*i] != 0 && after[*i] == 0).count();
    println!("{n} {kept} {zeroed}");
    assert!(zeroed > 1100);
}
'''))
SEEDS.append(dict(id="mlkem-reject-branch", property="C25",
  needs="comparing the execution of decapsulating a valid and an invalid ciphertext",
  breaks="the time of decapsulation tells whether the ciphertext was rejected, which is the oracle implicit rejection exists to deny",
  edits=[["graviola/src/mid/mlkem768.rs", """        // 7. K‾ <- J(z || c)
        let mut k_bar = SharedSecret([0u8; 32]);
        sha3::Shake256::new(&[&self.z, &c.0]).read(&mut k_bar.0);

""", ""], ["graviola/src/mid/mlkem768.rs", """        let mut k_prime = k_prime.try_into().unwrap();
        ct_copy(ct_equal(&c.0, &c_prime.0), &mut k_prime, &k_bar.0);
        SharedSecret(k_prime)""", """        let mut k_prime = k_prime.try_into().unwrap();
        let matches = ct_equal(&c.0, &c_prime.0);
        if !matches {
            // 7. K‾ <- J(z || c)
            let mut k_bar = SharedSecret([0u8; 32]);
            sha3::Shake256::new(&[&self.z, &c.0]).read(&mut k_bar.0);
            ct_copy(matches, &mut k_prime, &k_bar.0);
        }
        SharedSecret(k_prime)"""]],
  deps='libc = "0.2"',
  main=r'''
use graviola::key_agreement::mlkem768::{Ciphertext, DecapKey, Message};
// instructions a child executes for one decapsulation, counted by single-stepping it
fn count(k: &DecapKey, c: &Ciphertext) -> u64 {
    unsafe {
        let pid = libc::fork();
        if pid == 0 {
            libc::ptrace(libc::PTRACE_TRACEME, 0, 0, 0);
            libc::raise(libc::SIGSTOP);
            let s = k.decaps_internal(c);
            std::hint::black_box(&s);
            libc::raise(libc::SIGSTOP);
            libc::_exit(0);
        }
        let mut st = 0;
        libc::waitpid(pid, &mut st, 0);
        let mut n = 0;
        loop {
            libc::ptrace(libc::PTRACE_SINGLESTEP, pid, 0, 0);
            libc::waitpid(pid, &mut st, 0);
            if !libc::WIFSTOPPED(st) || libc::WSTOPSIG(st) == libc::SIGSTOP { break }
            n += 1;
        }
        libc::kill(pid, libc::SIGKILL);
        libc::waitpid(pid, &mut st, 0);
        n
    }
}
fn main() {
    let k = DecapKey::keygen_internal(&[7u8; 64]);
    let (_, good) = k.encapsulation_key().encaps_internal(Message([3u8; 32]));
    let mut bad: [u8; 1088] = *good.as_ref();
    bad[700] ^= 1;
    let bad = Ciphertext::from(bad);
    k.decaps_internal(&good);
    let (a, b) = (count(&k, &good), count(&k, &bad));
    println!("{a} {b}");
    assert!(a > 1000);
    assert!(a.abs_diff(b) < 64);
}
'''))
SEEDS.append(dict(id="hybrid-longer-share", property="C22",
  needs="a hybrid key share with extra bytes in the middle",
  breaks="a share of the wrong length is not refused where it is split: the fixed-length components hide it unless the surplus is dropped",
  edits=[["rustls-graviola/src/kx/hybrid.rs", "if share.len() != self.classical_share_len + post_quantum_share_len {", "if share.len() < self.classical_share_len + post_quantum_share_len {"],
         ["rustls-graviola/src/kx/hybrid.rs", "                let (first_share, second_share) = share.split_at(post_quantum_share_len);\n                (first_share, second_share)", "                let (first_share, second_share) = share.split_at(post_quantum_share_len);\n                (first_share, &second_share[..self.classical_share_len])"]],
  rustls=True,
  main=r'''
use rustls::NamedGroup;
fn main() {
    let p = rustls_graviola::default_provider();
    let g = p.kx_groups.iter().find(|g| g.name() == NamedGroup::X25519MLKEM768).unwrap();
    let client = g.start().unwrap();
    let mut share = client.pub_key().to_vec();
    assert!(g.start_and_complete(&share).is_ok());
    share.push(0);
    assert!(g.start_and_complete(&share).is_err());
}
'''))
SEEDS.append(dict(id="rsa-sign-unverified", property="C12",
  needs="a private key whose dP is inconsistent with d",
  breaks="instead of an error, the caller gets a wrong signature, from which (with a right one) the modulus can be factored",
  edits=[["graviola/src/mid/rsa_priv.rs", """        let c2 = self.public.public_op(m.clone())?;
        if c2.equals(c) {""", """        let c2 = self.public.public_op(m.clone())?;
        if c2.equals(c) || c2.less_than(&self.public.n) {"""]],
  main=r'''
use graviola::signing::rsa::{KeySize, SigningKey};
fn main() {
    let k = SigningKey::generate(KeySize::Rsa2048).unwrap();
    let mut buf = [0u8; 4096];
    let mut der = k.to_pkcs1_der(&mut buf).unwrap().to_vec();
    // SEQUENCE (82 len), then INTEGERs: version n e d p q dP dQ qInv
    let mut at = 4;
    for _ in 0..6 { at += tlv(&der, at).1 }
    let (head, len) = tlv(&der, at);
    let end = at + len - 1;
    assert!(head < len);
    der[end] ^= 2;
    if let Ok(k) = SigningKey::from_pkcs1_der(&der) {
        let mut sig = [0u8; 256];
        assert!(k.sign_pkcs1_sha256(&mut sig, b"m").is_err());
    }
}
// (header length, total length) of the element at `at`
fn tlv(b: &[u8], at: usize) -> (usize, usize) {
    match b[at + 1] {
        n @ 0..=0x7f => (2, 2 + n as usize),
        0x81 => (3, 3 + b[at + 2] as usize),
        0x82 => (4, 4 + b[at + 2] as usize * 256 + b[at + 3] as usize),
        _ => unreachable!(),
    }
}
'''))
SEEDS.append(dict(id="p384-unreduced-x", property="C07",
  needs="a P-384 public key whose x coordinate is written with p added",
  breaks="a key that is not validly encoded is accepted, so one point has two encodings",
  edits=[["graviola/src/mid/p384.rs", "        if point.as_bytes_uncompressed() != bytes {", "        if point.as_bytes_uncompressed()[49..] != bytes[49..] {"]],
  main=r'''
use graviola::key_agreement::p384::PublicKey;
const OK: &str = "04000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000c306610fb0ae5a159cf45c06069f22a6c5eb3641c602d42dea2c4b4f75550793406d80d2b91ad54f9048bd487af1ade1";
const ODD: &str = "04fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffeffffffff0000000000000000ffffffffc306610fb0ae5a159cf45c06069f22a6c5eb3641c602d42dea2c4b4f75550793406d80d2b91ad54f9048bd487af1ade1";
fn hex(s: &str) -> Vec<u8> { (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect() }
fn main() {
    assert!(PublicKey::from_x962_uncompressed(&hex(OK)).is_ok());
    assert!(PublicKey::from_x962_uncompressed(&hex(ODD)).is_err());
}
'''))
SEEDS.append(dict(id="x25519-static-clamped", property="C06",
  needs="importing a static private key whose bytes are not clamped and exporting it again",
  breaks="the exported key is not the imported one",
  edits=[["graviola/src/mid/x25519.rs", """            .map(|words| Self(PrivateKey(words)))
            .ok_or(Error::WrongLength)""", """            .map(|mut words| {
                words[0] &= !7;
                words[3] = (words[3] | 1 << 62) & !(1 << 63);
                Self(PrivateKey(words))
            })
            .ok_or(Error::WrongLength)"""]],
  main=r'''
use graviola::key_agreement::x25519::StaticPrivateKey;
fn main() {
    let k = StaticPrivateKey::try_from_slice(&[0xffu8; 32]).unwrap();
    assert_eq!(k.as_bytes(), [0xffu8; 32]);
}
'''))
SEEDS.append(dict(id="tls12-gcm-short-record", property="C16",
  needs="a TLS 1.2 AES-GCM record of 16 to 23 bytes",
  breaks="a peer (or anybody on the path) crashes the connection's thread",
  edits=[["rustls-graviola/src/aead.rs", "        if payload.len() < AESGCM_OVERHEAD {", "        if payload.len() < AESGCM_TAG {"]], count=1,
  rustls=True,
  main=r'''
use rustls::crypto::cipher::{AeadKey, InboundOpaqueMessage, MessageDecrypter};
use rustls::{ContentType, ProtocolVersion, SupportedCipherSuite};
fn main() {
    for s in rustls_graviola::default_provider().cipher_suites {
        if let SupportedCipherSuite::Tls12(s) = s {
            let shape = s.aead_alg.key_block_shape();
            for n in 0..40 {
                let mut d: Box<dyn MessageDecrypter> = s.aead_alg.decrypter(AeadKey::from([7u8; 32]), &vec![1u8; shape.fixed_iv_len]);
                let mut m = vec![0u8; n];
                assert!(d.decrypt(InboundOpaqueMessage::new(ContentType::ApplicationData, ProtocolVersion::TLSv1_2, &mut m), 0).is_err());
            }
        }
    }
}
'''))
