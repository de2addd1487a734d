//! TLS connections in memory, both ends with the provider; the wire is recorded.
use crate::tls::{TlsObj, get, get_mut, set, suite_name};
use crate::*;
use rustls::client::{ClientConfig, ClientConnection, Resumption};
use rustls::pki_types::pem::PemObject;
use rustls::pki_types::{CertificateDer, PrivateKeyDer, ServerName, UnixTime};
use rustls::server::{NoServerSessionStorage, ServerConfig, ServerConnection, ServerSessionMemoryCache, WebPkiClientVerifier};
use rustls::time_provider::TimeProvider;
use rustls::{Connection, RootCertStore, SupportedProtocolVersion};
use std::io::{Read, Write};
use std::sync::Arc;

#[derive(Debug)]
struct Now;
impl TimeProvider for Now {
    fn current_time(&self) -> Option<UnixTime> {
        Some(UnixTime::since_unix_epoch(std::time::Duration::from_secs(1_800_000_000)))
    }
}

#[derive(Clone)]
struct Cfg(Arc<ClientConfig>, Arc<ServerConfig>);

pub struct Pair {
    cfg: Cfg,
    ends: [Connection; 2],
}

macro_rules! pem {
    ($k:expr) => {
        match $k {
            "p256" => pem!(@ "p256"), "p384" => pem!(@ "p384"), "ed" => pem!(@ "ed"), "rsa" => pem!(@ "rsa"),
            "rsa3072" => pem!(@ "rsa3072"), "rsa4096" => pem!(@ "rsa4096"), x => fail(x),
        }
    };
    (@ $k:literal) => {
        (&include_bytes!(concat!("../keys/", $k, ".ca"))[..], &include_bytes!(concat!("../keys/", $k, ".chain"))[..], &include_bytes!(concat!("../keys/", $k, ".key"))[..])
    };
}

fn roots(k: &str) -> Arc<RootCertStore> {
    let mut r = RootCertStore::empty();
    r.add(CertificateDer::from_pem_slice(pem!(k).0).unwrap()).unwrap();
    Arc::new(r)
}

/// a certificate chain and its key; `flip` says where to spoil it: [certificate, byte from the end]
fn identity(k: &str, flip: &Value) -> (Vec<CertificateDer<'static>>, PrivateKeyDer<'static>) {
    let (_, chain, key) = pem!(k);
    let mut certs: Vec<CertificateDer> = CertificateDer::pem_slice_iter(chain).map(|c| c.unwrap()).collect();
    if let Some(f) = flip.as_array() {
        let (c, at) = (f[0].as_u64().unwrap() as usize, f[1].as_u64().unwrap() as usize);
        let mut der = certs[c].to_vec();
        let l = der.len();
        der[l - 1 - at] ^= 1;
        certs[c] = der.into();
    }
    (certs, PrivateKeyDer::from_pem_slice(key).unwrap())
}

fn names(e: &Value, k: &str) -> Option<Vec<String>> {
    e[k].as_array().map(|a| a.iter().map(|x| x.as_str().unwrap().to_string()).collect())
}

fn provider(e: &Value, groups: &str, suites: &str) -> Arc<rustls::crypto::CryptoProvider> {
    let mut p = rustls_graviola::default_provider();
    if let Some(want) = names(e, groups) {
        let have = p.kx_groups.clone();
        p.kx_groups = want.iter().map(|g| *have.iter().find(|x| format!("{:?}", x.name()) == *g).unwrap_or_else(|| crate::absent())).collect();
    }
    if let Some(want) = names(e, suites) {
        let have = p.cipher_suites.clone();
        p.cipher_suites = want.iter().map(|g| *have.iter().find(|x| suite_name(x) == *g).unwrap_or_else(|| crate::absent())).collect();
    }
    Arc::new(p)
}

fn versions(e: &Value, k: &str) -> Vec<&'static SupportedProtocolVersion> {
    match e[k].as_u64() {
        Some(12) => vec![&rustls::version::TLS12],
        Some(13) => vec![&rustls::version::TLS13],
        _ => vec![&rustls::version::TLS13, &rustls::version::TLS12],
    }
}

fn config(e: &Value) -> Result<Cfg, rustls::Error> {
    let kind = s(e, "cert");
    let (certs, key) = identity(kind, &e["spoil"]);
    let cp = provider(e, "cgroups", "csuites");
    let sp = provider(e, "sgroups", "ssuites");
    let cb = ClientConfig::builder_with_details(cp.clone(), Arc::new(Now))
        .with_protocol_versions(&versions(e, "cver"))?
        .with_root_certificates(roots(e["root"].as_str().unwrap_or(kind)));
    let auth = e["auth"].as_str().unwrap_or("");
    let mut c = if auth.is_empty() {
        cb.with_no_client_auth()
    } else {
        let (certs, key) = identity(auth, &e["cspoil"]);
        cb.with_client_auth_cert(certs, key)?
    };
    c.resumption = Resumption::in_memory_sessions(64);
    let sb = ServerConfig::builder_with_details(sp.clone(), Arc::new(Now)).with_protocol_versions(&versions(e, "sver"))?;
    let sb = if auth.is_empty() {
        sb.with_no_client_auth()
    } else {
        sb.with_client_cert_verifier(WebPkiClientVerifier::builder_with_provider(roots(e["croot"].as_str().unwrap_or(auth)), sp).build().unwrap())
    };
    let mut sc = sb.with_single_cert(certs, key)?;
    match e["tickets"].as_str().unwrap_or("none") {
        "tickets" => {
            sc.ticketer = rustls_graviola::Ticketer::new()?;
            sc.session_storage = Arc::new(NoServerSessionStorage {});
        }
        "store" => sc.session_storage = ServerSessionMemoryCache::new(64),
        _ => sc.session_storage = Arc::new(NoServerSessionStorage {}),
    }
    if let Some(n) = e["send"].as_u64() {
        sc.send_tls13_tickets = n as usize;
    }
    Ok(Cfg(Arc::new(c), Arc::new(sc)))
}

fn err(x: &rustls::Error) -> String {
    format!("{x:?}").chars().take_while(|c| c.is_alphanumeric()).collect()
}

fn drain(c: &mut Connection) -> Vec<u8> {
    let mut w = vec![];
    while c.wants_write() {
        c.write_tls(&mut w).unwrap();
    }
    w
}

fn feed(c: &mut Connection, mut wire: &[u8], got: &mut Vec<u8>) -> Result<(), rustls::Error> {
    while !wire.is_empty() {
        if c.read_tls(&mut wire).unwrap() == 0 {
            break;
        }
        let r = c.process_new_packets();
        got.extend(plain(c));
        r?;
    }
    Ok(())
}

fn plain(c: &mut Connection) -> Vec<u8> {
    let mut out = vec![];
    let mut buf = [0u8; 65536];
    while let Ok(n) = c.reader().read(&mut buf) {
        if n == 0 {
            break;
        }
        out.extend_from_slice(&buf[..n]);
    }
    out
}

/// Moves what is to be sent until nothing is, the client first; records it.
fn settle(p: &mut Pair, spoil: &Value, mut drawn: usize, o: &mut Out) -> [Vec<u8>; 2] {
    let mut got = [vec![], vec![]];
    let mut flights = vec![];
    let mut errs = [None, None];
    let mut who = 0;
    let mut idle = 0;
    let mut count = 0;
    while idle < 2 && count < 40 {
        let mut wire = drain(&mut p.ends[who]);
        // randomness since the last flight of either
        let used = rng::end_step().1;
        if wire.is_empty() {
            idle += 1;
        } else {
            idle = 0;
            flights.push(json!({"from": if who == 0 { "c" } else { "s" }, "wire": hex(&wire), "drawn": hex(&used[drawn.min(used.len())..])}));
            drawn = used.len();
            if let Some(a) = spoil.as_array() {
                if a[0].as_u64() == Some(count) {
                    let at = a[1].as_i64().unwrap(); // from the end when negative
                    let bit = if at < 0 { wire.len() as i64 * 8 + at } else { at } as usize;
                    wire[bit / 8] ^= 0x80 >> (bit % 8);
                }
            }
            count += 1;
            if errs[1 - who].is_none() {
                if let Err(x) = feed(&mut p.ends[1 - who], &wire, &mut got[1 - who]) {
                    errs[1 - who] = Some(err(&x));
                }
            }
        }
        who = 1 - who;
    }
    o.insert("flights".into(), json!(flights));
    for (k, i) in [("c", 0), ("s", 1)] {
        let c = &p.ends[i];
        o.insert(format!("{k}err"), json!(errs[i].clone().unwrap_or_default()));
        o.insert(format!("{k}done"), json!(!c.is_handshaking() && errs[i].is_none()));
    }
    got
}

fn end(e: &Value) -> usize {
    (s(e, "who") == "s") as usize
}

pub fn step(w: &mut World, op: &str, e: &Value) -> Out {
    match op {
        // a connection with a configuration of its own, or that of an earlier one
        "tls.pair" => {
            let cfg = match e["like"].as_str() {
                Some(h) => match get(w, h) {
                    TlsObj::Pair(p) => p.cfg.clone(),
                    _ => fail("pair"),
                },
                None => match config(e) {
                    Ok(c) => c,
                    Err(x) => {
                        let mut o = Out::new();
                        o.insert("r".into(), json!("err:config"));
                        o.insert("detail".into(), json!(err(&x)));
                        return o;
                    }
                },
            };
            let skip = rng::end_step().1.len();
            let server = ServerName::try_from("testserver.com").unwrap();
            let (c, sv) = match (ClientConnection::new(cfg.0.clone(), server), ServerConnection::new(cfg.1.clone())) {
                (Ok(c), Ok(s)) => (c, s),
                (Err(x), _) | (_, Err(x)) => {
                    let mut o = Out::new();
                    o.insert("r".into(), json!("err:start"));
                    o.insert("detail".into(), json!(err(&x)));
                    return o;
                }
            };
            let mut p = Pair { cfg, ends: [c.into(), sv.into()] };
            let mut o = Out::new();
            o.insert("r".into(), json!("ok"));
            settle(&mut p, &e["flip"], skip, &mut o);
            for (k, i) in [("c", 0), ("s", 1)] {
                let c = &p.ends[i];
                o.insert(format!("{k}kind"), json!(c.handshake_kind().map(|x| format!("{x:?}")).unwrap_or_default()));
                o.insert(format!("{k}suite"), json!(c.negotiated_cipher_suite().map(|x| suite_name(&x)).unwrap_or_default()));
                o.insert(format!("{k}group"), json!(c.negotiated_key_exchange_group().map(|x| format!("{:?}", x.name())).unwrap_or_default()));
                let ctx = if e["xctx"].is_null() { b"context".to_vec() } else { b(e, "xctx").to_vec() };
                let n = e["xlen"].as_u64().unwrap_or(40) as usize;
                let x = c.export_keying_material(vec![0u8; n], b"EXPORTER-vp", if e["xnone"] == true { None } else { Some(&ctx) });
                o.insert(format!("{k}exp"), json!(x.map(|x| hex(&x)).unwrap_or_default()));
            }
            set(w, s(e, "h"), TlsObj::Pair(Box::new(p)));
            o
        }
        // data one way; then whatever else is to be sent
        "tls.pairdata" => {
            let m = b(e, "m");
            let who = end(e);
            match get_mut(w, s(e, "h")) {
                TlsObj::Pair(p) => {
                    let mut o = Out::new();
                    if e["rekey"] == true {
                        if let Err(x) = p.ends[who].refresh_traffic_keys() {
                            o.insert("r".into(), json!("err:".to_string() + &err(&x)));
                            return o;
                        }
                    }
                    o.insert("r".into(), json!("ok"));
                    if !m.is_empty() {
                        p.ends[who].writer().write_all(&m).unwrap();
                    }
                    let got = settle(p, &e["flip"], 0, &mut o);
                    put(&mut o, "out", &got[1 - who]);
                    put(&mut o, "back", &got[who]);
                    o
                }
                _ => fail("pair"),
            }
        }
        _ => fail(op),
    }
}
