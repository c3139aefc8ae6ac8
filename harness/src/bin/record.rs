//! The record layer and the reassembly buffer on their own: behaviours of
//! Writer.tla and Reassembly.tla, and the tables judged by Reader.tla.
use husk::cipher::{CipherSuite, Encryptor};
use husk::handshake::{Handshake, HandshakeBuffer};
use husk::tls::{ContentType, Message, TlsReader, TlsWriter};
use husk::tls_item::TlsItem;
use husk_verif::json::{hex, J};
use husk_verif::refc::Rng;
use husk_verif::run;
use husk_verif::world::*;
use std::io::Cursor;
use std::sync::{Arc, Mutex};

const SUITE: CipherSuite = CipherSuite::TLS_ECDHE_RSA_WITH_CHACHA20_POLY1305_SHA256;

type Sealed = Arc<Mutex<Vec<(Vec<u8>, usize)>>>;

/// notes under which nonce what was sealed
struct Recorder {
    inner: Box<dyn Encryptor + Send>,
    log: Sealed,
}

impl Encryptor for Recorder {
    fn encrypt(&mut self, nonce: &[u8], plain: &[u8], ad: &[u8]) -> Vec<u8> {
        self.log.lock().unwrap().push((nonce.to_vec(), plain.len()));
        self.inner.encrypt(nonce, plain, ad)
    }
}

fn base_of(s: &str) -> u64 {
    match s {
        "none" | "" => 0,
        s => (1 << s[2..].parse::<u32>().expect("harness: base")) - 2,
    }
}

#[cfg(husk_verif)]
fn set_write(w: &mut TlsWriter<Writer>, n: u64) -> u64 {
    w.verif_set_write_count(n);
    n
}
#[cfg(not(husk_verif))]
fn set_write(_: &mut TlsWriter<Writer>, _: u64) -> u64 {
    0
}
#[cfg(husk_verif)]
fn set_read(w: &mut TlsReader<Reader>, n: u64) -> u64 {
    w.verif_set_read_count(n);
    n
}
#[cfg(not(husk_verif))]
fn set_read(_: &mut TlsReader<Reader>, _: u64) -> u64 {
    0
}

fn io_kinds(i: usize) -> Option<std::io::ErrorKind> {
    use std::io::ErrorKind::*;
    [Some(BrokenPipe), None, Some(ConnectionReset), Some(Other), Some(TimedOut), Some(WouldBlock)][i % 6]
}

fn secure_writer(tw: &mut TlsWriter<Writer>, w: &Shared, log: &Sealed, base: &str) -> u64 {
    let k = w.borrow().ckeys.clone().unwrap();
    let inner = SUITE.new_aead().new_encryptor(k.cw_key.clone());
    tw.set_encryptor(Box::new(Recorder { inner, log: log.clone() }));
    tw.set_iv(k.cw_iv.clone());
    let b = set_write(tw, base_of(base));
    let mut g = w.borrow_mut();
    g.client_ccs = true;
    g.client_seq = b;
    b
}

fn writer(t: &J) -> J {
    let w = World::new(t.get("seed").int() as u64, t.clone());
    w.borrow_mut().bare();
    let log: Sealed = Default::default();
    let mut tw = TlsWriter::new(Writer(w.clone()));
    let mut base = 0;
    let mut out = vec![];
    for h in t.get("ops").arr() {
        let op = h.get("op").str().to_string();
        let n = h.get("n").int() as usize;
        let f = h.get("f").int() as usize;
        if op == "cipher" {
            base = secure_writer(&mut tw, &w, &log, h.get("base").str());
            continue;
        }
        let from = w.borrow().recs.len();
        let (data, lvl) = {
            let mut g = w.borrow_mut();
            if f > 0 {
                let started = g.nrec_started;
                let x = g.rng.below(8) as i64;
                let off = g.prm.get("woff").int_or(if x < 6 { x } else { -1 });
                let kind = { let i = g.rng.below(6); io_kinds(i) };
                g.wfault = Some(WFault { rec: started + f, off, kind, recover: true });
                g.wfault_hit = false;
            }
            let d = g.rng.bytes(n);
            (d, g.rng.below(29))
        };
        let alert = {
            let mut r = Cursor::new(vec![1 + (lvl % 2) as u8, ALERTS[lvl]]);
            <husk::alert::Alert as TlsItem>::tls_read(&mut r)
        };
        let want: Vec<u8> = match op.as_str() {
            "ccs" => vec![1],
            "alert" => vec![1 + (lvl % 2) as u8, ALERTS[lvl]],
            "hs" => hs_msg(16, &data),
            _ => data.clone(),
        };
        let r = run::guarded(|| -> Result<(), String> {
            let e = |e: husk::tls_result::TlsError| format!("{:?}", e.kind);
            match op.as_str() {
                "ccs" => tw.write_change_cipher_spec().map_err(e),
                "alert" => tw.write_alert(&alert.map_err(e)?).map_err(e),
                "hs" => tw.write_handshake(&Handshake::new_client_key_exchange(data.clone()).map_err(e)?).map_err(e),
                "app" => tw.write_application_data(&data).map_err(e),
                "data20" => tw.write_data(ContentType::ChangeCipherSpecTy, &data).map_err(e),
                "data21" => tw.write_data(ContentType::AlertTy, &data).map_err(e),
                "data22" => tw.write_data(ContentType::HandshakeTy, &data).map_err(e),
                "data23" => tw.write_data(ContentType::ApplicationDataTy, &data).map_err(e),
                x => panic!("harness: op {}", x),
            }
        });
        let mut g = w.borrow_mut();
        g.wfault = None;
        g.wdead = false;
        let hit = std::mem::replace(&mut g.wfault_hit, false);
        let recs: Vec<J> = g.recs[from..]
            .iter()
            .map(|r| {
                J::obj(vec![
                    ("t", J::Num(r.typ as i64)),
                    ("ver", J::Num((r.ver.0 as i64) * 256 + r.ver.1 as i64)),
                    ("n", J::Num(r.plain.as_ref().map(|p| p.len() as i64).unwrap_or(-1))),
                    ("wire", J::Num(r.frag.len() as i64)),
                    ("num", J::Num(r.seq.map(|s| s.wrapping_sub(base) as i64).unwrap_or(-1))),
                    ("sealed", J::Bool(r.enc)),
                    ("partial", J::Bool(r.partial)),
                ])
            })
            .collect();
        let sent: Vec<u8> = g.recs[from..].iter().filter(|r| !r.partial).flat_map(|r| r.plain.clone().unwrap_or_default()).collect();
        let mut kv = vec![
            ("recs", J::Arr(recs)),
            ("hit", J::Bool(hit)),
            ("left", J::Num(g.cur.len() as i64)),
            ("data_ok", J::Bool(sent == want)),
            ("prefix_ok", J::Bool(want.starts_with(&sent))),
        ];
        match r {
            Err(m) => kv.push(("panic", J::s(&m))),
            Ok(Err(e)) => kv.push(("err", J::s(&e))),
            Ok(Ok(())) => kv.push(("ok", J::Bool(true))),
        }
        out.push(J::obj(kv));
        // a ChangeCipherSpec on its own does not make the observer expect
        // protected records
        if g.ckeys.is_some() && !t.get("ops").arr().iter().take(out.len() + 1).any(|h| h.get("op").str() == "cipher") {
            g.client_ccs = false;
        }
    }
    let l = log.lock().unwrap();
    let mut nonces: Vec<&Vec<u8>> = l.iter().map(|x| &x.0).collect();
    let total = nonces.len();
    nonces.sort();
    nonces.dedup();
    let iv = w.borrow().ckeys.clone().unwrap().cw_iv;
    let right = l.iter().enumerate().all(|(i, (n, _))| *n == nonce(&iv, base.wrapping_add(i as u64)));
    J::obj(vec![
        ("id", t.get("id").clone()),
        ("ops", J::Arr(out)),
        ("sealed", J::Num(total as i64)),
        ("distinct", J::Num(nonces.len() as i64)),
        ("nonces_right", J::Bool(right)),
    ])
}

// ------------------------------------------------------------------ tables

fn secure_reader(tr: &mut TlsReader<Reader>, w: &Shared) {
    let k = w.borrow().skeys.clone().unwrap();
    tr.set_decryptor(SUITE.new_aead().new_decryptor(k.sw_key.clone()));
    tr.set_iv(k.sw_iv.clone());
}

/// content of n bytes for a record of type t
fn filler(rng: &mut Rng, t: u8, n: usize) -> Vec<u8> {
    let mut d = rng.bytes(n);
    match t {
        20 => d.iter_mut().for_each(|b| *b = 1),
        21 => {
            for (i, b) in d.iter_mut().enumerate() {
                *b = [2, 40][i % 2]
            }
        }
        22 => {
            if n >= 4 {
                let l = n - 4;
                d[..4].copy_from_slice(&[12, (l >> 16) as u8, (l >> 8) as u8, l as u8]);
            }
        }
        _ => {}
    }
    d
}

fn observe(seed: u64, prm: &J, sec: bool, t: u8, wire: usize, content: Option<Vec<u8>>, sealed: bool) -> J {
    observe_mid(seed, prm, sec, t, wire, content, sealed, 0)
}

/// the same with the first `mid` bytes of a handshake message, which the
/// observed record does not complete, already there
#[allow(clippy::too_many_arguments)]
fn observe_mid(seed: u64, prm: &J, sec: bool, t: u8, wire: usize, content: Option<Vec<u8>>, sealed: bool, mid: usize) -> J {
    let w = World::new(seed, prm.clone());
    w.borrow_mut().bare();
    let plain;
    {
        let mut g = w.borrow_mut();
        let mut content = content;
        if mid > 0 {
            let mut m = vec![16, 0xff, 0xf0, 0];
            m.extend(g.rng.bytes(mid + wire));
            if sec {
                g.seal_put(22, &m[..mid], "good");
            } else {
                g.put(22, (3, 3), &m[..mid]);
            }
            if t == 22 && content.is_none() && (sealed || !sec) {
                content = Some(m[mid..mid + if sec { wire - 16 } else { wire }].to_vec());
            }
        }
        if sec && sealed {
            let n = wire - 16;
            plain = match content {
                Some(c) => c,
                None => filler(&mut g.rng, t, n),
            };
            assert_eq!(plain.len(), n);
            g.seal_put(t, &plain, "good");
        } else if sec {
            plain = g.rng.bytes(wire);
            g.put(t, (3, 3), &plain.clone());
        } else {
            plain = match content {
                Some(c) => c,
                None => filler(&mut g.rng, t, wire),
            };
            assert_eq!(plain.len(), wire);
            g.put(t, (3, 3), &plain.clone());
        }
    }
    let mut tr = TlsReader::new(Reader(w.clone()));
    if sec {
        secure_reader(&mut tr, &w);
    }
    let r = run::guarded(|| tr.read_message());
    let left = w.borrow().inbuf.len();
    let res = match r {
        Err(m) => format!("PANIC {}", m),
        Ok(Ok(Message::ChangeCipherSpecMessage)) => "ccs".into(),
        Ok(Ok(Message::AlertMessage(a))) => {
            if plain.len() >= 2 && (a.level as u8, a.description as u8) == (plain[0], plain[1]) {
                "alert".into()
            } else {
                format!("alert {} {}", a.level as u8, a.description as u8)
            }
        }
        Ok(Ok(Message::ApplicationDataMessage(d))) => {
            if d == plain {
                "app".into()
            } else {
                "app-wrong".into()
            }
        }
        Ok(Ok(Message::HandshakeMessage(h))) => {
            let mut b = vec![];
            let _ = h.tls_write(&mut b);
            if b == plain {
                "handshake".into()
            } else {
                "handshake-wrong".into()
            }
        }
        Ok(Err(e)) => {
            let k = format!("{:?}", e.kind);
            if t == 22 && k == "IoFailure" && left == 0 && (plain.len() < 4 || mid > 0) {
                "handshake".into() // taken, waiting for the rest
            } else {
                k
            }
        }
    };
    J::obj(vec![
        ("sec", J::Bool(sec)),
        ("t", J::Num(t as i64)),
        ("wire", J::Num(wire as i64)),
        ("sealed", J::Bool(sealed)),
        ("mid", J::Num(mid as i64)),
        ("b1", J::Num(*plain.first().unwrap_or(&0) as i64)),
        ("b2", J::Num(*plain.get(1).unwrap_or(&0) as i64)),
        ("res", J::s(&res)),
    ])
}

/// one row of a table: tests name, fixed first parameter
fn table(t: &J) -> J {
    let seed = t.get("seed").int() as u64;
    let sec = t.get("sec").bool();
    let a = t.get("a").int() as usize;
    let add = if sec { 16 } else { 0 };
    let mut row = vec![];
    let s = |i: usize| seed.wrapping_add(i as u64 * 7919);
    match t.get("tab").str() {
        // every type with a small content
        "types" => {
            for ty in 0..=255u8 {
                for n in [0usize, 1, 2, 5] {
                    row.push(observe(s(ty as usize * 8 + n), t, sec, ty, n + add, None, sec));
                }
                if sec {
                    row.push(observe(s(ty as usize), t, sec, ty, 40, None, false));
                }
            }
        }
        // every type with a handshake message begun
        "mid" => {
            for (i, n) in [0usize, 1, 2, 3, 40].iter().enumerate() {
                for ty in 0..=255u8 {
                    if a > 8 && !(18..26).contains(&ty) {
                        continue;
                    }
                    row.push(observe_mid(s(ty as usize * 8 + i), t, sec, ty, n + add, None, sec, a));
                    if sec {
                        row.push(observe_mid(s(ty as usize), t, sec, ty, n + add, None, false, a));
                    }
                }
            }
        }
        // alert level a with every description
        "alerts" => {
            for d in 0..=255u8 {
                row.push(observe(s(d as usize), t, sec, 21, 2 + add, Some(vec![a as u8, d]), sec));
            }
        }
        "alertlen" => {
            for n in 0..=4usize {
                for (l, d) in [(1u8, 0u8), (2, 0), (2, 40), (0, 0), (2, 1), (3, 40), (1, 255)] {
                    let mut c = vec![l, d, 7, 7];
                    c.truncate(n);
                    row.push(observe(s(n), t, sec, 21, n + add, Some(c), sec));
                }
            }
        }
        // ChangeCipherSpec with every first byte and several lengths
        "ccs" => {
            for b in 0..=255u8 {
                for n in 1..=3usize {
                    let mut c = vec![b, 1, 1];
                    c.truncate(n);
                    row.push(observe(s(b as usize), t, sec, 20, n + add, Some(c), sec));
                }
            }
        }
        // record lengths given by the list, for type a
        "lens" => {
            for (i, l) in t.get("lens").arr().iter().enumerate() {
                let l = l.int() as usize;
                if sec && l >= 16 && l <= 65535 {
                    row.push(observe(s(i), t, sec, a as u8, l, None, true));
                }
                if sec {
                    row.push(observe(s(i), t, sec, a as u8, l, None, false));
                } else {
                    row.push(observe(s(i), t, sec, a as u8, l, None, false));
                }
            }
        }
        x => panic!("harness: table {}", x),
    }
    J::obj(vec![("id", t.get("id").clone()), ("row", J::Arr(row))])
}

// -------------------------------------------------------------- reassembly

fn make_msg(rng: &mut Rng, m: &str) -> Vec<u8> {
    let num = |p: &str| m[p.len()..].parse::<usize>().unwrap();
    match m {
        "hreq" => hs_msg(0, &[]),
        "shd" => hs_msg(14, &[]),
        "fin" => hs_msg(20, &rng.bytes(12)),
        "shd1" => hs_msg(14, &rng.bytes(1)),
        "fin11" => hs_msg(20, &rng.bytes(11)),
        "fin13" => hs_msg(20, &rng.bytes(13)),
        "cert2" => hs_msg(11, &rng.bytes(2)),
        x if x.starts_with("ske") => hs_msg(12, &rng.bytes(num("ske"))),
        x if x.starts_with("cke") => hs_msg(16, &rng.bytes(num("cke"))),
        x if x.starts_with("unk") => {
            let t = loop {
                let t = rng.next() as u8;
                if ![0, 1, 2, 11, 12, 13, 14, 16, 20].contains(&t) {
                    break t;
                }
            };
            let t = *rng.pick(&[t, 3, 4, 15, 21, 22, 255]);
            hs_msg(t, &rng.bytes(num("unk")))
        }
        x => panic!("harness: message {}", x),
    }
}

fn kind_of(r: Result<Handshake, husk::tls_result::TlsError>, want: &[u8]) -> String {
    match r {
        Ok(h) => {
            let mut b = vec![];
            match h.tls_write(&mut b) {
                Ok(()) if b == want => "ok".into(),
                _ => format!("other message {}", hex(&b[..b.len().min(40)])),
            }
        }
        Err(e) => format!("{:?}", e.kind),
    }
}

fn reassembly(t: &J) -> J {
    let mut rng = Rng::new(t.get("seed").int() as u64);
    let msgs: Vec<Vec<u8>> = t.get("plan").arr().iter().map(|m| make_msg(&mut rng, m.str())).collect();
    let stream: Vec<u8> = msgs.concat();
    let hist = t.get("hist").arr();
    let mut out = vec![];
    if t.get("via").str() == "buffer" {
        let mut b = HandshakeBuffer::new();
        let mut pos = 0;
        let mut next = 0;
        for h in hist {
            if h.get("op").str() == "add" {
                let n = h.get("n").int() as usize;
                b.add_record(&stream[pos..pos + n]);
                pos += n;
            } else {
                let none: Vec<u8> = vec![];
                let want = msgs.get(next).unwrap_or(&none);
                let r = run::guarded(|| match b.get_message() {
                    Ok(None) => "none".to_string(),
                    Ok(Some(h)) => kind_of(Ok(h), want),
                    Err(e) => format!("{:?}", e.kind),
                });
                let r = r.unwrap_or_else(|m| format!("PANIC {}", m));
                if r != "none" {
                    next += 1;
                }
                out.push(J::s(&r));
            }
        }
    } else {
        // one record per fragment; every result with the number of records
        // that had been read by then
        let w = World::new(t.get("seed").int() as u64, t.clone());
        w.borrow_mut().bare();
        let sec = t.get("via").str() == "secure";
        {
            let mut g = w.borrow_mut();
            g.frag_secure = sec;
            let mut pos = 0;
            let mut k = 0;
            for h in hist.iter().filter(|h| h.get("op").str() == "add") {
                let n = h.get("n").int() as usize;
                for c in stream[pos..pos + n].chunks(1 << 14) {
                    g.frags.push(c.to_vec());
                    g.script.push_back(J::obj(vec![("op", J::s("frag")), ("a", J::Num(k))]));
                    k += 1;
                }
                pos += n;
            }
        }
        let mut tr = TlsReader::new(Reader(w.clone()));
        if sec {
            secure_reader(&mut tr, &w);
        }
        let mut ends = vec![];
        let mut next = 0;
        for _ in 0..msgs.len() + 2 {
            let none: Vec<u8> = vec![];
            let want = msgs.get(next).unwrap_or(&none);
            let r = run::guarded(|| match tr.read_handshake() {
                Ok(h) => kind_of(Ok(h), want),
                Err(e) => format!("{:?}", e.kind),
            });
            let r = r.unwrap_or_else(|m| format!("PANIC {}", m));
            next += 1;
            let stop = r == "IoFailure" || r.starts_with("PANIC");
            out.push(J::s(&r));
            let g = w.borrow();
            ends.push(J::Num(g.frags.iter().take(g.event).map(|f| f.len() as i64).sum::<i64>()));
            if stop {
                break;
            }
        }
        return J::obj(vec![("id", t.get("id").clone()), ("res", J::Arr(out)), ("ends", J::Arr(ends))]);
    }
    J::obj(vec![("id", t.get("id").clone()), ("res", J::Arr(out))])
}

// ---------------------------------------------------------------- long runs

/// many records in one direction, crossing multiples of 256 and 65536
fn long(t: &J) -> J {
    let n = t.get("n").int() as usize;
    let w = World::new(t.get("seed").int() as u64, t.clone());
    w.borrow_mut().bare();
    let mut bad = String::new();
    let base0 = t.get("base").str().to_string();
    if t.get("dir").str() == "out" {
        let log: Sealed = Default::default();
        let mut tw = TlsWriter::new(Writer(w.clone()));
        let base = secure_writer(&mut tw, &w, &log, &base0);
        for i in 0..n {
            let l = 1 + i % 3;
            let d = vec![i as u8; l];
            let r = run::guarded(|| if i % 1000 == 999 { tw.write_data(ContentType::AlertTy, &d) } else { tw.write_application_data(&d) });
            let mut g = w.borrow_mut();
            let ok = match r {
                Err(m) => {
                    bad = format!("PANIC {} at record {}", m, i);
                    break;
                }
                Ok(r) => r.is_ok(),
            };
            let x = g.recs.pop();
            g.raw.clear();
            match x {
                Some(x) if ok && x.seq == Some(base + i as u64) && x.plain.as_deref() == Some(&d[..]) && g.recs.is_empty() => {}
                x => {
                    bad = format!("record {}: ok {} number {:?}", i, ok, x.map(|x| x.seq.map(|s| s.wrapping_sub(base))));
                    break;
                }
            }
        }
        let mut seen: Vec<Vec<u8>> = log.lock().unwrap().iter().map(|x| x.0.clone()).collect();
        seen.sort();
        let k = seen.len();
        seen.dedup();
        if seen.len() != k && bad.is_empty() {
            bad = "a nonce was used twice".into();
        }
    } else {
        let mut tr = TlsReader::new(Reader(w.clone()));
        secure_reader(&mut tr, &w);
        let base = set_read(&mut tr, base_of(&base0));
        w.borrow_mut().server_seq = base;
        let ahead = t.get("skip").int() as u64;
        for i in 0..n {
            let l = 1 + i % 3;
            let d = vec![i as u8; l];
            let last = ahead > 0 && i + 1 == n;
            {
                let mut g = w.borrow_mut();
                if last {
                    // the same low bits, another number
                    g.server_seq = g.server_seq.wrapping_sub(ahead);
                }
                g.seal_put(23, &d, "good");
                g.srecs.clear();
            }
            let r = run::guarded(|| tr.read_message());
            let got = match r {
                Err(m) => format!("PANIC {}", m),
                Ok(Ok(Message::ApplicationDataMessage(x))) if x == d => "ok".into(),
                Ok(Ok(_)) => "other".into(),
                Ok(Err(e)) => format!("{:?}", e.kind),
            };
            let want = if last { "BadRecordMac" } else { "ok" };
            if got != want {
                bad = format!("record {}: {}, expected {}", i, got, want);
                break;
            }
        }
    }
    J::obj(vec![("id", t.get("id").clone()), ("bad", J::s(&bad))])
}

// --------------------------------------------------------------- transport

/// the schedule of Transport.tla as the world understands it
fn sched(t: &J) -> Vec<i64> {
    t.get("hist")
        .arr()
        .iter()
        .map(|h| match h.get("op").str() {
            "piece" => h.get("n").int(),
            "intr" => 0,
            "eof" => -1,
            "err" => -2,
            x => panic!("harness: {}", x),
        })
        .collect()
}

fn transport_in(t: &J) -> J {
    let via = t.get("via").str().to_string();
    let sec = via != "plain";
    let seed = t.get("seed").int() as u64;
    let (w, mut client) = if via == "client" {
        match husk_verif::client::connect(seed, t) {
            Ok((w, c)) => (w, Some(c)),
            Err(m) => return J::obj(vec![("id", t.get("id").clone()), ("connect", J::s(&m))]),
        }
    } else {
        let w = World::new(seed, t.clone());
        w.borrow_mut().bare();
        (w, None)
    };
    let mut datas = vec![];
    {
        let mut g = w.borrow_mut();
        for n in t.get("recs").arr() {
            let n = n.int() as usize - if sec { 16 } else { 0 };
            let d = g.rng.bytes(n);
            if sec {
                g.seal_put(23, &d, "good");
            } else {
                g.put(23, (3, 3), &d);
            }
            datas.push(d);
        }
        g.sticky_empty = true;
        g.rsched = sched(t).into();
    }
    let all = datas.concat();
    let mut done = 0;
    let mut last = "".to_string();
    let mut got = vec![];
    if let Some(c) = client.as_mut() {
        use std::io::Read;
        let mut zeros = 0;
        for _ in 0..500 {
            let k = w.borrow_mut().rng.range(1, 9);
            let mut b = vec![0u8; k];
            match run::guarded(|| c.read(&mut b)) {
                Err(m) => {
                    last = format!("PANIC {}", m);
                    break;
                }
                Ok(Ok(n)) if n > 0 => got.extend_from_slice(&b[..n]),
                Ok(_) => {
                    zeros += 1;
                    if zeros > 2 {
                        break;
                    }
                }
            }
        }
    } else {
        let mut tr = TlsReader::new(Reader(w.clone()));
        if sec {
            secure_reader(&mut tr, &w);
        }
        for i in 0..datas.len() + 2 {
            match run::guarded(|| tr.read_message()) {
                Err(m) => {
                    last = format!("PANIC {}", m);
                    break;
                }
                Ok(Ok(Message::ApplicationDataMessage(d))) => {
                    if datas.get(i) != Some(&d) {
                        last = "wrong data".into();
                        break;
                    }
                    done += 1;
                    got.extend(d);
                }
                Ok(Ok(_)) => {
                    last = "another message".into();
                    break;
                }
                Ok(Err(e)) => {
                    last = format!("{:?}", e.kind);
                    break;
                }
            }
        }
    }
    J::obj(vec![
        ("id", t.get("id").clone()),
        ("done", J::Num(done)),
        ("got", J::Num(got.len() as i64)),
        ("right", J::Bool(all.starts_with(&got))),
        ("last", J::s(&last)),
    ])
}

fn transport_out(t: &J) -> J {
    let via = t.get("via").str().to_string();
    let sec = via != "plain";
    let seed = t.get("seed").int() as u64;
    let log: Sealed = Default::default();
    let (w, mut client) = if via == "client" {
        match husk_verif::client::connect(seed, t) {
            Ok((w, c)) => (w, Some(c)),
            Err(m) => return J::obj(vec![("id", t.get("id").clone()), ("connect", J::s(&m))]),
        }
    } else {
        let w = World::new(seed, t.clone());
        w.borrow_mut().bare();
        (w, None)
    };
    let mut tw = TlsWriter::new(Writer(w.clone()));
    if via == "secure" {
        secure_writer(&mut tw, &w, &log, "none");
    }
    let from = {
        let mut g = w.borrow_mut();
        g.wsched = sched(t).into();
        g.wbytes = 0;
        g.recs.len()
    };
    let mut res = vec![];
    let mut all = vec![];
    for n in t.get("recs").arr() {
        let n = n.int() as usize - if sec { 16 } else { 0 };
        let d = w.borrow_mut().rng.bytes(n);
        all.extend_from_slice(&d);
        let r = run::guarded(|| match client.as_mut() {
            Some(c) => {
                use std::io::Write;
                c.write_all(&d).map_err(|e| e.to_string())
            }
            None => tw.write_data(ContentType::ApplicationDataTy, &d).map_err(|e| format!("{:?}", e.kind)),
        });
        res.push(J::s(&match r {
            Err(m) => format!("PANIC {}", m),
            Ok(Err(e)) => format!("err {}", e),
            Ok(Ok(())) => "ok".into(),
        }));
        if res.last().unwrap().str() != "ok" {
            break;
        }
    }
    let g = w.borrow();
    let sent: Vec<u8> = g.recs[from..].iter().flat_map(|r| r.plain.clone().unwrap_or_default()).collect();
    J::obj(vec![
        ("id", t.get("id").clone()),
        ("res", J::Arr(res)),
        ("bytes", J::Num(g.wbytes as i64)),
        ("whole", J::Num(g.recs[from..].iter().filter(|r| !r.partial && r.plain.is_some()).count() as i64)),
        ("right", J::Bool(all.starts_with(&sent))),
    ])
}

fn main() {
    run::main(|t| match t.get("kind").str() {
        "w" => writer(t),
        "tab" => table(t),
        "re" => reassembly(t),
        "long" => long(t),
        "in" => transport_in(t),
        "out" => transport_out(t),
        x => panic!("harness: kind {}", x),
    });
}
