//! The symmetric primitives: answers of Oracle.tla and call histories of
//! Streams.tla are replayed, and wide searches compare with the reference
//! (whatever differs is judged by Oracle.tla afterwards).
use husk::cipher::chacha20_poly1305::ChaCha20Poly1305;
use husk::cipher::prf::{hmac_sha256, Prf};
use husk::cipher::Aead;
use husk::crypto::chacha20::ChaCha20;
use husk::crypto::poly1305::authenticate;
use husk::crypto::sha2::sha256;
use husk_verif::json::{hex, J};
use husk_verif::refc::{self, Rng};
use husk_verif::run;
use num::bigint::BigUint;
use num::traits::{One, Zero};

fn by(j: &J) -> Vec<u8> {
    j.arr().iter().map(|x| x.int() as u8).collect()
}

fn arr(b: &[u8]) -> J {
    J::Arr(b.iter().map(|x| J::Num(*x as i64)).collect())
}

fn a16(b: &[u8]) -> [u8; 16] {
    let mut o = [0; 16];
    o.copy_from_slice(b);
    o
}

/// what the implementation answers to a question of the oracle; errors are ok=false
fn husk(q: &J) -> (bool, Vec<u8>) {
    let f = |k: &str| by(q.get(k));
    (
        true,
        match q.get("k").str() {
            "sha" => sha256(&f("m")).to_vec(),
            "hmac" => hmac_sha256(&f("key"), &f("m")).to_vec(),
            "prf" => Prf::new(f("key"), f("m")).get_bytes(q.get("n").int() as usize),
            "stream" => {
                let n = q.get("n").int() as usize;
                let mut c = ChaCha20::new(&f("key"), &f("nonce"));
                let mut v = Vec::new();
                while v.len() < n {
                    v.extend_from_slice(&c.next());
                }
                v.truncate(n);
                v
            }
            "poly" => authenticate(&f("m"), &a16(&f("r")), &a16(&f("s"))).to_vec(),
            "seal" => ChaCha20Poly1305.new_encryptor(f("key")).encrypt(&f("nonce"), &f("m"), &f("ad")),
            "open" => match ChaCha20Poly1305.new_decryptor(f("key")).decrypt(&f("nonce"), &f("m"), &f("ad")) {
                Ok(v) => v,
                Err(_) => return (false, vec![]),
            },
            k => panic!("harness: kind {}", k),
        },
    )
}

fn reference(q: &J) -> (bool, Vec<u8>) {
    let f = |k: &str| by(q.get(k));
    let n = q.get("n").int_or(0) as usize;
    (
        true,
        match q.get("k").str() {
            "sha" => refc::sha256(&f("m")),
            "hmac" => refc::hmac(&f("key"), &f("m")),
            "prf" => refc::p_hash(&f("key"), &f("m"), n),
            "stream" => refc::chacha_xor(&f("key"), 0, &f("nonce"), &vec![0; n]),
            "poly" => {
                let mut k = f("r");
                k.extend(f("s"));
                refc::poly1305(&k, &f("m")).to_vec()
            }
            "seal" => refc::seal(&f("key"), &f("nonce"), &f("ad"), &f("m")),
            _ => match refc::open(&f("key"), &f("nonce"), &f("ad"), &f("m")) {
                Some(v) => v,
                None => return (false, vec![]),
            },
        },
    )
}

/// a panic is an answer, too
fn tried(q: &J) -> Result<(bool, Vec<u8>), String> {
    run::guarded(|| husk(q))
}

fn show(r: &Result<(bool, Vec<u8>), String>) -> String {
    match r {
        Ok((true, b)) => hex(&b[..b.len().min(64)]),
        Ok((false, _)) => "error".into(),
        Err(m) => format!("panic: {}", m),
    }
}

/// answers: [{q, a}]
fn rows(t: &J) -> J {
    let mut bad = vec![];
    let mut refbad = vec![];
    for r in t.get("rows").arr() {
        let (q, a) = (r.get("q"), r.get("a"));
        let want = (if a.get("ok").is_null() { true } else { a.get("ok").bool() }, by(a.get("b")));
        let got = tried(q);
        if got.as_ref().ok() != Some(&want) {
            bad.push(J::obj(vec![("q", q.clone()), ("got", J::s(&show(&got))), ("want", J::s(&show(&Ok(want.clone()))))]));
        }
        if reference(q) != want {
            refbad.push(q.clone());
        }
    }
    J::obj(vec![("bad", J::Arr(bad)), ("refbad", J::Arr(refbad))])
}

/// calls on one object against the stream the specification gives
fn history(t: &J) -> J {
    let stream = by(t.get("stream"));
    let (key, second) = (by(t.get("key")), by(t.get("m")));
    let mut bad = String::new();
    let data = |n: usize| -> Vec<u8> { (0..n).map(|i| (i * 31 + 7) as u8).collect() };
    let r = run::guarded(|| match t.get("k").str() {
        "prf" => {
            let mut p = Prf::new(key.clone(), second.clone());
            for (i, o) in t.get("ops").arr().iter().enumerate() {
                let (n, from) = (o.get("n").int() as usize, o.get("from").int() as usize);
                let got = p.get_bytes(n);
                if got != stream[from..from + n] {
                    bad = format!("request {} gives {} bytes: {}.., expected {} bytes: {}..", i + 1, got.len(), hex(&got[..got.len().min(16)]), n, hex(&stream[from..from + n.min(16)]));
                    return;
                }
            }
        }
        _ => {
            let mut c = ChaCha20::new(&key, &second);
            for (i, o) in t.get("ops").arr().iter().enumerate() {
                let (n, from) = (o.get("n").int() as usize, o.get("from").int() as usize);
                let d = data(n);
                let (got, want) = if o.get("op").str() == "next" {
                    (c.next().to_vec(), stream[from..from + 64].to_vec())
                } else {
                    (c.encrypt(&d), d.iter().zip(&stream[from..]).map(|(a, b)| a ^ b).collect())
                };
                if got != want {
                    bad = format!("call {} gives {} bytes: {}.., expected {} bytes: {}..", i + 1, got.len(), hex(&got[..got.len().min(16)]), want.len(), hex(&want[..want.len().min(16)]));
                    return;
                }
            }
        }
    });
    if let Err(m) = r {
        bad = format!("panic: {}", m);
    }
    J::obj(vec![("bad", J::s(&bad))])
}

fn p130() -> BigUint {
    (BigUint::one() << 130usize) - 5u32
}

/// bytes of several textures
fn some(r: &mut Rng, n: usize) -> Vec<u8> {
    match r.below(8) {
        0 => vec![0; n],
        1 => vec![255; n],
        2 => (0..n).map(|_| *r.pick(&[0u8, 255])).collect(),
        3 => (0..n).map(|_| *r.pick(&[0u8, 1, 2, 127, 128, 254, 255])).collect(),
        4 => {
            let mut v = vec![if r.chance(1, 2) { 0 } else { 255 }; n];
            for _ in 0..3 {
                if n > 0 {
                    let i = r.below(n);
                    v[i] = r.below(256) as u8;
                }
            }
            v
        }
        _ => r.bytes(n),
    }
}

fn len(r: &mut Rng) -> usize {
    match r.below(10) {
        0 => *r.pick(&[0, 1, 15, 16, 17, 31, 32, 33, 47, 48, 55, 56, 57, 63, 64, 65, 119, 120, 127, 128, 129, 191, 192, 255, 256]),
        1 => r.below(2000),
        _ => r.below(200),
    }
}

/// a message whose accumulator ends at the target, if one exists nearby
fn solve(r: &mut Rng, rr: &[u8], target: &BigUint) -> Option<Vec<u8>> {
    let p = p130();
    let mut c = rr.to_vec();
    for i in [3, 7, 11, 15] {
        c[i] &= 15;
    }
    for i in [4, 8, 12] {
        c[i] &= 252;
    }
    let k = BigUint::from_bytes_le(&c);
    if k.is_zero() {
        return None;
    }
    let inv = k.modpow(&(&p - 2u32), &p);
    for _ in 0..40 {
        let nb = r.below(3);
        let mut m = some(r, nb * 16);
        let mut h = BigUint::zero();
        for b in m.chunks(16) {
            let mut b = b.to_vec();
            b.push(1);
            h = (h + BigUint::from_bytes_le(&b)) * &k % &p;
        }
        let last = (target * &inv + &p - &h) % &p;
        if last.bits() == 129 {
            let b = last.to_bytes_le();
            m.extend_from_slice(&b[..16]);
            return Some(m);
        }
        // or a shorter last block: n bytes and a one
        if last.bits() % 8 == 1 && last.bits() > 8 && last.bits() < 129 {
            let b = last.to_bytes_le();
            m.extend_from_slice(&b[..b.len() - 1]);
            return Some(m);
        }
    }
    None
}

fn poly_q(r: &mut Rng) -> (Vec<u8>, Vec<u8>, Vec<u8>) {
    let rr = some(r, 16);
    let s = some(r, 16);
    if r.chance(1, 2) {
        let p = p130();
        let d = BigUint::from(r.below(12) as u32);
        let t = match r.below(7) {
            0 => d,
            1 => &p - 1u32 - d,
            2 => (BigUint::one() << 128usize) - 1u32 - d,
            3 => (BigUint::one() << 128usize) + d,
            4 => (BigUint::one() << (26 * (1 + r.below(4)))) - 1u32 - d,
            5 => (BigUint::one() << (26 * (1 + r.below(4)))) + d,
            _ => {
                // all limbs but some full
                let mut t = &p - 1u32;
                t -= BigUint::from(r.below(32) as u32) << (26 * r.below(5));
                t
            }
        };
        if let Some(m) = solve(r, &rr, &t) {
            return (rr, s, m);
        }
    }
    let n = len(r);
    (rr, s, some(r, n))
}

fn question(k: &str, r: &mut Rng) -> J {
    let (a, b, c) = (len(r), len(r), len(r));
    let mut o = vec![("k", J::s(k))];
    match k {
        "sha" => {
            let n = a + if r.chance(1, 50) { 20000 } else { 0 };
            o.push(("m", arr(&some(r, n))));
        }
        "hmac" => {
            o.push(("key", arr(&some(r, a))));
            o.push(("m", arr(&some(r, b))));
        }
        "prf" => {
            o.push(("key", arr(&some(r, a))));
            o.push(("m", arr(&some(r, b))));
            o.push(("n", J::Num(c as i64)));
        }
        "stream" => {
            o.push(("key", arr(&some(r, 32))));
            o.push(("nonce", arr(&some(r, 12))));
            o.push(("n", J::Num(a as i64)));
        }
        "poly" => {
            let (rr, s, m) = poly_q(r);
            o.push(("r", arr(&rr)));
            o.push(("s", arr(&s)));
            o.push(("m", arr(&m)));
        }
        _ => {
            o.push(("key", arr(&some(r, 32))));
            o.push(("nonce", arr(&some(r, 12))));
            let (a, b) = (if r.chance(1, 2) { 13 } else { a }, if r.chance(1, 100) { 16384 } else { b });
            o.push(("ad", arr(&some(r, a))));
            o.push(("m", arr(&some(r, b))));
        }
    }
    J::obj(o)
}

fn search(t: &J) -> J {
    let mut r = Rng::new(t.get("seed").int() as u64);
    let k = t.get("k").str();
    let mut bad = vec![];
    let mut n = 0;
    for _ in 0..t.get("count").int() {
        let q = question(k, &mut r);
        n += 1;
        let got = tried(&q);
        if got.as_ref().ok() != Some(&reference(&q)) && bad.len() < 4 {
            bad.push(J::obj(vec![("q", q), ("got", J::s(&show(&got)))]));
        }
    }
    J::obj(vec![("bad", J::Arr(bad)), ("n", J::Num(n))])
}

/// random request patterns on one object against the reference stream
fn patterns(t: &J) -> J {
    let mut r = Rng::new(t.get("seed").int() as u64);
    let mut bad = String::new();
    let k = t.get("k").str();
    for _ in 0..t.get("count").int() {
        let m = 1 + r.below(12);
        let small = r.chance(1, 2);
        let sizes: Vec<usize> = (0..m).map(|_| if small { r.below(70) } else { len(&mut r) }).collect();
        let total: usize = sizes.iter().sum();
        let res = run::guarded(|| {
            if k == "prf" {
                let (a, b) = (len(&mut r), len(&mut r));
                let (key, seed) = (some(&mut r, a), some(&mut r, b));
                let want = refc::p_hash(&key, &seed, total);
                let mut p = Prf::new(key.clone(), seed.clone());
                let mut pos = 0;
                for n in &sizes {
                    if p.get_bytes(*n) != want[pos..pos + n] {
                        return format!("prf: secret {} seed {} requests {:?}: request at {} of {} bytes is wrong", hex(&key), hex(&seed), sizes, pos, n);
                    }
                    pos += n;
                }
            } else {
                let (key, nonce) = (some(&mut r, 32), some(&mut r, 12));
                let mut c = ChaCha20::new(&key, &nonce);
                let mut d = ChaCha20::new(&key, &nonce);
                let mut ctr = 0u32;
                for n in &sizes {
                    let data = some(&mut r, *n);
                    let want = refc::chacha_xor(&key, ctr, &nonce, &data);
                    let got = c.encrypt(&data);
                    if got != want || d.encrypt(&got) != data {
                        return format!("chacha20: key {} nonce {} calls {:?}: call of {} bytes at block {} is wrong", hex(&key), hex(&nonce), sizes, n, ctr);
                    }
                    ctr += ((n + 63) / 64) as u32;
                }
            }
            String::new()
        });
        bad = match res {
            Ok(s) => s,
            Err(m) => format!("{} {:?}: panic: {}", k, sizes, m),
        };
        if !bad.is_empty() {
            break;
        }
    }
    J::obj(vec![("bad", J::s(&bad))])
}

/// whatever is changed in something sealed, opening it fails; unchanged it opens
fn tamper(t: &J) -> J {
    let mut r = Rng::new(t.get("seed").int() as u64);
    let (key, nonce) = (r.bytes(32), r.bytes(12));
    let ad = r.bytes(t.get("ad").int() as usize);
    let pt = {
        let n = t.get("n").int() as usize;
        some(&mut r, n)
    };
    let dec = |k: &[u8], n: &[u8], ad: &[u8], d: &[u8]| run::guarded(|| ChaCha20Poly1305.new_decryptor(k.to_vec()).decrypt(n, d, ad).ok());
    let sealed = refc::seal(&key, &nonce, &ad, &pt);
    let mut n = 0;
    let mut bad = String::new();
    macro_rules! must {
        ($what:expr, $k:expr, $n:expr, $a:expr, $d:expr, $want:expr) => {{
            n += 1;
            let got = dec($k, $n, $a, $d);
            if got.as_ref().ok() != Some(&$want) && bad.is_empty() {
                bad = format!(
                    "{}: key {} nonce {} ad {} data {} -> {}",
                    $what,
                    hex($k),
                    hex($n),
                    hex($a),
                    hex($d),
                    match got {
                        Err(m) => format!("panic: {}", m),
                        Ok(None) => "error".into(),
                        Ok(Some(v)) => hex(&v),
                    }
                );
            }
        }};
    }
    must!("unchanged", &key, &nonce, &ad, &sealed, Some(pt.clone()));
    for bit in 0..sealed.len() * 8 {
        if sealed.len() > 400 && bit / 8 > 40 && bit / 8 + 40 < sealed.len() && !r.chance(1, 40) {
            continue;
        }
        let mut d = sealed.clone();
        d[bit / 8] ^= 1 << (bit % 8);
        must!(format!("bit {} of the sealed data flipped", bit), &key, &nonce, &ad, &d, None);
    }
    for i in 0..32 {
        let mut k = key.clone();
        k[i] ^= 1 << r.below(8);
        must!("key changed", &k, &nonce, &ad, &sealed, None);
    }
    for bit in 0..96 {
        let mut k = nonce.clone();
        k[bit / 8] ^= 1 << (bit % 8);
        must!("nonce changed", &key, &k, &ad, &sealed, None);
    }
    for bit in 0..ad.len() * 8 {
        let mut k = ad.clone();
        k[bit / 8] ^= 1 << (bit % 8);
        must!("additional data changed", &key, &nonce, &k, &sealed, None);
    }
    for i in 0..sealed.len() {
        if sealed.len() > 400 && i > 40 && i + 40 < sealed.len() && !r.chance(1, 10) {
            continue;
        }
        must!("truncated", &key, &nonce, &ad, &sealed[..i], None);
        must!("front cut off", &key, &nonce, &ad, &sealed[sealed.len() - i..], None);
        let mut d = sealed.clone();
        d.insert(i, 0);
        must!("byte inserted", &key, &nonce, &ad, &d, None);
        let mut d = sealed.clone();
        // two bytes changed by the same amount
        let j = r.below(sealed.len());
        if i != j {
            d[i] ^= 0x80;
            d[j] ^= 0x80;
            must!("two bytes changed", &key, &nonce, &ad, &d, None);
        }
    }
    // what is moved between additional data, ciphertext and padding
    for k in 1..=17 {
        let mut a = ad.clone();
        a.resize(ad.len() + k, 0);
        must!("additional data extended", &key, &nonce, &a, &sealed, None);
        if k <= ad.len() {
            must!("additional data shortened", &key, &nonce, &ad[..ad.len() - k], &sealed, None);
        }
        let at = sealed.len() - 16;
        let mut d = sealed[..at].to_vec();
        d.resize(at + k, 0);
        d.extend_from_slice(&sealed[at..]);
        must!("zeros before the tag", &key, &nonce, &ad, &d, None);
        if k <= at {
            let mut a = ad.clone();
            a.extend_from_slice(&sealed[..k]);
            must!("bytes moved to the additional data", &key, &nonce, &a, &sealed[k..], None);
        }
        if k <= ad.len() {
            let mut d = ad[ad.len() - k..].to_vec();
            d.extend_from_slice(&sealed);
            must!("bytes moved from the additional data", &key, &nonce, &ad[..ad.len() - k], &d, None);
        }
    }
    for k in 0..16 {
        // a tag of which only a part is right
        let mut d = sealed.clone();
        let l = d.len();
        for b in d[l - 16 + k..].iter_mut() {
            *b = b.wrapping_add(1);
        }
        must!("tail of the tag changed", &key, &nonce, &ad, &d, None);
    }
    J::obj(vec![("bad", J::s(&bad)), ("n", J::Num(n))])
}

/// one object for many records: what was sealed before does not matter
fn reuse(t: &J) -> J {
    let mut r = Rng::new(t.get("seed").int() as u64);
    let key = r.bytes(32);
    let mut bad = String::new();
    let mut e = ChaCha20Poly1305.new_encryptor(key.clone());
    let mut d = ChaCha20Poly1305.new_decryptor(key.clone());
    let mut nonce = r.bytes(12);
    for i in 0..t.get("count").int() {
        if r.chance(3, 4) {
            nonce = r.bytes(12);
        }
        let (a, b) = (len(&mut r), len(&mut r));
        let (ad, pt) = (some(&mut r, a), some(&mut r, b));
        let want = refc::seal(&key, &nonce, &ad, &pt);
        let res = run::guarded(|| {
            let s = e.encrypt(&nonce, &pt, &ad);
            if s != want {
                return "sealed data differs".to_string();
            }
            let mut x = want.clone();
            if r.chance(1, 3) {
                let j = r.below(x.len());
                x[j] ^= 1 << r.below(8);
                if d.decrypt(&nonce, &x, &ad).is_ok() {
                    return "changed data opens".into();
                }
            }
            match d.decrypt(&nonce, &want, &ad) {
                Ok(v) if v == pt => String::new(),
                _ => "sealed data does not open".into(),
            }
        });
        bad = res.unwrap_or_else(|m| format!("panic: {}", m));
        if !bad.is_empty() {
            bad = format!("record {}: {}: key {} nonce {} ad {} plaintext {}", i, bad, hex(&key), hex(&nonce), hex(&ad), hex(&pt));
            break;
        }
    }
    J::obj(vec![("bad", J::s(&bad))])
}

/// a message too long for the oracle
fn long(t: &J) -> J {
    let n = t.get("n").int() as usize;
    let mut bad = String::new();
    let k = t.get("k").str();
    let r = run::guarded(|| {
        let (key, nonce) = (vec![7u8; 32], vec![9u8; 12]);
        let fill = |m: usize| -> Vec<u8> { (0..m).map(|i| (i ^ i >> 7) as u8).collect() };
        match k {
            "sha" => {
                let m = vec![0x61u8; n];
                if sha256(&m)[..] != refc::sha256(&m)[..] {
                    bad = format!("SHA-256 of {} bytes 61", n);
                }
            }
            "chacha" => {
                let m = vec![0u8; n];
                let mut c = ChaCha20::new(&key, &nonce);
                if c.encrypt(&m) != refc::chacha_xor(&key, 0, &nonce, &m) {
                    bad = format!("ChaCha20 keystream of {} bytes", n);
                }
            }
            "hmac" => {
                if hmac_sha256(&key, &fill(n))[..] != refc::hmac(&key, &fill(n))[..] {
                    bad = format!("HMAC of a message of {} bytes", n);
                }
                if n < 1 << 22 && hmac_sha256(&fill(n), &key)[..] != refc::hmac(&fill(n), &key)[..] {
                    bad = format!("HMAC with a key of {} bytes", n);
                }
            }
            "prf" => {
                let want = refc::p_hash(&key, &nonce, n);
                if Prf::new(key.clone(), nonce.clone()).get_bytes(n) != want {
                    bad = format!("PRF output of {} bytes in one request", n);
                }
                let mut p = Prf::new(key.clone(), nonce.clone());
                let mut got = vec![];
                let mut i = 0;
                while got.len() < n {
                    i += 1;
                    let m = (1 + i * 37 % 200).min(n - got.len());
                    got.extend(p.get_bytes(m));
                }
                if got != want {
                    bad = format!("PRF output of {} bytes in {} requests", n, i);
                }
            }
            "poly" => {
                let mut rs = key.clone();
                rs[16..].copy_from_slice(&[3; 16]);
                if authenticate(&fill(n), &a16(&rs[..16]), &a16(&rs[16..])) != refc::poly1305(&rs, &fill(n)) {
                    bad = format!("Poly1305 tag of {} bytes", n);
                }
            }
            _ => {
                for (m, a) in [(n, 13), (20, n)] {
                    let want = refc::seal(&key, &nonce, &fill(a), &fill(m));
                    if ChaCha20Poly1305.new_encryptor(key.clone()).encrypt(&nonce, &fill(m), &fill(a)) != want {
                        bad = format!("sealing {} bytes with {} bytes of additional data", m, a);
                    }
                    match ChaCha20Poly1305.new_decryptor(key.clone()).decrypt(&nonce, &want, &fill(a)) {
                        Ok(v) if v == fill(m) => {}
                        _ => bad = format!("opening {} bytes with {} bytes of additional data", m, a),
                    }
                    let mut d = want.clone();
                    let j = d.len() - 17;
                    d[j] ^= 1;
                    let mut ad = fill(a);
                    ad[a - 1] ^= 1;
                    for (x, y) in [(&d, &fill(a)), (&want, &ad)] {
                        if ChaCha20Poly1305.new_decryptor(key.clone()).decrypt(&nonce, x, y).is_ok() {
                            bad = format!("{} changed bytes open with {} bytes of additional data", m, a);
                        }
                    }
                }
            }
        }
    });
    if let Err(m) = r {
        bad = format!("{} of {} bytes: panic: {}", k, n, m);
    }
    J::obj(vec![("bad", J::s(&bad))])
}

fn main() {
    run::main(|t| {
        let mut r = match t.get("kind").str() {
            "rows" => rows(t),
            "history" => history(t),
            "search" => search(t),
            "patterns" => patterns(t),
            "tamper" => tamper(t),
            "reuse" => reuse(t),
            "long" => long(t),
            k => panic!("harness: kind {}", k),
        };
        if let J::Obj(o) = &mut r {
            o.insert("id".into(), t.get("id").clone());
        }
        r
    })
}
