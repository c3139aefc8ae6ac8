//! Key exchanges and connection attempts: what the client sends is recorded
//! for P256.qnt and Freshness.tla, and the randomness the system gives it can
//! be chosen (this program has its own getrandom).
use husk::cipher::ecdhe::EllipticDiffieHellman;
use husk::cipher::KeyExchange;
use husk_verif::json::{hex, J};
use husk_verif::refc::{self, Rng};
use husk_verif::run;
use husk_verif::world::*;
use num::bigint::BigUint;
use num::traits::{One, Zero};
use rand::rngs::OsRng;
use std::cell::Cell;

// ------------------------------------------------------------ system randomness
struct Feed {
    prefix: Vec<u8>,
    rng: Rng,
    flip: Option<usize>,
    drawn: Vec<u8>,
}

impl Feed {
    fn new(prefix: &[u8], seed: u64, flip: Option<usize>) -> Feed {
        Feed { prefix: prefix.to_vec(), rng: Rng::new(seed), flip, drawn: vec![] }
    }
    fn next(&mut self) -> u8 {
        let i = self.drawn.len();
        let r = self.rng.next() as u8;
        let mut b = if i < self.prefix.len() { self.prefix[i] } else { r };
        if let Some(f) = self.flip {
            if f / 8 == i {
                b ^= 1 << (f % 8)
            }
        }
        self.drawn.push(b);
        b
    }
}

thread_local! {
    static FEED: Cell<*mut Feed> = const { Cell::new(std::ptr::null_mut()) };
}

fn fill(buf: *mut u8, n: usize) -> bool {
    let p = FEED.try_with(|f| f.get()).unwrap_or(std::ptr::null_mut());
    if p.is_null() {
        return false;
    }
    for i in 0..n {
        unsafe { *buf.add(i) = (*p).next() }
    }
    true
}

#[cfg(all(target_os = "linux", target_arch = "x86_64"))]
mod system {
    extern "C" {
        fn __errno_location() -> *mut i32;
    }

    unsafe fn raw(n: i64, a: [i64; 6]) -> i64 {
        let r: i64;
        std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a[0], in("rsi") a[1], in("rdx") a[2],
            in("r10") a[3], in("r8") a[4], in("r9") a[5], lateout("rcx") _, lateout("r11") _, options(nostack));
        if r < 0 && r > -4096 {
            *__errno_location() = -r as i32;
            return -1;
        }
        r
    }

    const GETRANDOM: i64 = 318;

    #[no_mangle]
    pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
        if n == GETRANDOM && super::fill(a as *mut u8, b as usize) {
            return b;
        }
        raw(n, [a, b, c, d, e, f])
    }

    #[no_mangle]
    pub unsafe extern "C" fn getrandom(buf: *mut u8, n: usize, flags: u32) -> isize {
        if super::fill(buf, n) {
            return n as isize;
        }
        raw(GETRANDOM, [buf as i64, n as i64, flags as i64, 0, 0, 0]) as isize
    }
}

/// runs f on a thread of its own with the chosen randomness
fn with_feed<T: Send>(mut feed: Feed, f: impl FnOnce() -> T + Send) -> (Result<T, String>, Vec<u8>) {
    struct P(*mut Feed);
    unsafe impl Send for P {}
    let p = P(&mut feed);
    let r = std::thread::scope(|s| {
        s.spawn(move || {
            let p = p;
            FEED.with(|c| c.set(p.0));
            let r = run::guarded(f);
            FEED.with(|c| c.set(std::ptr::null_mut()));
            r
        })
        .join()
        .unwrap()
    });
    (r, feed.drawn)
}

// ------------------------------------------------------------ key exchange alone
fn ske(pt: &(BigUint, BigUint), sig: &[u8]) -> Vec<u8> {
    let mut m = vec![3, 0, 23];
    m.extend(vec8(&refc::encode_point(pt)));
    m.extend([4, 1]);
    m.extend(vec16(sig));
    m
}

/// is the answer to this server key right?
fn judge(d: &BigUint, public: &[u8], pms: &[u8]) -> Result<(BigUint, BigUint), String> {
    if public.len() != 66 || public[0] != 65 {
        return Err(format!("public value of {} bytes: {}", public.len(), hex(public)));
    }
    let q = refc::decode_point(&public[1..]).ok_or(format!("the public value is no point: {}", hex(public)))?;
    let s = refc::mul(d, &q).ok_or("identity")?;
    if pms != refc::b32(&s.0) {
        return Err(format!("premaster secret {}, the server has {}", hex(pms), hex(&refc::b32(&s.0))));
    }
    Ok(q)
}

fn server_scalar(r: &mut Rng) -> BigUint {
    let n = &refc::p256().n;
    match r.below(6) {
        0 => BigUint::from(1 + r.below(40) as u32),
        1 => n - 1u32 - BigUint::from(r.below(40) as u32),
        2 => (BigUint::one() << r.below(255)) + BigUint::from(r.below(2) as u32),
        _ => r.scalar(),
    }
}

fn exchange(t: &J) -> J {
    let mut r = Rng::new(t.get("seed").int() as u64);
    let mut bad = String::new();
    let (mut n, mut zeros) = (0, 0);
    let mut rows = vec![];
    let mut pubs = vec![];
    for i in 0..t.get("count").int() {
        let d = server_scalar(&mut r);
        let p = refc::mul(&d, &refc::p256().g).unwrap();
        let sl = r.below(300);
        let msg = ske(&p, &r.bytes(sl));
        let prefix: Vec<u8> = t.get("prefix").arr().iter().map(|b| b.int() as u8).collect();
        let res = if prefix.is_empty() {
            run::guarded(|| EllipticDiffieHellman.compute_keys(&msg, &mut OsRng).map_err(|e| format!("{:?} {}", e.kind, e.desc)))
        } else {
            let s = r.next();
            with_feed(Feed::new(&prefix, s, None), || {
                EllipticDiffieHellman.compute_keys(&msg, &mut OsRng).map_err(|e| format!("{:?} {}", e.kind, e.desc))
            })
            .0
        };
        let res = match res {
            Err(m) => Err(format!("panic: {}", m)),
            Ok(Err(m)) => Err(m),
            Ok(Ok((public, pms))) => {
                pubs.push(J::s(&hex(&public)));
                judge(&d, &public, &pms).map(|q| {
                    if pms[0] == 0 || public[2] == 0 || public[34] == 0 {
                        zeros += 1
                    }
                    if i < 2 || pms[0] == 0 {
                        rows.push(J::obj(vec![
                            ("d", J::s(&d.to_str_radix(16))),
                            ("x", J::s(&q.0.to_str_radix(16))),
                            ("y", J::s(&q.1.to_str_radix(16))),
                            ("pms", J::s(&hex(&pms))),
                        ]))
                    }
                })
            }
        };
        n += 1;
        if let Err(m) = res {
            bad = format!("server key {:x}: {}", d, m);
            break;
        }
    }
    J::obj(vec![("bad", J::s(&bad)), ("n", J::Num(n)), ("zeros", J::Num(zeros)), ("rows", J::Arr(rows)), ("pubs", J::Arr(pubs))])
}

/// does every bit drawn matter to the ephemeral key?
fn bits(t: &J) -> J {
    let mut r = Rng::new(t.get("seed").int() as u64);
    let prefix: Vec<u8> = t.get("prefix").arr().iter().map(|b| b.int() as u8).collect();
    let p = refc::mul(&r.scalar(), &refc::p256().g).unwrap();
    let msg = ske(&p, &[1, 2, 3]);
    let seed = r.next();
    let go = |flip| {
        with_feed(Feed::new(&prefix, seed, flip), || EllipticDiffieHellman.compute_keys(&msg, &mut OsRng).map(|k| k.0).unwrap_or_default())
    };
    let (base, drawn) = go(None);
    let base = base.unwrap_or_default();
    let mut keys = vec![hex(&base)];
    for i in 0..(8 * drawn.len()).min(2048) {
        keys.push(hex(&go(Some(i)).0.unwrap_or_default()));
    }
    J::obj(vec![
        ("drawn", J::Num(drawn.len() as i64)),
        ("keys", J::Arr(keys.iter().map(|k| J::s(k)).collect())),
    ])
}

// ------------------------------------------------------------ whole attempts
/// (client random, public value or nothing, outcome)
fn attempt(kind: &str, seed: u64) -> (Vec<u8>, Vec<u8>, String) {
    let w = World::new(seed, J::obj(vec![]));
    {
        let mut g = w.borrow_mut();
        g.ctam = "none".into();
        let hs = |ms: &[&str]| {
            J::obj(vec![
                ("op", J::s("hs")),
                ("prot", J::s("plain")),
                ("rx", J::Bool(false)),
                ("pieces", J::Arr(ms.iter().map(|m| piece(m)).collect())),
            ])
        };
        fn piece(m: &str) -> J {
            J::obj(vec![("m", J::s(m)), ("part", J::s("all")), ("tam", J::s("same"))])
        }
        let op = |o: &str, rx: bool| {
            J::obj(vec![("op", J::s(o)), ("prot", J::s("plain")), ("rx", J::Bool(rx)), ("pieces", J::Arr(vec![]))])
        };
        let all = ["sh_ok", "cert_one", "ske_ok", "shd_ok"];
        let mut s = vec![];
        match kind {
            "eof" => {}
            "alert" => s.push(op("al_fatal", false)),
            "badsh" => s.push(hs(&["sh_ver_0302"])),
            "badpoint" => s.push(hs(&["sh_ok", "cert_one", "ske_pt_off"])),
            "unsent" => s.push(hs(&all[..3])),
            "cut" => s.push(hs(&all)),
            "badfin" | "ok" => {
                s.push(hs(&all));
                s.push(op("ccs_ok", false));
                s.push(J::obj(vec![
                    ("op", J::s("hs")),
                    ("prot", J::s("good")),
                    ("rx", J::Bool(true)),
                    ("pieces", J::Arr(vec![piece(if kind == "ok" { "fin_ok" } else { "fin_flip" })])),
                ]));
            }
            "nowrite" => g.wfault = Some(WFault { rec: 3, off: 2, kind: Some(std::io::ErrorKind::BrokenPipe), recover: false }),
            k => panic!("harness: attempt {}", k),
        }
        if kind == "nowrite" {
            s.push(hs(&all));
        }
        g.script.extend(s);
    }
    let (r, x) = (Reader(w.clone()), Writer(w.clone()));
    let out = match husk::TlsClient::new(r, x, OsRng) {
        Ok(_) => "ok".to_string(),
        Err(e) => format!("{:?}", e.kind),
    };
    let raw = w.borrow().raw.clone();
    let cur = w.borrow().cur.clone();
    // what was sent in the clear, as records
    let mut all = raw.clone();
    if !raw.ends_with(&cur) {
        all.extend_from_slice(&cur);
    }
    let (mut random, mut key) = (vec![], vec![]);
    let mut i = 0;
    while i + 5 <= all.len() {
        let n = ((all[i + 3] as usize) << 8) + all[i + 4] as usize;
        let f = &all[i + 5..(i + 5 + n).min(all.len())];
        if all[i] == 22 && f.len() >= 38 && f[0] == 1 {
            random = f[6..38].to_vec();
        }
        if all[i] == 22 && f.len() >= 70 && f[0] == 16 {
            key = f[6..70].to_vec();
        }
        if all[i] == 20 {
            break;
        }
        i += 5 + n;
    }
    (random, key, out)
}

fn observed(o: &(Vec<u8>, Vec<u8>, String)) -> J {
    J::obj(vec![("r", J::s(&hex(&o.0))), ("k", J::s(&hex(&o.1))), ("out", J::s(&o.2))])
}

/// a history of attempts on a thread of its own, always the same server
fn history(t: &J) -> J {
    let seed = t.get("seed").int() as u64;
    let kinds: Vec<String> = t.get("kinds").arr().iter().map(|k| k.str().to_string()).collect();
    let obs = std::thread::scope(|s| {
        s.spawn(|| kinds.iter().map(|k| run::guarded(|| attempt(k, seed)).unwrap_or_else(|m| (vec![], vec![], format!("PANIC {}", m)))).collect::<Vec<_>>())
            .join()
            .unwrap()
    });
    J::obj(vec![("obs", J::Arr(obs.iter().map(observed).collect()))])
}

/// does every bit drawn matter to the random or the key?
fn hsbits(t: &J) -> J {
    let prefix: Vec<u8> = t.get("prefix").arr().iter().map(|b| b.int() as u8).collect();
    let seed = t.get("seed").int() as u64;
    let go = |flip| with_feed(Feed::new(&prefix, seed, flip), || attempt("cut", seed));
    let (base, drawn) = go(None);
    let base = base.unwrap_or_default();
    let mut obs = vec![observed(&base)];
    for i in 0..(8 * drawn.len()).min(2048) {
        obs.push(observed(&go(Some(i)).0.unwrap_or_default()));
    }
    J::obj(vec![("drawn", J::Num(drawn.len() as i64)), ("obs", J::Arr(obs))])
}

fn main() {
    let _ = BigUint::zero();
    run::main(|t| {
        let mut r = match t.get("kind").str() {
            "exchange" => exchange(t),
            "bits" => bits(t),
            "history" => history(t),
            "hsbits" => hsbits(t),
            k => panic!("harness: kind {}", k),
        };
        if let J::Obj(o) = &mut r {
            o.insert("id".into(), t.get("id").clone());
        }
        r
    })
}
