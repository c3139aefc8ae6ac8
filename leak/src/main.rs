//! Runs operations on secrets and reports what an observer of time sees of
//! them (cov.c), for Leak.tla.
use husk::cipher::chacha20_poly1305::ChaCha20Poly1305;
use husk::cipher::ecdhe::EllipticDiffieHellman;
use husk::cipher::{Aead, KeyExchange};
use husk::crypto::p256::{int256::Int256, NPoint256, Point256};
use husk_verif::json::{self, J};
use husk_verif::world::{Reader, Shared, World, Writer};
use rand::rngs::OsRng;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::io::{BufRead, Read, Write};
use std::sync::atomic::{AtomicUsize, Ordering};

extern "C" {
    fn cov_switch(x: i32) -> i32;
    fn cov_reset();
    fn cov_get(o: *mut u64);
    fn cov_work() -> u64;
    fn feed(p: *const u8, n: usize, seed: u64);
}

// Memory taken while measuring comes from an area of its own, and every run is
// a process forked from the same parent: equal runs use equal addresses,
// whatever the code under test keeps between calls.
const AREA: usize = 64 << 20;
struct Arena;
static mut MEM: [u64; AREA / 8] = [0; AREA / 8];
static NEXT: AtomicUsize = AtomicUsize::new(0);
/// memory is taken from the system, from the area, or from the system on the
/// account of the code under test
static MODE: AtomicUsize = AtomicUsize::new(SYSTEM);
const SYSTEM: usize = 0;
const AREA_MODE: usize = 1;
const COUNTED: usize = 2;
static HELD: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);
static WARM: AtomicUsize = AtomicUsize::new(0);

fn padded(l: Layout) -> (Layout, usize) {
    let a = l.align().max(16);
    (Layout::from_size_align(l.size() + a, a).expect("harness: layout"), a)
}

unsafe fn account(p: *mut u8, l: Layout, a: usize) -> *mut u8 {
    if p.is_null() {
        return p;
    }
    let counted = MODE.load(Ordering::Relaxed) == COUNTED;
    *(p as *mut usize) = counted as usize;
    if counted {
        let h = HELD.fetch_add(l.size(), Ordering::Relaxed) + l.size();
        PEAK.fetch_max(h, Ordering::Relaxed);
    }
    p.add(a)
}

unsafe impl GlobalAlloc for Arena {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if MODE.load(Ordering::Relaxed) != AREA_MODE {
            let (w, a) = padded(l);
            return account(System.alloc(w), l, a);
        }
        let base = std::ptr::addr_of_mut!(MEM) as usize;
        let at = (base + NEXT.load(Ordering::Relaxed) + l.align() - 1) & !(l.align() - 1);
        let end = at + l.size() - base;
        if end > AREA {
            return std::ptr::null_mut();
        }
        NEXT.store(end, Ordering::Relaxed);
        at as *mut u8
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if MODE.load(Ordering::Relaxed) != AREA_MODE {
            let (w, a) = padded(l);
            return account(System.alloc_zeroed(w), l, a);
        }
        let p = self.alloc(l);
        if !p.is_null() {
            std::ptr::write_bytes(p, 0, l.size());
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let base = std::ptr::addr_of_mut!(MEM) as usize;
        if (p as usize) >= base && (p as usize) < base + AREA {
            return;
        }
        let (w, a) = padded(l);
        let q = p.sub(a);
        if *(q as *mut usize) == 1 {
            HELD.fetch_sub(l.size(), Ordering::Relaxed);
        }
        System.dealloc(q, w)
    }
}

#[global_allocator]
static A: Arena = Arena;

/// memory from the area from now on
fn area() {
    if WARM.load(Ordering::Relaxed) == 0 {
        // what is set up at the first use is set up, and not in the area
        return;
    }
    NEXT.store(0, Ordering::Relaxed);
    MODE.store(AREA_MODE, Ordering::Relaxed);
}

/// watched from now on
fn begin() {
    unsafe {
        cov_reset();
        cov_switch(1);
    }
}

fn end() -> [u64; 4] {
    let mut o = [0; 4];
    MODE.store(SYSTEM, Ordering::Relaxed);
    unsafe {
        cov_switch(0);
        cov_get(o.as_mut_ptr());
    }
    o
}

fn off<T>(f: impl FnOnce() -> T) -> T {
    let o = unsafe { cov_switch(0) };
    let a = MODE.swap(SYSTEM, Ordering::Relaxed);
    let r = f();
    MODE.store(a, Ordering::Relaxed);
    unsafe { cov_switch(o) };
    r
}

// ---------------------------------------------------------------- operations
#[inline(never)]
fn smul(p: &Point256, k: &Int256, out: &mut [u8; 65]) {
    let q = p.mult_scalar(k).normalize().to_uncompressed_bytes();
    out.copy_from_slice(&q);
}

#[cfg(feature = "compare")]
#[inline(never)]
fn compare(a: &[u8], b: &[u8]) -> bool {
    husk::util::crypto_compare(a, b)
}
#[cfg(not(feature = "compare"))]
fn compare(_: &[u8], _: &[u8]) -> bool {
    false
}

#[inline(never)]
fn open(d: &mut Box<dyn husk::cipher::Decryptor + Send>, nonce: &[u8], data: &[u8], ad: &[u8]) -> bool {
    d.decrypt(nonce, data, ad).is_ok()
}

#[inline(never)]
fn seal(e: &mut Box<dyn husk::cipher::Encryptor + Send>, nonce: &[u8], data: &[u8], ad: &[u8]) -> usize {
    e.encrypt(nonce, data, ad).len()
}

#[inline(never)]
fn exchange(ske: &[u8], rng: &mut OsRng) -> bool {
    EllipticDiffieHellman.compute_keys(ske, rng).is_ok()
}

fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).expect("harness: hex")).collect()
}

// ------------------------------------------------------------ the whole client
thread_local! {
    static ARMED: Cell<bool> = const { Cell::new(false) };
    static PEER: RefCell<Option<(Reader, Writer, Shared, usize)>> = const { RefCell::new(None) };
}

/// the transport is not watched; the client is, from one of the events on
struct Rd;
struct Wr;
#[inline(never)]
fn peer<T>(f: impl FnOnce(&mut (Reader, Writer, Shared, usize)) -> T) -> T {
    PEER.with(|p| f(p.borrow_mut().as_mut().expect("harness: peer")))
}
impl Read for Rd {
    #[inline(never)]
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let (r, arm) = off(|| {
            let r = peer(|p| p.0.read(b));
            (r, peer(|p| p.2.borrow().event >= p.3) && !ARMED.with(|a| a.replace(true)))
        });
        if arm {
            begin();
        }
        r
    }
}
impl Write for Wr {
    #[inline(never)]
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        off(|| peer(|p| p.1.write(b)))
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

#[inline(never)]
fn connect() -> String {
    match husk::TlsClient::new(Rd, Wr, OsRng) {
        Ok(c) => {
            unsafe { cov_switch(0) };
            MODE.store(SYSTEM, Ordering::Relaxed);
            std::mem::forget(c);
            "ok".into()
        }
        Err(e) => {
            unsafe { cov_switch(0) };
            MODE.store(SYSTEM, Ordering::Relaxed);
            format!("{:?}", e.kind)
        }
    }
}

// ------------------------------------------------------- what a step costs
/// runs client code on its own account; what it did
fn charged<T>(f: impl FnOnce() -> T) -> (T, u64) {
    let w = unsafe { cov_work() };
    MODE.store(COUNTED, Ordering::Relaxed);
    unsafe { cov_switch(1) };
    let r = f();
    unsafe { cov_switch(0) };
    MODE.store(SYSTEM, Ordering::Relaxed);
    (r, unsafe { cov_work() } - w)
}

fn held() -> i64 {
    HELD.load(Ordering::Relaxed) as i64
}

/// a program of the model repeated on one connection: memory held and work
/// done after each quarter
fn cycle(t: &J) -> J {
    let base = held();
    PEAK.store(HELD.load(Ordering::Relaxed), Ordering::Relaxed);
    unsafe { cov_reset() };
    let w = World::new(t.get("seed").int() as u64, t.clone());
    w.borrow_mut().ctam = "none".into();
    for e in t.get("flight").arr() {
        w.borrow_mut().script.push_back(e.clone());
    }
    let evs = t.get("flight").arr().len();
    PEER.with(|p| *p.borrow_mut() = Some((Reader(w.clone()), Writer(w.clone()), w.clone(), evs)));
    ARMED.with(|a| a.set(true));
    let (r, connect) = charged(|| husk::TlsClient::new(Rd, Wr, OsRng));
    let mut out = vec![("connect", J::Num(connect as i64)), ("flightpeak", J::Num(PEAK.load(Ordering::Relaxed) as i64 - base))];
    let mut c = match r {
        Ok(c) => c,
        Err(e) => {
            out.push(("err", J::s(&format!("{:?}", e.kind))));
            drop(e);
            out.push(("after", J::Num(held() - base)));
            return J::obj(out);
        }
    };
    PEAK.store(HELD.load(Ordering::Relaxed), Ordering::Relaxed);
    let most = ["pre", "cyc"].iter().flat_map(|k| t.get(k).arr()).map(|o| o.get("a").int()).max().unwrap_or(0);
    let mut buf = vec![0u8; most as usize];
    let data = vec![7u8; most as usize];
    let mut step = |o: &J| -> Result<u64, String> {
        let a = o.get("a").int() as usize;
        match o.get("op").str() {
            "put" => {
                let mut g = w.borrow_mut();
                g.send(23, &data[..a], "good", true);
                // the peer remembers nothing
                g.stream.clear();
                g.srecs.clear();
                Ok(0)
            }
            "read" => {
                // in as many reads as it takes
                let (n, k) = charged(|| {
                    let mut n = 0;
                    while n < a {
                        match c.read(&mut buf[n..a]) {
                            Ok(m) if m > 0 => n += m,
                            _ => break,
                        }
                    }
                    n
                });
                if n == a { Ok(k) } else { Err(format!("read {} of {}", n, a)) }
            }
            "write" => {
                let (r, k) = charged(|| c.write_all(&data[..a]).is_ok());
                let mut g = w.borrow_mut();
                g.recs.clear();
                g.raw.clear();
                if r { Ok(k) } else { Err("write".into()) }
            }
            x => panic!("harness: step {}", x),
        }
    };
    let mut all = |k: &str| t.get(k).arr().iter().map(&mut step).sum::<Result<u64, String>>();
    let res = (|| -> Result<(Vec<J>, Vec<J>), String> {
        all("pre")?;
        let (mut mem, mut work) = (vec![], vec![]);
        for _ in 0..4 {
            let mut k = 0;
            for _ in 0..t.get("reps").int() / 4 {
                k += all("cyc")?;
            }
            mem.push(J::Num(held() - base));
            work.push(J::Num(k as i64));
        }
        Ok((mem, work))
    })();
    match res {
        Ok((m, k)) => {
            out.push(("held", J::Arr(m)));
            out.push(("work", J::Arr(k)));
            out.push(("peak", J::Num(PEAK.load(Ordering::Relaxed) as i64 - base)));
        }
        Err(e) => out.push(("failed", J::s(&e))),
    }
    let end = if t.get("end").is_null() { "" } else { t.get("end").str() };
    // the end: a record that is not the peer's, an alert, an error, or nothing
    {
        let mut g = w.borrow_mut();
        match end {
            "forged" => g.send(23, b"forged", "badtag", true),
            "alert" => g.send(21, &[2, 20], "good", true),
            "close" => g.send(21, &[1, 0], "good", true),
            "hs" => g.send(22, &[0, 0, 0, 9, 1], "good", true),
            "plain" => g.send(23, b"plain", "good", false),
            _ => {}
        }
    }
    if end != "" {
        charged(|| {
            let mut b = [0u8; 8];
            let mut seen = 0;
            while seen < 3 {
                seen += (!matches!(c.read(&mut b), Ok(n) if n > 0)) as u32;
            }
            let _ = c.write_all(b"after");
            let _ = c.close();
            let _ = c.close();
        });
    }
    charged(|| drop(c));
    out.push(("after", J::Num(held() - base)));
    J::obj(out)
}

/// the same connection again and again: memory held when it is gone
fn lives(t: &J) -> J {
    let of = t.get("of");
    let base = held();
    let mut mem = vec![];
    for _ in 0..4 {
        for _ in 0..t.get("reps").int() / 4 {
            match of.get("op").str() {
                "cycle" => cycle(of),
                _ => junk(of),
            };
        }
        mem.push(J::Num(held() - base));
    }
    J::obj(vec![("held", J::Arr(mem))])
}

/// bytes of a server, whatever they are: memory at most held, work done
fn junk(t: &J) -> J {
    struct Src<'a>(&'a [u8]);
    impl Read for Src<'_> {
        fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
            let n = b.len().min(self.0.len());
            b[..n].copy_from_slice(&self.0[..n]);
            self.0 = &self.0[n..];
            Ok(n)
        }
    }
    let data = unhex(t.get("data").str());
    let base = held();
    PEAK.store(HELD.load(Ordering::Relaxed), Ordering::Relaxed);
    unsafe { cov_reset() };
    let mut src = Src(&data);
    let (r, work) = charged(|| husk::TlsClient::new(&mut src, std::io::sink(), OsRng).map(|_| ()).map_err(|e| e.kind));
    J::obj(vec![
        ("res", J::s(&match r { Ok(()) => "ok".into(), Err(k) => format!("{:?}", k) })),
        ("peak", J::Num(PEAK.load(Ordering::Relaxed) as i64 - base)),
        ("work", J::Num(work as i64)),
        ("size", J::Num(data.len() as i64)),
        ("after", J::Num(held() - base)),
    ])
}

/// trace and public outcome of one run
#[inline(never)]
fn run(t: &J) -> ([u64; 4], String) {
    let hex = |k: &str| unhex(t.get(k).str());
    match t.get("op").str() {
        "smul" => {
            let p = NPoint256::from_uncompressed_bytes(&hex("pt")).expect("harness: point").to_point();
            let k = Int256::from_bytes(&hex("k")).expect("harness: scalar");
            let mut out = [0; 65];
            area();
            begin();
            smul(&p, &k, &mut out);
            (end(), String::new())
        }
        "compare" => {
            let (a, b) = (hex("a"), hex("b"));
            // in the same place every time
            static mut BUF: [[u8; 256]; 2] = [[0; 256]; 2];
            let (x, y) = unsafe {
                let p = &mut *std::ptr::addr_of_mut!(BUF);
                p[0][..a.len()].copy_from_slice(&a);
                p[1][..b.len()].copy_from_slice(&b);
                (&p[0][..a.len()], &p[1][..b.len()])
            };
            area();
            begin();
            let r = compare(x, y);
            (end(), format!("{}", r))
        }
        "open" | "seal" => {
            let (key, nonce, ad, mut data) = (hex("key"), hex("nonce"), hex("ad"), hex("data"));
            if t.get("op").str() == "open" {
                data = husk_verif::refc::seal(&key, &nonce, &ad, &data);
                let n = data.len() - 16;
                for (v, m) in data[n..].iter_mut().zip(t.get("mask").arr()) {
                    *v ^= m.int() as u8;
                }
            }
            static mut BUF: [u8; 1 << 16] = [0; 1 << 16];
            let mut at = 0;
            let mut place = |v: &[u8]| unsafe {
                let p = &mut *std::ptr::addr_of_mut!(BUF);
                p[at..at + v.len()].copy_from_slice(v);
                at += v.len();
                &(&*std::ptr::addr_of!(BUF))[at - v.len()..at]
            };
            let (n, a, d) = (place(&nonce), place(&ad), place(&data));
            let r;
            // the object and its key live in the area as well
            area();
            let k = key.clone();
            if t.get("op").str() == "open" {
                let mut o = ChaCha20Poly1305.new_decryptor(k);
                begin();
                r = open(&mut o, n, d, a) as usize;
            } else {
                let mut o = ChaCha20Poly1305.new_encryptor(k);
                begin();
                r = seal(&mut o, n, d, a);
            }
            (end(), format!("{}", r))
        }
        "exchange" => {
            let (m, r) = (hex("ske"), hex("rand"));
            unsafe { feed(r.as_ptr(), r.len(), 1) };
            area();
            begin();
            let ok = exchange(&m, &mut OsRng);
            (end(), format!("{}", ok))
        }
        "connect" => {
            let w = World::new(t.get("seed").int() as u64, t.clone());
            w.borrow_mut().ctam = "none".into();
            let evs = t.get("evs").arr();
            for e in evs {
                w.borrow_mut().script.push_back(e.clone());
            }
            let r = hex("rand");
            unsafe { feed(r.as_ptr(), r.len(), t.get("seed").int() as u64) };
            ARMED.with(|a| a.set(false));
            PEER.with(|p| *p.borrow_mut() = Some((Reader(w.clone()), Writer(w.clone()), w.clone(), (t.get("from").int() as usize).min(evs.len()))));
            area();
            let res = connect();
            (end(), res)
        }
        x => panic!("harness: op {}", x),
    }
}

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
    fn _exit(code: i32) -> !;
}

/// one run in a process of its own, which appends its line
fn forked(t: &J, out: &mut std::fs::File) {
    unsafe {
        let pid = fork();
        assert!(pid >= 0, "harness: fork");
        if pid == 0 {
            let (c, res) = run(t);
            let o = J::obj(vec![
                ("id", t.get("id").clone()),
                ("pc", J::s(&format!("{:016x}", c[0]))),
                ("blocks", J::Num(c[1] as i64)),
                ("mem", J::s(&format!("{:016x}", c[2]))),
                ("accesses", J::Num(c[3] as i64)),
                ("res", J::s(&res)),
            ]);
            let l = o.dump() + "\n";
            _exit((out.write(l.as_bytes()).ok() != Some(l.len())) as i32);
        }
    }
}

fn ended() {
    let mut st = 0;
    unsafe { waitpid(-1, &mut st, 0) };
    if st != 0 {
        panic!("harness: a run ended with {:x}", st);
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let inp = std::fs::File::open(&a[1]).expect("harness: input");
    let _ = std::fs::remove_file(&a[2]);
    let mut out = std::fs::OpenOptions::new().create(true).append(true).open(&a[2]).expect("harness: output");
    let tests: Vec<J> = std::io::BufReader::new(inp).lines().map(|l| json::parse(&l.unwrap())).collect();
    // whatever is set up at the first use is set up now
    let mut seen = std::collections::HashMap::new();
    for t in &tests {
        if matches!(t.get("op").str(), "cycle" | "junk" | "lives") {
            continue;
        }
        let n = seen.entry(t.get("op").str().to_string()).or_insert(0);
        *n += 1;
        if *n <= 8 {
            run(t);
        }
    }
    WARM.store(1, Ordering::Relaxed);
    let mut going = 0;
    for t in &tests {
        let o = match t.get("op").str() {
            "cycle" => cycle(t),
            "junk" => junk(t),
            "lives" => lives(t),
            _ => {
                if going == 8 {
                    ended();
                    going -= 1;
                }
                forked(t, &mut out);
                going += 1;
                continue;
            }
        };
        let l = J::obj(vec![("id", t.get("id").clone()), ("r", o)]).dump() + "\n";
        out.write_all(l.as_bytes()).expect("harness: output");
    }
    for _ in 0..going {
        ended();
    }
}
