//! A scripted TLS server and an in-memory transport, single-threaded.
//!
//! The client under test blocks in `Reader::read`; when its input is used up
//! the next scripted event is rendered into bytes, knowing everything the
//! client has sent so far.  Everything the client writes is parsed, opened with
//! independently derived keys, and attributed to the event delivered last.
use crate::json::J;
use crate::refc::{self, Rng};
use num::bigint::BigUint;
use std::cell::RefCell;
use std::collections::VecDeque;
use std::io;
use std::rc::Rc;
use std::sync::OnceLock;

pub const SPIN: &str = "SPIN: transport read again and again after its end";

#[derive(Clone, Default)]
pub struct Keys {
    pub master: Vec<u8>,
    pub cw_key: Vec<u8>,
    pub sw_key: Vec<u8>,
    pub cw_iv: Vec<u8>,
    pub sw_iv: Vec<u8>,
}

pub fn derive(premaster: &[u8], crand: &[u8], srand: &[u8]) -> Keys {
    let cs = [crand, srand].concat();
    let sc = [srand, crand].concat();
    let master = refc::prf(premaster, "master secret", &cs, 48);
    let kb = refc::prf(&master, "key expansion", &sc, 88);
    Keys {
        master,
        cw_key: kb[0..32].to_vec(),
        sw_key: kb[32..64].to_vec(),
        cw_iv: kb[64..76].to_vec(),
        sw_iv: kb[76..88].to_vec(),
    }
}

/// RFC 7627: the master secret is bound to the transcript
pub fn derive_ems(premaster: &[u8], transcript: &[u8], crand: &[u8], srand: &[u8]) -> Keys {
    let master = refc::prf(premaster, "extended master secret", &refc::sha256(transcript), 48);
    let kb = refc::prf(&master, "key expansion", &[srand, crand].concat(), 88);
    let at = |a: usize, b: usize| kb[a..b].to_vec();
    Keys { cw_key: at(0, 32), sw_key: at(32, 64), cw_iv: at(64, 76), sw_iv: at(76, 88), master }
}

pub fn nonce(iv: &[u8], seq: u64) -> Vec<u8> {
    let mut n = vec![0u8; 4];
    n.extend_from_slice(&seq.to_be_bytes());
    n.iter().zip(iv).map(|(a, b)| a ^ b).collect()
}

pub fn ad(seq: u64, typ: u8, ver: (u8, u8), len: usize) -> Vec<u8> {
    let mut a = seq.to_be_bytes().to_vec();
    a.extend_from_slice(&[typ, ver.0, ver.1, (len >> 8) as u8, len as u8]);
    a
}

pub fn hs_msg(typ: u8, body: &[u8]) -> Vec<u8> {
    let mut m = vec![typ, (body.len() >> 16) as u8, (body.len() >> 8) as u8, body.len() as u8];
    m.extend_from_slice(body);
    m
}

pub fn vec16(b: &[u8]) -> Vec<u8> {
    let mut v = vec![(b.len() >> 8) as u8, b.len() as u8];
    v.extend_from_slice(b);
    v
}

pub fn vec24(b: &[u8]) -> Vec<u8> {
    let mut v = vec![(b.len() >> 16) as u8, (b.len() >> 8) as u8, b.len() as u8];
    v.extend_from_slice(b);
    v
}

pub fn vec8(b: &[u8]) -> Vec<u8> {
    let mut v = vec![b.len() as u8];
    v.extend_from_slice(b);
    v
}

/// one record the client wrote
#[derive(Clone, Debug)]
pub struct CRec {
    pub event: usize,
    pub typ: u8,
    pub ver: (u8, u8),
    pub enc: bool,
    /// record number under which it opened (enc only)
    pub seq: Option<u64>,
    pub frag: Vec<u8>,
    pub plain: Option<Vec<u8>>,
    pub partial: bool,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum OnEmpty {
    Eof,
    Err(io::ErrorKind),
}

#[derive(Clone)]
pub struct WFault {
    /// fail while record number `rec` (from 1, counted from `arm`) is written
    pub rec: usize,
    /// at this offset of the record; -1: at its last byte
    pub off: i64,
    pub kind: Option<io::ErrorKind>, // None: Ok(0)
    pub recover: bool,
}

pub struct World {
    pub rng: Rng,
    pub prm: J,
    // ---- transport, server to client
    pub inbuf: VecDeque<u8>,
    pub script: VecDeque<J>,
    pub on_empty: OnEmpty,
    pub dead: Option<OnEmpty>,
    /// the end of the script is the end of the transport
    pub sticky_empty: bool,
    pub once_err: bool,
    pub event: usize,
    pub reads: u64,
    pub dead_reads: u64,
    pub rmode: i64,
    pub rintr: bool,
    /// interrupted calls in a row still to come, and the call they begin at
    pub rstorm: (i64, i64),
    pub wstorm: (i64, i64),
    pub eager: bool,
    pub delivered: u64,
    // ---- transport, client to server
    pub raw: Vec<u8>,
    pub cur: Vec<u8>,
    pub recs: Vec<CRec>,
    pub wmode: i64,
    pub wintr: bool,
    pub wfault: Option<WFault>,
    pub wdead: bool,
    pub wfault_hit: bool,
    pub nrec_started: usize,
    /// calls of the application
    pub nops: usize,
    pub wcalls: u64,
    pub flushes: u64,
    // ---- handshake views: c as the client sees it, s as the server sees it
    pub cv: Vec<u8>,
    pub sv: Vec<u8>,
    pub c_hs: Vec<u8>, // client handshake bytes not yet split into messages
    pub crand: [Vec<u8>; 2],
    pub srand: [Vec<u8>; 2],
    pub priv_c: Option<BigUint>,
    pub priv_s: Option<BigUint>,
    pub ckeys: Option<Keys>,
    pub skeys: Option<Keys>,
    pub client_ccs: bool,
    pub client_seq: u64,
    pub server_seq: u64,
    pub cfin_cv: usize, // length of cv before the client Finished
    pub cfin_body: Vec<u8>,
    pub open: Option<(String, Vec<u8>, usize)>,
    pub offered: Vec<String>,
    pub hello: Vec<u8>,
    pub notes: Vec<String>,
    pub ctam: String,
    pub client_pub: Vec<u8>,
    pub crecs_hs: usize,
    pub sent_app: Vec<u8>,
    /// the client has been given its ServerHelloDone: what follows it in the
    /// same record joins the transcript only after the client's own flight
    pub frozen: bool,
    pub later: [Vec<u8>; 2],
    /// application bytes sealed by the server
    pub stream: Vec<u8>,
    /// protected records as sealed, whole
    pub srecs: Vec<Vec<u8>>,
    pub half: Vec<u8>,
    /// fragments of handshake data, one record each
    pub frags: Vec<Vec<u8>>,
    pub frag_secure: bool,
    /// what the next transport calls do, byte-exact: n > 0: the next n bytes
    /// pass, 0: an interrupted call, -1: end of file (write: Ok(0)) for good,
    /// -2: an error for good, -3: an error once
    pub rsched: VecDeque<i64>,
    pub wsched: VecDeque<i64>,
    pub wstop: Option<i64>,
    pub wbytes: usize,
    /// the server's octets come as Waiting.tla releases them
    pub gate: Option<Gate>,
    /// written and not yet flushed, where the transport buffers
    pub hold: Option<Vec<u8>>,
}

/// a transport that blocks: what has been released, and what happened
#[derive(Default)]
pub struct Gate {
    /// releases still to come: whole elements, part of the next one
    pub plan: VecDeque<(usize, usize)>,
    pub log: Vec<J>,
    /// elements rendered: number, octets, how many of them are released
    pub ahead: VecDeque<(usize, Vec<u8>, usize)>,
    /// waited for something that never comes
    pub stuck: bool,
}

pub type Shared = Rc<RefCell<World>>;

pub struct Reader(pub Shared);
pub struct Writer(pub Shared);

impl io::Read for Reader {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        crate::sched::point(&self.0);
        self.0.borrow_mut().on_read(buf)
    }
}

impl io::Write for Writer {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        crate::sched::point(&self.0);
        self.0.borrow_mut().on_write(buf)
    }
    fn flush(&mut self) -> io::Result<()> {
        self.0.borrow_mut().on_flush();
        Ok(())
    }
}

pub fn err_kind(rng: &mut Rng) -> io::ErrorKind {
    use io::ErrorKind::*;
    *rng.pick(&[ConnectionReset, BrokenPipe, Other, TimedOut, UnexpectedEof, ConnectionAborted, WouldBlock, NotConnected, InvalidData, PermissionDenied])
}

/// an error of the transport: of any kind, with any text or none, or a
/// number of the operating system
pub fn io_err(rng: &mut Rng, kind: io::ErrorKind) -> io::Error {
    match rng.below(4) {
        0 => io::Error::from(kind),
        1 if kind != io::ErrorKind::Interrupted => {
            // ECONNRESET, ECONNABORTED, EPIPE, ETIMEDOUT, EAGAIN, ENOTCONN, EBADF, EIO, EHOSTUNREACH
            io::Error::from_raw_os_error(*rng.pick(&[104, 103, 32, 110, 11, 107, 9, 5, 113]))
        }
        2 => io::Error::new(kind, "transport failed"),
        _ => {
            let texts = ["", "reset", "connection reset by peer", "broken pipe", "timed out", "EOF", "unexpected end of file", "end of stream",
                "closed", "close_notify", "would block", "interrupted", "alert", "BadRecordMac", "try again", "failed to fill whole buffer"];
            io::Error::new(kind, *rng.pick(&texts))
        }
    }
}

type Pt = (BigUint, BigUint);

/// private keys with their public points: ordinary ones
fn pool() -> &'static Vec<(BigUint, Pt)> {
    static P: OnceLock<Vec<(BigUint, Pt)>> = OnceLock::new();
    P.get_or_init(|| {
        let mut r = Rng::new(0x5eed);
        (0..24)
            .map(|i| {
                let d = if i == 0 { &refc::p256().n - 1u32 } else { r.scalar() };
                let p = refc::mul(&d, &refc::p256().g).unwrap();
                (d, p)
            })
            .collect()
    })
}

/// private keys whose public points have leading zero bytes in x or y
fn lead0() -> &'static Vec<(BigUint, Pt)> {
    static P: OnceLock<Vec<(BigUint, Pt)>> = OnceLock::new();
    P.get_or_init(|| {
        let g = refc::p256().g.clone();
        let mut v = vec![];
        let mut d = BigUint::from(1u32);
        let mut q = Some(g.clone());
        let (mut nx, mut ny) = (0, 0);
        while nx < 2 || ny < 1 {
            let p = q.clone().unwrap();
            if p.0.bits() <= 248 && nx < 2 {
                nx += 1;
                v.push((d.clone(), p.clone()));
            } else if p.1.bits() <= 248 && ny < 1 {
                ny += 1;
                v.push((d.clone(), p.clone()));
            }
            q = refc::add(&q, &Some(g.clone()));
            d += 1u32;
        }
        v
    })
}

pub const SMALL_X: [(u64, &str); 4] = [
    (0, "66485c780e2f83d72433bd5d84a06bb6541c2af31dae871728bf856a174f93f4"),
    (5, "459243b9aa581806fe913bce99817ade11ca503c64d9a3c533415c083248fbcc"),
    (6, "36b24c2c54250ac2466985e533720047dcd102b80fe7c0e9220d5128828223cb"),
    (8, "b706288aca290db0d624d1d23f37f6a627249b16d631ff692242d085636041b3"),
];
pub const SMALL_Y: [(u64, &str); 4] = [
    (1, "6916fac45e568b6b9e2e2ecd611b282e5fcc40a3067d601057f879ce5a8a73cc"),
    (4, "b06686a59b4e8bbedd0e9275a9d9476d260626aa5367ec7b42f769a182121e22"),
    (5, "d7325d7646cd60d80a92738ceb345f844cffaf35841022cab176f692de8de1d7"),
    (6, "9b21c2de1da31d68731dbdaf97d7ab3f979131e28e3dc5b2077d5a7187914a78"),
];

pub fn hexnum(s: &str) -> BigUint {
    BigUint::parse_bytes(s.as_bytes(), 16).unwrap()
}

/// known alert descriptions (RFC 5246 and RFC 6066)
pub const ALERTS: [u8; 29] = [
    0, 10, 20, 21, 22, 30, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 60, 70, 71, 80, 90, 100, 110, 111, 112, 113, 114,
];

/// randoms that TLS 1.3 servers, downgraded servers and servers with a clock
/// or without entropy would send
fn shape_random(r: &mut [u8], k: usize) {
    const HRR: [u8; 32] = [
        0xcf, 0x21, 0xad, 0x74, 0xe5, 0x9a, 0x61, 0x11, 0xbe, 0x1d, 0x8c, 0x02, 0x1e, 0x65, 0xb8, 0x91, 0xc2, 0xa2, 0x11, 0x16, 0x7a,
        0xbb, 0x8c, 0x5e, 0x07, 0x9e, 0x09, 0xe2, 0xc8, 0xa8, 0x33, 0x9c,
    ];
    match k % 10 {
        0 | 1 => r[24..].copy_from_slice(b"DOWNGRD\x01"),
        2 => r[24..].copy_from_slice(b"DOWNGRD\x00"),
        3 => r.fill(0),
        4 => r.fill(0xff),
        5 => r.copy_from_slice(&HRR),
        6 => r[..4].fill(0),
        7 => r[..4].copy_from_slice(&[0x68, 0, 0, 0]),
        8 => r[28..].fill(0),
        _ => r[..28].fill(0),
    }
}

impl World {
    pub fn new(seed: u64, prm: J) -> Shared {
        let mut rng = Rng::new(seed);
        let mut srand = rng.bytes(32);
        // one in three with a shape that other protocol versions or careless
        // implementations give a meaning
        let shape = rng.next() % 3 == 0;
        if shape {
            shape_random(&mut srand, rng.next() as usize);
        }
        Rc::new(RefCell::new(World {
            rng,
            rmode: prm.get("rp").int(),
            eager: prm.get("eager").int() != 0,
            wmode: prm.get("wp").int(),
            rintr: prm.get("ri").int() == 1,
            wintr: prm.get("wi").int() == 1,
            rstorm: (if prm.get("ri").int() == 2 { 100_000 } else { 0 }, prm.get("rs").int()),
            wstorm: (if prm.get("wi").int() == 2 { 100_000 } else { 0 }, prm.get("ws").int()),
            prm,
            inbuf: VecDeque::new(),
            script: VecDeque::new(),
            on_empty: OnEmpty::Eof,
            dead: None,
            sticky_empty: true,
            once_err: false,
            event: 0,
            reads: 0,
            dead_reads: 0,
            delivered: 0,
            raw: vec![],
            cur: vec![],
            recs: vec![],
            wfault: None,
            wdead: false,
            wfault_hit: false,
            nrec_started: 0,
            nops: 0,
            wcalls: 0,
            flushes: 0,
            cv: vec![],
            sv: vec![],
            c_hs: vec![],
            crand: [vec![], vec![]],
            srand: [srand.clone(), srand],
            priv_c: None,
            priv_s: None,
            ckeys: None,
            skeys: None,
            client_ccs: false,
            client_seq: 0,
            server_seq: 0,
            cfin_cv: 0,
            cfin_body: vec![],
            open: None,
            offered: vec![],
            hello: vec![],
            notes: vec![],
            ctam: "none".into(),
            client_pub: vec![],
            crecs_hs: 0,
            sent_app: vec![],
            frozen: false,
            later: [vec![], vec![]],
            stream: vec![],
            srecs: vec![],
            half: vec![],
            frags: vec![],
            frag_secure: false,
            gate: None,
            hold: None,
            rsched: VecDeque::new(),
            wsched: VecDeque::new(),
            wstop: None,
            wbytes: 0,
        }))
    }

    // ------------------------------------------------------------ transport
    fn on_read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.reads += 1;
        if buf.is_empty() {
            return Ok(0);
        }
        if self.rstorm.0 > 0 && self.reads as i64 > self.rstorm.1 {
            self.rstorm.0 -= 1;
            return Err(io::Error::new(io::ErrorKind::Interrupted, "interrupted"));
        }
        if self.rintr && self.rng.chance(1, 3) {
            return Err(io::Error::new(io::ErrorKind::Interrupted, "interrupted"));
        }
        if self.gate.is_some() {
            while self.inbuf.is_empty() {
                if let Some(e) = self.wait() {
                    return Err(e);
                }
            }
        }
        let mut guard = 0;
        let eager = self.eager && self.gate.is_none();
        while (self.inbuf.is_empty() || eager) && self.dead.is_none() && !self.once_err {
            match self.script.pop_front() {
                Some(ev) => {
                    self.event += 1;
                    self.render_event(&ev);
                }
                None if self.sticky_empty => self.dead = Some(self.on_empty),
                None if self.inbuf.is_empty() => {
                    self.dead_reads += 1;
                    if self.dead_reads > 3000 {
                        panic!("{}", SPIN);
                    }
                    let k = err_kind(&mut self.rng);
                    return Err(io_err(&mut self.rng, k));
                }
                None => break,
            }
            guard += 1;
            assert!(guard < 10000, "harness: events without bytes");
        }
        if self.inbuf.is_empty() && self.once_err {
            self.once_err = false;
            let k = err_kind(&mut self.rng);
            return Err(io_err(&mut self.rng, k));
        }
        if self.inbuf.is_empty() {
            self.dead_reads += 1;
            if self.dead_reads > 3000 {
                panic!("{}", SPIN);
            }
            return match self.dead.unwrap() {
                OnEmpty::Eof => Ok(0),
                OnEmpty::Err(k) => Err(io_err(&mut self.rng, k)),
            };
        }
        let mut lim = usize::MAX;
        match self.rsched.front().cloned() {
            None => (),
            Some(0) => {
                self.rsched.pop_front();
                return Err(io::Error::new(io::ErrorKind::Interrupted, "interrupted"));
            }
            Some(-3) => {
                self.rsched.pop_front();
                let k = err_kind(&mut self.rng);
                return Err(io_err(&mut self.rng, k));
            }
            Some(x) if x < 0 => {
                let k = err_kind(&mut self.rng);
                self.dead = Some(if x == -1 { OnEmpty::Eof } else { OnEmpty::Err(k) });
                self.inbuf.clear();
                self.script.clear();
                self.dead_reads += 1;
                return if x == -1 { Ok(0) } else { Err(io_err(&mut self.rng, k)) };
            }
            Some(x) => lim = x as usize,
        }
        let n = buf.len().min(self.inbuf.len()).min(lim);
        let n = match self.rmode {
            0 => n,
            1 => 1,
            2 => self.rng.range(1, n),
            m => n.min(m as usize),
        };
        for (i, b) in self.inbuf.drain(..n).enumerate() {
            buf[i] = b
        }
        self.delivered += n as u64;
        if let Some(x) = self.rsched.front_mut() {
            *x -= n as i64;
            if *x == 0 {
                self.rsched.pop_front();
            }
        }
        Ok(n)
    }

    /// 1: the ClientHello has been seen, 2: the client's Finished too
    pub fn seen(&self) -> i64 {
        if !self.cfin_body.is_empty() { 2 } else if !self.crand[1].is_empty() { 1 } else { 0 }
    }

    /// the client waits: the next release of the plan
    fn wait(&mut self) -> Option<io::Error> {
        let seen = self.seen();
        let g = self.gate.as_mut().unwrap();
        if !g.stuck {
            g.log.push(J::obj(vec![("op", J::s("wait")), ("seen", J::Num(seen))]));
        }
        // what the server says next depends on what it has seen
        let next = g.plan.front().cloned().filter(|_| seen > 0 && !g.stuck);
        match next {
            Some((e, c)) => {
                g.plan.pop_front();
                self.release(e, c);
                None
            }
            None => {
                g.stuck = true;
                self.dead_reads += 1;
                if self.dead_reads > 3000 {
                    panic!("{}", SPIN);
                }
                Some(io::Error::new(io::ErrorKind::Other, "harness: nothing comes"))
            }
        }
    }

    /// e elements released whole, and the part c of the next one
    pub fn release(&mut self, e: usize, c: usize) {
        let upto = if c == 0 { e } else { e + 1 };
        while self.event < upto {
            let ev = self.script.pop_front().expect("harness: release");
            self.event += 1;
            let keep = std::mem::take(&mut self.inbuf);
            self.render_event(&ev);
            let bytes: Vec<u8> = std::mem::replace(&mut self.inbuf, keep).into();
            let n = self.event;
            self.gate.as_mut().unwrap().ahead.push_back((n, bytes, 0));
        }
        let seen = self.seen();
        let g = self.gate.as_mut().unwrap();
        for (n, bytes, done) in g.ahead.iter_mut() {
            let l = bytes.len();
            let to = if *n <= e { l } else {
                match c {
                    0 => 0,
                    1 => 1,
                    2 => 4,
                    3 => 5,
                    4 => 6,
                    5 => 5 + (l - 5) / 2,
                    _ => l - 1,
                }.min(l - 1)
            };
            if to > *done {
                self.inbuf.extend(&bytes[*done..to]);
                *done = to;
            }
        }
        g.ahead.retain(|(n, ..)| *n > e);
        g.log.push(J::obj(vec![("op", J::s("rel")), ("e", J::Num(e as i64)), ("c", J::Num(c as i64)), ("seen", J::Num(seen))]));
    }

    fn on_flush(&mut self) {
        self.flushes += 1;
        if let Some(h) = self.hold.as_mut() {
            for b in std::mem::take(h) {
                self.accept(b);
            }
        }
    }

    fn on_write(&mut self, buf: &[u8]) -> io::Result<usize> {
        self.wcalls += 1;
        if let Some(h) = self.hold.as_mut() {
            h.extend_from_slice(buf);
            return Ok(buf.len());
        }
        if buf.is_empty() {
            return Ok(0);
        }
        if self.wstorm.0 > 0 && self.wcalls as i64 > self.wstorm.1 {
            self.wstorm.0 -= 1;
            return Err(io::Error::new(io::ErrorKind::Interrupted, "interrupted"));
        }
        if self.wintr && self.rng.chance(1, 3) {
            return Err(io::Error::new(io::ErrorKind::Interrupted, "interrupted"));
        }
        let want = match self.wmode {
            0 => buf.len(),
            1 => 1,
            2 => self.rng.range(1, buf.len()),
            m => buf.len().min(m as usize),
        };
        let mut want = want;
        if let Some(x) = self.wstop.or(self.wsched.front().cloned()) {
            if x <= 0 {
                if self.wstop.is_none() {
                    self.wsched.pop_front();
                }
                if x == -1 || x == -2 {
                    self.wstop = Some(x);
                }
                if x == -3 {
                    // everything gets through, and an error is reported
                    for b in buf {
                        self.accept(*b);
                    }
                    self.wbytes += buf.len();
                }
                if x < 0 {
                    self.wfault_hit = true;
                }
                let k = err_kind(&mut self.rng);
                return match x {
                    0 => Err(io::Error::new(io::ErrorKind::Interrupted, "interrupted")),
                    -1 => Ok(0),
                    _ => Err(io_err(&mut self.rng, k)),
                };
            }
            want = want.min(x as usize);
        }
        let mut n = 0;
        while n < want {
            if self.wdead || self.fault_now() {
                if n > 0 {
                    break;
                }
                let f = self.wfault.clone().unwrap();
                if !self.wfault_hit {
                    self.wfault_hit = true;
                    self.drop_partial();
                }
                if !f.recover {
                    self.wdead = true;
                } else {
                    self.wfault = Some(WFault { rec: usize::MAX, ..f.clone() });
                }
                return match f.kind {
                    None => Ok(0),
                    Some(k) => Err(io_err(&mut self.rng, k)),
                };
            }
            self.accept(buf[n]);
            n += 1;
        }
        self.wbytes += n;
        if let Some(x) = self.wsched.front_mut() {
            *x -= n as i64;
            if *x == 0 {
                self.wsched.pop_front();
            }
        }
        Ok(n)
    }

    fn fault_now(&self) -> bool {
        match &self.wfault {
            None => false,
            Some(f) => {
                let idx = self.nrec_started + if self.cur.is_empty() { 1 } else { 0 };
                if idx != f.rec {
                    return false;
                }
                let off = self.cur.len() as i64;
                if f.off >= 0 {
                    off >= f.off || (off >= 5 && off == self.cur_total() as i64 - 1)
                } else {
                    off >= 5 && off == self.cur_total() as i64 - 1
                }
            }
        }
    }

    fn cur_total(&self) -> usize {
        5 + ((self.cur[3] as usize) << 8) + self.cur[4] as usize
    }

    /// a write failed: whatever part of a record was accepted is lost, and the
    /// record number it was sealed under is spent
    fn drop_partial(&mut self) {
        let cur = std::mem::take(&mut self.cur);
        if cur.is_empty() {
            self.nrec_started += 1;
        }
        let enc = self.client_ccs;
        let rec = CRec {
            event: self.event,
            typ: *cur.first().unwrap_or(&0),
            ver: (*cur.get(1).unwrap_or(&0), *cur.get(2).unwrap_or(&0)),
            enc,
            seq: None,
            frag: if cur.len() > 5 { cur[5..].to_vec() } else { vec![] },
            plain: None,
            partial: true,
        };
        if enc {
            self.client_seq += 1;
        }
        self.recs.push(rec);
    }

    fn accept(&mut self, b: u8) {
        self.raw.push(b);
        if self.cur.is_empty() {
            self.nrec_started += 1;
        }
        self.cur.push(b);
        if self.cur.len() >= 5 && self.cur.len() == self.cur_total() {
            let r = std::mem::take(&mut self.cur);
            self.client_record(r);
        }
    }

    // ------------------------------------------------------------ observing
    fn client_record(&mut self, r: Vec<u8>) {
        let typ = r[0];
        let ver = (r[1], r[2]);
        let frag = r[5..].to_vec();
        let mut rec = CRec { event: self.event, typ, ver, enc: self.client_ccs, seq: None, frag: frag.clone(), plain: None, partial: false };
        if !self.client_ccs {
            rec.plain = Some(frag.clone());
        } else {
            self.make_keys();
            if let Some(k) = self.ckeys.clone() {
                let want = self.client_seq;
                let mut tries = vec![want];
                // wrong record numbers are recognised to describe what happened
                for d in 1..4u64 {
                    tries.push(want.wrapping_add(d));
                    tries.push(want.wrapping_sub(d));
                }
                tries.push(0);
                for s in tries {
                    if frag.len() < 16 {
                        break;
                    }
                    let a = ad(s, typ, ver, frag.len() - 16);
                    if let Some(p) = refc::open(&k.cw_key, &nonce(&k.cw_iv, s), &a, &frag) {
                        rec.seq = Some(s);
                        rec.plain = Some(p);
                        break;
                    }
                }
            }
            self.client_seq = self.client_seq.wrapping_add(1);
        }
        if typ == 22 {
            if let Some(p) = rec.plain.clone() {
                self.client_hs(&p);
            }
        }
        if typ == 20 && rec.plain.as_deref() == Some(&[1][..]) && !self.client_ccs {
            self.client_ccs = true;
        }
        self.recs.push(rec);
    }

    fn client_hs(&mut self, p: &[u8]) {
        self.c_hs.extend_from_slice(p);
        while self.c_hs.len() >= 4 {
            let n = 4 + ((self.c_hs[1] as usize) << 16) + ((self.c_hs[2] as usize) << 8) + self.c_hs[3] as usize;
            if self.c_hs.len() < n {
                break;
            }
            let m: Vec<u8> = self.c_hs.drain(..n).collect();
            self.client_msg(m);
        }
    }

    fn client_msg(&mut self, m: Vec<u8>) {
        let mut s = m.clone(); // as the server receives it
        let off = self.prm.get("off").int() as usize;
        let mask = self.prm.get("mask").int_or(1) as u8;
        let pos = |len: usize| off % len;
        match m[0] {
            1 => {
                self.crand[0] = m.get(6..38).unwrap_or(&[]).to_vec();
                match self.ctam.as_str() {
                    "ch_rand" => s[6 + off % 32] ^= mask,
                    "ch_ext" => {
                        let i = if off % 2 == 0 { 4 + off / 2 % 2 } else { 38 + off / 2 % (m.len() - 38) };
                        s[i] ^= mask
                    }
                    "ch_any" => {
                        let i = pos(m.len());
                        s[i] ^= mask
                    }
                    _ => {}
                }
                self.crand[1] = s.get(6..38).unwrap_or(&[]).to_vec();
                self.offered = check_client_hello(&m);
                self.hello = m.clone();
            }
            16 => {
                self.client_pub = m[4..].to_vec();
                match self.ctam.as_str() {
                    "cke" => {
                        let q = self.rng.pick(pool()).1.clone();
                        s = hs_msg(16, &vec8(&refc::encode_point(&q)));
                    }
                    "cke_any" => {
                        let i = pos(m.len());
                        s[i] ^= mask;
                    }
                    _ => {}
                }
            }
            20 => {
                self.cfin_cv = self.cv.len();
                self.cfin_body = m[4..].to_vec();
                if self.ctam == "cfin" {
                    let i = pos(m.len());
                    s[i] ^= mask;
                }
            }
            _ => {}
        }
        self.cv.extend_from_slice(&m);
        self.sv.extend_from_slice(&s);
        if m[0] == 20 {
            let l = std::mem::take(&mut self.later);
            self.cv.extend_from_slice(&l[0]);
            self.sv.extend_from_slice(&l[1]);
        }
        if m[0] == 16 {
            self.make_keys();
        }
    }

    /// both views of the keys, once the client's public value is known
    fn make_keys(&mut self) {
        if self.ckeys.is_some() || self.client_pub.is_empty() {
            return;
        }
        let pt = |b: &[u8]| -> Option<Pt> {
            if b.len() == 66 && b[0] == 65 {
                refc::decode_point(&b[1..])
            } else {
                None
            }
        };
        let cp = match pt(&self.client_pub) {
            Some(p) => p,
            None => {
                self.notes.push("bad client public value".into());
                return;
            }
        };
        // the server takes the (valid) public value it received
        let mut sp = cp.clone();
        if self.ctam == "cke" {
            // last client message in sv
            let n = self.sv.len();
            if let Some(p) = pt(&self.sv[n - 66..]) {
                sp = p
            }
        }
        if let Some(d) = &self.priv_c {
            if let Some(x) = refc::mul(d, &cp) {
                self.ckeys = Some(if self.prm.get("ems").int() != 0 {
                    derive_ems(&refc::b32(&x.0), &self.cv, &self.crand[0], &self.srand[0])
                } else {
                    derive(&refc::b32(&x.0), &self.crand[0], &self.srand[0])
                });
            }
        }
        if let Some(d) = &self.priv_s {
            if self.priv_s == self.priv_c && sp == cp && self.crand[0] == self.crand[1] && self.srand[0] == self.srand[1] {
                self.skeys = self.ckeys.clone();
            } else if let Some(x) = refc::mul(d, &sp) {
                self.skeys = Some(derive(&refc::b32(&x.0), &self.crand[1], &self.srand[1]));
            }
        }
    }

    /// is the client Finished right, for the client's own view?
    pub fn client_fin_ok(&self) -> bool {
        match &self.ckeys {
            None => false,
            Some(k) => {
                let h = refc::sha256(&self.cv[..self.cfin_cv]);
                self.cfin_body == refc::prf(&k.master, "client finished", &h, 12)
            }
        }
    }

    pub fn client_pub_ok(&self) -> bool {
        self.client_pub.len() == 66 && self.client_pub[0] == 65 && refc::decode_point(&self.client_pub[1..]).is_some()
    }

    /// the abstract records the client wrote, by event
    pub fn abstract_recs(&self) -> Vec<J> {
        let mut out = vec![];
        for r in self.recs.iter().filter(|r| !r.partial) {
            let p = r.plain.clone();
            let mut ok = r.ver == (3, 3) && p.is_some();
            let mut desc = 0i64;
            let mut hs = vec![];
            let t = match (r.typ, &p) {
                (20, Some(p)) => {
                    ok &= p == &[1];
                    "ccs".to_string()
                }
                (21, Some(p)) => {
                    ok &= p.len() == 2;
                    desc = *p.get(1).unwrap_or(&255) as i64;
                    ok &= p.first() == Some(&2);
                    "alert".into()
                }
                (22, Some(p)) => {
                    // whole messages expected, one per record
                    ok &= p.len() >= 4 && 4 + ((p[1] as usize) << 16) + ((p[2] as usize) << 8) + p[3] as usize == p.len();
                    match p.first() {
                        Some(1) => {
                            ok &= self.offered.is_empty();
                            "ch".into()
                        }
                        Some(16) => {
                            ok &= self.client_pub_ok();
                            "cke".into()
                        }
                        Some(20) => {
                            ok &= self.client_fin_ok();
                            "fin".into()
                        }
                        Some(x) => format!("hs{}", x),
                        None => "hs-empty".into(),
                    }
                }
                (23, Some(_)) => "app".into(),
                (t, Some(_)) => format!("type{}", t),
                (t, None) => format!("unopenable{}", t),
            };
            if r.enc && r.seq != Some(self.expected_seq(r)) {
                ok = false;
            }
            hs.push(("t", J::s(&t)));
            hs.push(("enc", J::Bool(r.enc)));
            hs.push(("desc", J::Num(desc)));
            hs.push(("ok", J::Bool(ok)));
            hs.push(("ev", J::Num(r.event as i64)));
            out.push(J::obj(hs));
        }
        out
    }

    /// number of protected records started before this one
    fn expected_seq(&self, r: &CRec) -> u64 {
        let me = r as *const CRec;
        let mut n = 0;
        for x in &self.recs {
            if x as *const CRec == me {
                break;
            }
            if x.enc {
                n += 1
            }
        }
        n
    }

    // ------------------------------------------------------------ server side
    fn plain_record(&mut self, typ: u8, p: &[u8]) {
        self.inbuf.extend([typ, 3, 3, (p.len() >> 8) as u8, p.len() as u8]);
        self.inbuf.extend(p);
    }

    pub fn keys_or_dummy(&self) -> Keys {
        self.skeys.clone().unwrap_or_else(|| derive(&[0; 32], &[1; 32], &[2; 32]))
    }

    pub fn put(&mut self, typ: u8, ver: (u8, u8), frag: &[u8]) {
        self.inbuf.extend([typ, ver.0, ver.1, (frag.len() >> 8) as u8, frag.len() as u8]);
        self.inbuf.extend(frag);
    }

    /// a protected record, possibly damaged in a particular way
    /// the peer of a bare TlsReader or TlsWriter: keys without a handshake
    pub fn bare(&mut self) {
        let (a, b, c) = (self.rng.bytes(32), self.rng.bytes(32), self.rng.bytes(32));
        let k = derive(&a, &b, &c);
        self.ckeys = Some(k.clone());
        self.skeys = Some(k);
        self.server_seq = 0;
        self.client_seq = 0;
    }

    pub fn seal_put(&mut self, typ: u8, p: &[u8], prot: &str) {
        let k = self.keys_or_dummy();
        let seq = self.server_seq;
        let v = (3u8, 3u8);
        let n = nonce(&k.sw_iv, seq);
        let a = ad(seq, typ, v, p.len());
        self.server_seq = self.server_seq.wrapping_add(1);
        let good = refc::seal(&k.sw_key, &n, &a, p);
        let mut whole = vec![typ, 3, 3, (good.len() >> 8) as u8, good.len() as u8];
        whole.extend_from_slice(&good);
        if p.len() < 1 << 15 && prot == "good" {
            self.srecs.push(whole);
        }
        let off = self.prm.get("off").int() as usize;
        let mask = self.prm.get("mask").int_or(0) as u8;
        let mask = if mask == 0 { 1u8 << self.rng.below(8) } else { mask };
        let swept = !self.prm.get("off").is_null();
        match prot {
            "good" => self.put(typ, v, &good),
            "plain" => self.put(typ, v, p),
            "badtag" => {
                let mut g = good;
                let l = g.len();
                let i = if swept { off % 16 } else { self.rng.below(16) };
                g[l - 16 + i] ^= mask;
                self.put(typ, v, &g)
            }
            "flip" => {
                let mut g = good;
                let l = g.len() - 16;
                let i = if l == 0 { self.rng.below(16) } else if swept { off % l } else { self.rng.below(l) };
                g[i] ^= mask;
                self.put(typ, v, &g)
            }
            "badseq" => {
                let s = match self.rng.below(5) {
                    0 => seq.wrapping_add(1),
                    1 => seq.wrapping_sub(1),
                    2 => seq.wrapping_add(256),
                    3 => seq ^ (1 << 63),
                    _ => seq ^ (1 << self.rng.range(8, 62)),
                };
                let g = refc::seal(&k.sw_key, &nonce(&k.sw_iv, s), &ad(s, typ, v, p.len()), p);
                self.put(typ, v, &g)
            }
            "badnonce" => {
                // right additional data, wrong nonce (or the other way round)
                let s = seq.wrapping_add(1);
                let g = if self.rng.chance(1, 2) {
                    refc::seal(&k.sw_key, &nonce(&k.sw_iv, s), &a, p)
                } else {
                    refc::seal(&k.sw_key, &n, &ad(s, typ, v, p.len()), p)
                };
                self.put(typ, v, &g)
            }
            "noiv" => {
                let g = refc::seal(&k.sw_key, &nonce(&[0; 12], seq), &a, p);
                self.put(typ, v, &g)
            }
            "badkey" => {
                let g = match self.rng.below(3) {
                    0 => refc::seal(&k.cw_key, &nonce(&k.cw_iv, seq), &a, p),
                    1 => refc::seal(&[0; 32], &n, &a, p),
                    _ => {
                        let mut kk = k.sw_key.clone();
                        let i = self.rng.below(32);
                        kk[i] ^= mask;
                        refc::seal(&kk, &n, &a, p)
                    }
                };
                self.put(typ, v, &g)
            }
            "badtype" => {
                let other = loop {
                    let t = *self.rng.pick(&[20u8, 21, 22, 23]);
                    if t != typ {
                        break t;
                    }
                };
                let g = refc::seal(&k.sw_key, &n, &ad(seq, other, v, p.len()), p);
                self.put(typ, v, &g)
            }
            "badver" => {
                let w = *self.rng.pick(&[(3u8, 1u8), (3, 2), (3, 4), (0, 0), (3, 0), (2, 3), (254, 253)]);
                if self.rng.chance(1, 2) {
                    // header changed in transit
                    self.put(typ, w, &good)
                } else {
                    let g = refc::seal(&k.sw_key, &n, &ad(seq, typ, w, p.len()), p);
                    self.put(typ, v, &g)
                }
            }
            "badlen" => {
                let l = if self.rng.chance(1, 2) { p.len() + 1 } else { p.len() + 16 };
                let g = refc::seal(&k.sw_key, &n, &ad(seq, typ, v, l), p);
                self.put(typ, v, &g)
            }
            "trunc" => {
                let mut g = good;
                let cut = if p.is_empty() { 1 } else { self.rng.range(1, p.len()) };
                let l = g.len();
                if self.rng.chance(1, 2) {
                    g.truncate(l - cut); // from the end
                } else if p.is_empty() {
                    g.remove(0);
                } else {
                    g.drain(l - 16 - cut..l - 16); // ciphertext bytes, tag kept
                }
                self.put(typ, v, &g)
            }
            "extend" => {
                let mut g = good;
                let x = self.rng.range(1, 17);
                let b = self.rng.bytes(x);
                if self.rng.chance(1, 2) {
                    g.extend_from_slice(&b);
                } else {
                    let l = g.len() - 16;
                    let t = g.split_off(l);
                    g.extend_from_slice(&b);
                    g.extend_from_slice(&t);
                }
                if g.len() > (1 << 14) + 2048 {
                    g.truncate((1 << 14) + 2048);
                }
                self.put(typ, v, &g)
            }
            "short" => {
                let n = if swept { off % 16 } else { self.rng.below(16) };
                self.put(typ, v, &good[..n.min(good.len())].to_vec())
            }
            "random" => {
                let n = self.rng.range(16, 80);
                let g = self.rng.bytes(n);
                self.put(typ, v, &g)
            }
            _ => panic!("harness: prot {}", prot),
        }
    }

    pub fn send(&mut self, typ: u8, p: &[u8], prot: &str, secure: bool) {
        if secure {
            self.seal_put(typ, p, prot)
        } else {
            self.plain_record(typ, p)
        }
    }

    /// one scripted event of a handshake test
    pub fn render_event(&mut self, ev: &J) {
        let op = ev.get("op").str().to_string();
        if self.session_event(ev, &op) {
            return;
        }
        let prot = ev.get("prot").str().to_string();
        let secure = ev.get("rx").bool();
        let chunk = self.prm.get("frag").int_or(0) as usize;
        if op == "hs" {
            let mut p = vec![];
            for pc in ev.get("pieces").arr() {
                p.extend(self.piece(pc));
            }
            let max = if chunk > 0 { chunk } else { 1 << 14 };
            // more than fits into one record goes into several
            let cs: Vec<Vec<u8>> = p.chunks(max).map(|c| c.to_vec()).collect();
            for c in cs {
                self.send(22, &c, &prot, secure);
            }
            return;
        }
        let alert = |w: &mut World, nz: bool| loop {
            let d = w.prm.get("al").int();
            if d != 0 {
                break d as u8;
            }
            let d = *w.rng.pick(&ALERTS);
            if !nz || d != 0 {
                break d;
            }
        };
        let (t, p): (u8, Vec<u8>) = match op.as_str() {
            "ccs_ok" => (20, vec![1]),
            "ccs_0" => (20, vec![0]),
            "ccs_2" => (20, vec![self.rng.range(2, 255) as u8]),
            "ccs_empty" => (20, vec![]),
            "ccs_long" => (20, vec![1, *self.rng.pick(&[1u8, 0, 2])]),
            "al_close_w" => (21, vec![1, 0]),
            "al_close_f" => (21, vec![2, 0]),
            "al_warn" => (21, vec![1, alert(self, true)]),
            "al_fatal" => (21, vec![2, alert(self, true)]),
            "al_three" => (21, vec![2, alert(self, false), self.rng.next() as u8]),
            "al_empty" => (21, vec![]),
            "al_one" => (21, vec![*self.rng.pick(&[1u8, 2])]),
            "al_level" => (21, vec![*self.rng.pick(&[0u8, 3, 4, 255]), alert(self, false)]),
            "al_desc" => (21, vec![*self.rng.pick(&[1u8, 2]), *self.rng.pick(&[1u8, 2, 9, 11, 19, 52, 79, 115, 255])]),
            "app" => {
                let n = self.rng.range(1, 64);
                (23, self.rng.bytes(n))
            }
            "app_empty" => (23, vec![]),
            "hs_empty" => (22, vec![]),
            "over" => {
                let max = if secure { (1 << 14) + 2032 } else { (1 << 14) + 2048 };
                let n = *self.rng.pick(&[(1 << 14) + 1, (1 << 14) + 2, max]);
                // leave room for bytes added by the protection
                let n = if prot == "extend" { (1 << 14) + 1 } else { n };
                let t = *self.rng.pick(&[20u8, 21, 22, 23]);
                (t, vec![1; n])
            }
            "unk_type" => {
                let t = loop {
                    let t = self.rng.next() as u8;
                    if !(20..=23).contains(&t) {
                        break t;
                    }
                };
                let t = if self.rng.chance(1, 3) { *self.rng.pick(&[0u8, 19, 24, 25, 255, 128]) } else { t };
                let n = self.rng.below(40);
                (t, self.rng.bytes(n))
            }
            "len_over" => {
                let l = *self.rng.pick(&[(1 << 14) + 2049, (1 << 14) + 2050, 40000, 65535usize]);
                let t = *self.rng.pick(&[20u8, 21, 22, 23]);
                self.inbuf.extend([t, 3, 3, (l >> 8) as u8, l as u8]);
                // all of it is there, should the client want to read on
                self.inbuf.extend(std::iter::repeat(0u8).take(l));
                return;
            }
            "eof" => {
                self.dead = Some(OnEmpty::Eof);
                return;
            }
            "eof_mid" => {
                let full: [u8; 30] = [22, 3, 3, 0, 25, 2, 0, 0, 21, 3, 3, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0];
                let n = self.rng.range(1, 29);
                self.inbuf.extend(&full[..n]);
                self.dead = Some(OnEmpty::Eof);
                return;
            }
            "ioerr" => {
                let k = err_kind(&mut self.rng);
                self.dead = Some(OnEmpty::Err(k));
                return;
            }
            x => panic!("harness: op {}", x),
        };
        self.send(t, &p, &prot, secure);
    }

    /// events of Session.tla; false: not one of these
    fn session_event(&mut self, ev: &J, op: &str) -> bool {
        let a = ev.get("a").int() as usize;
        let b = ev.get("b").int() as usize;
        let s = ev.get("s").str().to_string();
        match op {
            "send" => {
                let d = self.rng.bytes(a);
                self.stream.extend_from_slice(&d);
                // an empty record says nothing, nor do many
                let n = if a == 0 { self.prm.get("empties").int().max(1) } else { 1 };
                for _ in 0..n {
                    self.seal_put(23, &d, "good");
                }
            }
            "drop" => {
                let d = self.rng.bytes(a);
                self.stream.extend_from_slice(&d);
                let n = self.inbuf.len();
                self.seal_put(23, &d, "good");
                self.inbuf.truncate(n);
            }
            "swap" => {
                let n = self.inbuf.len();
                let d = self.rng.bytes(a + b);
                self.stream.extend_from_slice(&d);
                self.seal_put(23, &d[..a], "good");
                let first: Vec<u8> = self.inbuf.drain(n..).collect();
                self.seal_put(23, &d[a..], "good");
                self.inbuf.extend(first);
            }
            "replay" => {
                let r = self.srecs[a].clone();
                self.inbuf.extend(r);
            }
            "reflect" => {
                let r: Vec<CRec> = self.recs.iter().filter(|r| r.enc && !r.partial).cloned().collect();
                let r = self.rng.pick(&r).clone();
                self.put(r.typ, r.ver, &r.frag);
            }
            "forge" => {
                let n = *self.rng.pick(&[0usize, 1, 2, 15, 16, 17, 63, 64, 65, 200]);
                let n = if s == "flip" && n == 0 { 1 } else { n };
                let d = self.rng.bytes(n);
                let t = *self.rng.pick(&[23u8, 23, 23, 21, 22, 20]);
                if s == "byte" {
                    // any byte of the record, its header included
                    let n = self.prm.get("fn").int_or(9) as usize;
                    let d = self.rng.bytes(n);
                    let from = self.inbuf.len();
                    self.seal_put(23, &d, "good");
                    let l = self.inbuf.len() - from;
                    let i = self.prm.get("off").int() as usize % l;
                    self.inbuf[from + i] ^= self.prm.get("mask").int_or(1) as u8;
                    if a == 1 {
                        self.server_seq = self.server_seq.wrapping_sub(1);
                    }
                    return true;
                }
                let seq = self.server_seq;
                self.seal_put(t, &d, &s);
                if a == 1 {
                    // put in front of the peer's next record
                    self.server_seq = seq;
                }
            }
            "cut" | "errmid" => {
                let d = self.rng.bytes(a);
                self.stream.extend_from_slice(&d);
                let n = self.inbuf.len();
                self.seal_put(23, &d, "good");
                let l = self.inbuf.len() - n;
                let keep = match self.prm.get("keep").int_or(-1) {
                    -1 => self.rng.range(1, l - 1),
                    k if k < 0 => l - 1,
                    k => (k as usize).clamp(1, l - 1),
                };
                if op == "cut" {
                    self.inbuf.truncate(n + keep);
                    self.dead = Some(OnEmpty::Eof);
                } else {
                    // the rest is still delivered later on
                    self.half = self.inbuf.drain(n + keep..).collect();
                    self.once_err = true;
                    self.script.push_front(crate::json::parse("{\"op\":\"half\"}"));
                }
            }
            "half" => {
                let h = std::mem::take(&mut self.half);
                self.inbuf.extend(h);
            }
            "err" => self.once_err = true,
            "junk" => self.junk(&s, ev.get("rx").bool()),
            "frag" => {
                let f = self.frags[a].clone();
                let sec = self.frag_secure;
                self.send(22, &f, "good", sec);
            }
            "auth" => {
                let alias = ["hello_req", "client_hello", "cert_one", "sh_ok", "fin_ok", "shd_ok", "unk_4", "unk_255", "hreq_trail", "sh_trunc", "fin_short"];
                let e = if s == "hs_first" || s == "hs_rest" {
                    let m = if s == "hs_first" { *self.rng.pick(&["hello_req", "cert_one", "sh_ok", "fin_ok", "unk_4"]) } else { "" };
                    format!("{{\"op\":\"hs\",\"prot\":\"good\",\"rx\":true,\"pieces\":[{{\"m\":\"{}\",\"part\":\"{}\",\"tam\":\"same\"}}]}}", m, &s[3..])
                } else if alias.contains(&s.as_str()) {
                    format!("{{\"op\":\"hs\",\"prot\":\"good\",\"rx\":true,\"pieces\":[{{\"m\":\"{}\",\"part\":\"all\",\"tam\":\"same\"}}]}}", s)
                } else {
                    format!("{{\"op\":\"{}\",\"prot\":\"good\",\"rx\":true,\"pieces\":[]}}", s)
                };
                self.render_event(&crate::json::parse(&e));
            }
            _ => return false,
        }
        true
    }

    /// a few arbitrary changes to a handshake message; often its length field
    /// is made right again
    fn mutate(&mut self, d: &mut Vec<u8>) {
        let edits = self.rng.range(1, 3);
        for _ in 0..edits {
            let l = d.len();
            let i = if self.rng.chance(1, 2) { self.rng.below(l.min(48)) } else { self.rng.below(l) };
            match self.rng.below(8) {
                0 => d[i] = self.rng.next() as u8,
                1 => d[i] ^= 1 << self.rng.below(8),
                2 => d[i] = *self.rng.pick(&[0u8, 1, 0x7f, 0x80, 0xff, 0xfe]),
                3 => {
                    d.remove(i);
                }
                4 => {
                    let x = self.rng.next() as u8;
                    d.insert(i, x)
                }
                5 => d.truncate(i.max(1)),
                6 => {
                    let n = self.rng.range(1, 300);
                    let x = self.rng.bytes(n);
                    d.extend(x)
                }
                _ => {
                    let n = self.rng.range(1, 4).min(l - i);
                    for k in 0..n {
                        d[i + k] = if self.rng.chance(1, 2) { 0 } else { 0xff }
                    }
                }
            }
            if d.is_empty() {
                d.push(0)
            }
        }
        if d.len() >= 4 && self.rng.chance(3, 4) {
            let l = d.len() - 4;
            d[1] = (l >> 16) as u8;
            d[2] = (l >> 8) as u8;
            d[3] = l as u8;
        }
        if d.is_empty() {
            d.push(22)
        }
    }

    /// something that is no part of a good flight
    fn junk(&mut self, kind: &str, secure: bool) {
        let types = [20u8, 21, 22, 22, 22, 23];
        let hs = [0u8, 1, 2, 11, 12, 13, 14, 16, 20];
        match kind {
            "raw" => {
                let n = *self.rng.pick(&[1usize, 2, 4, 5, 6, 20, 300, 5000]);
                let b = self.rng.bytes(n);
                self.inbuf.extend(b);
            }
            // a record with a random header length and version, unsealed
            "rawrec" => {
                let t = *self.rng.pick(&types);
                let n = *self.rng.pick(&[0usize, 1, 2, 3, 4, 15, 16, 17, 31, 200, 16384, 16385, 18432, 18433]);
                let v = (self.rng.next() as u8, self.rng.next() as u8);
                let b = self.rng.bytes(n);
                self.put(t, v, &b);
            }
            // authentic record of random content
            "rec" => {
                let t = *self.rng.pick(&types);
                let n = *self.rng.pick(&[0usize, 1, 2, 3, 4, 5, 12, 16, 200, 16384]);
                let mut b = self.rng.bytes(n);
                if t == 21 && n > 1 && self.rng.chance(1, 2) {
                    b[0] = self.rng.range(0, 3) as u8;
                }
                self.send(t, &b, "good", secure);
            }
            "oversize" => {
                let t = *self.rng.pick(&types);
                let n = *self.rng.pick(&[16385usize, 16386, 16400, 18416, 18432]);
                let n = if secure { n.min(18432 - 16) } else { n };
                let b = self.rng.bytes(n);
                self.send(t, &b, "good", secure);
            }
            // handshake message of a known type, random body
            "hsrand" => {
                let t = *self.rng.pick(&hs);
                let n = *self.rng.pick(&[0usize, 1, 2, 3, 4, 12, 38, 70, 145, 600]);
                let mut b = self.rng.bytes(n);
                for x in b.iter_mut() {
                    if self.rng.chance(1, 3) {
                        *x = *self.rng.pick(&[0u8, 1, 3, 255]);
                    }
                }
                self.send(22, &hs_msg(t, &b), "good", secure);
            }
            // a handshake header announcing more than will come
            "hslen" => {
                let t = *self.rng.pick(&hs);
                let h = match self.rng.below(3) {
                    0 => vec![t, 0xff, 0xff, 0xff],
                    1 => vec![t, 0x01, 0x00, 0x00],
                    _ => vec![t, 0x00, 0xff, 0xff],
                };
                self.send(22, &h, "good", secure);
                for _ in 0..self.rng.range(0, 3) {
                    let b = self.rng.bytes(16384);
                    self.send(22, &b, "good", secure);
                }
            }
            // a ServerKeyExchange with a random curve and point of any length
            "ske" => {
                let n = *self.rng.pick(&[1usize, 2, 31, 32, 33, 64, 65, 66, 129, 255]);
                let mut p = self.rng.bytes(n);
                p[0] = *self.rng.pick(&[0u8, 2, 3, 4, 4, 4, 4, 5, 6, 7]);
                let c = *self.rng.pick(&[23u16, 23, 23, 22, 24, 1, 0xff01, 0xff02, 0]);
                let b = self.ske(3, c, &p, 4, 1, 64);
                self.send(22, &hs_msg(12, &b), "good", secure);
            }
            "fragments" => {
                let b = self.rng.bytes(300);
                let m = hs_msg(*self.rng.pick(&hs), &b);
                for x in m {
                    self.send(22, &[x], "good", secure);
                }
            }
            // very many empty records
            "empties" => {
                let n = if secure { 2000 } else { 20000 };
                let t = *self.rng.pick(&[23u8, 23, 22, 21, 20]);
                for _ in 0..n {
                    self.send(t, &[], "good", secure);
                }
            }
            // so many tiny or empty records that a call frame for each would
            // not fit on any stack
            "deepapp" => {
                for _ in 0..60000 {
                    self.send(23, &[], "good", secure);
                }
            }
            "deephs" => {
                let b = self.rng.bytes(60000);
                let m = hs_msg(*self.rng.pick(&hs), &b);
                for x in m {
                    self.send(22, &[x], "good", secure);
                }
            }
            "manyapp" => {
                for i in 0..600usize {
                    let b = vec![i as u8; i % 3];
                    self.send(23, &b, "good", secure);
                }
            }
            "warnings" => {
                for _ in 0..200 {
                    let d = *self.rng.pick(&ALERTS);
                    self.send(21, &[1, d], "good", secure);
                }
            }
            "hreqs" => {
                let m: Vec<u8> = (0..50).flat_map(|_| hs_msg(0, &[])).collect();
                self.send(22, &m, "good", secure);
            }
            x => panic!("harness: junk {}", x),
        }
    }

    /// bytes of one piece of a handshake record
    fn piece(&mut self, pc: &J) -> Vec<u8> {
        let m = pc.get("m").str().to_string();
        let part = pc.get("part").str().to_string();
        let tam = pc.get("tam").str().to_string();
        if part == "all" {
            let (sent, deliv) = self.message(&m, &tam);
            self.server_msg(&sent, &deliv);
            return deliv;
        }
        if part == "first" {
            let (sent, deliv) = self.message(&m, &tam);
            let n = deliv.len();
            let cut = self.prm.get("cut").int_or(-1);
            let c = match cut {
                -1 => self.rng.range(1, n - 1),
                -2 => n - 1,
                -3 => 4.min(n - 1),
                c => (c as usize).clamp(1, n - 1),
            };
            // leave room for a "more" piece
            let c = c.min(n - 2).max(1);
            self.open = Some((crate::json::hex(&sent), deliv.clone(), c));
            return deliv[..c].to_vec();
        }
        let (sent, deliv, pos) = self.open.clone().expect("harness: no open message");
        let n = deliv.len();
        if part == "more" {
            let c = if pos + 1 < n - 1 { self.rng.range(pos + 1, n - 1) } else { n - 1 };
            let c = if self.rng.chance(1, 3) { pos + 1 } else { c }.min(n - 1);
            self.open = Some((sent, deliv.clone(), c));
            return deliv[pos..c].to_vec();
        }
        self.open = None;
        let sent = crate::json::unhex(&sent);
        self.server_msg(&sent, &deliv);
        deliv[pos..].to_vec()
    }

    /// a server message is complete
    fn server_msg(&mut self, sent: &[u8], deliv: &[u8]) {
        if self.frozen && self.cfin_body.is_empty() {
            self.later[0].extend_from_slice(deliv);
            self.later[1].extend_from_slice(sent);
            return;
        }
        self.cv.extend_from_slice(deliv);
        self.sv.extend_from_slice(sent);
        if deliv[0] == 14 {
            self.frozen = true;
        }
    }

    fn keypair(&mut self) -> (BigUint, Pt) {
        self.rng.pick(pool()).clone()
    }

    /// (as sent by the server, as delivered to the client)
    fn message(&mut self, m: &str, tam: &str) -> (Vec<u8>, Vec<u8>) {
        let off = self.prm.get("off").int() as usize;
        let mask = match self.prm.get("mask").int_or(0) as u8 {
            0 => 1u8 << self.rng.below(8),
            m => m,
        };
        let swept = !self.prm.get("off").is_null();
        let sent = self.render(m);
        let mut d = sent.clone();
        match tam {
            "" | "same" => {}
            "any" => {
                let i = if swept { off % d.len() } else { self.rng.below(d.len()) };
                d[i] ^= mask;
                if !self.frozen && d[0] == 2 && d.len() >= 38 {
                    self.srand[0] = d[6..38].to_vec();
                }
            }
            "mut" => {
                let lie = self.prm.get("lie").arr().iter().map(|x| x.int() as usize).collect::<Vec<_>>();
                match lie[..] {
                    // a value in place of what is there, the message's length made right
                    [at, width, val] => {
                        for k in 0..width {
                            if at + k < d.len() {
                                d[at + k] = (val >> (8 * (width - 1 - k))) as u8;
                            }
                        }
                    }
                    _ => self.mutate(&mut d),
                }
                if !self.frozen && d.first() == Some(&2) && d.len() >= 38 {
                    self.srand[0] = d[6..38].to_vec();
                    self.srand[1] = self.srand[0].clone();
                }
                return (d.clone(), d);
            }
            "soft" => {
                let l = d.len();
                match m {
                    "sh_ok" => {
                        // a byte of the session id or of an unknown extension's data
                        let i = if self.rng.chance(1, 2) { 39 + self.rng.below(32) } else { l - 1 };
                        d[i] ^= mask
                    }
                    "cert_one" => {
                        let i = self.rng.range(10, l - 1);
                        d[i] ^= mask
                    }
                    "ske_ok" => {
                        let i = self.rng.range(l - 32, l - 1);
                        d[i] ^= mask
                    }
                    _ => panic!("harness: soft {}", m),
                }
            }
            "keys" => match m {
                "sh_ok" => {
                    let i = 6 + self.rng.below(32);
                    d[i] ^= mask;
                    if !self.frozen {
                        self.srand[0] = d[6..38].to_vec();
                    }
                }
                "ske_ok" => {
                    let (k, q) = loop {
                        let kp = self.keypair();
                        if Some(&kp.0) != self.priv_s.as_ref() {
                            break kp;
                        }
                    };
                    let e = refc::encode_point(&q);
                    d[8..8 + 65].copy_from_slice(&e);
                    if !self.frozen {
                        self.priv_c = Some(k);
                    }
                }
                _ => panic!("harness: keys {}", m),
            },
            t => panic!("harness: tamper {}", t),
        }
        (sent, d)
    }

    fn server_hello(&mut self, ver: u16, cs: u16, comp: u8, sid: usize, ext: Option<Vec<u8>>) -> Vec<u8> {
        let mut b = ver.to_be_bytes().to_vec();
        b.extend_from_slice(&self.srand[1].clone());
        let mut s = self.rng.bytes(sid);
        match self.rng.next() % 8 {
            0 => s.fill(0),
            1 => s.fill(0xff),
            2 => s.iter_mut().zip(&self.srand[1]).for_each(|(a, b)| *a = *b),
            _ => {}
        }
        b.extend(vec8(&s));
        b.extend_from_slice(&cs.to_be_bytes());
        b.push(comp);
        if let Some(e) = ext {
            b.extend(vec16(&e));
        }
        b
    }

    fn exts(&mut self) -> Vec<u8> {
        // ec_point_formats, then an extension husk does not know whose last
        // byte may take any value
        let mut e = vec![0, 11, 0, 2, 1, 0];
        let b = self.rng.bytes(6);
        e.extend([0xfa, 0xce]);
        e.extend(vec16(&b));
        e
    }

    fn ske(&mut self, ctype: u8, curve: u16, pt: &[u8], hash: u8, sig: u8, siglen: usize) -> Vec<u8> {
        let mut b = vec![ctype];
        b.extend_from_slice(&curve.to_be_bytes());
        b.extend(vec8(pt));
        b.extend([hash, sig]);
        let s = self.rng.bytes(siglen);
        b.extend(vec16(&s));
        b
    }

    fn with_key(&mut self, kp: (BigUint, Pt)) -> Vec<u8> {
        if !self.frozen {
            self.priv_c = Some(kp.0.clone());
            self.priv_s = Some(kp.0);
        }
        refc::encode_point(&kp.1)
    }

    pub fn bad_point(&mut self, kind: &str) -> Vec<u8> {
        let c = refc::p256();
        let good = self.rng.pick(pool()).1.clone();
        let e = refc::encode_point(&good);
        let un = |x: &BigUint, y: &BigUint| {
            let mut v = vec![4];
            v.extend_from_slice(&refc::b32(x));
            v.extend_from_slice(&refc::b32(y));
            v
        };
        match kind {
            "off" => loop {
                let mut r = vec![4];
                r.extend(self.rng.bytes(64));
                r[1] &= 0x7f;
                r[33] &= 0x7f;
                if refc::decode_point(&r).is_none() {
                    break r;
                }
            },
            "comp" => {
                let mut v = vec![2 + (&good.1 % 2u32 == BigUint::from(1u32)) as u8];
                v.extend_from_slice(&refc::b32(&good.0));
                v
            }
            "short" => {
                let n = *self.rng.pick(&[64usize, 63, 33, 32, 1, 2]);
                e[..n].to_vec()
            }
            "long" => {
                let mut v = e;
                let n = *self.rng.pick(&[1usize, 2, 64, 190]);
                v.extend(self.rng.bytes(n));
                v
            }
            "fmt2" => {
                let mut v = e;
                v[0] = 2;
                v
            }
            "fmt6" => {
                let mut v = e;
                v[0] = 6 + (v[64] & 1);
                v
            }
            "fmt0" => {
                let mut v = e;
                v[0] = *self.rng.pick(&[0u8, 1, 3, 5, 0x84, 255]);
                v
            }
            "zero" => un(&BigUint::from(0u32), &BigUint::from(0u32)),
            "inf" => vec![*self.rng.pick(&[0u8, 4])],
            "xp" => {
                let (x, y) = *self.rng.pick(&SMALL_X);
                un(&(BigUint::from(x) + &c.p), &hexnum(y))
            }
            "yp" => {
                let (y, x) = *self.rng.pick(&SMALL_Y);
                un(&hexnum(x), &(BigUint::from(y) + &c.p))
            }
            "max" => {
                let mut v = vec![0xff; 65];
                v[0] = 4;
                v
            }
            "neg" => {
                let mut y = good.1.clone();
                y += 1u32;
                un(&good.0, &y)
            }
            "b" => {
                let bb = &c.b + 1u32;
                let mut x = BigUint::from_bytes_be(&self.rng.bytes(31));
                loop {
                    if let Some(y) = refc::lift_x(&x, &bb) {
                        break un(&x, &y);
                    }
                    x += 1u32;
                }
            }
            _ => panic!("harness: point {}", kind),
        }
    }

    fn verify_data(&self, label: &str, upto: usize) -> Vec<u8> {
        match &self.skeys {
            None => vec![0x55; 12],
            Some(k) => {
                let h = refc::sha256(&self.sv[..upto.min(self.sv.len())]);
                refc::prf(&k.master, label, &h, 12)
            }
        }
    }

    fn certs(&mut self, lens: &[usize]) -> Vec<u8> {
        let mut l = vec![];
        for n in lens {
            let c = self.rng.bytes(*n);
            l.extend(vec24(&c));
        }
        vec24(&l)
    }

    /// the bytes of a message variant (table Msg of Handshake.tla)
    pub fn render(&mut self, m: &str) -> Vec<u8> {
        let (name, text) = m.split_once(':').unwrap_or((m, ""));
        let arg = usize::from_str_radix(text, 16).unwrap_or(0);
        let hx = |s: &str| u16::from_str_radix(s, 16).unwrap();
        let swept = !self.prm.get("off").is_null();
        let off = self.prm.get("off").int() as usize;
        const V: u16 = 0x0303;
        const CS: u16 = 0xcca8;
        let e = self.exts();
        let good_cert = |w: &mut World| w.certs(&[40, 33]);
        let (t, b): (u8, Vec<u8>) = match name {
            "sh_ok" => (2, self.server_hello(V, CS, 0, 32, Some(e))),
            "sh_noext" => (2, self.server_hello(V, CS, 0, 32, None)),
            "sh_emptyext" => (2, self.server_hello(V, CS, 0, 32, Some(vec![]))),
            "sh_unkext" => {
                let mut x = vec![0xff, 0x01, 0, 1, 0, 0, 0x17, 0, 0, 0, 0, 0, 0];
                let n = self.rng.below(300);
                let d = self.rng.bytes(n);
                x.extend([0, 16]);
                x.extend(vec16(&d));
                (2, self.server_hello(V, CS, 0, 32, Some(x)))
            }
            "sh_allext" => {
                let mut x = vec![0, 10, 0, 4, 0, 2, 0, 23];
                x.extend([0, 11, 0, 4, 3, 0, 1, 2]);
                x.extend([0, 13, 0, 6, 0, 4, 4, 1, 2, 3]);
                (2, self.server_hello(V, CS, 0, 32, Some(x)))
            }
            "sh_sid0" => (2, self.server_hello(V, CS, 0, 0, Some(e))),
            "sh_sid1" => (2, self.server_hello(V, CS, 0, 1, Some(e))),
            "sh_sid" => (2, self.server_hello(V, CS, 0, arg, None)),
            // unknown extensions with data of the lengths given, "a.b.c"
            "sh_xl" => {
                let mut x = vec![];
                for (i, n) in text.split('.').filter(|x| !x.is_empty()).enumerate() {
                    let d = self.rng.bytes(n.parse().unwrap());
                    x.extend([0xfa, i as u8]);
                    x.extend(vec16(&d));
                }
                (2, self.server_hello(V, CS, 0, 32, Some(x)))
            }
            "sh_ver" => (2, self.server_hello(arg as u16, CS, 0, 32, Some(e))),
            "sh_cs" => (2, self.server_hello(V, arg as u16, 0, 32, Some(e))),
            "sh_comp" => (2, self.server_hello(V, CS, arg as u8, 32, Some(e))),
            n if n.starts_with("sh_ver_") => (2, self.server_hello(hx(&n[7..]), CS, 0, 32, Some(e))),
            n if n.starts_with("sh_cs_") => (2, self.server_hello(V, hx(&n[6..]), 0, 32, Some(e))),
            n if n.starts_with("sh_comp_") => {
                let c = n[8..].parse::<u8>().unwrap();
                (2, self.server_hello(V, CS, c, 32, Some(e)))
            }
            "sh_trunc" => {
                let mut b = self.server_hello(V, CS, 0, 32, Some(e));
                let full = 2 + 32 + 33 + 2 + 1; // without extensions it is complete
                let n = loop {
                    let n = self.rng.below(b.len() - 1) + 1;
                    if n != full {
                        break n;
                    }
                };
                b.truncate(n);
                (2, b)
            }
            "sh_trail" => {
                let x = if self.rng.chance(1, 2) { e } else { vec![] };
                let mut b = self.server_hello(V, CS, 0, 32, Some(x));
                let n = self.rng.range(1, 5);
                b.extend(self.rng.bytes(n));
                (2, b)
            }
            "sh_sid33" => {
                let n = *self.rng.pick(&[33usize, 34, 64, 255]);
                (2, self.server_hello(V, CS, 0, n, Some(e)))
            }
            "sh_extshort" => {
                let mut b = self.server_hello(V, CS, 0, 32, Some(e.clone()));
                let p = 70;
                let l = self.rng.below(e.len());
                b[p] = 0;
                b[p + 1] = l as u8;
                (2, b)
            }
            "sh_extlong" => {
                let mut b = self.server_hello(V, CS, 0, 32, Some(e.clone()));
                let l = e.len() + self.rng.range(1, 300);
                b[70] = (l >> 8) as u8;
                b[71] = l as u8;
                (2, b)
            }
            "sh_extsize" => {
                // ec_point_formats: extension size and list size disagree
                let x = if self.rng.chance(1, 2) { vec![0, 11, 0, 3, 1, 0, 0] } else { vec![0, 11, 0, 2, 0, 0] };
                (2, self.server_hello(V, CS, 0, 32, Some(x)))
            }
            "sh_empty" => (2, vec![]),
            "cert_one" => (11, self.certs(&[57])),
            // certificates of the lengths given, "a.b.c"
            "cert_ls" => {
                let n: Vec<usize> = text.split('.').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect();
                (11, self.certs(&n))
            }
            "cert_none" => (11, self.certs(&[])),
            "cert_chain" => (11, self.certs(&[100, 1, 300])),
            "cert_big" => (11, self.certs(&[20000, 16384])),
            "cert_trunc" => {
                let mut b = good_cert(self);
                let n = self.rng.below(b.len());
                b.truncate(n.max(1));
                (11, b)
            }
            "cert_long" => {
                let mut b = good_cert(self);
                b[2] = b[2].wrapping_add(self.rng.range(1, 3) as u8);
                (11, b)
            }
            "cert_zero" => {
                let mut l = vec![0, 0, 0];
                if self.rng.chance(1, 2) {
                    l.extend(vec24(&[1, 2, 3]));
                }
                (11, vec24(&l))
            }
            "cert_empty" => (11, vec![]),
            "cert_trail" => {
                let mut b = good_cert(self);
                let n = self.rng.range(1, 3);
                b.extend(self.rng.bytes(n));
                (11, b)
            }
            "ske_ok" => {
                let kp = self.keypair();
                let p = self.with_key(kp);
                (12, self.ske(3, 23, &p, 4, 1, 64))
            }
            "ske_sig0" => {
                let kp = self.keypair();
                let p = self.with_key(kp);
                (12, self.ske(3, 23, &p, 4, 1, 0))
            }
            "ske_sl" => {
                let kp = self.keypair();
                let p = self.with_key(kp);
                (12, self.ske(3, 23, &p, 4, 1, arg))
            }
            // a point given byte by byte
            "ske_pt" => {
                let p = crate::json::unhex(text);
                (12, self.ske(3, 23, &p, 4, 1, 64))
            }
            "ske_siglong" => {
                let kp = self.keypair();
                let p = self.with_key(kp);
                (12, self.ske(3, 23, &p, 4, 1, 512))
            }
            "ske_lead0" => {
                let kp = self.rng.pick(lead0()).clone();
                let p = self.with_key(kp);
                (12, self.ske(3, 23, &p, 4, 1, 64))
            }
            "ske_one" => {
                let p = self.with_key((BigUint::from(1u32), refc::p256().g.clone()));
                (12, self.ske(3, 23, &p, 4, 1, 64))
            }
            "ske_curve" | "ske_ctype" | "ske_fmt" | "ske_len" => {
                let kp = self.keypair();
                let mut p = self.with_key(kp);
                if name == "ske_fmt" {
                    p[0] = arg as u8;
                }
                if name == "ske_len" {
                    p.resize(arg, 7);
                }
                let c = if name == "ske_curve" { arg as u16 } else { 23 };
                let ct = if name == "ske_ctype" { arg as u8 } else { 3 };
                (12, self.ske(ct, c, &p, 4, 1, 64))
            }
            n if n.starts_with("ske_curve_") => {
                let s = &n[10..];
                let c = if s == "ff01" { 0xff01 } else { s.parse().unwrap() };
                let kp = self.keypair();
                let p = self.with_key(kp);
                (12, self.ske(3, c, &p, 4, 1, 64))
            }
            n if n.starts_with("ske_ctype_") => {
                let c: u8 = n[10..].parse().unwrap();
                let kp = self.keypair();
                let p = self.with_key(kp);
                (12, self.ske(c, 23, &p, 4, 1, 64))
            }
            "ske_pt_none" => (12, self.ske(3, 23, &[], 4, 1, 64)),
            n if n.starts_with("ske_pt_") => {
                let p = self.bad_point(&n[7..]);
                (12, self.ske(3, 23, &p, 4, 1, 64))
            }
            "ske_trunc" => {
                let kp = self.keypair();
                let p = self.with_key(kp);
                let mut b = self.ske(3, 23, &p, 4, 1, 64);
                let n = self.rng.range(1, b.len() - 1);
                b.truncate(n);
                (12, b)
            }
            "ske_trail" => {
                let kp = self.keypair();
                let p = self.with_key(kp);
                let mut b = self.ske(3, 23, &p, 4, 1, 64);
                let n = self.rng.range(1, 3);
                b.extend(self.rng.bytes(n));
                (12, b)
            }
            "ske_hash_7" => {
                let kp = self.keypair();
                let p = self.with_key(kp);
                let h = *self.rng.pick(&[7u8, 8, 255]);
                (12, self.ske(3, 23, &p, h, 1, 64))
            }
            "ske_sig_4" => {
                let kp = self.keypair();
                let p = self.with_key(kp);
                let s = *self.rng.pick(&[4u8, 5, 255]);
                (12, self.ske(3, 23, &p, 4, s, 64))
            }
            "ske_empty" => (12, vec![]),
            // what a server made of the offer (Offer.tla)
            "sh_pick" => {
                let pk = self.prm.get("pick").clone();
                let mut x = vec![];
                for e in pk.get("exts").arr() {
                    x.extend((e.get("t").int() as u16).to_be_bytes());
                    x.extend(vec16(&e.get("b").arr().iter().map(|v| v.int() as u8).collect::<Vec<_>>()));
                }
                let n = *self.rng.pick(&[0usize, 32, 32, 17]);
                let x = if x.is_empty() && self.rng.chance(1, 2) { None } else { Some(x) };
                (2, self.server_hello(V, pk.get("suite").int() as u16, pk.get("comp").int() as u8, n, x))
            }
            "ske_pick" => {
                let pk = self.prm.get("pick").clone();
                let (g, f, pair) = (pk.get("group").int() as u16, pk.get("fmt").int(), pk.get("pair").int());
                let kp = self.keypair();
                let own = self.with_key(kp);
                // on other curves: octets of the right number
                let w = match g { 24 => 48, 25 => 66, 19 | 20 | 21 => 28, _ => 32 };
                let mut p = match g {
                    23 => own,
                    29 | 30 => self.rng.bytes(if g == 29 { 32 } else { 56 }),
                    _ => [vec![4], self.rng.bytes(2 * w)].concat(),
                };
                if f == 1 {
                    p[0] = 2 + (p[2 * w] & 1);
                    p.truncate(1 + w);
                }
                (12, self.ske(3, g, &p, (pair >> 8) as u8, pair as u8, 256))
            }
            "status" => {
                let n = self.rng.range(1, 500);
                let d = self.rng.bytes(n);
                (22, [vec![1], vec24(&d)].concat())
            }
            "ticket" => {
                let n = *self.rng.pick(&[0usize, 1, 64, 192, 1000]);
                let d = self.rng.bytes(n);
                (4, [vec![0, 0, 28, 32], vec16(&d)].concat())
            }
            "shd_ok" => (14, vec![]),
            "shd_trail" => {
                let n = self.rng.range(1, 4);
                (14, self.rng.bytes(n))
            }
            "fin_ok" => (20, self.verify_data("server finished", usize::MAX)),
            "fin_flip" => {
                let mut v = self.verify_data("server finished", usize::MAX);
                let mask = self.prm.get("finmask");
                if mask.is_null() {
                    let bit = if swept { off % 96 } else { self.rng.below(96) };
                    v[bit / 8] ^= 1 << (bit % 8);
                } else {
                    for (v, m) in v.iter_mut().zip(mask.arr()) {
                        *v ^= m.int() as u8;
                    }
                }
                (20, v)
            }
            "fin_client" => {
                let v = if self.cfin_body.len() == 12 { self.cfin_body.clone() } else { vec![3; 12] };
                (20, v)
            }
            "fin_clabel" => (20, self.verify_data("client finished", usize::MAX)),
            "fin_nocfin" => {
                let n = self.cfin_cv;
                (20, self.verify_data("server finished", if n == 0 { usize::MAX } else { n }))
            }
            "fin_zero" => (20, vec![0; 12]),
            "fin_short" => {
                let mut v = self.verify_data("server finished", usize::MAX);
                let n = self.rng.range(1, 11);
                v.truncate(n);
                (20, v)
            }
            "fin_long" => {
                let mut v = self.verify_data("server finished", usize::MAX);
                let n = self.rng.range(1, 20);
                v.extend(self.rng.bytes(n));
                (20, v)
            }
            "fin_empty" => (20, vec![]),
            "hello_req" => (0, vec![]),
            "hreq_trail" => (0, vec![self.rng.next() as u8]),
            "client_hello" => {
                let mut b = vec![3, 3];
                b.extend(self.rng.bytes(32));
                b.extend([0, 0, 2, 0xcc, 0xa8, 1, 0]);
                b.extend([0, 8, 0, 10, 0, 4, 0, 2, 0, 23]);
                (1, b)
            }
            "cert_req" => (13, vec![1, 1, 0, 2, 4, 1, 0, 0]),
            "cke" => {
                let p = refc::encode_point(&self.rng.pick(pool()).1);
                (16, vec8(&p))
            }
            n if n.starts_with("unk_") => {
                let t = match self.prm.get("unk").int() {
                    0 => n[4..].parse().unwrap(),
                    t => t as u8,
                };
                let l = self.rng.below(20);
                (t, self.rng.bytes(l))
            }
            x => panic!("harness: message {}", x),
        };
        hs_msg(t, &b)
    }
}

/// what an RFC 5246 server would object to in a ClientHello (empty: nothing)
pub fn check_client_hello(m: &[u8]) -> Vec<String> {
    let mut e = vec![];
    let mut p = 4;
    fn take<'a>(m: &'a [u8], p: &mut usize, n: usize) -> Option<&'a [u8]> {
        let r = m.get(*p..*p + n);
        *p += n;
        r
    }
    let r = (|| -> Option<()> {
        if take(m, &mut p, 2)? != [3, 3] {
            e.push("version".to_string())
        }
        take(m, &mut p, 32)?;
        let n = take(m, &mut p, 1)?[0] as usize;
        if n > 32 {
            e.push("session id".into())
        }
        take(m, &mut p, n)?;
        let n = take(m, &mut p, 2)?;
        let n = (n[0] as usize) << 8 | n[1] as usize;
        let cs = take(m, &mut p, n)?;
        if n % 2 != 0 || n == 0 || !cs.chunks(2).any(|c| c == [0xcc, 0xa8]) {
            e.push("cipher suites".into())
        }
        let n = take(m, &mut p, 1)?[0] as usize;
        let c = take(m, &mut p, n)?;
        if !c.contains(&0) {
            e.push("compression".into())
        }
        let n = take(m, &mut p, 2)?;
        let n = (n[0] as usize) << 8 | n[1] as usize;
        let x = take(m, &mut p, n)?;
        if p != m.len() {
            e.push("length".into())
        }
        let mut q = 0;
        let (mut grp, mut sig) = (false, false);
        let mut seen = vec![];
        while q < x.len() {
            let t = take(x, &mut q, 4)?;
            let ty = (t[0] as usize) << 8 | t[1] as usize;
            let n = (t[2] as usize) << 8 | t[3] as usize;
            let d = take(x, &mut q, n)?;
            if seen.contains(&ty) {
                e.push("duplicate extension".into())
            }
            seen.push(ty);
            match ty {
                10 => {
                    let l = (d[0] as usize) << 8 | d[1] as usize;
                    if l + 2 != d.len() || l % 2 != 0 {
                        e.push("groups".into())
                    }
                    grp = d[2..].chunks(2).any(|c| c == [0, 23]);
                }
                11 => {
                    if d[0] as usize + 1 != d.len() || !d[1..].contains(&0) {
                        e.push("point formats".into())
                    }
                }
                13 => {
                    let l = (d[0] as usize) << 8 | d[1] as usize;
                    if l + 2 != d.len() || l % 2 != 0 {
                        e.push("signature algorithms".into())
                    }
                    sig = d[2..].chunks(2).any(|c| c == [4, 1]);
                }
                _ => {}
            }
        }
        if !grp {
            e.push("no secp256r1".into())
        }
        if !sig {
            e.push("no rsa-sha256".into())
        }
        Some(())
    })();
    if r.is_none() {
        e.push("truncated".into())
    }
    e
}
