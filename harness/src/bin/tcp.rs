//! Programs of Tcp.tla over real sockets on the loopback interface.
use husk_verif::json::{self, J};
use husk_verif::refc::Rng;
use husk_verif::run;
use husk_verif::world::*;
use std::io::{Read, Write};
use std::net::{Shutdown, TcpListener, TcpStream};
use std::time::{Duration, Instant};

struct Server {
    w: Shared,
    rd: Reader,
    wr: Writer,
    s: TcpStream,
    cut: i64,
    rng: Rng,
    until: Instant,
}

impl Server {
    fn check(&self) -> Result<(), String> {
        if Instant::now() > self.until {
            return Err("the server waited too long for the client".into());
        }
        Ok(())
    }

    /// takes what the client has sent; false at its end
    fn take(&mut self) -> Result<bool, String> {
        self.check()?;
        let mut b = vec![0u8; 1 << 16];
        match self.s.read(&mut b) {
            Ok(0) => Ok(false),
            Ok(n) => {
                self.wr.write_all(&b[..n]).map_err(|e| e.to_string())?;
                Ok(true)
            }
            Err(e) if matches!(e.kind(), std::io::ErrorKind::WouldBlock | std::io::ErrorKind::TimedOut | std::io::ErrorKind::Interrupted) => Ok(true),
            Err(_) => Ok(false),
        }
    }

    fn put(&mut self, b: &[u8]) -> Result<(), String> {
        let mut i = 0;
        while i < b.len() {
            self.check()?;
            let n = match self.cut {
                0 => b.len() - i,
                // small pieces, each its own segment
                1 => self.rng.range(1, 60).min(b.len() - i),
                _ => self.rng.range(1, 3000).min(b.len() - i),
            };
            if self.s.write_all(&b[i..i + n]).is_err() {
                return Ok(()); // the client has gone; its own result tells
            }
            i += n;
            if self.cut != 0 && self.rng.chance(1, 8) {
                std::thread::sleep(Duration::from_millis(2));
            }
        }
        Ok(())
    }

    /// the bytes the world has ready
    fn flush(&mut self) -> Result<(), String> {
        let b: Vec<u8> = self.w.borrow_mut().inbuf.drain(..).collect();
        self.put(&b)
    }

    fn event(&mut self, e: &str) -> Result<(), String> {
        self.w.borrow_mut().script.push_back(json::parse(e));
        let mut b = vec![0u8; 1 << 17];
        let n = self.rd.read(&mut b).map_err(|e| e.to_string())?;
        self.put(&b[..n])
    }

    fn recs(&self) -> usize {
        self.w.borrow().recs.iter().filter(|r| !r.partial).count()
    }

    fn app(&self) -> usize {
        self.w.borrow().recs.iter().filter(|r| r.typ == 23).map(|r| r.plain.as_ref().map_or(0, |p| p.len())).sum()
    }
}

fn server(s: TcpStream, t: &J, down: &[u8], up: &[u8]) -> Result<(), String> {
    let seed = t.get("seed").int() as u64;
    let w = World::new(seed, J::obj(vec![]));
    w.borrow_mut().ctam = "none".into();
    let _ = s.set_nodelay(true);
    let _ = s.set_read_timeout(Some(Duration::from_millis(50)));
    let rest = Duration::from_millis(t.get("rest").int() as u64);
    let mut v = Server {
        rd: Reader(w.clone()),
        wr: Writer(w.clone()),
        w,
        s,
        cut: t.get("cut").int(),
        rng: Rng::new(seed ^ 77),
        until: Instant::now() + Duration::from_secs(20) + rest,
    };
    let gone = t.get("gone").int() as usize;
    let pause = t.get("pause").int();
    let mut msgs: Vec<&str> = t.get("msgs").arr().iter().map(|m| m.str()).collect();
    msgs.extend(["shd_ok", "ccs_ok", "fin_ok"]);
    while v.recs() < 1 {
        if !v.take()? {
            return Err("the client ended before its hello".into());
        }
    }
    for (i, m) in msgs.iter().enumerate().take(gone) {
        if i == 4 {
            while v.recs() < 4 {
                if !v.take()? {
                    return Err("the client ended in the handshake".into());
                }
            }
        }
        if pause == i as i64 {
            std::thread::sleep(rest);
        }
        if i == 4 {
            v.event(r#"{"op":"ccs_ok","pieces":[],"prot":"plain","rx":false}"#)?;
        } else {
            let p = if i == 5 { r#""prot":"good","rx":true"# } else { r#""prot":"plain","rx":false"# };
            v.event(&format!(r#"{{"op":"hs","pieces":[{{"m":"{}","part":"all","tam":"same"}}],{}}}"#, m, p))?;
        }
    }
    let mut sent = 0;
    let mut want = 0;
    for o in t.get("sp").arr() {
        let o = o.str();
        let num = |p: &str| o[p.len()..].parse::<usize>().unwrap();
        if o == "rest" {
            std::thread::sleep(rest);
        } else if o.starts_with("send") {
            let n = num("send");
            for c in down[sent..sent + n].chunks(16384) {
                v.w.borrow_mut().seal_put(23, c, "good");
            }
            sent += n;
            v.flush()?;
        } else {
            want += num("recv");
            while v.app() < want {
                if !v.take()? {
                    return Err(format!("the client ended after {} of {} bytes", v.app(), want));
                }
            }
        }
    }
    match t.get("end").str() {
        "notify" => {
            v.w.borrow_mut().seal_put(21, &[1, 0], "good");
            v.flush()?;
            let _ = v.s.shutdown(Shutdown::Write);
        }
        "fin" => {
            let _ = v.s.shutdown(Shutdown::Write);
        }
        _ => {}
    }
    // to the end of the client
    while v.take()? {}
    let g = v.w.borrow();
    let got: Vec<u8> = g.recs.iter().filter(|r| r.typ == 23).flat_map(|r| r.plain.clone().unwrap_or_default()).collect();
    if gone == 6 && !up.starts_with(&got) {
        return Err("the server got other bytes than were written".into());
    }
    if !t.get("any").bool() && gone == 6 && got.len() != up.len() {
        return Err(format!("the server got {} of {} bytes", got.len(), up.len()));
    }
    if gone == 6 && g.recs.iter().any(|r| r.partial || (r.seq.is_some() && r.plain.is_none())) {
        return Err("a record does not open".into());
    }
    Ok(())
}

fn test(t: &J) -> J {
    let seed = t.get("seed").int() as u64;
    let num = |o: &J| o.str().trim_start_matches(|c: char| c.is_alphabetic()).parse::<usize>().unwrap_or(0);
    let total = |a: &J, p: &str| a.arr().iter().filter(|o| o.str().starts_with(p)).map(num).sum::<usize>();
    let mut rng = Rng::new(seed ^ 99);
    let down = rng.bytes(total(t.get("sp"), "send"));
    let up = rng.bytes(total(t.get("cp"), "write"));
    let l = TcpListener::bind("127.0.0.1:0").expect("harness: bind");
    let addr = l.local_addr().unwrap();
    let mut res: Vec<String> = vec![];
    let srv = std::thread::scope(|s| {
        let h = s.spawn(|| match l.accept() {
            Ok((c, _)) => run::guarded(|| server(c, t, &down, &up)),
            Err(e) => Ok(Err(e.to_string())),
        });
        let c = TcpStream::connect(addr).expect("harness: connect");
        let r = run::guarded(|| match husk::TlsClient::from_tcp(c) {
            Err(e) => res.push(format!("{:?}", e.kind)),
            Ok(mut c) => {
                res.push("ok".into());
                let (mut got, mut put) = (0, 0);
                for o in t.get("cp").arr() {
                    let n = num(o);
                    if o.str().starts_with("write") {
                        let r = c.write_all(&up[put..put + n]);
                        put += n;
                        res.push(match r {
                            Ok(()) => "ok".into(),
                            Err(e) => format!("error {}", e),
                        });
                    } else {
                        let mut b = vec![0u8; n];
                        let mut k = 0;
                        let mut e = None;
                        while k < n {
                            match c.read(&mut b[k..]) {
                                Ok(0) => break,
                                Ok(m) => k += m,
                                Err(x) => {
                                    e = Some(x);
                                    break;
                                }
                            }
                        }
                        let _ = e;
                        res.push(if down.get(got..got + k) != Some(&b[..k]) {
                            "other bytes".into()
                        } else if k == n {
                            "ok".into()
                        } else {
                            "short".into()
                        });
                        got += k;
                    }
                }
                if t.get("end").str() != "none" {
                    let mut b = vec![0u8; 70000];
                    res.push(loop {
                        match c.read(&mut b) {
                            Ok(0) => break if got == down.len() { "end".into() } else { format!("end after {} of {}", got, down.len()) },
                            Ok(m) => {
                                if down.get(got..got + m) != Some(&b[..m]) {
                                    break "other bytes".into();
                                }
                                got += m;
                            }
                            Err(_) => break if got == down.len() { "cut".into() } else { format!("error after {} of {}", got, down.len()) },
                        }
                    });
                }
            }
        });
        if let Err(m) = r {
            res.push(format!("PANIC {}", m));
        }
        h.join().expect("harness: server thread")
    });
    let srv = match srv {
        Ok(Ok(())) => "ok".to_string(),
        Ok(Err(m)) => m,
        Err(m) => format!("PANIC in the server: {}", m),
    };
    J::obj(vec![("id", t.get("id").clone()), ("res", J::Arr(res.iter().map(|s| J::s(s)).collect())), ("srv", J::s(&srv))])
}

fn main() {
    run::main(test);
}
