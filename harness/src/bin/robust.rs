//! Scenarios of Robust.tla: a server that sends anything, all calls return.
use husk_verif::json::J;
use husk_verif::run;
use husk_verif::world::*;
use rand::rngs::OsRng;
use std::io::{Read, Write};

pub fn test(t: &J) -> J {
    let w = World::new(t.get("seed").int() as u64, t.clone());
    w.borrow_mut().ctam = "none".into();
    for e in t.get("evs").arr() {
        w.borrow_mut().script.push_back(e.clone());
    }
    let mut calls: Vec<J> = vec![];
    let mut log = |name: &str, r: Result<String, String>| -> bool {
        let (k, m, bad) = match r {
            Ok(m) => ("ret", m, false),
            Err(m) => ("PANIC", m, true),
        };
        calls.push(J::obj(vec![("call", J::s(name)), ("r", J::s(k)), ("v", J::s(&m))]));
        bad
    };
    let (rd, wr) = (Reader(w.clone()), Writer(w.clone()));
    let r = run::guarded(|| husk::TlsClient::new(rd, wr, OsRng));
    match r {
        Err(m) => {
            log("connect", Err(m));
        }
        Ok(Err(e)) => {
            log("connect", Ok(format!("{:?}", e.kind)));
        }
        Ok(Ok(mut c)) => {
            log("connect", Ok("ok".into()));
            let seed = t.get("seed").int() as usize;
            let rb = [40000usize, 2, 16384, 65535, 65536, 65537, 1 << 17, 1 << 20][seed % 8];
            let wb = [20000usize, 16384, 16385, 32768, 65536, 65537, 100000][seed / 8 % 7];
            let ws = [5usize, 0, 1, 255][seed / 64 % 4];
            for o in t.get("ops").arr() {
                let o = o.str().to_string();
                let r = run::guarded(|| match o.as_str() {
                    "read1" => format!("{:?}", c.read(&mut [0u8; 1])),
                    "read0" => format!("{:?}", c.read(&mut [])),
                    "readbig" => format!("{:?}", c.read(&mut vec![0u8; rb])),
                    "write" => format!("{:?}", c.write(&vec![7u8; ws])),
                    "writebig" => format!("{:?}", c.write_all(&vec![7u8; wb])),
                    "flush" => format!("{:?}", c.flush()),
                    "close" => match c.close() {
                        Ok(()) => "Ok".into(),
                        Err(e) => format!("{:?}", e.kind),
                    },
                    x => panic!("harness: op {}", x),
                });
                if log(&o, r) {
                    break;
                }
            }
            let r = run::guarded(|| {
                for _ in 0..40 {
                    let mut b = vec![0u8; 20000];
                    if let Ok(0) | Err(_) = c.read(&mut b) {
                        break;
                    }
                }
                drop(c);
                "drained".to_string()
            });
            log("drain", r);
        }
    }
    J::obj(vec![("id", t.get("id").clone()), ("calls", J::Arr(calls))])
}

fn main() {
    run::main(test);
}
