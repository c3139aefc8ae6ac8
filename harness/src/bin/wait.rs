//! Behaviours of Waiting.tla: a transport that blocks, and a server that says
//! no more than it has to.
use husk_verif::client::Client;
use husk_verif::json::J;
use husk_verif::run;
use husk_verif::world::*;
use rand::rngs::OsRng;
use std::io::{Read, Write};

fn log(w: &Shared, kv: Vec<(&str, J)>) {
    w.borrow_mut().gate.as_mut().unwrap().log.push(J::obj(kv));
}

fn test(t: &J) -> J {
    let w = World::new(t.get("seed").int() as u64, t.clone());
    {
        let mut g = w.borrow_mut();
        g.ctam = "none".into();
        for e in t.get("evs").arr() {
            g.script.push_back(e.clone());
        }
        g.gate = Some(Gate::default());
        if t.get("buf").int() != 0 {
            g.hold = Some(vec![]);
        }
    }
    let mut c: Option<Client> = None;
    let steps = t.get("steps").arr();
    let mut panic = None;
    let mut i = 0;
    while i < steps.len() {
        let s = &steps[i];
        i += 1;
        let pos = |s: &J| (s.get("e").int() as usize, s.get("c").int() as usize);
        if s.get("op").str() == "rel" {
            let (e, c) = pos(s);
            w.borrow_mut().release(e, c);
            continue;
        }
        let f = s.get("f").str().to_string();
        let k = s.get("e").int() as usize;
        log(&w, vec![("op", J::s("call")), ("f", J::s(&f)), ("k", J::Num(k as i64))]);
        while steps[i].get("op").str() == "rel" {
            w.borrow_mut().gate.as_mut().unwrap().plan.push_back(pos(&steps[i]));
            i += 1;
        }
        assert!(steps[i].get("op").str() == "ret", "harness: ret");
        i += 1;
        let mut buf = vec![0u8; k];
        let data = {
            let mut g = w.borrow_mut();
            let n = *g.rng.pick(&[0usize, 1, 40, 40, 16384, 16385, 70000, 300000]);
            g.rng.bytes(n)
        };
        let mut why = String::new();
        let r = run::guarded(|| {
            let mut say = |e: String| {
                why = e;
                -1
            };
            match f.as_str() {
                "connect" => match husk::TlsClient::new(Reader(w.clone()), Writer(w.clone()), OsRng) {
                    Ok(x) => {
                        c = Some(x);
                        1
                    }
                    Err(e) => say(format!("{:?} {}", e.kind, e.desc)),
                },
                f => {
                    let c = c.as_mut().unwrap();
                    match f {
                        "read" => c.read(&mut buf).map(|n| n as i64).unwrap_or_else(|e| say(e.to_string())),
                        "write" => c.write_all(&data).map(|_| 1).unwrap_or_else(|e| say(e.to_string())),
                        "flush" => c.flush().map(|_| 1).unwrap_or_else(|e| say(e.to_string())),
                        _ => c.close().map(|_| 1).unwrap_or_else(|e| say(e.desc)),
                    }
                }
            }
        });
        let n = match r {
            Ok(n) => n,
            Err(m) => {
                panic = Some(m);
                break;
            }
        };
        let held = w.borrow().hold.as_ref().map(|h| h.len()).unwrap_or(0) as i64;
        if w.borrow().gate.as_ref().unwrap().stuck {
            break;
        }
        log(&w, vec![("op", J::s("ret")), ("n", J::Num(n)), ("held", J::Num(held)), ("why", J::s(&why))]);
        if f == "connect" && n < 0 {
            break;
        }
        // what it has not waited for comes all the same
        loop {
            let next = w.borrow_mut().gate.as_mut().unwrap().plan.pop_front();
            match next {
                Some((e, c)) => w.borrow_mut().release(e, c),
                None => break,
            }
        }
    }
    let mut g = w.borrow_mut();
    let gate = g.gate.take().unwrap();
    let mut kv = vec![("id", t.get("id").clone()), ("steps", J::Arr(gate.log)), ("stuck", J::Bool(gate.stuck))];
    if let Some(m) = panic {
        kv.push(("panic", J::s(&m)));
    }
    J::obj(kv)
}

fn main() {
    run::main(test);
}
