//! A handshake behaviour of Handshake.tla replayed into husk::TlsClient.
use crate::json::J;
use crate::run;
use crate::world::*;
use rand::rngs::OsRng;
use std::io::{Read, Write};

fn io_kinds(i: i64) -> Option<std::io::ErrorKind> {
    use std::io::ErrorKind::*;
    [Some(BrokenPipe), None, Some(ConnectionReset), Some(Other), Some(TimedOut), Some(WouldBlock)][(i as usize) % 6]
}

pub fn test(t: &J) -> J {
    let w = World::new(t.get("seed").int() as u64, t.clone());
    {
        let mut g = w.borrow_mut();
        g.ctam = t.get("ctam").str().to_string();
        let wf = t.get("wf").int();
        if wf > 0 {
            g.wfault = Some(WFault {
                rec: wf as usize,
                off: t.get("woff").int(),
                kind: io_kinds(t.get("wkind").int()),
                recover: t.get("wrec").int() != 0,
            });
        }
        for h in t.get("evs").arr() {
            g.script.push_back(h.clone());
        }
        // byte-exact schedules of the transport
        for x in t.get("rsched").arr() {
            g.rsched.push_back(x.int());
        }
        for x in t.get("wsched").arr() {
            g.wsched.push_back(x.int());
        }
    }
    let rd = Reader(w.clone());
    let wr = Writer(w.clone());
    let r = run::guarded(|| husk::TlsClient::new(rd, wr, OsRng));
    let nev = t.get("evs").arr().len();
    let mut kv = vec![("id", t.get("id").clone())];
    {
        let g = w.borrow();
        kv.push(("recs", J::Arr(g.abstract_recs())));
        kv.push(("partial", J::Num(g.cur.len() as i64)));
        kv.push(("res_ev", J::Num(g.event as i64)));
        // did the client read on after the last event?
        kv.push(("read_on", J::Bool(g.dead_reads > 0)));
        kv.push(("left", J::Num(g.inbuf.len() as i64)));
        kv.push(("rbytes", J::Num(g.delivered as i64)));
        kv.push(("wbytes", J::Num(g.raw.len() as i64)));
        if t.get("hello").int() != 0 {
            kv.push(("hello", J::Arr(g.hello.iter().map(|b| J::Num(*b as i64)).collect())));
        }
        kv.push(("ch", J::Arr(g.offered.iter().map(|s| J::s(s)).collect())));
    }
    let _ = nev;
    match r {
        Err(m) => {
            kv.push(("res", J::s("PANIC")));
            kv.push(("msg", J::s(&m)));
        }
        Ok(Err(e)) => {
            kv.push(("res", J::s(&format!("{:?}", e.kind))));
            kv.push(("msg", J::s(&e.desc)));
        }
        Ok(Ok(mut c)) => {
            kv.push(("res", J::s("ok")));
            if t.get("app").int() != 0 {
                // both sides hold the same keys: data in both directions
                let (d1, d2) = {
                    let mut g = w.borrow_mut();
                    let n1 = g.rng.range(1, 200);
                    let n2 = g.rng.range(1, 200);
                    (g.rng.bytes(n1), g.rng.bytes(n2))
                };
                let app = run::guarded(|| {
                    let nrec = w.borrow().recs.len();
                    w.borrow_mut().dead = None;
                    if t.get("beat").int() != 0 {
                        // HeartbeatRequest
                        let mut b = vec![1, 0, 5];
                        b.extend(w.borrow_mut().rng.bytes(5 + 16));
                        w.borrow_mut().seal_put(24, &b, "good");
                    }
                    w.borrow_mut().seal_put(23, &d1, "good");
                    let mut got = vec![0u8; d1.len()];
                    let mut n = 0;
                    while n < got.len() {
                        match c.read(&mut got[n..]) {
                            Ok(m) if m > 0 => n += m,
                            _ => break,
                        }
                    }
                    if n != d1.len() || got != d1 {
                        return format!("read {} of {}", n, d1.len());
                    }
                    let limit = t.get("limit").int() as usize;
                    if limit != 0 {
                        // records no larger than agreed
                        let d3 = vec![0x5a; 20000];
                        if let Err(e) = c.write_all(&d3) {
                            return format!("write: {}", e);
                        }
                        let g = w.borrow();
                        let ps: Vec<&[u8]> = g.recs[nrec..].iter().filter(|r| r.typ == 23).map(|r| r.plain.as_deref().unwrap_or(&[])).collect();
                        if let Some(p) = ps.iter().find(|p| p.len() > limit) {
                            return format!("record of {} where {} was agreed", p.len(), limit);
                        }
                        return if ps.concat() == d3 { "ok".into() } else { "not what was written".into() };
                    }
                    if let Err(e) = c.write_all(&d2) {
                        return format!("write: {}", e);
                    }
                    let g = w.borrow();
                    if g.recs.len() != nrec + 1 {
                        return format!("{} records", g.recs.len() - nrec);
                    }
                    let r = &g.recs[nrec];
                    if r.typ != 23 || r.plain.as_ref() != Some(&d2) || r.seq != Some(1) {
                        return format!("record {} seq {:?}", r.typ, r.seq);
                    }
                    "ok".into()
                });
                kv.push(("app", J::s(&match app {
                    Ok(s) => s,
                    Err(m) => format!("PANIC {}", m),
                })));
            }
        }
    }
    J::obj(kv)
}

