//! A behaviour of Session.tla replayed on an established connection, as a whole
//! or step by step.
use crate::client::{connect, Client};
use crate::json::J;
use crate::run;
use crate::sched;
use crate::world::*;
use std::io::{Read, Write};

fn io_kinds(i: usize) -> Option<std::io::ErrorKind> {
    use std::io::ErrorKind::*;
    [Some(BrokenPipe), None, Some(ConnectionReset), Some(Other), Some(TimedOut), Some(WouldBlock)][i % 6]
}

struct Obs {
    got: usize,
    expect: Vec<u8>,
}

/// one read: (n, -1 for an error; data right; transport reads made)
fn read(c: &mut Client, w: &Shared, k: usize, o: &mut Obs) -> J {
    let r0 = w.borrow().reads;
    let mut buf = vec![0xa5u8; k + 8];
    let r = run::guarded(|| c.read(&mut buf[..k]));
    let reads = (w.borrow().reads - r0) as i64;
    let mut kv = vec![("op", J::s("read")), ("k", J::Num(k as i64)), ("reads", J::Num(reads))];
    match r {
        Err(m) => {
            kv.push(("panic", J::s(&m)));
        }
        Ok(Err(e)) => {
            kv.push(("n", J::Num(-1)));
            kv.push(("err", J::s(&e.to_string())));
        }
        Ok(Ok(n)) => {
            o.expect = w.borrow().stream.clone();
            let ok = n <= k && o.got + n <= o.expect.len() && buf[..n] == o.expect[o.got..o.got + n] && buf[k..] == [0xa5; 8];
            o.got += n;
            kv.push(("n", J::Num(n as i64)));
            kv.push(("match", J::Bool(ok)));
        }
    }
    J::obj(kv)
}

fn recs_since(w: &Shared, from: usize) -> (Vec<J>, Vec<u8>) {
    let g = w.borrow();
    let mut data = vec![];
    let v = g.recs[from..]
        .iter()
        .map(|r| {
            if r.typ == 23 {
                data.extend_from_slice(r.plain.as_deref().unwrap_or(&[]));
            }
            J::obj(vec![
                ("t", J::Num(r.typ as i64)),
                ("ver", J::Num((r.ver.0 as i64) * 256 + r.ver.1 as i64)),
                ("open", J::Bool(r.plain.is_some())),
                ("partial", J::Bool(r.partial)),
                ("seq", J::Num(r.seq.map(|x| x as i64).unwrap_or(-1))),
                ("len", J::Num(r.plain.as_ref().map(|p| p.len()).unwrap_or(0) as i64)),
                ("wire", J::Num(r.frag.len() as i64)),
                ("head", J::Arr(r.plain.as_ref().map(|p| p.iter().take(4).map(|b| J::Num(*b as i64)).collect()).unwrap_or_default())),
            ])
        })
        .collect();
    (v, data)
}

/// an established connection and what was observed
pub struct Run<'a> {
    t: &'a J,
    w: Shared,
    c: Client,
    o: Obs,
    ops: Vec<J>,
}

impl<'a> Run<'a> {
    pub fn new(t: &'a J) -> Result<Run<'a>, J> {
        match connect(t.get("seed").int() as u64, t) {
            Ok((w, c)) => Ok(Run { t, w, c, o: Obs { got: 0, expect: vec![] }, ops: vec![] }),
            Err(m) => Err(J::obj(vec![("id", t.get("id").clone()), ("connect", J::s(&m))])),
        }
    }

    pub fn len(&self) -> usize {
        self.t.get("evs").arr().len()
    }

    pub fn step(&mut self, i: usize) {
        let Run { t, w, c, o, ops } = self;
        let ev = &t.get("evs").arr()[i];
        w.borrow_mut().nops += 1;
        let op = ev.get("op").str().to_string();
        let a = ev.get("a").int() as usize;
        let b = ev.get("b").int() as usize;
        match op.as_str() {
            "read" => ops.push(read(c, w, a, o)),
            "write" | "close" => {
                let from = w.borrow().recs.len();
                let fault = if op == "write" { b } else { a };
                let data = {
                    let mut g = w.borrow_mut();
                    if fault > 0 {
                        let n = g.nrec_started;
                        let off = match g.prm.get("woff").int_or(-2) {
                            -2 => {
                                let x = g.rng.below(8) as i64;
                                if x < 6 { x } else { -1 }
                            }
                            x => x,
                        };
                        let k = g.prm.get("wkind").int_or(-1);
                        let kind = if k < 0 { io_kinds(g.rng.below(6)) } else { io_kinds(k as usize) };
                        g.wfault = Some(WFault { rec: n + fault, off, kind, recover: true });
                        g.wfault_hit = false;
                    }
                    g.wcalls = 0;
                    g.rng.bytes(if op == "write" { a } else { 0 })
                };
                let api = t.get("wapi").int();
                let r = run::guarded(|| -> Result<usize, String> {
                    if op == "close" {
                        c.close().map(|_| 0).map_err(|e| format!("{:?}", e.kind))
                    } else if api == 1 {
                        c.write(&data).map_err(|e| e.to_string())
                    } else {
                        c.write_all(&data).map(|_| data.len()).map_err(|e| e.to_string())
                    }
                });
                let hit = {
                    let mut g = w.borrow_mut();
                    g.wfault = None;
                    g.wdead = false;
                    std::mem::replace(&mut g.wfault_hit, false)
                };
                let (recs, sent) = recs_since(w, from);
                let g = w.borrow();
                // a write may take a part of the data, which it then reports
                let done = match &r {
                    Ok(Ok(n)) if op == "write" => (*n).min(data.len()),
                    _ => data.len(),
                };
                let mut kv = vec![
                    ("op", J::s(&op)),
                    ("k", J::Num(data.len() as i64)),
                    ("recs", J::Arr(recs)),
                    ("left", J::Num(g.cur.len() as i64)),
                    ("hit", J::Bool(hit)),
                    ("data_ok", J::Bool(sent == data[..done])),
                    ("prefix_ok", J::Bool(data.starts_with(&sent))),
                ];
                match r {
                    Err(m) => kv.push(("panic", J::s(&m))),
                    Ok(Err(e)) => kv.push(("err", J::s(&e))),
                    Ok(Ok(n)) => kv.push(("n", J::Num(n as i64))),
                }
                ops.push(J::obj(kv));
            }
            _ => w.borrow_mut().script.push_back(ev.clone()),
        }
    }

    /// takes everything that is left
    pub fn finish(mut self) -> J {
    let Run { t, w, c, o, .. } = &mut self;
    let mut drain = vec![];
    let mut zeros = 0;
    for i in 0..t.get("drain").int_or(6) + 400 {
        let k = if i % 2 == 0 { 64 } else { 1 + i as usize * 997 % 20000 };
        let r = read(c, w, k, o);
        let n = r.get("n").int();
        let p = !r.get("panic").is_null();
        drain.push(r);
        if p {
            break;
        }
        if n <= 0 {
            zeros += 1;
        }
        if zeros >= 3 {
            break;
        }
    }
    let (id, got) = (t.get("id").clone(), o.got as i64);
    J::obj(vec![("id", id), ("ops", J::Arr(std::mem::take(&mut self.ops))), ("drain", J::Arr(drain)), ("got", J::Num(got))])
    }
}

pub fn test(t: &J) -> J {
    let mut r = match Run::new(t) {
        Ok(r) => r,
        Err(j) => return j,
    };
    for i in 0..r.len() {
        sched::point(&r.w);
        r.step(i);
    }
    sched::point(&r.w);
    r.finish()
}

