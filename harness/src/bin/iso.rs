//! Several connections at once, interleaved as Isolation.tla says; each is a
//! test of its own.
use husk_verif::json::J;
use husk_verif::{hstest, run, sched, sessiontest};
use std::cell::RefCell;
use std::rc::Rc;
use std::sync::Mutex;

fn one(c: &J) -> J {
    let t = c.get("t");
    let r = run::guarded(|| match c.get("kind").str() {
        "hs" => hstest::test(t),
        _ => sessiontest::test(t),
    });
    r.unwrap_or_else(|m| J::obj(vec![("fatal", J::s(&m))]))
}

enum S<'a> {
    New,
    Up(sessiontest::Run<'a>, usize),
    Down(J),
}

/// the calls of one block
fn block<'a>(mut s: S<'a>, c: &'a J, b: &sched::Block) -> S<'a> {
    loop {
        let r = run::guarded(|| match s {
            S::New => match sessiontest::Run::new(c.get("t")) {
                Ok(r) => S::Up(r, 1),
                Err(j) => S::Down(j),
            },
            S::Up(r, n) if n > r.len() => S::Down(r.finish()),
            S::Up(mut r, n) => {
                r.step(n - 1);
                S::Up(r, n + 1)
            }
            s => s,
        });
        s = r.unwrap_or_else(|m| S::Down(J::obj(vec![("fatal", J::s(&m))])));
        match &s {
            S::Down(_) => return s,
            S::Up(_, n) if *n >= b.upto => return s,
            _ => {}
        }
    }
}

fn results(st: Vec<S>) -> Vec<Option<J>> {
    st.into_iter().map(|s| if let S::Down(j) = s { Some(j) } else { None }).collect()
}

/// sessions on one thread, switched between calls
fn steps(cs: &[J], bs: &[sched::Block]) -> (Vec<Option<J>>, usize) {
    let mut st: Vec<S> = cs.iter().map(|_| S::New).collect();
    for b in bs {
        let s = std::mem::replace(&mut st[b.who], S::New);
        st[b.who] = block(s, &cs[b.who], b);
    }
    (results(st), bs.len())
}

/// sessions that go from thread to thread, one of which runs at a time and
/// ends when it is not needed any more
fn moved(cs: &[J], bs: &[sched::Block]) -> (Vec<Option<J>>, usize) {
    struct Force<T>(T);
    // the client may be sent to other threads; the peer and the transport of
    // the harness are only ever used by the thread whose turn it is
    unsafe impl<T> Send for Force<T> {}
    let st: Force<Vec<S>> = Force(cs.iter().map(|_| S::New).collect());
    let turn = Mutex::new((0, st));
    let go = std::sync::Condvar::new();
    std::thread::scope(|sc| {
        for on in 1..=bs.iter().map(|b| b.on).max().unwrap_or(0) {
            let (turn, go) = (&turn, &go);
            let f = move || {
                for (k, b) in bs.iter().enumerate().filter(|(_, b)| b.on == on) {
                    let mut g = go.wait_while(turn.lock().unwrap(), |t| t.0 != k).unwrap();
                    let s = std::mem::replace(&mut g.1 .0[b.who], S::New);
                    g.1 .0[b.who] = block(s, &cs[b.who], b);
                    g.0 += 1;
                    go.notify_all();
                }
            };
            std::thread::Builder::new().stack_size(4 << 20).spawn_scoped(sc, f).expect("harness: thread");
        }
    });
    let switches = bs.windows(2).filter(|w| w[0].on != w[1].on).count();
    (results(turn.into_inner().unwrap().1 .0), switches)
}

fn test(t: &J) -> J {
    let cs = t.get("conns").arr();
    let bs = sched::blocks(t.get("blocks"));
    let mut switches = 0;
    let res: Vec<Option<J>> = match t.get("mode").str() {
        "nested" => {
            let all: Rc<(Vec<J>, RefCell<Vec<Option<J>>>)> = Rc::new((cs.to_vec(), RefCell::new(vec![None; cs.len()])));
            let a = all.clone();
            sched::nested(bs, Rc::new(move |who| {
                let r = one(&a.0[who]);
                a.1.borrow_mut()[who] = Some(r);
            }));
            let r = all.1.borrow().clone();
            switches = r.iter().filter(|x| x.is_some()).count() - 1;
            r
        }
        "threads" => {
            let out = Mutex::new(vec![None; cs.len()]);
            switches = sched::baton(bs, cs.len(), |who| {
                let r = one(&cs[who]);
                out.lock().unwrap()[who] = Some(r);
            });
            out.into_inner().unwrap()
        }
        "moved" => {
            let (r, s) = moved(cs, &bs);
            switches += s;
            r
        }
        _ => {
            let (r, s) = steps(cs, &bs);
            switches += s;
            r
        }
    };
    // whoever has not had its turn is alone now
    let res = res.into_iter().zip(cs).map(|(r, c)| r.unwrap_or_else(|| one(c))).collect();
    J::obj(vec![("id", t.get("id").clone()), ("r", J::Arr(res)), ("switches", J::Num(switches as i64))])
}

fn main() {
    // connections inside of connections
    run::main_on(16 << 20, test);
}
