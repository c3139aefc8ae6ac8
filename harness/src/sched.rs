//! Switching between connections in the middle of transport calls: the
//! schedules of Isolation.tla.
use crate::json::J;
use crate::world::Shared;
use std::cell::RefCell;
use std::rc::Rc;
use std::sync::{Arc, Condvar, Mutex};

/// connection `who` goes on until it has made `upto` steps, and `lag` calls of
/// the transport in the next one
#[derive(Clone, Copy)]
pub struct Block {
    pub who: usize,
    pub upto: usize,
    pub lag: usize,
    /// the thread it goes on on
    pub on: usize,
}

impl Block {
    fn over(&self, p: &Progress) -> bool {
        p.steps > self.upto || p.steps == self.upto && p.calls >= self.lag
    }
}

pub fn blocks(t: &J) -> Vec<Block> {
    t.arr().iter().map(|b| Block { who: b.get("who").int() as usize - 1, upto: b.get("upto").int() as usize, lag: b.get("lag").int() as usize, on: b.get("on").int() as usize }).collect()
}

type Key = (usize, bool, usize, bool);

#[derive(Clone, Copy)]
struct Progress {
    who: usize,
    steps: usize,
    calls: usize,
    last: Key,
}

enum Mode {
    Off,
    /// one thread: the others run inside of a transport call
    Nested(Vec<Progress>, Vec<Block>, usize),
    Baton(Progress, Arc<Baton>),
}

thread_local! {
    static MODE: RefCell<Mode> = RefCell::new(Mode::Off);
    static NESTED: RefCell<Option<Rc<dyn Fn(usize)>>> = RefCell::new(None);
}

pub struct Baton {
    blocks: Vec<Block>,
    /// current block, connections that have ended, switches made
    at: Mutex<(usize, Vec<bool>, usize)>,
    go: Condvar,
}

impl Baton {
    fn pass(&self, p: &Progress, over: bool) {
        let mut g = self.at.lock().unwrap();
        if over {
            g.1[p.who] = true;
        }
        loop {
            let mine = match self.blocks.get(g.0) {
                None => return,
                Some(b) if g.1[b.who] => {
                    g.0 += 1;
                    self.go.notify_all();
                    continue;
                }
                Some(b) => b.who == p.who && !b.over(p),
            };
            if over {
                self.go.notify_all();
                return;
            }
            if mine {
                return;
            }
            if self.blocks[g.0].who == p.who {
                g.0 += 1;
                g.2 += 1;
                self.go.notify_all();
                continue;
            }
            g = self.go.wait(g).unwrap();
        }
    }
}

fn start(who: usize) -> Progress {
    Progress { who, steps: 0, calls: 0, last: (0, true, 0, true) }
}

/// something has happened since: a step
fn advance(p: &mut Progress, w: &Shared) {
    let g = w.borrow();
    let key = (g.nops, g.cur.is_empty(), g.recs.len() * 1000 + g.event, g.inbuf.is_empty());
    if key != p.last {
        p.last = key;
        p.steps += 1;
        p.calls = 0;
    } else {
        p.calls += 1;
    }
}

/// the connection may be left here for another one
pub fn point(w: &Shared) {
    let kind = MODE.with(|m| {
        match &mut *m.borrow_mut() {
            Mode::Off => 0,
            Mode::Nested(st, ..) => {
                advance(st.last_mut().unwrap(), w);
                1
            }
            Mode::Baton(p, _) => {
                advance(p, w);
                2
            }
        }
    });
    match kind {
        1 => while let Some(who) = next_inner() {
            inner(who);
        },
        2 => {
            let (p, b) = MODE.with(|m| match &*m.borrow() {
                Mode::Baton(p, b) => (*p, b.clone()),
                _ => unreachable!(),
            });
            b.pass(&p, false);
        }
        _ => {}
    }
}

/// the connection to be run now, inside of this one
fn next_inner() -> Option<usize> {
    MODE.with(|m| match &mut *m.borrow_mut() {
        Mode::Nested(st, bs, at) => {
            let p = st.last().unwrap();
            let b = bs.get(*at)?;
            if b.who == p.who {
                if !b.over(p) {
                    return None;
                }
                *at += 1;
            }
            let b = bs.get(*at)?;
            if st.iter().any(|x| x.who == b.who) {
                return None;
            }
            st.push(start(b.who));
            Some(st.last().unwrap().who)
        }
        _ => None,
    })
}

fn inner(who: usize) {
    let f = NESTED.with(|n| n.borrow().clone()).expect("harness: nested");
    f(who);
    ended(who);
}

/// what is left of the schedule of a connection that has ended is void
fn ended(who: usize) {
    MODE.with(|m| {
        if let Mode::Nested(st, bs, at) = &mut *m.borrow_mut() {
            st.retain(|p| p.who != who);
            let rest: Vec<Block> = bs.drain(*at..).filter(|b| b.who != who).collect();
            bs.extend(rest);
        }
    });
}

/// runs f for each connection as the schedule says, all on this thread, each
/// inside of a transport call of the one before
pub fn nested(bs: Vec<Block>, f: Rc<dyn Fn(usize)>) {
    NESTED.with(|x| *x.borrow_mut() = Some(f));
    let first = bs[0].who;
    MODE.with(|m| *m.borrow_mut() = Mode::Nested(vec![start(first)], bs, 0));
    inner(first);
    MODE.with(|m| *m.borrow_mut() = Mode::Off);
    NESTED.with(|x| *x.borrow_mut() = None);
}

/// runs f for each connection on a thread of its own; one at a time, as the
/// schedule says.  The number of switches.
pub fn baton(bs: Vec<Block>, n: usize, f: impl Fn(usize) + Sync) -> usize {
    let b = Arc::new(Baton { blocks: bs, at: Mutex::new((0, vec![false; n], 0)), go: Condvar::new() });
    std::thread::scope(|s| {
        for who in 0..n {
            let (b, f) = (b.clone(), &f);
            s.spawn(move || {
                MODE.with(|m| *m.borrow_mut() = Mode::Baton(start(who), b.clone()));
                b.pass(&start(who), false);
                let r = crate::run::guarded(|| f(who));
                MODE.with(|m| *m.borrow_mut() = Mode::Off);
                b.pass(&start(who), true);
                if let Err(m) = r {
                    panic!("{}", m);
                }
            });
        }
    });
    let k = b.at.lock().unwrap().2;
    k
}
