//! Runs tests on all cores; a panic in the code under test is an observation.
use crate::json::{self, J};
use std::cell::RefCell;
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

thread_local! {
    static LAST: RefCell<String> = RefCell::new(String::new());
}

pub fn hook() {
    std::panic::set_hook(Box::new(|i| {
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST.with(|l| *l.borrow_mut() = format!("{} at {}", m, loc));
    }));
}

/// result or panic message
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(LAST.with(|l| l.borrow().clone())),
    }
}

/// reads tests (JSON lines) from the file named first, writes results to the
/// file named second; on stacks of the size the standard library gives threads
pub fn main(f: impl Fn(&J) -> J + Sync) {
    main_on(2 << 20, f)
}

/// the same with stacks of the given size
pub fn main_on(stack: usize, f: impl Fn(&J) -> J + Sync) {
    hook();
    let a: Vec<String> = std::env::args().collect();
    let inp = std::fs::File::open(&a[1]).expect("input file");
    let tests: Vec<String> = std::io::BufReader::new(inp).lines().map(|l| l.unwrap()).filter(|l| !l.is_empty()).collect();
    let out = Mutex::new(std::io::BufWriter::new(std::fs::File::create(&a[2]).expect("output file")));
    let next = AtomicUsize::new(0);
    let n = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(8);
    let limit: u64 = std::env::var("VERIF_HANG_S").ok().and_then(|s| s.parse().ok()).unwrap_or(30);
    let beats: Vec<Mutex<Option<(usize, Instant)>>> = (0..n).map(|_| Mutex::new(None)).collect();
    let done = AtomicUsize::new(0);
    std::thread::scope(|s| {
        for w in 0..n {
            let (tests, out, next, beats, f, done) = (&tests, &out, &next, &beats, &f, &done);
            std::thread::Builder::new()
                .stack_size(stack)
                .spawn_scoped(s, move || {
                    loop {
                        let i = next.fetch_add(1, Ordering::SeqCst);
                        if i >= tests.len() {
                            break;
                        }
                        let t = json::parse(&tests[i]);
                        *beats[w].lock().unwrap() = Some((i, Instant::now()));
                        let r = match guarded(|| f(&t)) {
                            Ok(r) => r,
                            Err(m) => J::obj(vec![("id", t.get("id").clone()), ("fatal", J::s(&m))]),
                        };
                        *beats[w].lock().unwrap() = None;
                        let line = r.dump();
                        let mut o = out.lock().unwrap();
                        writeln!(o, "{}", line).unwrap();
                    }
                    done.fetch_add(1, Ordering::SeqCst);
                })
                .unwrap();
        }
        // a test that does not end is reported, and ends the run
        while done.load(Ordering::SeqCst) < n {
            std::thread::sleep(Duration::from_millis(20));
            for b in &beats {
                let v = *b.lock().unwrap();
                if let Some((i, t)) = v {
                    if t.elapsed() > Duration::from_secs(limit) {
                        let t = json::parse(&tests[i]);
                        let mut o = out.lock().unwrap();
                        let r = J::obj(vec![("id", t.get("id").clone()), ("hang", J::Bool(true))]);
                        writeln!(o, "{}", r.dump()).unwrap();
                        o.flush().unwrap();
                        std::process::exit(0);
                    }
                }
            }
        }
    });
    out.lock().unwrap().flush().unwrap();
}
