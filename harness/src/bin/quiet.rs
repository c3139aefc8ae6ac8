//! Behaviours of Handshake.tla, Session.tla and Robust.tla (Effects.tla): what
//! is asked of the system while they run.  The functions of the C library by
//! which a program has effects, or learns of its surroundings, are replaced by
//! ones that note what was asked in a run, and do it.
use husk_verif::json::J;
use husk_verif::{hstest, run, sessiontest};
use std::cell::{Cell, RefCell};
use std::ffi::{c_char, c_int, c_uint, c_void, CStr};

#[path = "robust.rs"]
#[allow(dead_code)]
mod robust;

thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    static SEEN: RefCell<Vec<(&'static str, String)>> = const { RefCell::new(Vec::new()) };
}

fn note(what: &'static str, detail: impl FnOnce() -> String) {
    if ON.try_with(|o| o.get()).unwrap_or(false) {
        ON.with(|o| o.set(false));
        SEEN.with(|s| {
            let mut s = s.borrow_mut();
            if s.len() < 16 {
                s.push((what, detail()));
            }
        });
        ON.with(|o| o.set(true));
    }
}

unsafe fn text(p: *const c_char) -> String {
    if p.is_null() {
        "null".into()
    } else {
        CStr::from_ptr(p).to_string_lossy().into_owned()
    }
}

extern "C" {
    fn dlsym(h: *mut c_void, name: *const c_char) -> *mut c_void;
}

/// the function of the C library
unsafe fn real(name: &'static [u8]) -> *mut c_void {
    let p = dlsym(-1isize as *mut c_void, name.as_ptr() as *const c_char);
    assert!(!p.is_null(), "harness: dlsym");
    p
}

macro_rules! stand_in {
    ($name:ident ( $($a:ident : $t:ty),* ) -> $r:ty, $what:expr, $detail:expr) => {
        #[no_mangle]
        pub unsafe extern "C" fn $name($($a: $t),*) -> $r {
            let what: &'static str = $what;
            if !what.is_empty() {
                note(what, || $detail);
            }
            let f: unsafe extern "C" fn($($t),*) -> $r = std::mem::transmute(real(concat!(stringify!($name), "\0").as_bytes()));
            f($($a),*)
        }
    };
}

unsafe fn data(p: *const c_void, n: usize) -> String {
    String::from_utf8_lossy(std::slice::from_raw_parts(p as *const u8, n.min(80))).into_owned()
}

fn out(fd: c_int) -> &'static str {
    match fd {
        1 | 2 => "terminal",
        _ => "file",
    }
}

/// reading the system's randomness is no effect
unsafe fn opened(p: *const c_char) -> &'static str {
    match text(p).as_str() {
        "/dev/urandom" | "/dev/random" => "",
        _ => "file",
    }
}

stand_in!(write(fd: c_int, p: *const c_void, n: usize) -> isize, out(fd), data(p, n));
stand_in!(writev(fd: c_int, p: *const c_void, n: c_int) -> isize, out(fd), format!("{} parts", n));
stand_in!(pwrite64(fd: c_int, p: *const c_void, n: usize, o: i64) -> isize, out(fd), data(p, n));
stand_in!(send(fd: c_int, p: *const c_void, n: usize, f: c_int) -> isize, "network", data(p, n));
stand_in!(sendto(fd: c_int, p: *const c_void, n: usize, f: c_int, a: *const c_void, l: c_uint) -> isize, "network", data(p, n));
stand_in!(sendmsg(fd: c_int, p: *const c_void, f: c_int) -> isize, "network", "sendmsg".into());
stand_in!(socket(d: c_int, t: c_int, p: c_int) -> c_int, "network", "socket".into());
stand_in!(connect(fd: c_int, a: *const c_void, l: c_uint) -> c_int, "network", "connect".into());
stand_in!(getaddrinfo(n: *const c_char, s: *const c_char, h: *const c_void, r: *mut c_void) -> c_int, "network", text(n));
stand_in!(open64(p: *const c_char, f: c_int, m: c_uint) -> c_int, opened(p), text(p));
stand_in!(openat(d: c_int, p: *const c_char, f: c_int, m: c_uint) -> c_int, opened(p), text(p));
stand_in!(openat64(d: c_int, p: *const c_char, f: c_int, m: c_uint) -> c_int, opened(p), text(p));
stand_in!(fopen(p: *const c_char, m: *const c_char) -> *mut c_void, "file", text(p));
stand_in!(unlink(p: *const c_char) -> c_int, "file", text(p));
stand_in!(rename(p: *const c_char, q: *const c_char) -> c_int, "file", text(p));
stand_in!(mkdir(p: *const c_char, m: c_uint) -> c_int, "file", text(p));
stand_in!(getenv(p: *const c_char) -> *mut c_char, "environment", text(p));
stand_in!(setenv(p: *const c_char, v: *const c_char, o: c_int) -> c_int, "environment", text(p));
stand_in!(unsetenv(p: *const c_char) -> c_int, "environment", text(p));
stand_in!(fork() -> c_int, "process", "fork".into());
stand_in!(execvp(p: *const c_char, a: *const c_void) -> c_int, "process", text(p));
stand_in!(posix_spawnp(i: *mut c_int, p: *const c_char, a: *const c_void, b: *const c_void, c: *const c_void, d: *const c_void) -> c_int, "process", text(p));
stand_in!(pthread_create(t: *mut c_void, a: *const c_void, f: *const c_void, x: *mut c_void) -> c_int, "process", "thread".into());
stand_in!(signal(s: c_int, h: *const c_void) -> *const c_void, "process", format!("signal {}", s));
stand_in!(sigaction(s: c_int, h: *const c_void, o: *mut c_void) -> c_int, "process", format!("signal {}", s));
stand_in!(nanosleep(t: *const c_void, r: *mut c_void) -> c_int, "sleep", "nanosleep".into());
stand_in!(clock_nanosleep(c: c_int, f: c_int, t: *const c_void, r: *mut c_void) -> c_int, "sleep", "clock_nanosleep".into());

#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, p: *mut c_void, n: usize) -> isize {
    if fd == 0 {
        note("terminal", || "standard input".into());
    }
    let f: unsafe extern "C" fn(c_int, *mut c_void, usize) -> isize = std::mem::transmute(real(b"read\0"));
    f(fd, p, n)
}

/// each kind of effect is seen
fn sees() -> J {
    let dir = std::env::temp_dir();
    let watched = |f: &dyn Fn()| {
        SEEN.with(|s| s.borrow_mut().clear());
        ON.with(|o| o.set(true));
        f();
        ON.with(|o| o.set(false));
        J::Arr(SEEN.with(|s| s.borrow().iter().map(|(k, _)| J::s(k)).collect()))
    };
    J::Arr(vec![
        watched(&|| {}),
        watched(&|| println!("seen")),
        watched(&|| eprintln!("seen")),
        watched(&|| drop(std::fs::metadata("/").and_then(|_| std::fs::read(dir.join("husk-verif-none"))))),
        watched(&|| drop(std::env::var("SSLKEYLOGFILE"))),
        watched(&|| drop(std::net::UdpSocket::bind("127.0.0.1:0"))),
        watched(&|| drop(std::thread::spawn(|| {}).join())),
        watched(&|| std::thread::sleep(std::time::Duration::from_millis(1))),
        watched(&|| drop(std::process::Command::new("/nonexistent/husk").spawn())),
        watched(&|| {
            use rand::RngCore;
            rand::rngs::OsRng.next_u64();
        }),
    ])
}

fn test(t: &J) -> J {
    if t.get("kind").str() == "sees" {
        return J::obj(vec![("id", t.get("id").clone()), ("sees", sees())]);
    }
    let u = t.get("t");
    SEEN.with(|s| s.borrow_mut().clear());
    ON.with(|o| o.set(true));
    let r = run::guarded(|| match t.get("kind").str() {
        "hs" => hstest::test(u),
        "session" => sessiontest::test(u),
        _ => robust::test(u),
    });
    ON.with(|o| o.set(false));
    let fx = SEEN.with(|s| s.borrow().iter().map(|(k, d)| J::Arr(vec![J::s(k), J::s(d)])).collect());
    let r = r.unwrap_or_else(|m| J::obj(vec![("fatal", J::s(&m))]));
    J::obj(vec![("id", t.get("id").clone()), ("r", r), ("fx", J::Arr(fx))])
}

fn main() {
    run::main(test);
}
