//! Symbolic-input intrinsics for the harnesses.
//! Under `--cfg symex` they are undefined externals the engine interprets; natively they replay a recorded
//! assignment (a counterexample or a sampled path) against the same harness and the same real code.

#[cfg(symex)]
mod imp {
    unsafe extern "C" {
        fn __sym_var(bits: u64, name: *const u8, len: usize) -> u64;
        fn __sym_assume(c: bool);
        fn __sym_assert(c: bool, msg: *const u8, len: usize);
        fn __sym_choose(n: u64, name: *const u8, len: usize) -> u64;
        fn __sym_concretize(v: u64) -> u64;
        fn __sym_observe(p: *const u8, len: usize);
        fn __sym_cover(p: *const u8, len: usize);
        fn __sym_param(p: *const u8, len: usize, default: u64) -> u64;
    }
    pub fn var(bits: u64, name: &str) -> u64 {
        unsafe { __sym_var(bits, name.as_ptr(), name.len()) }
    }
    pub fn assume(c: bool) {
        unsafe { __sym_assume(c) }
    }
    pub fn check(c: bool, msg: &str) {
        unsafe { __sym_assert(c, msg.as_ptr(), msg.len()) }
    }
    pub fn choose(n: u64, name: &str) -> u64 {
        unsafe { __sym_choose(n, name.as_ptr(), name.len()) }
    }
    pub fn concretize(v: u64) -> u64 {
        unsafe { __sym_concretize(v) }
    }
    pub fn observe(b: &[u8]) {
        unsafe { __sym_observe(b.as_ptr(), b.len()) }
    }
    /// A bound of the harness, set by the check's configuration.
    pub fn param(name: &str, default: u64) -> u64 {
        unsafe { __sym_param(name.as_ptr(), name.len(), default) }
    }
    pub fn cover(m: &str) {
        unsafe { __sym_cover(m.as_ptr(), m.len()) }
    }
}

#[cfg(symex)]
pub fn note(_t: &str) {}
#[cfg(not(symex))]
mod imp {
    use std::cell::RefCell;
    #[derive(Default)]
    struct Replay {
        vals: Vec<(String, u64)>,
        at: usize,
        obs: Vec<u8>,
        params: Vec<(String, u64)>,
        /// Development aid: made-up inputs from this state on instead of recorded ones.
        random: u64,
    }
    thread_local! { static R: RefCell<Replay> = RefCell::default(); }
    fn next(what: &str) -> u64 {
        R.with(|r| {
            let mut r = r.borrow_mut();
            if r.random > 0 {
                r.random = r.random.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407) | 1;
                let (k, v) = (r.vals.len(), r.random >> 33);
                r.vals.push((format!("{what}#{k}"), v));
                return v;
            }
            if r.at >= r.vals.len() {
                // the recorded path ended before this input (a panic or assertion natively reached later)
                println!("REPLAY-EXHAUSTED {what}");
                std::process::exit(4);
            }
            let (n, v) = r.vals[r.at].clone();
            let k = r.at;
            r.at += 1;
            if n != format!("{what}#{k}") {
                println!("REPLAY-DIVERGED expected {n} got {what}#{k}");
                std::process::exit(4);
            }
            v
        })
    }
    pub fn var(bits: u64, name: &str) -> u64 {
        let v = next(name);
        if bits >= 64 { v } else { v & ((1 << bits) - 1) }
    }
    pub fn assume(c: bool) {
        if !c {
            println!("REPLAY-ASSUME-FAILED");
            std::process::exit(3);
        }
    }
    pub fn check(c: bool, msg: &str) {
        if !c {
            println!("REPLAY-ASSERT {msg}");
            finish();
            std::process::exit(101);
        }
    }
    /// Made-up inputs are brought into range.
    pub fn wrap(v: u64, n: u64) -> u64 {
        if R.with(|r| r.borrow().random) > 0 { v % n } else { v }
    }
    pub fn choose(n: u64, name: &str) -> u64 {
        wrap(next(name), n)
    }
    pub fn concretize(v: u64) -> u64 {
        v
    }
    pub fn observe(b: &[u8]) {
        R.with(|r| r.borrow_mut().obs.extend_from_slice(b))
    }
    pub fn param(name: &str, default: u64) -> u64 {
        R.with(|r| r.borrow().params.iter().find(|p| p.0 == name).map(|p| p.1).unwrap_or(default))
    }
    pub fn cover(_m: &str) {}
    /// The input of a replay in readable form.
    pub fn note(t: &str) {
        println!("REPLAY-NOTE {}", t.escape_debug());
    }
    fn finish() {
        R.with(|r| {
            let r = r.borrow();
            let s: String = r.obs.iter().map(|b| format!("{b:02x}")).collect();
            println!("REPLAY-OBS {s}");
        })
    }
    /// `replay ENTRY FILE` runs a harness on the recorded inputs.
    pub fn replay_main(entries: &[(&str, extern "C" fn())]) {
        let a: Vec<String> = std::env::args().collect();
        let f = entries.iter().find(|e| e.0 == a[1]).expect("entry").1;
        let text = std::fs::read_to_string(&a[2]).expect("replay file");
        std::panic::set_hook(Box::new(|i| {
            println!("REPLAY-PANIC {}", i.to_string().replace('\n', " | "));
            finish();
        }));
        // a deep stack: recursion limits are a separate question
        let h = std::thread::Builder::new().stack_size(256 << 20);
        let text2 = text.clone();
        h.spawn(move || {
            for l in text2.lines() {
                let p: Vec<&str> = l.split(' ').collect();
                if p[0] == "random" {
                    R.with(|r| r.borrow_mut().random = p[1].parse::<u64>().unwrap() * 1000003 + 1);
                }
                if p[0] == "in" {
                    R.with(|r| r.borrow_mut().vals.push((p[1].to_string(), p[3].parse().unwrap())));
                }
                if p[0] == "param" {
                    R.with(|r| r.borrow_mut().params.push((p[1].to_string(), p[2].parse().unwrap())));
                }
            }
            f();
            finish();
            println!("REPLAY-OK");
        })
        .unwrap()
        .join()
        .unwrap();
    }
}
pub use imp::*;

pub fn u8(name: &str) -> u8 {
    var(8, name) as u8
}
pub fn bool(name: &str) -> bool {
    var(1, name) != 0
}
pub fn u32(name: &str) -> u32 {
    var(32, name) as u32
}
pub fn u64(name: &str) -> u64 {
    var(64, name)
}
/// A value in `lo..=hi` (at most 256 values), symbolic.
pub fn range(lo: u64, hi: u64, name: &str) -> u64 {
    let v = var(8, name);
    #[cfg(not(symex))]
    let v = wrap(v, hi - lo + 1);
    assume(v <= hi - lo);
    lo + v
}
pub fn bytes(n: usize, name: &str) -> Vec<u8> {
    let mut v = Vec::with_capacity(n);
    for _ in 0..n {
        v.push(u8(name));
    }
    v
}
/// A string of exactly `n` ASCII characters, each arbitrary.
pub fn ascii(n: usize, name: &str) -> String {
    let mut v = Vec::with_capacity(n);
    for _ in 0..n {
        let b = u8(name);
        assume(b < 128);
        v.push(b);
    }
    unsafe { String::from_utf8_unchecked(v) }
}
/// One of the given strings (one path each).
pub fn pick<'a>(opts: &[&'a str], name: &str) -> &'a str {
    opts[choose(opts.len() as u64, name) as usize]
}
/// An arbitrary well-formed UTF-8 character of `n` bytes appended to `out`.
pub fn push_char(out: &mut Vec<u8>, n: usize, name: &str) {
    let c = |lo: u8, hi: u8| {
        let b = u8(name);
        assume((b >= lo) & (b <= hi));
        b
    };
    match n {
        1 => out.push(c(0, 127)),
        2 => {
            out.push(c(0xC2, 0xDF));
            out.push(c(0x80, 0xBF));
        }
        3 => {
            let a = c(0xE0, 0xEF);
            let b = c(0x80, 0xBF);
            assume(((a != 0xE0) | (b >= 0xA0)) & ((a != 0xED) | (b < 0xA0)));
            out.push(a);
            out.push(b);
            out.push(c(0x80, 0xBF));
        }
        _ => {
            let a = c(0xF0, 0xF4);
            let b = c(0x80, 0xBF);
            assume(((a != 0xF0) | (b >= 0x90)) & ((a != 0xF4) | (b < 0x90)));
            out.push(a);
            out.push(b);
            out.push(c(0x80, 0xBF));
            out.push(c(0x80, 0xBF));
        }
    }
}
/// An arbitrary well-formed UTF-8 string of exactly `n` bytes: every way to split `n` into characters, every character.
pub fn utf8(n: usize, name: &str) -> String {
    let mut v = Vec::with_capacity(n);
    while v.len() < n {
        let left = n - v.len();
        let k = 1 + choose(left.min(4) as u64, "charlen") as usize;
        push_char(&mut v, k, name);
    }
    unsafe { String::from_utf8_unchecked(v) }
}

/// Declares the harness entry points of a crate.
#[macro_export]
macro_rules! harnesses {
    ($(fn $name:ident() $body:block)*) => {
        $(#[unsafe(no_mangle)] pub extern "C" fn $name() $body)*
        pub const ENTRIES: &[(&str, extern "C" fn())] = &[$((stringify!($name), $name as extern "C" fn())),*];
    };
}
