//! What harnesses use to talk to the symbolic executor.  In the native replay binary the same
//! functions are implemented by `native` below, over recorded inputs.

#[cfg(not(feature = "native"))]
mod imp {
    unsafe extern "C" {
        fn symx_bytes(p: *mut u8, n: usize);
        fn symx_assume(c: bool);
        fn symx_check(c: bool, id: *const u8, n: usize);
        fn symx_log(v: u64);
        fn symx_reach(id: *const u8, n: usize);
        fn symx_note(id: *const u8, n: usize);
        fn symx_file(p: *const u8, n: usize);
        fn symx_param(i: u64) -> u64;
        fn symx_concrete(v: u64) -> u64;
    }
    pub fn bytes(b: &mut [u8]) {
        unsafe { symx_bytes(b.as_mut_ptr(), b.len()) }
    }
    pub fn assume(c: bool) {
        unsafe { symx_assume(c) }
    }
    pub fn check(id: &str, c: bool) {
        unsafe { symx_check(c, id.as_ptr(), id.len()) }
    }
    pub fn log(v: u64) {
        unsafe { symx_log(v) }
    }
    pub fn reach(id: &str) {
        unsafe { symx_reach(id.as_ptr(), id.len()) }
    }
    pub fn note(b: &[u8]) {
        unsafe { symx_note(b.as_ptr(), b.len()) }
    }
    /// A path that reads as these bytes.
    pub fn file(b: &[u8]) -> std::path::PathBuf {
        let b: &'static [u8] = b.to_vec().leak();
        unsafe { symx_file(b.as_ptr(), b.len()) };
        "/virtual/file.dmm".into()
    }
    /// The same, named as source code.
    pub fn file_dm(b: &[u8]) -> std::path::PathBuf {
        file(b);
        "/virtual/file.dm".into()
    }
    pub fn param(i: u64) -> u64 {
        unsafe { symx_param(i) }
    }
    pub fn concrete(v: u64) -> u64 {
        unsafe { symx_concrete(v) }
    }
}

#[cfg(feature = "native")]
pub mod imp {
    use std::cell::RefCell;
    #[derive(Default)]
    pub struct Rec {
        pub input: Vec<u8>,
        pub pos: usize,
        pub log: Vec<u64>,
        pub fails: Vec<String>,
        pub notes: Vec<Vec<u8>>,
        pub params: Vec<u64>,
        pub short: bool,
    }
    pub struct Assume;
    pub struct Failed;
    thread_local! { pub static R: RefCell<Rec> = RefCell::new(Rec::default()); }
    pub fn bytes(b: &mut [u8]) {
        R.with(|r| {
            let r = &mut *r.borrow_mut();
            for x in b {
                *x = r.input.get(r.pos).copied().unwrap_or_else(|| {
                    r.short = true;
                    0
                });
                r.pos += 1;
            }
        })
    }
    pub fn assume(c: bool) {
        if !c {
            std::panic::resume_unwind(Box::new(Assume));
        }
    }
    pub fn check(id: &str, c: bool) {
        if !c {
            R.with(|r| r.borrow_mut().fails.push(id.to_owned()));
            std::panic::resume_unwind(Box::new(Failed));
        }
    }
    pub fn log(v: u64) {
        R.with(|r| r.borrow_mut().log.push(v))
    }
    pub fn reach(_: &str) {}
    pub fn note(b: &[u8]) {
        R.with(|r| r.borrow_mut().notes.push(b.to_vec()))
    }
    pub fn file(b: &[u8]) -> std::path::PathBuf {
        let p = std::env::temp_dir().join(format!("symx-replay-{}.dmm", std::process::id()));
        std::fs::write(&p, b).unwrap();
        p
    }
    pub fn file_dm(b: &[u8]) -> std::path::PathBuf {
        let p = std::env::temp_dir().join(format!("symx-replay-{}.dm", std::process::id()));
        std::fs::write(&p, b).unwrap();
        p
    }
    pub fn param(i: u64) -> u64 {
        R.with(|r| r.borrow().params.get(i as usize).copied().unwrap_or(0))
    }
    pub fn concrete(v: u64) -> u64 {
        v
    }
}

pub use imp::{assume, bytes, check, concrete, file, file_dm, log, note, param, reach};

pub fn any<const N: usize>() -> [u8; N] {
    let mut b = [0; N];
    bytes(&mut b);
    b
}
pub fn any_u8() -> u8 {
    any::<1>()[0]
}
pub fn any_bool() -> bool {
    any_u8() & 1 == 1
}
pub fn any_u16() -> u16 {
    u16::from_le_bytes(any())
}
pub fn any_u32() -> u32 {
    u32::from_le_bytes(any())
}
pub fn any_i32() -> i32 {
    i32::from_le_bytes(any())
}
pub fn any_u64() -> u64 {
    u64::from_le_bytes(any())
}
pub fn any_f32() -> f32 {
    f32::from_le_bytes(any())
}
/// A symbolic number in 0..n, kept symbolic.
pub fn below(n: u8) -> u8 {
    let x = any_u8();
    assume(x < n);
    x
}
/// A symbolic number in 0..n on which the execution forks here.
pub fn choice(n: u8) -> usize {
    let x = below(n);
    concrete(x as u64) as usize
}
/// A symbolic byte out of an alphabet.
pub fn of(alphabet: &[u8]) -> u8 {
    let x = any_u8();
    let mut ok = false;
    for &c in alphabet {
        ok |= x == c;
    }
    assume(ok);
    x
}
/// n symbolic bytes out of an alphabet.
pub fn text(n: usize, alphabet: &[u8]) -> Vec<u8> {
    (0..n).map(|_| of(alphabet)).collect()
}
/// n symbolic bytes without restriction.
pub fn raw(n: usize) -> Vec<u8> {
    let mut v = vec![0; n];
    bytes(&mut v);
    v
}
/// One of several strings: forks.
pub fn pick<'a>(opts: &[&'a str]) -> &'a str {
    opts[choice(opts.len() as u8)]
}
pub fn log_bytes(b: &[u8]) {
    log(b.len() as u64);
    for &x in b {
        log(x as u64);
    }
}
