//! Interface between the harnesses and whoever runs them: the symbolic
//! executor (feature `sym`), or an ordinary native process that feeds back one
//! concrete counterexample or path witness.

#[cfg(feature = "sym")]
mod imp {
    extern "C" {
        fn sym_bytes(p: *mut u8, n: usize, name: *const u8, nl: usize);
        fn sym_choose(n: u32, name: *const u8, nl: usize) -> u32;
        fn sym_assume(c: u8);
        fn sym_assert(c: u8, msg: *const u8, ml: usize);
        fn sym_observe(p: *const u8, n: usize);
        fn sym_reach(id: u32);
        fn sym_panic_ok(v: u32);
        fn sym_tier() -> u32;
        fn sym_rng_mode(v: u32);
        fn sym_aesni(v: u32);
        fn sym_limits(instrs: u64, alloc: u64);
        fn sym_sha256(p: *const u8, n: usize, out: *mut u8);
        fn sym_aes(key: *const u8, inp: *const u8, out: *mut u8, enc: u32);
        fn sym_is_symbolic(p: *const u8, n: usize) -> u32;
        fn sym_debug(p: *const u8, n: usize);
        fn sym_record();
        fn sym_recorded(p: *mut u8, cap: usize) -> usize;
        fn sym_random(p: *mut u8, n: usize);
    }
    pub fn fill(b: &mut [u8], name: &str) {
        unsafe { sym_bytes(b.as_mut_ptr(), b.len(), name.as_ptr(), name.len()) }
    }
    #[inline(never)]
    pub fn choose(n: u32, name: &str) -> u32 {
        unsafe { sym_choose(n, name.as_ptr(), name.len()) }
    }
    pub fn assume(c: bool) {
        unsafe { sym_assume(c as u8) }
    }
    pub fn check(c: bool, msg: &str) {
        unsafe { sym_assert(c as u8, msg.as_ptr(), msg.len()) }
    }
    pub fn observe(b: &[u8]) {
        unsafe { sym_observe(b.as_ptr(), b.len()) }
    }
    pub fn reach(id: u32) {
        unsafe { sym_reach(id) }
    }
    #[inline(never)]
    pub fn tier() -> u32 {
        unsafe { sym_tier() }
    }
    pub fn panic_ok(v: bool) {
        unsafe { sym_panic_ok(v as u32) }
    }
    pub fn rng_mode(v: u32) {
        unsafe { sym_rng_mode(v) }
    }
    pub fn aesni(v: bool) {
        unsafe { sym_aesni(v as u32) }
    }
    pub fn limits(instrs: u64, alloc: u64) {
        unsafe { sym_limits(instrs, alloc) }
    }
    pub fn sha256(d: &[u8]) -> [u8; 32] {
        let mut o = [0u8; 32];
        unsafe { sym_sha256(d.as_ptr(), d.len(), o.as_mut_ptr()) };
        o
    }
    pub fn aes(key: &[u8; 32], b: &[u8], enc: bool) -> [u8; 16] {
        let mut o = [0u8; 16];
        unsafe { sym_aes(key.as_ptr(), b.as_ptr(), o.as_mut_ptr(), enc as u32) };
        o
    }
    /// Start to record what the random source hands out.
    pub fn record() {
        unsafe { sym_record() }
    }
    /// What it has handed out since.
    pub fn recorded() -> Vec<u8> {
        let mut v = vec![0; 4096];
        let n = unsafe { sym_recorded(v.as_mut_ptr(), v.len()) };
        v.truncate(n);
        v
    }
    pub fn is_symbolic(b: &[u8]) -> bool {
        unsafe { sym_is_symbolic(b.as_ptr(), b.len()) != 0 }
    }
    #[no_mangle]
    pub unsafe extern "C" fn getrandom(p: *mut u8, n: usize, _f: u32) -> isize {
        sym_random(p, n);
        n as isize
    }
    pub fn debug(b: &[u8]) {
        unsafe { sym_debug(b.as_ptr(), b.len()) }
    }
}

#[cfg(not(feature = "sym"))]
mod imp {
    use crate::crypto;
    use std::cell::RefCell;

    pub enum Item {
        Bytes(String, Vec<u8>),
        Choice(String, u32, u32),
    }
    thread_local! {
        static REPLAY: RefCell<(Vec<Item>, usize)> = RefCell::new((vec![], 0));
    }
    pub fn unhex(s: &str) -> Vec<u8> {
        if s == "-" {
            return vec![];
        }
        (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
    }
    static TIER: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0);
    pub fn tier() -> u32 {
        TIER.load(std::sync::atomic::Ordering::SeqCst)
    }
    pub fn load(text: &str) {
        let mut v = vec![];
        for l in text.lines() {
            let f: Vec<&str> = l.split_whitespace().collect();
            match f.first() {
                Some(&"bytes") => v.push(Item::Bytes(f[1].into(), unhex(f[2]))),
                Some(&"choice") => v.push(Item::Choice(f[1].into(), f[2].parse().unwrap(), f[3].parse().unwrap())),
                Some(&"tier") => TIER.store(f[1].parse().unwrap(), std::sync::atomic::Ordering::SeqCst),
                _ => {}
            }
        }
        REPLAY.with(|r| *r.borrow_mut() = (v, 0));
    }
    fn diverge(why: &str) -> ! {
        println!("outcome diverged {}", why);
        std::process::exit(4)
    }
    pub fn fill(b: &mut [u8], name: &str) {
        REPLAY.with(|r| {
            let mut r = r.borrow_mut();
            let i = r.1;
            r.1 += 1;
            match r.0.get(i) {
                Some(Item::Bytes(n, v)) if n == name && v.len() == b.len() => b.copy_from_slice(v),
                _ => diverge(name),
            }
        })
    }
    pub fn choose(n: u32, name: &str) -> u32 {
        REPLAY.with(|r| {
            let mut r = r.borrow_mut();
            let i = r.1;
            r.1 += 1;
            match r.0.get(i) {
                Some(Item::Choice(m, k, v)) if m == name && *k == n => *v,
                _ => diverge(name),
            }
        })
    }
    pub fn assume(c: bool) {
        if !c {
            diverge("assume");
        }
    }
    pub fn check(c: bool, msg: &str) {
        if !c {
            println!("outcome assert {}", msg);
            std::process::exit(1);
        }
    }
    pub fn observe(b: &[u8]) {
        let h: String = b.iter().map(|x| format!("{:02x}", x)).collect();
        println!("obs {}", if h.is_empty() { "-".to_string() } else { h });
    }
    pub fn reach(_: u32) {}
    pub fn panic_ok(_: bool) {}
    static MODE: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0);
    static LCG: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0x1234_5678_9abc_def0);
    pub fn rng_mode(v: u32) {
        MODE.store(v, std::sync::atomic::Ordering::SeqCst);
    }
    thread_local! {
        static DRAWN: RefCell<Vec<u8>> = RefCell::new(vec![]);
    }
    pub fn record() {
        DRAWN.with(|d| d.borrow_mut().clear());
    }
    pub fn recorded() -> Vec<u8> {
        DRAWN.with(|d| d.borrow().clone())
    }
    /// Replaces the C library's source of randomness with the executor's.
    fn random(p: *mut u8, n: usize) {
        use std::sync::atomic::Ordering::SeqCst;
        let b = unsafe { std::slice::from_raw_parts_mut(p, n) };
        if MODE.load(SeqCst) == 1 && n > 0 {
            fill(b, "rnd");
        } else {
            for x in b {
                let r = LCG.load(SeqCst).wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                LCG.store(r, SeqCst);
                *x = (r >> 56) as u8;
            }
        }
        DRAWN.with(|d| d.borrow_mut().extend_from_slice(unsafe { std::slice::from_raw_parts(p, n) }));
    }
    #[no_mangle]
    pub unsafe extern "C" fn getrandom(p: *mut u8, n: usize, _f: u32) -> isize {
        random(p, n);
        n as isize
    }
    static CLOCK: std::sync::atomic::AtomicI64 = std::sync::atomic::AtomicI64::new(1_500_000_000);
    #[no_mangle]
    pub unsafe extern "C" fn clock_gettime(_c: i32, p: *mut i64) -> i32 {
        *p = CLOCK.fetch_add(1, std::sync::atomic::Ordering::SeqCst) + 1;
        *p.add(1) = 0;
        0
    }
    #[no_mangle]
    pub unsafe extern "C" fn syscall(nr: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
        if nr == 318 {
            random(a as *mut u8, b as usize);
            return b;
        }
        let r: i64;
        std::arch::asm!("syscall", inlateout("rax") nr => r, in("rdi") a, in("rsi") b, in("rdx") c,
            in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _);
        if (-4095..0).contains(&r) {
            extern "C" {
                fn __errno_location() -> *mut i32;
            }
            *__errno_location() = -r as i32;
            return -1;
        }
        r
    }
    static AESNI: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(true);
    pub fn aesni(v: bool) {
        AESNI.store(v, std::sync::atomic::Ordering::SeqCst);
    }
    #[no_mangle]
    pub extern "C" fn __wrap_rust_crypto_util_supports_aesni() -> u32 {
        (AESNI.load(std::sync::atomic::Ordering::SeqCst) && std::is_x86_feature_detected!("aes")) as u32
    }
    pub fn limits(_: u64, _: u64) {}
    pub fn sha256(d: &[u8]) -> [u8; 32] {
        crypto::sha256(d)
    }
    pub fn aes(key: &[u8; 32], b: &[u8], enc: bool) -> [u8; 16] {
        let mut i = [0u8; 16];
        i.copy_from_slice(&b[..16]);
        if enc {
            crypto::aes256(key, &i, true)
        } else {
            crypto::aes256(key, &i, false)
        }
    }
    pub fn is_symbolic(_: &[u8]) -> bool {
        true
    }
    pub fn debug(_: &[u8]) {}
}
pub use imp::*;

/// `n` unconstrained bytes.
#[inline(never)]
pub fn bytes(n: usize, name: &str) -> Vec<u8> {
    let mut v = vec![0u8; n];
    fill(&mut v, name);
    v
}
pub fn arr<const N: usize>(name: &str) -> [u8; N] {
    let mut v = [0u8; N];
    fill(&mut v, name);
    v
}
pub fn u8v(name: &str) -> u8 {
    arr::<1>(name)[0]
}
pub fn u64v(name: &str) -> u64 {
    u64::from_le_bytes(arr::<8>(name))
}
pub fn u32v(name: &str) -> u32 {
    u32::from_le_bytes(arr::<4>(name))
}
/// An unconstrained boolean (decided by the solver, not enumerated).
pub fn flag(name: &str) -> bool {
    u8v(name) & 1 == 1
}
/// A concrete number below `n`; every one is explored.
pub fn pick(n: u32, name: &str) -> usize {
    choose(n, name) as usize
}
/// Restricts the exploration to inputs on which an idealised function (a hash)
/// yields values of this kind; natively the function is the real one.
pub fn focus(c: bool) {
    if cfg!(feature = "sym") {
        assume(c)
    }
}
