//! Harness side of the symbolic executor: inputs, assumptions and assertions.
//!
//! In the build that is executed symbolically the functions below are left
//! undefined and are interpreted by the executor (inputs become SMT variables).
//! With the feature `native` they are defined here and read one concrete input
//! vector, which is how a counterexample is replayed against the real code.

#[cfg(not(feature = "native"))]
mod imp {
    extern "C" {
        pub fn sx_f64() -> f64;
        pub fn sx_bits(w: u32) -> u64;
        pub fn sx_bool() -> bool;
        pub fn sx_choose(n: u32) -> u32;
        pub fn sx_assume(c: bool);
        pub fn sx_check(c: bool, id: u32);
        pub fn sx_reach(id: u32);
        pub fn sx_eq(a: f64, b: f64) -> bool;
        pub fn sx_near(a: f64, b: f64) -> bool;
        pub fn sx_symbolic() -> bool;
        pub fn sx_concretize(v: u64) -> u64;
        pub fn sx_live() -> u64;
        pub fn sx_trace(id: u32, v: f64);
        pub fn sx_end();
    }
}

#[cfg(feature = "native")]
#[allow(clippy::missing_safety_doc)]
pub mod imp {
    use std::cell::RefCell;
    thread_local! {
        static IN: RefCell<Option<(Vec<(char, u64)>, usize)>> = const { RefCell::new(None) };
    }
    fn next(kind: char) -> u64 {
        IN.with(|c| {
            let mut c = c.borrow_mut();
            let c = c.get_or_insert_with(|| {
                let p = std::env::var("SX_REPLAY").expect("SX_REPLAY");
                let t = std::fs::read_to_string(p).expect("replay file");
                let v = t
                    .lines()
                    .filter(|l| !l.starts_with('#') && !l.trim().is_empty())
                    .map(|l| {
                        let mut w = l.split_whitespace();
                        let k = w.next().unwrap().chars().next().unwrap();
                        (k, u64::from_str_radix(w.next().unwrap(), 16).unwrap())
                    })
                    .collect();
                (v, 0)
            });
            let i = c.1;
            if i >= c.0.len() {
                // inputs past the failing point were never constrained
                return 0;
            }
            c.1 += 1;
            if c.0[i].0 != kind {
                println!("SX-REPLAY-MISMATCH want {} have {} at {}", kind, c.0[i].0, i);
                std::process::exit(80);
            }
            c.0[i].1
        })
    }
    pub unsafe fn sx_f64() -> f64 {
        f64::from_bits(next('f'))
    }
    pub unsafe fn sx_bits(w: u32) -> u64 {
        let v = next('u');
        if w >= 64 { v } else { v & ((1 << w) - 1) }
    }
    pub unsafe fn sx_bool() -> bool {
        next('b') != 0
    }
    pub unsafe fn sx_choose(n: u32) -> u32 {
        let v = next('c') as u32;
        if v >= n { 0 } else { v }
    }
    pub unsafe fn sx_assume(c: bool) {
        if !c {
            println!("SX-ASSUME-FALSE");
            std::process::exit(79);
        }
    }
    pub static CHECKS: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0);
    pub static REACHED: std::sync::Mutex<std::collections::BTreeSet<u32>> = std::sync::Mutex::new(std::collections::BTreeSet::new());
    pub fn done() {
        println!("SX-DONE checks={} reached={:?}", CHECKS.load(std::sync::atomic::Ordering::SeqCst), REACHED.lock().unwrap().iter().collect::<Vec<_>>());
    }
    pub unsafe fn sx_check(c: bool, id: u32) {
        CHECKS.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
        if !c {
            println!("SX-CHECK-FAILED {}", id);
            std::process::exit(77);
        }
    }
    pub unsafe fn sx_reach(id: u32) {
        REACHED.lock().unwrap().insert(id);
    }
    pub unsafe fn sx_eq(a: f64, b: f64) -> bool {
        a == b || (a.is_nan() && b.is_nan()) || (a - b).abs() <= 1e-9 * a.abs().max(b.abs()) || (a - b).abs() < 1e-12
    }
    pub unsafe fn sx_near(a: f64, b: f64) -> bool {
        a == b || (a.is_nan() && b.is_nan()) || (a - b).abs() <= 1e-6 * (1.0 + a.abs().max(b.abs()))
    }
    pub unsafe fn sx_symbolic() -> bool {
        false
    }
    pub unsafe fn sx_concretize(v: u64) -> u64 {
        v
    }
    pub unsafe fn sx_live() -> u64 {
        0
    }
    pub unsafe fn sx_trace(id: u32, v: f64) {
        println!("SX-TRACE {} {:?}", id, v);
    }
    pub unsafe fn sx_end() {
        done();
        std::process::exit(0)
    }
}

/// A fresh real number (finite; the specials are separate alternatives, see `special`).
pub fn real() -> f64 {
    unsafe { imp::sx_f64() }
}
/// Fresh `w`-bit number, zero extended.
pub fn bits(w: u32) -> u64 {
    unsafe { imp::sx_bits(w) }
}
pub fn boolean() -> bool {
    unsafe { imp::sx_bool() }
}
/// One of 0..n, explored as n separate paths.
pub fn choose(n: usize) -> usize {
    unsafe { imp::sx_choose(n as u32) as usize }
}
/// One of lo..=hi, explored as separate paths.
pub fn range(lo: usize, hi: usize) -> usize {
    lo + choose(hi - lo + 1)
}
pub fn assume(c: bool) {
    unsafe { imp::sx_assume(c) }
}
#[track_caller]
pub fn check(c: bool, id: u32) {
    unsafe { imp::sx_check(c, id) }
}
/// Witness that this point is reached (vacuity guard).
pub fn reach(id: u32) {
    unsafe { imp::sx_reach(id) }
}
/// Equality of real numbers (exact symbolically, within rounding on concrete values).
pub fn eq(a: f64, b: f64) -> bool {
    unsafe { imp::sx_eq(a, b) }
}
/// Equality within a tolerance that absorbs the error of a finite-difference
/// Newton iteration; used where the code's result is itself approximate.
pub fn near(a: f64, b: f64) -> bool {
    unsafe { imp::sx_near(a, b) }
}
pub fn symbolic() -> bool {
    unsafe { imp::sx_symbolic() }
}
pub fn concretize(v: u64) -> u64 {
    unsafe { imp::sx_concretize(v) }
}
pub fn live() -> u64 {
    unsafe { imp::sx_live() }
}
pub fn trace(id: u32, v: f64) {
    unsafe { imp::sx_trace(id, v) }
}
/// End this path here.
pub fn end() -> ! {
    unsafe { imp::sx_end() };
    loop {}
}
/// Runs `f` and tells whether it panicked.
pub fn panics<R>(f: impl FnOnce() -> R) -> Option<R> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).ok()
}
#[cfg(feature = "native")]
pub fn done() {
    imp::done()
}
#[cfg(not(feature = "native"))]
pub fn done() {}
/// No message and no backtrace: the panic text is not the subject.
pub fn quiet() {
    std::panic::set_hook(Box::new(|_| {}));
}

/// Declares the harness entries. The executor starts at `sx_entry_<name>`;
/// `main` runs one natively on the input vector named by `SX_REPLAY`.
#[macro_export]
macro_rules! entries {
    ($($name:ident = $e:expr;)*) => {
        pub mod sx_entries {
            #[allow(unused_imports)]
            use super::*;
            $($crate::entry!($name, $e);)*
        }
        static SX_ENTRIES: &[(&str, fn())] = &[$((stringify!($name), sx_entries::$name)),*];
        fn main() {
            let want = std::env::args().nth(1).unwrap_or_default();
            for (n, f) in SX_ENTRIES {
                if *n == want {
                    if std::env::args().nth(2).is_none() { $crate::quiet(); }
                    match $crate::panics(f) {
                        Some(()) => $crate::done(),
                        None => {
                            println!("SX-PANIC");
                            std::process::exit(78);
                        }
                    }
                    return;
                }
            }
            println!("SX-NO-ENTRY {}", want);
            std::process::exit(81);
        }
    };
}
#[macro_export]
macro_rules! entry {
    ($name:ident, $e:expr) => {
        #[no_mangle]
        #[inline(never)]
        pub fn $name() {
            if $crate::symbolic() {
                $crate::quiet();
            }
            $e
        }
    };
}

/// Any Greek letter of the second half of its block, or one of a few other characters beyond ASCII.
pub fn greek_char() -> String {
    match choose(5) {
        0 => unsafe { String::from_utf8_unchecked(vec![0xcf, 0x80 + bits(6) as u8]) },
        k => ["é", "→", "😀", "−"][k - 1].to_string(),
    }
}
/// Any character beyond ASCII that is neither white space nor related to an ASCII letter (of four bytes: one of them).
pub fn wide_char() -> String {
    let tail = |b: &mut Vec<u8>| b.push(0x80 + bits(6) as u8);
    let mut b = vec![];
    match choose(3) {
        0 => {
            let c = bits(8) as u8;
            // from U+0180 on; before that lie the two kinds of blank and the long s
            assume(c >= 0xc6 && c <= 0xdf);
            b.push(c);
            tail(&mut b);
        }
        1 => {
            let c = bits(8) as u8;
            assume(c >= 0xe4 && c <= 0xec);
            b.push(c);
            tail(&mut b);
            tail(&mut b);
        }
        _ => b.extend("😀".bytes()),
    }
    unsafe { String::from_utf8_unchecked(b) }
}
