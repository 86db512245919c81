//! The C interface of nexsys (F01).
use geqslib::shunting::*;
use nexsys::ffi;
use std::collections::HashMap;
use std::ffi::{c_void, CStr, CString};
use sxlib::*;

fn c(s: &str) -> CString {
    CString::new(s).unwrap()
}
fn take(p: *mut i8) -> Option<String> {
    if p.is_null() {
        return None;
    }
    let s = unsafe { CStr::from_ptr(p) }.to_str().unwrap().to_string();
    unsafe { ffi::free_solution_string(p) };
    Some(s)
}
fn declared(d: *mut c_void) -> &'static HashMap<String, [f64; 3]> {
    unsafe { &*(d as *const HashMap<String, [f64; 3]>) }
}
/// The text of a solution reads back as exactly the given values.
fn reads_as(text: &str, want: &HashMap<String, f64>, id: u32) {
    let at = match text.rfind("soln: \"") {
        Some(i) => i + 7,
        None => {
            check(false, id);
            return;
        }
    };
    let body = text[at..].split('"').next().unwrap();
    let words: Vec<&str> = body.split([',', ':', '=', ' ']).filter(|w| !w.is_empty()).collect();
    check(words.len() == 2 * want.len(), id);
    for p in words.chunks(2) {
        match (want.get(p[0]), p.get(1).and_then(|v| v.parse::<f64>().ok())) {
            (Some(v), Some(w)) => check((v - w).abs() <= 1e-12 * v.abs(), id),
            _ => check(false, id),
        }
    }
}
const SYS: [&str; 5] = ["x + y = 9\nx - y = k", "x = k\ny = x + 1", "x + = 1", "x*x = 0 - 1", "x + y = 1"];

/// Handles through solves that succeed and fail, used again and released.
pub fn solves() {
    let ctx = unsafe { ffi::new_context_hash_map() };
    unsafe { ffi::add_const_to_ctx(ctx, c("k").as_ptr(), 4.0) };
    let d = ffi::new_declared_hash_map();
    check(unsafe { ffi::add_declared_variable(d, c("x").as_ptr(), 2.0, -50.0, 50.0) } == 1, 60);
    for _ in 0..2 {
        let s = SYS[choose(SYS.len())];
        let limit = [1u32, 15][choose(2)];
        // the native outcome on copies of what the handles hold
        let mut m = unsafe { (*(ctx as *const ContextHashMap)).clone() };
        let mut dd = declared(d).clone();
        let want = nexsys::basic_solve(s, &mut m, &mut dd, 0.001, limit as usize).ok();
        let got = take(unsafe { ffi::basic_solve(c(s).as_ptr(), ctx, d, 0.001, limit) });
        check(got.is_some() == want.is_some(), 61);
        if let (Some(g), Some((_, w))) = (got, want) {
            reads_as(&g, &w, 62);
            reach(1);
        } else {
            reach(2);
        }
        let after = unsafe { &*(ctx as *const ContextHashMap) };
        check(after.len() == m.len(), 63);
        match after.get("k") {
            Some(Token::Num(v)) => check(*v == 4.0, 64),
            _ => check(false, 65),
        }
        check(declared(d).len() == 1 && declared(d)["x"] == [2.0, -50.0, 50.0], 66);
    }
    unsafe {
        ffi::free_context_hash_map(ctx);
        ffi::free_declared_hash_map(d);
    }
    let t = ["guess 3 for x\nx + 1 = 5", "x + = 5", "x = 2\ne5 = x + 1"][choose(3)];
    let want = nexsys::solve_with_preprocessors(t, 0.001, 20).ok();
    let got = take(unsafe { ffi::solve_with_preprocessors(c(t).as_ptr(), 0.001, 20) });
    check(got.is_some() == want.is_some(), 67);
    match (got, want) {
        (Some(s), Some((_, w))) => {
            reads_as(&s, &w, 68);
            reach(3);
        }
        _ => reach(4),
    }
}
