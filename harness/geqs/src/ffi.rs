//! The C interface (F01).
use geqslib::ffi::*;
use geqslib::shunting::*;
use geqslib::solve_equation_with_context;
use geqslib::system::*;
use std::ffi::{c_char, c_void, CStr, CString};
use sxlib::*;

fn c(s: &str) -> CString {
    CString::new(s).unwrap()
}
fn take(p: *const c_char) -> Option<String> {
    if p.is_null() {
        return None;
    }
    let s = unsafe { CStr::from_ptr(p) }.to_str().unwrap().to_string();
    unsafe { free_solution_string(p as *mut c_char) };
    Some(s)
}
fn intact(ctx: *mut c_void, len: usize, k: f64, id: u32) {
    let m = unsafe { &*(ctx as *const ContextHashMap) };
    check(m.len() == len, id);
    match m.get("k") {
        Some(Token::Num(v)) => check(*v == k, id + 1),
        _ => check(false, id + 2),
    }
}
const EQS: [&str; 6] = ["x + 4 = 12", "x*k = 8", "x + y = 1", "x + = 1", "k = 4", "0*x = 1"];

/// A context handle used by several operations in any order.
pub fn f01_context(steps: usize) {
    let live = live();
    let full = boolean();
    let (ctx, len) = if full {
        (unsafe { new_default_context_hash_map() }, 17)
    } else {
        (unsafe { new_context_hash_map() }, 1)
    };
    let k = c("k");
    unsafe { add_const_to_ctx(ctx, k.as_ptr(), 4.0) };
    intact(ctx, len, 4.0, 400);
    for _ in 0..steps {
        let e = EQS[choose(EQS.len())];
        let ce = c(e);
        match choose(2) {
            0 => {
                let limit = [0u32, 20][choose(2)];
                let got = take(solve_equation(ce.as_ptr(), ctx, 1.0, -100.0, 100.0, 0.001, limit));
                let mut m = unsafe { (*(ctx as *const ContextHashMap)).clone() };
                let want = solve_equation_with_context(e, &mut m, 1.0, -100.0, 100.0, 0.001, limit as usize).ok();
                check(got == want.map(|(n, v)| format!("{}={}", n, v)), 403);
                reach(if got.is_some() { 1 } else { 2 });
            }
            _ => {
                let b = new_system_builder(ce.as_ptr(), ctx) as *mut c_void;
                let m = unsafe { (*(ctx as *const ContextHashMap)).clone() };
                check(b.is_null() == SystemBuilder::new(e, m).is_err(), 404);
                if !b.is_null() {
                    reach(3);
                    unsafe { free_system_builder(b) };
                }
            }
        }
        intact(ctx, len, 4.0, 405);
    }
    unsafe { free_context_hash_map(ctx) };
    drop(k);
    let _ = live;
}

/// A builder and the system made from it.
pub fn f01_system() {
    let ctx = unsafe { new_context_hash_map() };
    let k = c("k");
    unsafe { add_const_to_ctx(ctx, k.as_ptr(), 4.0) };
    let first = ["x + y = 9", "x = k", "x + y + z = 3"][choose(3)];
    let b = new_system_builder(c(first).as_ptr(), ctx) as *mut c_void;
    check(!b.is_null(), 420);
    let mut native = SystemBuilder::new(first, unsafe { (*(ctx as *const ContextHashMap)).clone() }).unwrap();
    // the builder does not depend on the handle any more
    let early = boolean();
    if early {
        unsafe { free_context_hash_map(ctx) };
    }
    for _ in 0..choose(3) {
        let e = ["x - y = k", "z = x", "x + = 1", "u + v = 1"][choose(4)];
        let want = match native.try_constrain_with(e) {
            Ok(ConstrainResult::WillConstrain) => 1,
            Ok(ConstrainResult::WillNotConstrain) => 0,
            Ok(ConstrainResult::WillOverConstrain) => 2,
            Err(_) => -1,
        };
        check(try_constrain_with(b, c(e).as_ptr()) == want, 421);
        check(is_fully_constrained(b) == native.is_fully_constrained() as i32, 422);
    }
    let s = build_system(b) as *mut c_void;
    check(!s.is_null() == native.is_fully_constrained(), 423);
    if s.is_null() {
        // nothing was built: the builder is still the caller's
        check(is_fully_constrained(b) == 0, 424);
        unsafe { free_system_builder(b) };
        reach(4);
    } else {
        let mut native = native.build_system().unwrap();
        let name = ["x", "nope", "k"][choose(3)];
        let ok = native.specify_variable(name, 2.0, -50.0, 50.0);
        check(specify_variable(s, c(name).as_ptr(), 2.0, -50.0, 50.0) == if ok { 1 } else { -1 }, 425);
        if boolean() {
            unsafe { free_system(s) };
            reach(5);
        } else {
            let limit = [1u32, 20][choose(2)];
            let got = take(solve_system(s, 0.001, limit));
            let want = native.solve(0.001, limit as usize).ok();
            check(got.is_some() == want.is_some(), 426);
            if let (Some(g), Some(w)) = (got, want) {
                let lines: Vec<&str> = g.split('\n').collect();
                check(lines.len() == w.len(), 427);
                for (n, v) in &w {
                    check(lines.contains(&format!("{}={}", n, v).as_str()), 428);
                }
                reach(6);
            }
        }
    }
    if !early {
        intact(ctx, 1, 4.0, 429);
        unsafe { free_context_hash_map(ctx) };
    }
}
