//! Compiled functions (E03) and bounded variables (V01).
use crate::expr::{gen, oracle, text, NAMES, T};
use geqslib::shunting::*;
use geqslib::variable::Variable;
use std::collections::HashMap;
use sxlib::*;

fn clamp(v: f64, lo: f64, hi: f64) -> f64 {
    if v > hi {
        hi
    } else if v < lo {
        lo
    } else {
        v
    }
}
/// A domain: none, one-sided or an ordered pair of reals.
fn domain() -> (f64, f64) {
    match choose(4) {
        0 => (f64::NEG_INFINITY, f64::INFINITY),
        1 => (real(), f64::INFINITY),
        2 => (f64::NEG_INFINITY, real()),
        _ => {
            let (a, b) = (real(), real());
            assume(a <= b);
            (a, b)
        }
    }
}
fn agree(got: anyhow::Result<f64>, want: Result<Option<f64>, ()>, id: u32) {
    match (got, want) {
        (Ok(x), Ok(Some(y))) => check(eq(x, y), id),
        (Err(_), Ok(None)) => {}
        _ => check(false, id + 1),
    }
}

/// One variable `a`, used any number of times; calls with several arguments.
pub fn e03_single() {
    let (t, _) = gen(3, b"+*/", 1, false, 1);
    let t: Vec<T> = t.into_iter().map(|x| if let T::V(i) = x { if i == 1 { T::K } else { T::V(0) } } else { x }).collect();
    let (lo, hi) = domain();
    let k = real();
    let mut ctx = ContextHashMap::new();
    ctx.add_const_to_ctx("k", k);
    ctx.add_var_with_domain_to_ctx("a", 1.0, lo, hi);
    let s = text(&t, choose(2));
    let f = compile_to_fn(&s, &ctx).unwrap();
    let g = compile_to_fn("a*a - k", &ctx).unwrap();
    let (p, q) = (real(), real());
    agree(f(p), oracle(&t, &[clamp(p, lo, hi)], k), 100);
    let c = clamp(q, lo, hi);
    agree(g(q), Ok(Some(c * c - k)), 102);
    // the first answer again, whatever happened since
    agree(f(p), oracle(&t, &[clamp(p, lo, hi)], k), 104);
    agree(f(q), oracle(&t, &[clamp(q, lo, hi)], k), 106);
    reach(1);
}

/// Two variables through the map interface.
pub fn e03_map() {
    let (t, n) = gen(3, b"-*/", 1, false, 1);
    // operands are a, b, a
    let t: Vec<T> = t.into_iter().map(|x| if let T::V(i) = x { T::V(i % 2) } else { x }).collect();
    if n < 2 {
        end();
    }
    let d0 = domain();
    let d1 = (f64::NEG_INFINITY, f64::INFINITY);
    let mut ctx = ContextHashMap::new();
    ctx.add_var_with_domain_to_ctx(NAMES[0], 1.0, d0.0, d0.1);
    ctx.add_var_with_domain_to_ctx(NAMES[1], 2.0, d1.0, d1.1);
    let f = compile_to_fn_of_hashmap(&text(&t, 0), &ctx).unwrap();
    let g = compile_to_fn_of_hashmap("a - b", &ctx).unwrap();
    let args: Vec<[f64; 2]> = (0..2).map(|_| [real(), real()]).collect();
    let m = |x: &[f64; 2]| HashMap::from([(NAMES[0].to_string(), x[0]), (NAMES[1].to_string(), x[1])]);
    let w = |x: &[f64; 2]| [clamp(x[0], d0.0, d0.1), x[1]];
    agree(f(&m(&args[0])), oracle(&t, &w(&args[0]), 0.0), 120);
    let y = w(&args[1]);
    agree(g(&m(&args[1])), Ok(Some(y[0] - y[1])), 122);
    agree(f(&m(&args[0])), oracle(&t, &w(&args[0]), 0.0), 124);
    agree(f(&m(&args[1])), oracle(&t, &w(&args[1]), 0.0), 126);
    // argument maps are exactly the variables: an unknown or constant name is refused
    let mut bad = m(&args[0]);
    bad.insert("zz".to_string(), 1.0);
    check(f(&bad).is_err(), 128);
    // and afterwards everything is as before
    agree(f(&m(&args[0])), oracle(&t, &w(&args[0]), 0.0), 129);
    reach(2);
}

/// What may be compiled.
pub fn e03_names() {
    let mut ctx = new_context();
    let vars = choose(3);
    for i in 0..vars {
        ctx.add_var_to_ctx(NAMES[i], real());
    }
    let e = ["1+2", "a", "a+b", "a+nope", "nope", "sin(a)", "pi", "b", "b*pi"][choose(9)];
    let needs = match e {
        "1+2" | "pi" => 0,
        "a" | "sin(a)" => 1,
        "a+b" | "b" | "b*pi" => 2,
        _ => 9,
    };
    let map = compile_to_fn_of_hashmap(e, &ctx);
    check(map.is_ok() == (needs <= vars), 140);
    let one = compile_to_fn(e, &ctx);
    check(one.is_ok() == (needs <= vars && vars == 1), 141);
    if let Ok(f) = map {
        check(f(&HashMap::from([("nope".to_string(), 1.0)])).is_err(), 142);
        check(f(&HashMap::from([("pi".to_string(), 1.0)])).is_err(), 143);
        reach(3);
    } else {
        reach(4);
    }
}

// ---- V01 -------------------------------------------------------------------

pub fn v01(steps: usize) {
    let (lo, hi) = domain();
    let start = real();
    let mut v = Variable::new(start, lo, hi);
    // the value is in the domain from the first assignment on
    let mut now = start;
    for _ in 0..steps {
        let x = real();
        let raw = match choose(5) {
            0 => {
                v.set(x);
                x
            }
            1 => {
                v += x;
                now + x
            }
            2 => {
                v -= x;
                now - x
            }
            3 => {
                v *= x;
                now * x
            }
            _ => {
                assume(x != 0.0);
                v /= x;
                now / x
            }
        };
        now = clamp(raw, lo, hi);
        let got: f64 = v.into();
        check(eq(got, now), 150);
        check(got >= lo && got <= hi, 151);
        check(v.min == lo && v.max == hi, 152);
        reach(1);
    }
}
/// Infinite values and integer arguments.
pub fn v01_special() {
    let (lo, hi) = domain();
    let mut v = Variable::new(0.0, lo, hi);
    match choose(3) {
        0 => {
            v.set(f64::INFINITY);
            let g: f64 = v.into();
            check(g == hi, 160);
        }
        1 => {
            v.set(f64::NEG_INFINITY);
            let g: f64 = v.into();
            check(g == lo, 161);
        }
        _ => {
            let k = choose(7) as i32 - 3;
            v.set(k);
            let g: f64 = v.into();
            check(eq(g, clamp(k as f64, lo, hi)), 162);
        }
    }
    check(v.min == lo && v.max == hi, 163);
    reach(2);
}
