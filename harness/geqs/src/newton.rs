//! Root finders (N01, N02).
use geqslib::newton::*;
use std::cell::RefCell;
use std::collections::HashMap;
use std::io::Error;
use sxlib::*;

const DX: f64 = 0.001;

fn boom() -> Error {
    Error::from(std::io::ErrorKind::Other)
}

/// An arbitrary function: every evaluation at a new point yields an arbitrary value or an error.
pub fn n01_any(limit_max: usize) {
    let calls: RefCell<Vec<(f64, f64)>> = RefCell::new(vec![]);
    let failed = RefCell::new(false);
    let limit = range(0, limit_max);
    let fail_at = choose(2 * limit_max + 1); // evaluation number that fails; 0 = none
    let (guess, margin) = (real(), real());
    let f = |x: f64| {
        let n = calls.borrow().len() + 1;
        if n == fail_at {
            *failed.borrow_mut() = true;
            return Err(boom());
        }
        // a function: the same point gives the same value
        let old = calls.borrow().iter().find(|(p, _)| same(*p, x)).map(|c| c.1);
        if let Some(y) = old {
            calls_push(&calls, x, y);
            return Ok(y);
        }
        let y = real();
        calls_push(&calls, x, y);
        Ok(y)
    };
    let r = newton_raphson(f, guess, margin, limit);
    let c = calls.borrow();
    match r {
        Ok(x) => {
            reach(1);
            check(margin > 0.0, 200);
            check(limit > 0, 201);
            check(!*failed.borrow(), 202);
            // the returned point was evaluated, with a small value there
            let k = c.iter().position(|(p, _)| same(*p, x));
            check(k.is_some(), 203);
            let k = k.unwrap();
            let y = c[k].1;
            check(y <= margin && -y <= margin, 204);
            // and the Newton step from it is small, in either direction
            let h = c.iter().find(|(p, _)| eq(*p, x + DX));
            check(h.is_some(), 205);
            let slope = (h.unwrap().1 - y) / DX;
            let step = y / slope;
            check(step.abs() <= margin, 206);
        }
        Err(_) => reach(2),
    }
    if !c.is_empty() {
        check(margin > 0.0 && limit > 0, 207);
        check(eq(c[0].0, guess), 208);
    } else if fail_at != 1 {
        check(margin <= 0.0 || limit == 0, 209);
    }
    // at most `limit` iterations of two evaluations each
    check(c.len() <= 2 * limit, 210);
}
fn calls_push(c: &RefCell<Vec<(f64, f64)>>, x: f64, y: f64) {
    c.borrow_mut().push((x, y));
}

fn same(p: f64, q: f64) -> bool {
    p == q || (p.is_nan() && q.is_nan())
}

/// Straight lines: the root is found in two iterations, from any guess.
pub fn n01_line() {
    let (a, b, guess) = (real(), real(), real());
    let margin = real();
    assume(margin > 0.0);
    assume(a != 0.0);
    let limit = range(2, 3);
    let r = newton_raphson(|x| Ok::<f64, Error>(a * x + b), guess, margin, limit);
    match r {
        Ok(x) => {
            let y = a * x + b;
            check(y <= margin && -y <= margin, 220);
            let e = y / a;
            check(e <= margin && -e <= margin, 221);
            reach(3);
        }
        Err(_) => check(false, 222),
    }
}
/// Parabolas: whatever is returned is an approximate root.
pub fn n01_parabola() {
    let (b, c, guess, margin) = (real(), real(), real(), real());
    assume(margin > 0.0);
    let limit = range(1, 2);
    let f = |x: f64| x * x + b * x + c;
    if let Ok(x) = newton_raphson(|x| Ok::<f64, Error>(f(x)), guess, margin, limit) {
        let y = f(x);
        check(y <= margin && -y <= margin, 230);
        reach(4);
    }
}

// ---- N02 -------------------------------------------------------------------

type Map = HashMap<&'static str, f64>;
const K: [&str; 3] = ["u", "v", "w"];

/// n affine equations in n unknowns with arbitrary coefficients.
pub fn n02_affine(n: usize) {
    let a: Vec<Vec<f64>> = if n == 1 {
        vec![vec![real()]]
    } else {
        // diagonal and anti-diagonal systems with open coefficients, others with given ones
        let z = 0.0;
        match choose(6) {
            0 => vec![vec![real(), z], vec![z, real()]],
            1 => vec![vec![z, real()], vec![real(), z]],
            2 => vec![vec![1.0, 2.0], vec![3.0, -4.0]],
            3 => vec![vec![2.0, z], vec![1.0, -0.5]],
            4 => vec![vec![1.0, -3.0], vec![-2.0, 6.0]],
            _ => vec![vec![z, 4.0], vec![0.25, 1.0]],
        }
    };
    let b: Vec<f64> = (0..n).map(|_| real()).collect();
    let g: Vec<f64> = (0..n).map(|_| real()).collect();
    let margin = real();
    let limit = range(0, 3);
    let mut guess: Map = (0..n).map(|i| (K[i], g[i])).collect();
    let det = if n == 1 { a[0][0] } else { a[0][0] * a[1][1] - a[0][1] * a[1][0] };
    let ev = |i: usize, m: &Map| (0..n).fold(b[i], |s, j| s + a[i][j] * m[K[j]]);
    let iters = RefCell::new(0usize);
    let f: Vec<_> = (0..n)
        .map(|i| {
            let (ev, iters) = (&ev, &iters);
            move |m: &Map| {
                *iters.borrow_mut() += 1;
                Ok::<f64, Error>(ev(i, m))
            }
        })
        .collect();
    let first: Vec<f64> = (0..n).map(|i| ev(i, &guess)).collect();
    let r = multivariate_newton_raphson(f, &mut guess, margin, limit);
    match r {
        Ok(m) => {
            let m = m.clone();
            check(margin > 0.0 && limit > 0, 240);
            check(m.len() == n && (0..n).all(|j| m.contains_key(K[j])), 241);
            let s = (0..n).fold(0.0, |s, i| {
                let y = ev(i, &m);
                s + y * y
            });
            check(s <= margin * margin, 242);
            reach(1);
        }
        Err(_) => {
            // singular, exhausted or not allowed to start
            check(margin <= 0.0 || limit <= 1 || det == 0.0, 243);
            reach(2);
        }
    }
    // one iteration evaluates every equation n + 2 times
    check(*iters.borrow() <= limit * n * (n + 2), 244);
    // acceptance without a step only when the guess itself is good
    if margin > 0.0 && limit == 1 && det != 0.0 {
        let s = first.iter().fold(0.0, |s, y| s + y * y);
        if s > margin * margin {
            for j in 0..n {
                check(guess.contains_key(K[j]), 245);
            }
        }
    }
}

/// Arbitrary functions: the acceptance rule, with the functions' values left open.
pub fn n02_any(n: usize) {
    let log: RefCell<Vec<(usize, Vec<f64>, f64)>> = RefCell::new(vec![]);
    let margin = real();
    assume(margin > 0.0);
    let g: Vec<f64> = (0..n).map(|_| real()).collect();
    let fail_at = choose(n * (n + 2) + 1);
    let mut guess: Map = (0..n).map(|i| (K[i], g[i])).collect();
    let failed = RefCell::new(false);
    let f: Vec<_> = (0..n)
        .map(|i| {
            let (log, failed) = (&log, &failed);
            move |m: &Map| {
                let at: Vec<f64> = (0..n).map(|j| m[K[j]]).collect();
                if log.borrow().len() + 1 == fail_at {
                    *failed.borrow_mut() = true;
                    return Err(boom());
                }
                // same point, same value
                let old = log.borrow().iter().find(|(e, p, _)| *e == i && (0..n).all(|j| eq(p[j], at[j]))).map(|x| x.2);
                let y = match old {
                    Some(y) => y,
                    None => real(),
                };
                log.borrow_mut().push((i, at, y));
                Ok::<f64, Error>(y)
            }
        })
        .collect();
    let r = multivariate_newton_raphson(f, &mut guess, margin, 1);
    let log = log.borrow();
    match r {
        Ok(m) => {
            reach(3);
            check(!*failed.borrow(), 250);
            for j in 0..n {
                check(eq(m[K[j]], g[j]), 251);
            }
            let y = |i: usize, at: &[f64]| log.iter().find(|(e, p, _)| *e == i && (0..n).all(|j| eq(p[j], at[j]))).map(|x| x.2);
            let mut y0 = vec![];
            let mut jac = vec![vec![0.0; n]; n];
            for i in 0..n {
                let b = y(i, &g);
                check(b.is_some(), 252);
                y0.push(b.unwrap());
                for j in 0..n {
                    let mut at = g.clone();
                    at[j] += DX;
                    let h = y(i, &at);
                    check(h.is_some(), 253);
                    jac[i][j] = (h.unwrap() - y0[i]) / DX;
                }
            }
            let s = y0.iter().fold(0.0, |s, y| s + y * y);
            check(s <= margin * margin, 254);
            // the Newton step by Cramer's rule
            let step: Vec<f64> = if n == 1 {
                vec![y0[0] / jac[0][0]]
            } else {
                let det = jac[0][0] * jac[1][1] - jac[0][1] * jac[1][0];
                vec![(y0[0] * jac[1][1] - jac[0][1] * y0[1]) / det, (jac[0][0] * y0[1] - y0[0] * jac[1][0]) / det]
            };
            let s = step.iter().fold(0.0, |s, d| s + d * d);
            check(s <= margin * margin, 255);
        }
        Err(_) => reach(4),
    }
    check(log.len() <= n * (n + 2), 256);
}
/// Sizes and margins that must be refused before anything is evaluated.
pub fn n02_refused() {
    let nf = choose(4);
    let nv = choose(4);
    let margin = real();
    let limit = choose(3);
    let count = RefCell::new(0);
    let f: Vec<_> = (0..nf)
        .map(|_| {
            let count = &count;
            move |_: &Map| {
                *count.borrow_mut() += 1;
                Ok::<f64, Error>(0.0)
            }
        })
        .collect();
    let mut guess: Map = (0..nv).map(|i| (K[i], 1.0)).collect();
    if nf == nv {
        assume(margin <= 0.0 || limit == 0);
    }
    let r = panics(|| multivariate_newton_raphson(f, &mut guess, margin, limit).is_err());
    check(r == Some(true), 260);
    check(*count.borrow() == 0, 261);
    for i in 0..nv {
        check(guess[K[i]] == 1.0, 262);
    }
    reach(5);
}

// ---- values that are no numbers ---------------------------------------------

const SMALL: f64 = 0.000030517578125;
fn special(k: usize) -> f64 {
    [f64::NAN, 1.0, SMALL, f64::INFINITY, 0.0, f64::NEG_INFINITY, -SMALL][choose(k)]
}
/// Functions that are not defined, or unbounded, at some of the points: never accepted there.
pub fn n01_special() {
    let calls: RefCell<Vec<(f64, f64)>> = RefCell::new(vec![]);
    let margin = 0.0009765625;
    let limit = range(1, 2);
    let f = |x: f64| {
        let old = calls.borrow().iter().find(|(p, _)| same(*p, x)).map(|c| c.1);
        let y = match old {
            Some(y) => y,
            None => special(if limit == 1 { 7 } else { 5 }),
        };
        calls_push(&calls, x, y);
        Ok::<f64, Error>(y)
    };
    let r = newton_raphson(f, 1.0, margin, limit);
    let c = calls.borrow();
    if let Ok(x) = r {
        // the evaluated point that is closest
        let at = |x: f64| {
            let mut best: Option<(f64, f64)> = None;
            for (p, y) in c.iter() {
                let d = (p - x).abs();
                if d <= 1e-9 && best.map_or(true, |b| d < b.0) {
                    best = Some((d, *y));
                }
            }
            best.map(|b| b.1)
        };
        check(x.is_finite(), 215);
        match (at(x), at(x + DX)) {
            (Some(y), Some(h)) => {
                check(y.abs() <= margin, 216);
                check((y / ((h - y) / DX)).abs() <= margin, 217);
            }
            _ => check(false, 218),
        }
        reach(5);
    } else {
        reach(6);
    }
}
pub fn n02_special(n: usize) {
    let log: RefCell<Vec<(usize, Vec<f64>, f64)>> = RefCell::new(vec![]);
    let margin = 0.0009765625;
    let mut guess: Map = (0..n).map(|i| (K[i], 1.0)).collect();
    let f: Vec<_> = (0..n)
        .map(|i| {
            let log = &log;
            move |m: &Map| {
                let at: Vec<f64> = (0..n).map(|j| m[K[j]]).collect();
                let old = log.borrow().iter().find(|(e, p, _)| *e == i && (0..n).all(|j| near(p[j], at[j]))).map(|x| x.2);
                let y = match old {
                    Some(y) => y,
                    None => special(if n == 1 { 7 } else { 4 }),
                };
                log.borrow_mut().push((i, at, y));
                Ok::<f64, Error>(y)
            }
        })
        .collect();
    match panics(|| multivariate_newton_raphson(f, &mut guess, margin, 1).map(|m| m.clone())) {
        Some(Ok(m)) => {
            let log = log.borrow();
            let mut s = 0.0;
            for i in 0..n {
                check(m[K[i]] == 1.0 || near(m[K[i]], 1.0), 265);
                match log.iter().find(|(e, p, _)| *e == i && (0..n).all(|j| near(p[j], 1.0))) {
                    Some(x) => s += x.2 * x.2,
                    None => check(false, 266),
                }
            }
            // also when a square is no number
            check(s <= margin * margin, 267);
            reach(6);
        }
        Some(Err(_)) => reach(7),
        None => check(false, 268),
    }
}
