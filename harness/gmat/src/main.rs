//! Harnesses for gmatlib (properties M01-M08).
use gmatlib::Matrix;
use sxlib::*;

mod ffi;
mod invert;
mod show;

type M = Matrix<f64>;

/// A matrix with the given shape whose elements are fresh reals, built through
/// the public API, together with those reals in row-major order.
pub fn any(r: usize, c: usize) -> (M, Vec<f64>) {
    let v: Vec<f64> = (0..r * c).map(|_| real()).collect();
    let m = Matrix::from_vec(c, v.clone()).unwrap();
    (m, v)
}
/// The stored values, read without going through the operation under test's index code.
pub fn vals(m: &M) -> Vec<f64> {
    m.iter().cloned().collect()
}
/// `m` has shape r x c and holds exactly `v`.
pub fn is(m: &M, r: usize, c: usize, v: &[f64], id: u32) {
    check(m.get_rows() == r && m.get_cols() == c, id);
    let w = vals(m);
    check(w.len() == v.len() && v.len() == r * c, id + 1);
    for i in 0..v.len() {
        check(eq(w[i], v[i]), id + 2);
    }
}

// ---- M01 ------------------------------------------------------------------

fn m01_construct() {
    match choose(5) {
        0 => {
            // any length 0..=9 and any number of columns 0..=5
            let n = range(0, 9);
            let c = range(0, 5);
            let v: Vec<f64> = (0..n).map(|_| real()).collect();
            match panics(|| Matrix::from_vec(c, v.clone())) {
                None => check(false, 101),
                Some(Ok(m)) => {
                    check(c > 0 && n % c == 0, 102);
                    is(&m, n / c, c, &v, 103);
                    for i in 0..n / c {
                        for j in 0..c {
                            check(eq(m[(i, j)], v[i * c + j]), 106);
                        }
                    }
                    let back: Vec<f64> = m.into();
                    check(back.len() == n, 107);
                    for i in 0..n {
                        check(eq(back[i], v[i]), 108);
                    }
                }
                Some(Err(_)) => check(c == 0 || n % c != 0, 109),
            }
        }
        1 => {
            let (r, c) = (range(0, 4), range(0, 4));
            is(&Matrix::new(r, c), r, c, &vec![0.0; r * c], 110);
        }
        2 => {
            let n = range(0, 5);
            let mut v = vec![0.0; n * n];
            for i in 0..n {
                v[i * n + i] = 1.0;
            }
            is(&Matrix::new_identity(n), n, n, &v, 115);
        }
        3 => {
            let n = range(0, 5);
            let v: Vec<f64> = (0..n).map(|_| real()).collect();
            is(&Matrix::from_row_vec(v.clone()), 1, n, &v, 120);
            is(&Matrix::from_col_vec(v.clone()), n, 1, &v, 123);
        }
        _ => {
            // equality and cloning
            let (r, c) = (range(1, 3), range(1, 3));
            let (a, v) = any(r, c);
            let b = a.clone();
            is(&b, r, c, &v, 126);
            check(a == b, 129);
            let (x, w) = any(r, c);
            let mut same = true;
            for i in 0..v.len() {
                same &= eq(v[i], w[i]);
            }
            check((a == x) == same, 130);
            let t = Matrix::from_vec(1, v.clone()).unwrap();
            check((a == t) == (c == 1), 131);
        }
    }
    reach(1);
}
/// Reading and writing with a fully symbolic index (the whole 64-bit range).
fn m01_index() {
    let (r, c) = (range(1, 3), range(1, 4));
    let (mut m, v) = any(r, c);
    let i = bits(64) as usize;
    let j = bits(64) as usize;
    let inside = i < r && j < c;
    if boolean() {
        match panics(|| m[(i, j)]) {
            Some(x) => {
                check(inside, 140);
                // which element it must be
                for a in 0..r {
                    for b in 0..c {
                        if i == a && j == b {
                            check(eq(x, v[a * c + b]), 141);
                        }
                    }
                }
                reach(2);
            }
            None => {
                check(!inside, 142);
                reach(3);
            }
        }
        is(&m, r, c, &v, 143);
    } else {
        let x = real();
        match panics(|| m[(i, j)] = x) {
            Some(()) => {
                check(inside, 150);
                check(m.get_rows() == r && m.get_cols() == c, 151);
                let w = vals(&m);
                check(w.len() == r * c, 152);
                for a in 0..r {
                    for b in 0..c {
                        let want = if i == a && j == b { x } else { v[a * c + b] };
                        check(eq(w[a * c + b], want), 153);
                    }
                }
                reach(4);
            }
            None => {
                check(!inside, 154);
                is(&m, r, c, &v, 155);
                reach(5);
            }
        }
    }
}

// ---- M02 ------------------------------------------------------------------

/// Any two 64-bit row numbers, valid or not.
fn m02_rows() {
    let (r, c) = (range(1, 4), range(1, 4));
    let (mut m, v) = any(r, c);
    let op = choose(5);
    let two = op == 0 || op >= 3;
    let r1 = bits(64) as usize;
    let r2 = if two { bits(64) as usize } else { 0 };
    let s = real();
    let ok = panics(|| match op {
        0 => m.inplace_row_swap(r1, r2),
        1 => m.inplace_row_scale(r1, s),
        2 => m.inplace_scale(s),
        3 => m.inplace_row_add(r1, r2),
        _ => m.inplace_scaled_row_add(r1, r2, s),
    });
    let inside = op == 2 || r1 < r && (!two || r2 < r);
    if ok.is_none() {
        check(!inside, 201);
        is(&m, r, c, &v, 205);
        reach(1);
        return;
    }
    check(inside, 202);
    let mut w = v.clone();
    for a in 0..r {
        for j in 0..c {
            let old = v[a * c + j];
            w[a * c + j] = match op {
                2 => old * s,
                1 if a == r1 => old * s,
                0 if a == r1 => v[r2 * c + j],
                0 if a == r2 => v[r1 * c + j],
                3 if a == r1 => old + v[r2 * c + j],
                4 if a == r1 => old + v[r2 * c + j] * s,
                _ => old,
            };
        }
    }
    is(&m, r, c, &w, 210 + 10 * op as u32);
    reach(2);
}

// ---- M03 ------------------------------------------------------------------

fn m03_arith() {
    let (r, c) = (range(1, 3), range(1, 3));
    let (p, q) = (range(1, 3), range(1, 3));
    let (a, v) = any(r, c);
    let (b, w) = any(p, q);
    let same = r == p && c == q;
    let op = choose(10);
    let mut acc = a.clone();
    let (ca, cb) = (a.clone(), b.clone());
    let res = panics(|| match op {
        0 => ca + cb,
        1 => &a + cb,
        2 => ca + &b,
        3 => &a + &b,
        4 => {
            acc += cb;
            acc.clone()
        }
        5 => ca - cb,
        6 => &a - cb,
        7 => ca - &b,
        8 => &a - &b,
        _ => {
            acc -= cb;
            acc.clone()
        }
    });
    match res {
        None => {
            check(!same, 301);
            is(&acc, r, c, &v, 302);
            reach(1);
        }
        Some(m) => {
            check(same, 306);
            let want: Vec<f64> = (0..r * c).map(|i| if op < 5 { v[i] + w[i] } else { v[i] - w[i] }).collect();
            is(&m, r, c, &want, 310 + 5 * op as u32);
            reach(2);
        }
    }
    is(&a, r, c, &v, 370);
    is(&b, p, q, &w, 375);
}
fn m03_scalar() {
    let (r, c) = (range(1, 4), range(1, 4));
    let (a, v) = any(r, c);
    let s = real();
    let want: Vec<f64> = v.iter().map(|x| x * s).collect();
    let p = &a * s;
    is(&p, r, c, &want, 380);
    is(&a, r, c, &v, 385);
    let p = a * s;
    is(&p, r, c, &want, 390);
    reach(3);
}
/// Another element type: 64-bit integers (values within 16 bits, so nothing overflows).
fn m03_int() {
    let (r, c) = (range(1, 2), range(1, 3));
    let v: Vec<i64> = (0..r * c).map(|_| bits(16) as i64).collect();
    let w: Vec<i64> = (0..r * c).map(|_| bits(16) as i64).collect();
    let a = Matrix::from_vec(c, v.clone()).unwrap();
    let b = Matrix::from_vec(c, w.clone()).unwrap();
    let x: Vec<i64> = (&a + &b).into();
    let y: Vec<i64> = (&a - &b).into();
    let mut t = a.clone();
    t += b.clone();
    let z: Vec<i64> = t.into();
    let u: Vec<i64> = (&a * 3).into();
    for i in 0..r * c {
        check(x[i] == v[i] + w[i], 395);
        check(y[i] == v[i] - w[i], 396);
        check(z[i] == v[i] + w[i], 397);
        check(u[i] == v[i] * 3, 398);
    }
    reach(4);
}

// ---- M04 ------------------------------------------------------------------

fn m04_product() {
    let (r, k) = (range(1, 3), range(1, 4));
    let (l, c) = (range(1, 4), range(1, 3));
    let (a, v) = any(r, k);
    let (b, w) = any(l, c);
    let op = choose(5);
    let (ca, cb) = (a.clone(), b.clone());
    let res = panics(|| match op {
        0 => a.multiply_matrix(&b).ok(),
        1 => Some(ca * cb),
        2 => Some(&a * cb),
        3 => Some(ca * &b),
        _ => Some(&a * &b),
    });
    match res {
        None => check(op != 0 && k != l, 401),
        Some(None) => check(op == 0 && k != l, 402),
        Some(Some(m)) => {
            check(k == l, 403);
            let mut want = vec![];
            for i in 0..r {
                for j in 0..c {
                    let mut t = 0.0;
                    for x in 0..k {
                        t += v[i * k + x] * w[x * c + j];
                    }
                    want.push(t);
                }
            }
            is(&m, r, c, &want, 410 + 5 * op as u32);
            reach(1);
        }
    }
    is(&a, r, k, &v, 440);
    is(&b, l, c, &w, 445);
}

// ---- M05 ------------------------------------------------------------------

fn m05_augment() {
    let (r, c) = (range(1, 3), range(1, 3));
    let (p, q) = (range(1, 3), range(1, 3));
    let (a, v) = any(r, c);
    let (b, w) = any(p, q);
    let op = choose(2);
    let res = panics(|| if op == 0 { a.augment_with(&b).ok() } else { Some(&a | &b) });
    match res {
        None => check(op == 1 && r != p, 501),
        Some(None) => check(op == 0 && r != p, 502),
        Some(Some(m)) => {
            check(r == p, 503);
            let mut want = vec![];
            for i in 0..r {
                want.extend_from_slice(&v[i * c..(i + 1) * c]);
                want.extend_from_slice(&w[i * q..(i + 1) * q]);
            }
            is(&m, r, c + q, &want, 504);
            reach(1);
        }
    }
    is(&a, r, c, &v, 508);
    is(&b, p, q, &w, 512);
}
fn m05_subset() {
    let (r, c) = (range(1, 3), range(1, 3));
    let (a, v) = any(r, c);
    let (r1, c1) = (range(0, r), range(0, c));
    let (r2, c2) = (range(0, r), range(0, c));
    let inside = r1 <= r2 && c1 <= c2 && r2 < r && c2 < c;
    match panics(|| a.subset(r1, c1, r2, c2)) {
        None => check(!inside, 520),
        Some(m) => {
            check(inside, 521);
            let mut want = vec![];
            for i in r1..=r2 {
                for j in c1..=c2 {
                    want.push(v[i * c + j]);
                }
            }
            is(&m, r2 - r1 + 1, c2 - c1 + 1, &want, 522);
            reach(2);
        }
    }
    is(&a, r, c, &v, 526);
}
fn m05_transpose_trace() {
    let (r, c) = (range(1, 4), range(1, 4));
    let (a, v) = any(r, c);
    let t = a.transpose();
    let mut want = vec![];
    for j in 0..c {
        for i in 0..r {
            want.push(v[i * c + j]);
        }
    }
    is(&t, c, r, &want, 530);
    match panics(|| a.trace()) {
        None => check(false, 535),
        Some(Err(_)) => check(r != c, 536),
        Some(Ok(x)) => {
            check(r == c, 537);
            let mut s = 0.0;
            for i in 0..r {
                s += v[i * c + i];
            }
            check(eq(x, s), 538);
            reach(3);
        }
    }
    is(&a, r, c, &v, 540);
}

// ---- larger shapes ----------------------------------------------------------

const BIG: [(usize, usize); 9] = [(5, 7), (9, 2), (1, 17), (17, 1), (8, 8), (6, 4), (2, 33), (33, 2), (16, 3)];
/// Numbers at the start, in the middle, at the end and just past it.
fn some(n: usize) -> usize {
    let k = [0, 1, n / 2, n - 1, n];
    k[choose(k.len())]
}
fn m01_big() {
    let (r, c) = BIG[choose(BIG.len())];
    let (mut m, v) = any(r, c);
    is(&m, r, c, &v, 160);
    let (i, j) = (some(r), some(c));
    let x = real();
    match panics(|| {
        let old = m[(i, j)];
        m[(i, j)] = x;
        old
    }) {
        Some(old) => {
            check(i < r && j < c, 164);
            check(eq(old, v[i * c + j]), 165);
            let mut w = v.clone();
            w[i * c + j] = x;
            is(&m, r, c, &w, 166);
        }
        None => check(i >= r || j >= c, 169),
    }
    let mut e = vec![0.0; r * r];
    for i in 0..r {
        e[i * r + i] = 1.0;
    }
    is(&Matrix::new_identity(r), r, r, &e, 170);
    is(&Matrix::new(c, r), c, r, &vec![0.0; r * c], 173);
    reach(6);
}
fn m02_big() {
    let (r, c) = BIG[choose(BIG.len())];
    let (mut m, v) = any(r, c);
    let op = choose(5);
    let two = op == 0 || op >= 3;
    let r1 = some(r);
    let r2 = if two { some(r) } else { 0 };
    let s = real();
    let ok = panics(|| match op {
        0 => m.inplace_row_swap(r1, r2),
        1 => m.inplace_row_scale(r1, s),
        2 => m.inplace_scale(s),
        3 => m.inplace_row_add(r1, r2),
        _ => m.inplace_scaled_row_add(r1, r2, s),
    });
    check(ok.is_some() == (op == 2 || r1 < r && (!two || r2 < r)), 260);
    let mut w = v.clone();
    if ok.is_some() {
        for a in 0..r {
            for j in 0..c {
                let old = v[a * c + j];
                w[a * c + j] = match op {
                    2 => old * s,
                    1 if a == r1 => old * s,
                    0 if a == r1 => v[r2 * c + j],
                    0 if a == r2 => v[r1 * c + j],
                    3 if a == r1 => old + v[r2 * c + j],
                    4 if a == r1 => old + v[r2 * c + j] * s,
                    _ => old,
                };
            }
        }
        reach(3);
    }
    is(&m, r, c, &w, 261);
}
fn m03_big() {
    let (r, c) = BIG[choose(BIG.len())];
    let (a, v) = any(r, c);
    // the same shape, or one of its neighbours
    let (p, q) = [(r, c), (c, r), (r + 1, c), (r, c + 1)][choose(4)];
    let (b, w) = any(p, q);
    let same = r == p && c == q;
    let op = choose(4);
    let mut acc = a.clone();
    let res = panics(|| match op {
        0 => &a + &b,
        1 => &a - &b,
        2 => {
            acc += b.clone();
            acc.clone()
        }
        _ => {
            acc -= b.clone();
            acc.clone()
        }
    });
    match res {
        None => check(!same, 350),
        Some(m) => {
            check(same, 351);
            let want: Vec<f64> = (0..r * c).map(|i| if op % 2 == 0 { v[i] + w[i] } else { v[i] - w[i] }).collect();
            is(&m, r, c, &want, 352);
            reach(5);
        }
    }
    let s = real();
    let want: Vec<f64> = v.iter().map(|x| x * s).collect();
    is(&(&a * s), r, c, &want, 355);
    is(&a, r, c, &v, 358);
}
fn m04_big() {
    let (r, k, c) = [(5, 7, 6), (9, 2, 9), (1, 17, 1), (17, 1, 5), (2, 33, 3), (8, 8, 8), (6, 9, 4), (4, 5, 4)][choose(8)];
    let (a, v) = any(r, k);
    let l = [k, k + 1, k - 1][choose(3)];
    if l == 0 {
        end();
    }
    let (b, w) = any(l, c);
    match panics(|| a.multiply_matrix(&b).ok()) {
        None => check(false, 460),
        Some(None) => check(k != l, 461),
        Some(Some(m)) => {
            check(k == l, 462);
            let mut want = vec![];
            for i in 0..r {
                for j in 0..c {
                    let mut t = 0.0;
                    for x in 0..k {
                        t += v[i * k + x] * w[x * c + j];
                    }
                    want.push(t);
                }
            }
            is(&m, r, c, &want, 463);
            is(&(&a * &b), r, c, &want, 466);
            reach(2);
        }
    }
}
fn m05_big() {
    let (r, c) = BIG[choose(BIG.len())];
    let (a, v) = any(r, c);
    match choose(3) {
        0 => {
            let (p, q) = [(r, 1), (r, c), (r, 9), (r + 1, c)][choose(4)];
            let (b, w) = any(p, q);
            match panics(|| a.augment_with(&b).ok()) {
                Some(Some(m)) => {
                    check(p == r, 550);
                    let mut want = vec![];
                    for i in 0..r {
                        want.extend_from_slice(&v[i * c..(i + 1) * c]);
                        want.extend_from_slice(&w[i * q..(i + 1) * q]);
                    }
                    is(&m, r, c + q, &want, 551);
                }
                Some(None) => check(p != r, 554),
                None => check(false, 555),
            }
        }
        1 => {
            let (r1, c1, r2, c2) = (some(r), some(c), some(r), some(c));
            match panics(|| a.subset(r1, c1, r2, c2)) {
                None => check(r1 > r2 || c1 > c2 || r2 >= r || c2 >= c, 556),
                Some(m) => {
                    check(r1 <= r2 && c1 <= c2 && r2 < r && c2 < c, 557);
                    let mut want = vec![];
                    for i in r1..=r2 {
                        for j in c1..=c2 {
                            want.push(v[i * c + j]);
                        }
                    }
                    is(&m, r2 - r1 + 1, c2 - c1 + 1, &want, 558);
                }
            }
        }
        _ => {
            let mut want = vec![];
            for j in 0..c {
                for i in 0..r {
                    want.push(v[i * c + j]);
                }
            }
            is(&a.transpose(), c, r, &want, 561);
            match a.trace() {
                Ok(x) => {
                    let mut s = 0.0;
                    for i in 0..r.min(c) {
                        s += v[i * c + i];
                    }
                    check(r == c && eq(x, s), 564);
                }
                Err(_) => check(r != c, 565),
            }
        }
    }
    is(&a, r, c, &v, 566);
    reach(4);
}

use ffi::*;
use invert::*;
entries! {
    m01_big = super::m01_big();
    m02_big = super::m02_big();
    m03_big = super::m03_big();
    m04_big = super::m04_big();
    m05_big = super::m05_big();
    m06_big = super::m06_big();
    m06_full = super::m06_full();
    m08_big = crate::show::big();
    m01_construct = super::m01_construct();
    m01_index = super::m01_index();
    m02_rows = super::m02_rows();
    m03_arith = super::m03_arith();
    m03_scalar = super::m03_scalar();
    m03_int = super::m03_int();
    m04_product = super::m04_product();
    m05_augment = super::m05_augment();
    m05_subset = super::m05_subset();
    m05_transpose_trace = super::m05_transpose_trace();
    m06_dense = super::m06_dense();
    m06_sparse = super::m06_sparse();
    m06_errors = super::m06_errors();
    m07_ops = super::m07_ops();
    m07_lifetime = super::m07_lifetime();
    m08_print = crate::show::print();
    m08_same = crate::show::same();
    m08_literals = crate::show::literals();
}
