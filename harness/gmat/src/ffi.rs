//! M07: the C interface.
use crate::*;
use gmatlib::ffi as c;
use std::ffi::c_void;

type P = *mut c_void;

fn handle(r: usize, k: usize) -> (P, Vec<f64>) {
    let p = c::new_double_matrix(r as u32, k as u32);
    check(!p.is_null(), 700);
    let v: Vec<f64> = (0..r * k).map(|_| real()).collect();
    for i in 0..r {
        for j in 0..k {
            check(c::index_mut_double_matrix(p, i as u32, j as u32, v[i * k + j]) == 1, 701);
        }
    }
    (p, v)
}
/// The handle still holds r x k values `v` (read through the interface).
fn holds(p: P, r: usize, k: usize, v: &[f64], id: u32) {
    for i in 0..r {
        for j in 0..k {
            check(eq(c::index_double_matrix(p, i as u32, j as u32), v[i * k + j]), id);
        }
    }
    // the shape: one past the end in either direction is refused
    check(c::index_double_matrix(p, r as u32, 0) == f64::MIN, id + 1);
    check(c::index_double_matrix(p, 0, k as u32) == f64::MIN, id + 1);
}
fn native(r: usize, k: usize, v: &[f64]) -> M {
    let _ = r;
    Matrix::from_vec(k, v.to_vec()).unwrap()
}

/// One operation with arbitrary (valid or invalid) arguments: same outcome as
/// the native operation, operands intact, every handle freed exactly once.
pub fn m07_ops() {
    let (r, k) = (range(1, 3), range(1, 2));
    let (p, v) = handle(r, k);
    let mut n = native(r, k, &v);
    let s = 2.5;
    let op = choose(13);
    match op {
        0 | 1 | 2 | 3 | 4 => {
            let r1 = range(0, r);
            let r2 = if op == 0 || op >= 3 { range(0, r) } else { 0 };
            let (a, b) = (r1 as u32, r2 as u32);
            let got = match op {
                0 => c::inplace_row_swap(p, a, b),
                1 => c::inplace_row_scale(p, a, s),
                2 => c::inplace_scale(p, s),
                3 => c::inplace_row_add(p, a, b),
                _ => c::inplace_scaled_row_add(p, a, b, s),
            };
            let want = panics(|| match op {
                0 => n.inplace_row_swap(r1, r2),
                1 => n.inplace_row_scale(r1, s),
                2 => n.inplace_scale(s),
                3 => n.inplace_row_add(r1, r2),
                _ => n.inplace_scaled_row_add(r1, r2, s),
            });
            check(got == want.is_some() as u32, 710);
            holds(p, r, k, &vals(&n), 711);
        }
        5 | 6 => {
            let (r2, k2) = (range(1, 3), range(1, 2));
            let (q, w) = handle(r2, k2);
            let m = native(r2, k2, &w);
            let got = if op == 5 { c::multiply_matrix(p, q) } else { c::augment_with(p, q) };
            let want = if op == 5 { n.multiply_matrix(&m) } else { n.augment_with(&m) };
            check(got.is_null() == want.is_err(), 715);
            if let Ok(x) = want {
                holds(got, x.get_rows(), x.get_cols(), &vals(&x), 716);
                c::free_double_matrix(got);
                reach(1);
            } else {
                reach(2);
            }
            holds(p, r, k, &v, 720);
            holds(q, r2, k2, &w, 722);
            c::free_double_matrix(q);
        }
        7 => {
            let (r1, c1) = (range(0, r), range(0, k));
            let (r2, c2) = (range(0, r), range(0, k));
            let got = c::subset(p, r1 as u32, c1 as u32, r2 as u32, c2 as u32);
            let want = panics(|| n.subset(r1, c1, r2, c2));
            check(got.is_null() == want.is_none(), 725);
            if let Some(x) = want {
                holds(got, x.get_rows(), x.get_cols(), &vals(&x), 726);
                c::free_double_matrix(got);
            }
            holds(p, r, k, &v, 728);
        }
        8 => {
            let got = c::trace(p);
            match n.trace() {
                Ok(t) => check(eq(got, t), 730),
                Err(_) => check(got.is_nan(), 731),
            }
            holds(p, r, k, &v, 732);
        }
        9 => {
            let got = c::transpose(p);
            check(!got.is_null(), 735);
            let x = n.transpose();
            holds(got, x.get_rows(), x.get_cols(), &vals(&x), 736);
            c::free_double_matrix(got);
            holds(p, r, k, &v, 738);
        }
        10 => {
            let got = c::try_inplace_invert(p);
            let want = n.try_inplace_invert();
            check((got == u32::MAX) == want.is_ok(), 740);
            if let Err(e) = want {
                use gmatlib::error::MatrixInversionError::*;
                let code = match e.downcast() {
                    Ok(DeterminantWasZero) => 0,
                    Ok(SingularValueWasZero) => 1,
                    Ok(ZeroDuringInversion) => 2,
                    Err(_) => 3,
                };
                check(got == code, 741);
                reach(3);
            }
            holds(p, r, k, &vals(&n), 742);
        }
        11 => {
            let (i, j) = (range(0, r), range(0, k));
            let x = real();
            let got = c::index_mut_double_matrix(p, i as u32, j as u32, x);
            let inside = i < r && j < k;
            check(got == inside as u32, 745);
            let mut w = v.clone();
            if inside {
                w[i * k + j] = x;
            }
            holds(p, r, k, &w, 746);
        }
        _ => {
            let q = c::clone_double_matrix(p);
            check(!q.is_null() && q != p, 750);
            holds(q, r, k, &v, 751);
            check(c::index_mut_double_matrix(q, 0, 0, real()) == 1, 753);
            holds(p, r, k, &v, 754);
            c::free_double_matrix(q);
            holds(p, r, k, &v, 756);
        }
    }
    c::free_double_matrix(p);
    reach(4);
}
/// Sequences of two failing operations followed by use and release, and the
/// balance of the heap afterwards.
pub fn m07_lifetime() {
    // anything allocated lazily by the panic machinery is not counted
    c::free_double_matrix(c::new_double_identity_matrix(1));
    let warm = c::new_double_matrix(1, 1);
    let _ = c::index_double_matrix(warm, 9, 9);
    c::free_double_matrix(warm);
    let before = live();
    let p = c::new_double_identity_matrix(2);
    let q = c::new_double_matrix(3, 1);
    for _ in 0..2 {
        match choose(12) {
            0 => check(c::inplace_row_swap(p, 0, bad()) == 0, 760),
            1 => check(c::inplace_row_scale(p, bad(), 2.0) == 0, 761),
            2 => check(c::inplace_row_add(p, bad(), 0) == 0, 762),
            3 => check(c::inplace_scaled_row_add(p, 1, bad(), 3.0) == 0, 763),
            4 => check(c::multiply_matrix(p, q).is_null(), 764),
            5 => check(c::augment_with(p, q).is_null(), 765),
            6 => check(c::subset(p, 0, 0, bad(), 0).is_null(), 766),
            7 => check(c::trace(q).is_nan(), 767),
            8 => check(c::try_inplace_invert(q) == 3, 768),
            9 => check(c::index_double_matrix(p, 0, bad()) == f64::MIN, 769),
            10 => check(c::index_mut_double_matrix(p, bad(), 0, 1.0) == 0, 770),
            _ => {
                let t = c::multiply_matrix(p, p);
                check(!t.is_null(), 771);
                c::free_double_matrix(t);
            }
        }
    }
    holds(p, 2, 2, &[1.0, 0.0, 0.0, 1.0], 775);
    holds(q, 3, 1, &[0.0, 0.0, 0.0], 777);
    c::free_double_matrix(p);
    c::free_double_matrix(q);
    check(live() == before, 779);
    reach(5);
}
/// An index outside a 2 x 2 matrix: the first one past the end or any larger one.
fn bad() -> u32 {
    let b = bits(32) as u32;
    assume(b >= 2);
    b
}
