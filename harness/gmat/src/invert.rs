//! M06: inversion.
use crate::*;

/// b * a is the identity, computed here element by element.
fn inverse_of(b: &M, v: &[f64], n: usize, id: u32) {
    check(b.get_rows() == n && b.get_cols() == n, id);
    let w = vals(b);
    check(w.len() == n * n, id);
    for i in 0..n {
        for j in 0..n {
            let mut t = 0.0;
            for k in 0..n {
                t += w[i * n + k] * v[k * n + j];
            }
            check(eq(t, if i == j { 1.0 } else { 0.0 }), id + 1);
        }
    }
}
/// Determinant by cofactor expansion.
pub fn det(v: &[f64], n: usize) -> f64 {
    if n == 0 {
        return 1.0;
    }
    if n == 1 {
        return v[0];
    }
    let mut t = 0.0;
    for k in 0..n {
        let x = v[k];
        let mut sub = vec![];
        for i in 1..n {
            for j in 0..n {
                if j != k {
                    sub.push(v[i * n + j]);
                }
            }
        }
        let d = x * det(&sub, n - 1);
        if k % 2 == 0 {
            t += d;
        } else {
            t -= d;
        }
    }
    t
}
fn judge(v: &[f64], n: usize) {
    let mut a = Matrix::from_vec(n, v.to_vec()).unwrap();
    let d = det(v, n);
    match panics(|| a.try_inplace_invert()) {
        None => check(false, 601),
        Some(Ok(())) => {
            check(!eq(d, 0.0), 602);
            inverse_of(&a, v, n, 603);
            reach(n as u32);
        }
        Some(Err(_)) => {
            check(eq(d, 0.0), 606);
            is(&a, n, n, v, 607);
            reach(10 + n as u32);
        }
    }
}
/// Every element symbolic, n = 1..4.
pub fn m06_dense() {
    let n = range(1, 4);
    let v: Vec<f64> = (0..n * n).map(|_| real()).collect();
    judge(&v, n);
}
/// n = 5, 6: a row permutation of a matrix with a symbolic diagonal and some
/// symbolic off-diagonal elements, so that zeros appear on the diagonal both
/// at the start and during elimination.
pub fn m06_sparse() {
    let n = range(5, 6);
    let mut v = vec![0.0; n * n];
    // which permutation moves the diagonal
    let perm: &[usize] = match choose(5) {
        0 => &[0, 1, 2, 3, 4, 5],
        1 => &[1, 0, 2, 3, 4, 5],
        2 => &[1, 2, 3, 4, 0, 5],
        3 => &[4, 3, 2, 1, 0, 5],
        _ => &[0, 1, 2, 4, 3, 5],
    };
    for i in 0..n {
        v[i * n + perm[i]] = 1.0 + i as f64;
    }
    match choose(4) {
        0 => {
            // symbolic weights on the permuted diagonal
            for i in 0..n {
                v[i * n + perm[i]] = real();
            }
        }
        1 => {
            // a dense symbolic 2x2 block in the leading corner
            for i in 0..2 {
                for j in 0..2 {
                    v[i * n + j] = real();
                }
            }
        }
        2 => {
            // a dense symbolic 2x2 block at the end
            for i in n - 2..n {
                for j in n - 2..n {
                    v[i * n + j] = real();
                }
            }
        }
        _ => {
            // a symbolic last row
            for j in 0..n {
                v[(n - 1) * n + j] = real();
            }
        }
    }
    judge(&v, n);
}
/// Singular and non-square matrices are refused and left alone.
pub fn m06_errors() {
    let (r, c) = (range(1, 4), range(1, 4));
    assume(r != c);
    let (mut a, v) = any(r, c);
    match panics(|| a.try_inplace_invert()) {
        None => check(false, 620),
        Some(x) => check(x.is_err(), 621),
    }
    is(&a, r, c, &v, 622);
    reach(20);
}
/// Larger matrices: a permuted diagonal, one of whose rows is symbolic, or equals another one.
pub fn m06_big() {
    let n = [7, 8, 12][choose(3)];
    let shift = [0, 1, n - 2][choose(3)];
    let back = boolean();
    let at = |i: usize| if back { n - 1 - (i + shift) % n } else { (i + shift) % n };
    let mut v = vec![0.0; n * n];
    for i in 0..n {
        v[i * n + at(i)] = [1.0, 2.0, -0.5][i % 3];
    }
    let row = [0, n - 1][choose(2)];
    let twice = choose(4) == 0;
    if twice {
        // once more, times two
        let other = (row + 1) % n;
        for j in 0..n {
            v[row * n + j] = 2.0 * v[other * n + j];
        }
    } else {
        for j in 0..n {
            v[row * n + j] = real();
        }
    }
    let regular = !twice && v[row * n + at(row)] != 0.0;
    let mut a = Matrix::from_vec(n, v.to_vec()).unwrap();
    match panics(|| a.try_inplace_invert()) {
        None => check(false, 630),
        Some(Ok(())) => {
            check(regular, 631);
            inverse_of(&a, &v, n, 632);
            reach(21);
        }
        Some(Err(_)) => {
            check(!regular, 634);
            is(&a, n, n, &v, 635);
            reach(22);
        }
    }
}
/// n = 5, 6 without zeros to speak of: small whole numbers, one element of which is symbolic.
pub fn m06_full() {
    let n = range(5, 6);
    let k = choose(3);
    let mut v: Vec<f64> = (0..n * n).map(|p| { let (i, j) = (p / n, p % n); ((i * 7 + j * 3 + i * j * (k + 1) + i * i) % 5) as f64 - 2.0 }).collect();
    let (i, j) = (choose(n), choose(n));
    v[i * n + j] = real();
    judge(&v, n);
}
