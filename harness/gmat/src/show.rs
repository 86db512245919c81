//! Printing, comparison, iteration and conversion (M08).
use crate::any;
use gmatlib::{col_vec, row_vec, Matrix};
use sxlib::*;

/// Decimal digits of a small number.
fn digits(v: i8, out: &mut Vec<u8>) {
    let mut n = v as i32;
    if n < 0 {
        out.push(b'-');
        n = -n;
    }
    if n >= 100 {
        out.push(b'0' + (n / 100) as u8);
    }
    if n >= 10 {
        out.push(b'0' + (n / 10 % 10) as u8);
    }
    out.push(b'0' + (n % 10) as u8);
}
/// Rows are separated by "; ", elements by ", ", all in brackets.
pub fn print() {
    let (r, c) = (range(0, 3), range(0, 4));
    if (r == 0) != (c == 0) && choose(2) == 0 {
        end();
    }
    printed(r, c);
}
pub fn big() {
    let (r, c) = [(5, 7), (1, 17), (17, 1), (8, 8), (2, 11), (11, 2)][choose(6)];
    printed(r, c);
}
fn printed(r: usize, c: usize) {
    let mut v: Vec<i8> = (0..r * c).map(|i| [-128i8, 5, 77, -3, 0, 10, 99, -10, 1, 127, 42, -100][i % 12]).collect();
    if r * c > 0 {
        // one of them is any
        v[choose(r * c)] = bits(8) as u8 as i8;
    }
    let mut m: Matrix<i8> = Matrix::new(r, c);
    for i in 0..r {
        for j in 0..c {
            m[(i, j)] = v[i * c + j];
        }
    }
    let mut want = vec![b'['];
    for i in 0..r {
        for j in 0..c {
            if j > 0 {
                want.extend(b", ");
            }
            digits(v[i * c + j], &mut want);
        }
        if c > 0 && i + 1 < r {
            want.extend(b"; ");
        }
    }
    want.push(b']');
    match panics(|| m.to_string()) {
        Some(s) => {
            let s = s.into_bytes();
            if r > 0 && c > 0 {
                check(s.len() == want.len(), 2);
                let mut all = true;
                for i in 0..s.len().min(want.len()) {
                    all &= s[i] == want[i];
                }
                check(all, 3);
                reach(1);
            } else {
                // nothing to show: no digits, but some text
                check(!s.iter().any(|c| c.is_ascii_digit()) && s.first() == Some(&b'[') && s.last() == Some(&b']'), 4);
                reach(2);
            }
        }
        None => check(false, 1),
    }
}
/// Equal means the same shape and the same elements; iteration and conversion go row by row.
pub fn same() {
    let (r, c) = (range(1, 3), range(1, 3));
    let (a, v) = any(r, c);
    let mut k = 0;
    for (x, y) in a.iter().zip(&v) {
        check(eq(*x, *y), 10);
        k += 1;
    }
    check(k == r * c && a.iter().len() == k, 11);
    for i in 0..r {
        for j in 0..c {
            check(eq(*a.iter().nth(i * c + j).unwrap(), a[(i, j)]), 12);
        }
    }
    let mut b = a.clone();
    check(a == b && !(a != b), 13);
    // one element differs or not
    let (i, j) = (choose(r), choose(c));
    let d = real();
    b[(i, j)] = d;
    check((a == b) == (d == v[i * c + j]), 14);
    check(eq(a[(i, j)], v[i * c + j]), 15);
    // same elements in another shape
    for s in [1, c, r, r * c] {
        let o = Matrix::from_vec(s, v.clone()).unwrap();
        check((o == a) == (s == c), 16);
    }
    let w: Vec<f64> = b.into();
    check(w.len() == r * c, 17);
    for n in 0..w.len() {
        check(eq(w[n], if n == i * c + j { d } else { v[n] }), 18);
    }
    reach(3);
}
/// The literals.
pub fn literals() {
    let v: Vec<f64> = (0..4).map(|_| real()).collect();
    let (a, b, c, d) = (v[0], v[1], v[2], v[3]);
    let (r1, r4): (Matrix<f64>, Matrix<f64>) = (row_vec![a], row_vec![a, b, c, d]);
    let (c1, c4): (Matrix<f64>, Matrix<f64>) = (col_vec![a], col_vec![a, b, c, d]);
    crate::is(&r1, 1, 1, &v[..1], 20);
    crate::is(&c1, 1, 1, &v[..1], 23);
    crate::is(&r4, 1, 4, &v, 26);
    crate::is(&c4, 4, 1, &v, 29);
    check(r4.transpose() == c4 && c4.transpose() == r4, 32);
    reach(4);
}
