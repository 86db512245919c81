//! Whole systems (Q01).
use geqslib::shunting::*;
use nexsys::{basic_solve, solve_with_preprocessors};
use std::collections::HashMap;
use sxlib::*;

/// The slack absorbs the rounding that real arithmetic does not have.
fn within(y: f64, m: f64) -> bool {
    let m = m * 1.000001;
    y <= m && -y <= m
}
/// A linear equation: its text, coefficients of the unknowns x y z w v, and right-hand side.
type Row = (&'static str, [f64; 5], f64);
const NAMES: [&str; 5] = ["x", "y", "z", "w", "v"];

fn known_value() -> f64 {
    let x = real();
    assume(x <= 1000.0 && x >= -1000.0);
    x
}
fn context(c: &[(&str, f64)]) -> ContextHashMap {
    let mut ctx = ContextHashMap::new();
    for (n, v) in c {
        ctx.add_const_to_ctx(n, *v);
    }
    ctx
}
/// The rows in any order.
fn shuffled(mut rows: Vec<Row>) -> Vec<Row> {
    let mut r = vec![];
    while rows.len() > 1 {
        r.push(rows.remove(choose(rows.len())));
    }
    r.extend(rows);
    r
}
fn text(rows: &[Row]) -> String {
    rows.iter().map(|r| r.0).collect::<Vec<_>>().join("\n")
}
/// Every unknown has a value and every equation holds.
fn solution(rows: &[Row], n: usize, m: &HashMap<String, f64>, margin: f64, id: u32) -> bool {
    let mut v = [0.0; 5];
    for i in 0..n {
        match m.get(NAMES[i]) {
            Some(x) => v[i] = *x,
            None => {
                check(false, id);
                return false;
            }
        }
    }
    for r in rows {
        let mut y = -r.2;
        for i in 0..n {
            if r.1[i] != 0.0 {
                y += r.1[i] * v[i];
            }
        }
        check(within(y, margin), id + 1);
    }
    true
}
fn known(m: &HashMap<String, f64>, c: &[(&str, f64)], id: u32) {
    for (n, v) in c {
        match m.get(*n) {
            Some(x) => check(eq(*x, *v), id),
            None => check(false, id),
        }
    }
}

/// Equations that can be solved one after the other.
pub fn chain() {
    let (p, q) = (known_value(), known_value());
    let consts = [("p", p), ("q", q)];
    let margin = 0.5;
    let rows: Vec<Row> = match choose(5) {
        3 => vec![("x + 1 = p", [1., 0., 0., 0., 0.], p - 1.0), ("x = 2*y", [1., -2., 0., 0., 0.], 0.0), ("y + q = z", [0., 1., -1., 0., 0.], -q)],
        4 => vec![("p = x", [1., 0., 0., 0., 0.], p), ("x - y = x + q", [0., -1., 0., 0., 0.], q), ("x + y = z + y", [1., 0., -1., 0., 0.], 0.0)],
        0 => vec![("x = p", [1., 0., 0., 0., 0.], p), ("y = x + q", [-1., 1., 0., 0., 0.], q)],
        1 => vec![("2*x = p", [2., 0., 0., 0., 0.], p), ("y = q", [0., 1., 0., 0., 0.], q), ("x - z = 3*y", [1., -3., -1., 0., 0.], 0.0)],
        _ => vec![("x + 1 = 0", [1., 0., 0., 0., 0.], -1.0), ("y + x = q", [1., 1., 0., 0., 0.], q), ("z + y = 2", [0., 1., 1., 0., 0.], 2.0)],
    };
    let n = rows.len();
    let rows = shuffled(rows);
    let mut ctx = context(&consts);
    let _ = geqslib::system::get_equation_unknowns("x", &ctx).count();
    match basic_solve(&text(&rows), &mut ctx, &mut HashMap::new(), margin, 3) {
        Ok((_, m)) => {
            if solution(&rows, n, &m, margin, 1) {
                reach(1);
            }
            check(m.len() == n + 2, 3);
            known(&m, &consts, 4);
        }
        Err(_) => check(false, 5),
    }
}
/// Blocks that have to be solved together, and what follows from them.
pub fn coupled(k: usize) {
    let (p, q) = (known_value(), if k == 1 { 2.0 } else { known_value() });
    let consts = [("p", p), ("q", q)];
    let margin = 0.5;
    let rows: Vec<Row> = match k {
        0 => vec![("x + y = p", [1., 1., 0., 0., 0.], p), ("x - y = q", [1., -1., 0., 0., 0.], q)],
        1 => vec![("x + y = p", [1., 1., 0., 0., 0.], p), ("x - y = q", [1., -1., 0., 0., 0.], q), ("z = x - 1", [-1., 0., 1., 0., 0.], -1.0)],
        2 => vec![("x + y = p", [1., 1., 0., 0., 0.], p), ("y + z = q", [0., 1., 1., 0., 0.], q), ("x + z = 4", [1., 0., 1., 0., 0.], 4.0)],
        _ => vec![("z = 2", [0., 0., 1., 0., 0.], 2.0), ("x + y = p", [1., 1., 0., 0., 0.], p), ("x - y = z", [1., -1., -1., 0., 0.], 0.0)],
    };
    let n = rows.len();
    let rows = shuffled(rows);
    let mut ctx = context(&consts);
    let _ = geqslib::system::get_equation_unknowns("x", &ctx).count();
    // lines without an equation are no part of the system
    let s = match choose(2) {
        0 => text(&rows),
        _ => format!("\n{}\n\n", rows.iter().map(|r| r.0).collect::<Vec<_>>().join("\n  \n")),
    };
    match basic_solve(&s, &mut ctx, &mut HashMap::new(), margin, 3) {
        Ok((_, m)) => {
            if solution(&rows, n, &m, margin, 10) {
                reach(2);
            }
            check(m.len() == n + 2, 12);
            known(&m, &consts, 13);
        }
        Err(_) => check(false, 14),
    }
}
/// Five equations whose blocks show only after others were found, in any order.
pub fn wide() {
    let p = 10.0;
    let rows: Vec<Row> = match choose(2) {
        0 => vec![
            ("x + w + v = 10", [1., 0., 0., 1., 1.], p),
            ("x + v = 4", [1., 0., 0., 0., 1.], 4.0),
            ("y + z + w = 9", [0., 1., 1., 1., 0.], 9.0),
            ("x + z = 4", [1., 0., 1., 0., 0.], 4.0),
            ("y + w = 6", [0., 1., 0., 1., 0.], 6.0),
        ],
        _ => vec![
            ("x + y = 3", [1., 1., 0., 0., 0.], 3.0),
            ("z - w = 1", [0., 0., 1., -1., 0.], 1.0),
            ("x - y = 1", [1., -1., 0., 0., 0.], 1.0),
            ("z + w = x", [-1., 0., 1., 1., 0.], 0.0),
            ("v = z", [0., 0., -1., 0., 1.], 0.0),
        ],
    };
    let rows = shuffled(rows);
    let mut ctx = context(&[]);
    let _ = geqslib::system::get_equation_unknowns("x", &ctx).count();
    match basic_solve(&text(&rows), &mut ctx, &mut HashMap::new(), 1e-4, 20) {
        Ok((_, m)) => {
            if solution(&rows, 5, &m, 1e-3, 20) {
                reach(3);
            }
        }
        Err(_) => check(false, 22),
    }
}
/// The search starts from declared guesses, or from one.
pub fn guess() {
    let (g, p) = (real(), real());
    let mut ctx = context(&[("p", p)]);
    let _ = geqslib::system::get_equation_unknowns("x", &ctx).count();
    let mut decl = HashMap::new();
    let given = boolean();
    let inf = f64::INFINITY;
    if given {
        decl.insert("x".to_string(), [g, -inf, inf]);
        decl.insert("unused".to_string(), [7.0, -inf, inf]);
    }
    let start = if given { g } else { 1.0 };
    // one iteration: only the starting point itself can be accepted
    match choose(2) {
        0 => match basic_solve("x = p", &mut ctx, &mut decl, 0.5, 1) {
            Ok((_, m)) => {
                check(m.get("x").map_or(false, |x| eq(*x, start)), 30);
                reach(4);
            }
            Err(_) => {
                check(!within(start - p, 0.499), 31);
                reach(5);
            }
        },
        _ => match basic_solve("x + y = p + 1\nx - y = p - 1", &mut ctx, &mut decl, 0.5, 1) {
            Ok((_, m)) => {
                check(m.get("x").map_or(false, |x| eq(*x, start)), 32);
                check(m.get("y").map_or(false, |y| eq(*y, 1.0)), 33);
                reach(6);
            }
            Err(_) => {
                check(!within(start - p, 0.125), 34);
                reach(7);
            }
        },
    }
}
/// Reported values lie in the declared domains.
pub fn domain() {
    let p = real();
    let mut ctx = context(&[("p", p)]);
    let _ = geqslib::system::get_equation_unknowns("x", &ctx).count();
    let inf = f64::INFINITY;
    let d = [[1.0, -2.0, 2.0], [3.0, 0.0, inf], [-1.0, -inf, 0.0]][choose(3)];
    let mut decl = HashMap::new();
    decl.insert("x".to_string(), d);
    let s = ["x = p", "x + y = p\nx - y = 1", "x = p\ny = x"][choose(3)];
    if let Ok((_, m)) = basic_solve(s, &mut ctx, &mut decl, 0.5, 2) {
        match m.get("x") {
            Some(x) => check(*x >= d[1] && *x <= d[2], 40),
            None => check(false, 41),
        }
        reach(8);
    } else {
        reach(9);
    }
}
/// With the whole syntax: constants, guesses, domains, comments, in any order.
pub fn whole_text() {
    let decls = ["const c = 12", "guess 3 for y", "keep x on [0, 100]", "// x = 99"];
    let eqs = ["x + y = c", "x - y = 2", "z = 2*x // and y = 1"];
    let mut lines: Vec<&str> = vec![];
    let k = choose(4);
    let e = choose(3);
    for i in 0..4 {
        lines.push(decls[(i + k) % 4]);
        if i < 3 {
            lines.push(eqs[(i + e) % 3]);
        }
    }
    match solve_with_preprocessors(&lines.join("\n"), 1e-4, 50) {
        Ok((_, m)) => {
            let g = |n: &str| m.get(n).copied().unwrap_or(f64::NAN);
            check((g("x") - 7.0).abs() < 1e-2 && (g("y") - 5.0).abs() < 1e-2 && (g("z") - 14.0).abs() < 1e-2, 50);
            check(g("c") == 12.0, 51);
            reach(10);
        }
        Err(_) => check(false, 52),
    }
}

