//! Systems of equations (S01) and equation solving (S02).
use geqslib::shunting::*;
use geqslib::system::*;
use geqslib::*;
use sxlib::*;

/// Equation text, its unknowns (bits of x y z w) and whether it is an equation at all.
const EQ: [(&str, u32, bool); 14] = [
    ("x + y = 4", 3, true),
    ("x - y = k", 3, true),
    ("x = 2", 1, true),
    ("z + x = 3", 5, true),
    ("z*z = y", 6, true),
    ("3 = k", 0, true),
    ("w = z - 1", 12, true),
    ("x + = 1", 1, false),
    ("x + y", 3, false),
    ("z = y = 1", 6, false),
    ("w = (1", 8, false),
    ("w*x)*(w = 1", 9, false),
    ("y + x + y = k*x", 3, true),
    ("z - w - z = w*(k - x)/w", 13, true),
];
const VARS: [&str; 4] = ["x", "y", "z", "w"];

fn same_set(b: &SystemBuilder, set: u32, id: u32) {
    let v = b.get_vars();
    check(v.len() == set.count_ones() as usize, id);
    for i in 0..4 {
        check(v.iter().any(|n| n == VARS[i]) == (set >> i & 1 == 1), id + 1);
    }
}

pub fn s01(steps: usize) {
    let mut ctx = ContextHashMap::new();
    ctx.add_const_to_ctx("k", 1.0);
    let _ = get_equation_unknowns("x", &ctx).count();
    let (e, u, ok) = EQ[choose(EQ.len())];
    let b = panics(|| SystemBuilder::new(e, ctx.clone()).ok());
    check(b.is_some(), 300);
    let b = b.unwrap();
    check(b.is_some() == ok, 301);
    // the caller's context is its own
    check(ctx.len() == 1, 302);
    let mut b = match b {
        Some(b) => b,
        None => return reach(1),
    };
    let mut set = u;
    let mut n = 1usize;
    same_set(&b, set, 303);
    let mut i = 0;
    while i < steps {
        i += 1;
        let (e, u, ok) = EQ[choose(EQ.len())];
        let full = n == set.count_ones() as usize;
        check(b.is_fully_constrained() == full, 305);
        let fresh = (u & !set).count_ones();
        let r = panics(|| b.try_constrain_with(e).ok());
        check(r.is_some(), 306);
        match r.unwrap() {
            Some(ConstrainResult::WillConstrain) => {
                check(ok && !full && fresh <= 1, 307);
                set |= u;
                n += 1;
                reach(2);
            }
            Some(ConstrainResult::WillNotConstrain) => {
                check(!full && (fresh > 1 || !ok), 308);
                reach(3);
            }
            Some(ConstrainResult::WillOverConstrain) => {
                check(full, 309);
                reach(4);
            }
            None => {
                check(!ok, 310);
                reach(5);
            }
        }
        // exactly the accepted equations count
        same_set(&b, set, 311);
        check(b.is_fully_constrained() == (n == set.count_ones() as usize), 313);
    }
    let full = n == set.count_ones() as usize;
    check(b.build_system().is_some() == full, 314);
    if full {
        reach(6);
    }
}
/// Many equations at once: what is accepted does not depend on their order in the list.
pub fn s01_many() {
    let ctx = ContextHashMap::new();
    let _ = get_equation_unknowns("x", &ctx).count();
    let chain = ["x = 1", "y = x + 1", "z = x + y", "w = z + y"];
    // start from the first; the rest in any order, some left out
    let mut rest = vec![1, 2, 3];
    let mut list: Vec<&str> = vec![];
    let mut used = 1u32;
    while !rest.is_empty() {
        let k = choose(rest.len() + 1);
        if k == rest.len() {
            break;
        }
        let e = rest.remove(k);
        used |= 1 << e;
        list.push(chain[e]);
    }
    // start under-constrained: one equation more than its unknowns is needed
    let mut b = SystemBuilder::new("x + y + z = 6", ctx).unwrap();
    list.insert(0, "x - y = 1");
    let r = b.try_fully_constrain_with(list.clone()).unwrap();
    // x, y, z are known names from the start; the list can close it if any other equation over them is given
    let closes = used & 0b0110 != 0;
    let adds_w = used & 0b1000 != 0;
    if closes {
        check(r, 320);
        reach(7);
    }
    if !closes && !adds_w {
        check(!r, 321);
        reach(8);
    }
    check(b.is_fully_constrained() == r, 322);
    check(b.build_system().is_some() == r, 323);
}

// ---- S02 -------------------------------------------------------------------

fn within(y: f64, m: f64) -> bool {
    y <= m && -y <= m
}

/// Outcome of solving k*x + d = 0 by an equation in any form.
#[allow(clippy::too_many_arguments)]
fn affine(text: &str, ctx: &mut ContextHashMap, k: f64, d: f64, guess: f64, lo: f64, hi: f64, margin: f64, limit: usize) {
    let free = lo == f64::NEG_INFINITY && hi == f64::INFINITY;
    match solve_equation_with_context(text, ctx, guess, lo, hi, margin, limit) {
        Ok((n, v)) => {
            check(n == "x", 330);
            check(margin > 0.0 && limit > 0, 331);
            check(within(k * v + d, margin), 332);
            check(v >= lo && v <= hi, 333);
            if limit == 1 && free {
                check(eq(v, guess), 334);
            }
            reach(1);
        }
        Err(_) => {
            if free && margin > 0.0 && k != 0.0 {
                // no root left out: only the iteration limit can stop the search
                check(limit < 2, 335);
                if limit == 1 {
                    let y = k * guess + d;
                    check(!(within(y, margin) && within(y / k, margin)), 336);
                }
            }
            reach(2);
        }
    }
}

/// One affine equation in x, in several forms, with any slope.
pub fn s02_slope() {
    let mut ctx = ContextHashMap::new();
    let (a, b, c) = (real(), real(), real());
    let guess = real();
    let margin = [0.5, 0.0, -1.0][choose(3)];
    for (n, v) in [("p", a), ("q", b), ("r", c)] {
        ctx.add_const_to_ctx(n, v);
    }
    let limit = range(0, 2);
    let (text, k, d): (&str, f64, f64) = match choose(3) {
        0 => ("p*x + q = r", a, b - c),
        1 => ("r = q + x*p", -a, c - b),
        _ => ("(p + 1)*x = r", a + 1.0, -c),
    };
    affine(text, &mut ctx, k, d, guess, f64::NEG_INFINITY, f64::INFINITY, margin, limit);
    known(&ctx, a, b, c);
}
// what was known stays as it was
fn known(ctx: &ContextHashMap, a: f64, b: f64, c: f64) {
    for (n, v) in [("p", a), ("q", b), ("r", c)] {
        match ctx.get(n) {
            Some(Token::Num(x)) => check(eq(*x, v), 337),
            _ => check(false, 338),
        }
    }
}
/// Affine equations of a few slopes over any domain, from any guess, with any margin.
pub fn s02_domain() {
    let mut ctx = ContextHashMap::new();
    let (b, c) = (real(), real());
    let (guess, margin) = (real(), real());
    for (n, v) in [("p", 2.0), ("q", b), ("r", c)] {
        ctx.add_const_to_ctx(n, v);
    }
    let (lo, hi) = match choose(3) {
        0 => (f64::NEG_INFINITY, f64::INFINITY),
        1 => (real(), f64::INFINITY),
        _ => {
            let (l, h) = (real(), real());
            assume(l <= h);
            (l, h)
        }
    };
    let limit = range(0, 2);
    let (text, k, d): (&str, f64, f64) = match choose(4) {
        0 => ("p*x + q = r", 2.0, b - c),
        1 => ("p*(x - q) = r - x", 3.0, -2.0 * b - c),
        2 => ("-x = q", -1.0, -b),
        _ => ("q + x = r + x", 0.0, b - c),
    };
    affine(text, &mut ctx, k, d, guess, lo, hi, margin, limit);
    known(&ctx, 2.0, b, c);
}
/// Text that is no equation in exactly one unknown.
pub fn s02_refused() {
    let bad = ["x + 1", "x = 1 = 2", "", "=", "x = y", "1 = 1", "x + (1 = 2", "x + 1) = (2", "= x", "x =", "x + = 1", "x = 1)", "k = 1", "x, 1 = 2"];
    let i = choose(bad.len());
    let mut ctx = new_context();
    ctx.add_const_to_ctx("k", 1.0);
    let r = panics(|| solve_equation_with_context(bad[i], &mut ctx, 1.0, -10.0, 10.0, 0.5, 5).is_err());
    check(r == Some(true), 340);
    let r = panics(|| solve_equation_from_str(bad[i], 0.5, 5).is_err());
    check(r == Some(true) || bad[i] == "k = 1", 341);
    reach(3);
}
/// The default entry point starts from one.
pub fn s02_from_str() {
    // (the rest of this run is IEEE arithmetic on concrete numbers)
    let margin = real();
    assume(margin <= 0.0 || margin >= 1e-6);
    let limit = range(1, 3);
    let r = solve_equation_from_str("3*x - 1 = 2*x + 5", margin, limit);
    match r {
        Ok((n, v)) => {
            check(n == "x" && within(v - 6.0, margin), 345);
            reach(4);
        }
        Err(_) => check(margin <= 0.0 || limit < 2, 346),
    }
}

/// Systems whose equations are added one by one, with and without later unknowns.
pub fn s02_system(domain: bool) {
    let (p, q, r) = (real(), real(), real());
    let margin = match domain {
        false => real(),
        true => 0.5,
    };
    assume(margin > 0.0);
    let mut ctx = ContextHashMap::new();
    for (n, v) in [("p", p), ("q", q), ("r", r)] {
        ctx.add_const_to_ctx(n, v);
    }
    // a variable the caller already knows is not an unknown
    let known = boolean();
    if known {
        ctx.add_var_to_ctx("k", 2.0);
    }
    let _ = get_equation_unknowns("x", &ctx).count();
    // rows: coefficients of x, y, z and the right-hand side
    let (eqs, rows): (Vec<&str>, Vec<[f64; 4]>) = match choose(4) {
        0 => (vec!["x + y = p", "x - y = q"], vec![[1., 1., 0., p], [1., -1., 0., q]]),
        1 => (vec!["2*y = p - x", "y = q"], vec![[1., 2., 0., p], [0., 1., 0., q]]),
        2 => (vec!["x + y = p", "y + z = q", "x + z = r"], vec![[1., 1., 0., p], [0., 1., 1., q], [1., 0., 1., r]]),
        _ => (vec!["x = p"], vec![[1., 0., 0., p]]),
    };
    let n = rows.len();
    let mut b = SystemBuilder::new(eqs[0], ctx).unwrap();
    for e in &eqs[1..] {
        check(b.try_constrain_with(e).unwrap() == ConstrainResult::WillConstrain, 350);
    }
    let mut s = b.build_system().unwrap();
    let (g, lo, hi) = match domain {
        false => (real(), f64::NEG_INFINITY, f64::INFINITY),
        true => (2.0, [-1.0, 2.0][choose(2)], [f64::INFINITY, 6.0][choose(2)]),
    };
    if domain {
        // the last specification counts
        check(s.specify_variable("x", 5.0, 4.0, 4.5), 351);
    }
    check(s.specify_variable("x", g, lo, hi), 351);
    check(!s.specify_variable("nope", g, lo, hi) && !s.specify_variable("p", g, lo, hi), 352);
    let limit = range(1, 2);
    let sol = s.solve(margin, limit);
    match sol {
        Ok(m) => {
            check(m.len() == n, 353);
            let v: Vec<f64> = (0..3).map(|i| if i < n { m[VARS[i]] } else { 0.0 }).collect();
            for row in &rows {
                let y = row[0] * v[0] + row[1] * v[1] + row[2] * v[2] - row[3];
                check(within(y, margin), 354);
            }
            check(v[0] >= lo && v[0] <= hi, 355);
            if limit == 1 {
                check(eq(v[0], g), 356);
                for i in 1..n {
                    check(eq(v[i], 1.0), 357);
                }
            }
            reach(5);
        }
        Err(_) => {
            check(limit == 1 || domain, 358);
            reach(6);
        }
    }
}
