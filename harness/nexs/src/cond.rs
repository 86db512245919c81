//! Conditional blocks (P03).
use geqslib::shunting::*;
use nexsys::parsing::conditionals;
use nexsys::solve_with_preprocessors;
use sxlib::*;

const OPS: [&str; 6] = ["<", "<=", ">", ">=", "==", "!="];
fn holds(op: usize, a: f64, b: f64) -> bool {
    match op {
        0 => a < b,
        1 => a <= b,
        2 => a > b,
        3 => a >= b,
        4 => a == b,
        _ => a != b,
    }
}
fn ctx(n: &[&str; 3], v: &[f64; 3]) -> ContextHashMap {
    let mut c = ContextHashMap::new();
    c.add_func_to_ctx("if", |x| conditional(x), 5);
    for i in 0..3 {
        c.add_const_to_ctx(n[i], v[i]);
    }
    c
}
// the conditional of the default context
fn conditional(x: &[f64]) -> f64 {
    match new_context().get("if") {
        Some(Token::Func(_, f)) => f(x),
        _ => unreachable!(),
    }
}
const A: [&str; 3] = ["a", "b", "x"];
/// Text of a branch and its two sides' difference.
fn branch(k: usize, n: &[&str; 3], v: &[f64; 3]) -> (String, f64) {
    let (a, b, x) = (v[0], v[1], v[2]);
    match k {
        0 => (format!("{} = {}", n[2], n[0]), x - a),
        1 => (format!("{} = {} - {}", n[2], n[0], n[1]), x - (a - b)),
        2 => (format!("{} + {} = 0", n[2], n[1]), x + b),
        3 => (format!("{} - 2*{}", n[2], n[0]), x - 2.0 * a),
        4 => (format!("1 = ({} + 3)*{}", n[0], n[2]), 1.0 - (a + 3.0) * x),
        5 => (format!("{}={}", n[2], n[1]), x - b),
        6 => (format!("{} = 0.5", n[2]), x - 0.5),
        7 => (format!("0*{} = 05 + {}", n[0], n[2]), -5.0 - x),
        8 => (format!("{} =  0 ", n[2]), x),
        _ => (format!("{} = -0 - {}", n[2], n[1]), x + b),
    }
}
/// The equation `if(...) = 0` in the text: the value of its left side.
fn value(line: &str, n: &[&str; 3], v: &[f64; 3], id: u32) -> f64 {
    let mut parts = line.split('=');
    let (l, r) = (parts.next().unwrap_or(""), parts.next().unwrap_or(""));
    check(parts.next().is_none(), id);
    let c = ctx(n, v);
    match (eval_str_with_context(l, &c), eval_str_with_context(r, &c)) {
        (Ok(l), Ok(r)) => l - r,
        _ => {
            check(false, id + 1);
            end()
        }
    }
}
fn vals() -> [f64; 3] {
    [real(), real(), real()]
}
/// One block between other lines.
pub fn flat() {
    let _ = conditionals("x");
    let v = vals();
    let op = choose(6);
    let (p, q) = (choose(10), choose(10));
    let (pt, pv) = branch(p, &A, &v);
    let (qt, qv) = branch(q, &A, &v);
    let (ind, nl) = [("", "\n"), ("    ", "\n"), ("\t", "\n"), ("", "\r\n"), ("\t", " \n")][choose(5)];
    let text = format!("y = 3\n{i}if a {} b:{e}{i}  {}{e}{i}else:{e}  {}{e}{i}end{e}z = y", OPS[op], pt, qt, i = ind, e = nl);
    let got = panics(|| conditionals(&text).ok());
    check(got.is_some(), 1);
    let s = match got.unwrap() {
        Some(s) => s,
        None => {
            check(false, 2);
            return;
        }
    };
    let rows: Vec<&str> = s.split('\n').collect();
    check(rows.len() == 3 && rows[0].trim() == "y = 3" && rows[2].trim() == "z = y", 3);
    let r = value(rows[1], &A, &v, 4);
    check(eq(r, if holds(op, v[0], v[1]) { pv } else { qv }), 6);
    reach(1);
}
/// A block in either branch, or both, of another.
pub fn nested() {
    let _ = conditionals("x");
    let v = vals();
    let (o1, o2) = (choose(6), choose(6));
    let inner = |k: usize| -> (String, f64) {
        let (p, q) = (branch(k, &A, &v), branch(k + 1, &A, &v));
        (format!("if x {} a:\n{}\nelse:\n{}\nend", OPS[o2], p.0, q.0), if holds(o2, v[2], v[0]) { p.1 } else { q.1 })
    };
    let which = choose(3);
    let first = if which != 1 { inner(0) } else { branch(1, &A, &v) };
    let second = if which != 0 { inner(4) } else { branch(2, &A, &v) };
    let text = format!("if a {} b + 1:\n{}\nelse:\n{}\nend", OPS[o1], first.0, second.0);
    match panics(|| conditionals(&text).ok()) {
        Some(Some(s)) => {
            check(!s.contains('\n'), 10);
            let r = value(&s, &A, &v, 11);
            check(eq(r, if holds(o1, v[0], v[1] + 1.0) { first.1 } else { second.1 }), 13);
            reach(2);
        }
        _ => check(false, 14),
    }
}
/// Names that contain the key words.
pub fn names() {
    let _ = conditionals("x");
    let v = vals();
    let n: [&str; 3] = [["bend", "else_1", "motif"], ["end", "elsewhere", "if_2"], ["xif", "Else", "ENDif"], ["send", "if1", "iffy"], ["e", "els", "en"], ["ifs", "bendelse", "y"]][choose(6)];
    let op = choose(6);
    let (p, q) = (branch(choose(6), &n, &v), branch(choose(6), &n, &v));
    let text = format!("if {} {} {}:\n{}\nelse:\n{}\nend", n[0], OPS[op], n[1], p.0, q.0);
    match panics(|| conditionals(&text).ok()) {
        Some(Some(s)) => {
            let r = value(&s, &n, &v, 20);
            check(eq(r, if holds(op, v[0], v[1]) { p.1 } else { q.1 }), 22);
            reach(3);
        }
        _ => check(false, 23),
    }
}
/// Any two characters where the comparison belongs.
pub fn operators() {
    let _ = conditionals("x");
    let (c, d) = (bits(7) as u8, bits(7) as u8);
    assume(c != b'\n' && d != b'\n');
    let mut t = b"if a ".to_vec();
    t.push(c);
    t.push(d);
    t.extend(b" b:\nx = 1\nelse:\nx = 2\nend");
    let s = unsafe { std::str::from_utf8_unchecked(&t) };
    let got = panics(|| conditionals(s));
    check(got.is_some(), 30);
    let sign = |x: u8| x == b'<' || x == b'>' || x == b'=' || x == b'!';
    let blank = |x: u8| x == b' ' || x == b'\t';
    // the comparison that is written, if it is one
    let ok = match (c, d) {
        (b'<', e) | (b'>', e) if e == b'=' || blank(e) => true,
        (e, b'<') | (e, b'>') if blank(e) => true,
        (b'=', b'=') | (b'!', b'=') => true,
        _ => false,
    };
    match got.unwrap() {
        Ok(r) => {
            if ok {
                let code = match (c, d) {
                    (b'=', _) => "1.0",
                    (b'!', _) => "6.0",
                    (b'<', b'=') => "2.0",
                    (b'>', b'=') => "3.0",
                    (b'<', _) | (_, b'<') => "4.0",
                    _ => "5.0",
                };
                check(r.contains(&format!("if(a,{},b,x-(1),x-(2)) = 0", code)), 31);
                reach(4);
            } else if sign(c) && sign(d) && (c, d) != (b'!', b'!') {
                // no comparison, but a line that asks for one: refused here
                check(false, 32);
            } else {
                reach(5);
            }
        }
        Err(_) => {
            check(!ok, 33);
            reach(6);
        }
    }
}
/// From the text of a block to the solution.
pub fn solved() {
    let op = choose(6);
    let (a, b) = [(1, 2), (2, 1), (2, 2)][choose(3)];
    let text = format!("const a = {}\nconst b = {}\nif a {} b:\n  i = 10\nelse:\n  i = -10\nend", a, b, OPS[op]);
    match solve_with_preprocessors(&text, 0.001, 20) {
        Ok((_, m)) => match m.get("i") {
            Some(i) => {
                let w = if holds(op, a as f64, b as f64) { 10.0 } else { -10.0 };
                check((i - w).abs() < 0.01, 40);
            }
            None => check(false, 41),
        },
        Err(_) => check(false, 42),
    }
    reach(7);
}

/// A character beyond ASCII anywhere in or around a block.
pub fn wide() {
    let _ = conditionals("x");
    let parts = ["y = 3", "if a", " < ", "b", ":", "x = 1", "else:", "x = 2", "end", "z = y"];
    let seps = ["\n", "", "", "", "\n", "\n", "\n", "\n", "\n", ""];
    let k = choose(parts.len());
    let at = range(0, parts[k].len());
    let c = greek_char();
    let mut text = String::new();
    for i in 0..parts.len() {
        if i == k {
            text += &format!("{}{}{}", &parts[i][..at], c, &parts[i][at..]);
        } else {
            text += parts[i];
        }
        text += seps[i];
    }
    let got = panics(|| conditionals(&text).ok());
    check(got.is_some(), 50);
    let s = match got.unwrap() {
        Some(s) => s,
        // a block, but what compares its sides is no comparison
        None => {
            check(false, 51);
            return;
        }
    };
    // within a key word there is no block
    let word = match k {
        1 => at < 3,
        2 => false,
        4 => at == 1,
        6 => true,
        8 => at < 3,
        _ => false,
    };
    if word {
        check(s == text, 52);
        reach(8);
        return;
    }
    let rows: Vec<&str> = s.split('\n').collect();
    check(rows.len() == 3, 53);
    let m = |i: usize| if i == k { format!("{}{}{}", &parts[i][..at], c, &parts[i][at..]) } else { parts[i].to_string() };
    check(rows[0] == m(0) && rows[2] == m(9), 54);
    for i in [5, 7] {
        // the sides of a branch are all kept
        let b = m(i).replace(' ', "");
        let mut side = b.split('=');
        check(rows[1].contains(side.next().unwrap()) && rows[1].contains(side.next().unwrap()), 55);
    }
    check(rows[1].starts_with("if(") && (k == 0 || k == 9 || k == 8 || rows[1].contains(&c)), 56);
    reach(9);
}
