//! Preprocessing (P01), declarations (P02).
use geqslib::shunting::*;
use nexsys::parsing::*;
use nexsys::units::verif_hooks::RAW_UNITS;
use std::collections::HashMap;
use sxlib::*;

fn bytes(n: usize) -> Vec<u8> {
    let len = range(0, n);
    (0..len).map(|_| bits(7) as u8).collect()
}
fn as_str(b: &[u8]) -> &str {
    unsafe { std::str::from_utf8_unchecked(b) }
}
fn same(got: &[u8], want: &[u8], id: u32) {
    check(got.len() == want.len(), id);
    let mut all = true;
    for i in 0..got.len().min(want.len()) {
        all &= got[i] == want[i];
    }
    check(all, id + 1);
}

/// Everything from a marker to the end of its line goes, all else stays.
fn uncommented(b: &[u8]) -> Vec<u8> {
    let mut want = vec![];
    let mut inside = false;
    for i in 0..b.len() {
        if b[i] == b'\n' {
            inside = false;
        } else if !inside && b[i] == b'/' && i + 1 < b.len() && b[i + 1] == b'/' {
            inside = true;
        }
        if !inside {
            want.push(b[i]);
        }
    }
    want
}
pub fn comments_bytes(n: usize) {
    let _ = comments("x // y");
    let b = bytes(n);
    let got = panics(|| comments(as_str(&b)));
    check(got.is_some(), 10);
    let got = got.unwrap().into_bytes();
    let want = uncommented(&b);
    same(&got, &want, 11);
    reach(if want.len() < b.len() { 1 } else { 2 });
}

// ---- constants ---------------------------------------------------------------

const CONSTS: [(&str, f64); 11] = [
    ("#g", 9.807),
    ("#gc", 6.6732e-11),
    ("#e", 1.6021917e-19),
    ("#e_Me", 1.7588028e11),
    ("#C", 2.9979250e8),
    ("#C1", 3.7420e8),
    ("#C2", 14388.0),
    ("#h", 6.62606957e-34),
    ("#h_NH3", -46190.0),
    ("#R", 8.31434),
    ("#R_inf", 1.097373e7),
];
/// A byte that ends a name and is no marker.
fn gap() -> u8 {
    let c = bits(7) as u8;
    assume(c != b'#' && c != b'_' && !c.is_ascii_alphanumeric());
    c
}
/// Known and unknown constants among any other text.
pub fn constants(n: usize) {
    let _ = consts("#g");
    let mut text: Vec<u8> = vec![];
    let mut want: Vec<u8> = vec![];
    let mut bad = false;
    if boolean() {
        let c = bits(7) as u8;
        assume(c != b'#');
        text.push(c);
        want.push(c);
    }
    for _ in 0..range(1, n) {
        let k = choose(CONSTS.len() + 2);
        if k < CONSTS.len() {
            text.extend(CONSTS[k].0.bytes());
            want.extend(format!("{}", CONSTS[k].1).bytes());
        } else {
            text.extend(["#gx", "#nope"][k - CONSTS.len()].bytes());
            bad = true;
        }
        let c = gap();
        text.push(c);
        want.push(c);
    }
    let got = panics(|| consts(as_str(&text)).ok());
    check(got.is_some(), 20);
    match got.unwrap() {
        Some(s) => {
            check(!bad, 21);
            same(s.as_bytes(), &want, 22);
            reach(3);
        }
        None => {
            check(bad, 24);
            reach(4);
        }
    }
}
/// Values of the table itself.
pub fn const_table() {
    let (n, v) = CONSTS[choose(CONSTS.len())];
    let t = nexsys::units::const_data();
    match t.get(n) {
        Some(x) => check((*x - v).abs() <= 1e-14 * v.abs(), 26),
        None => check(false, 27),
    }
    reach(5);
}

// ---- conversions -------------------------------------------------------------

fn tables() {
    let row = |u: &[(&str, f64)]| u.iter().map(|(n, v)| (n.to_string(), *v)).collect::<HashMap<String, f64>>();
    let mut t = HashMap::new();
    for q in ["NON DIMENSIONAL", "PRESSURE", "VOLUME", "ENERGY", "POWER", "AREA", "VISCOSITY-DYNAMIC", "VELOCITY", "FREQUENCY", "VOLUMETRIC FLOW", "FORCE"] {
        t.insert(q.to_string(), HashMap::new());
    }
    t.insert("LENGTH".to_string(), row(&[("m", 1.0), ("ft", 0.25), ("km", 1024.0)]));
    t.insert("TIME".to_string(), row(&[("s", 1.0), ("h", 4096.0)]));
    RAW_UNITS.with(|u| *u.borrow_mut() = Some(t));
}
const CONVS: [(&str, Option<f64>); 10] = [
    ("[ft->m]", Some(0.25)),
    ("[m->ft]", Some(4.0)),
    ("[ft->ft]", Some(1.0)),
    ("[h->s]", Some(4096.0)),
    ("[ft/h->m/s]", Some(0.00006103515625)),
    ("[m^3->ft^3]", Some(64.0)),
    ("[km^2->m^2]", Some(1048576.0)),
    ("[ft->s]", None),
    ("[x->y]", None),
    ("[-->m]", None),
];
const PLAIN: [&str; 6] = ["[ft->]", "[ft m]", "ft->m", "[ 3, 4]", "[ft->m", "[]"];
/// Possible, impossible and merely similar conversions among any other text.
pub fn convs(n: usize) {
    tables();
    let _ = conversions("[m->m]");
    let mut text: Vec<u8> = vec![];
    let mut want: Vec<u8> = vec![];
    let mut bad = false;
    for _ in 0..range(1, n) {
        let k = choose(CONVS.len() + PLAIN.len());
        if k < CONVS.len() {
            text.extend(CONVS[k].0.bytes());
            match CONVS[k].1 {
                Some(v) => want.extend(format!("{}", v).bytes()),
                None => bad = true,
            }
        } else {
            text.extend(PLAIN[k - CONVS.len()].bytes());
            want.extend(PLAIN[k - CONVS.len()].bytes());
        }
        let c = bits(7) as u8;
        assume(c != b'[' && c != b']' && c != b'>' && c != b'-' && c != b'^' && c != b'/' && c != b'_' && !c.is_ascii_alphanumeric());
        text.push(c);
        want.push(c);
    }
    let got = panics(|| conversions(as_str(&text)).ok());
    check(got.is_some(), 30);
    match got.unwrap() {
        Some(s) => {
            check(!bad, 31);
            same(s.as_bytes(), &want, 32);
            reach(6);
        }
        None => {
            check(bad, 34);
            reach(7);
        }
    }
}

/// The number that is written for a conversion is the conversion's factor, however large or small.
pub fn conv_table() {
    let _ = conversions("[m->m]");
    let (a, b, v) = [
        ("in", "cm", 2.54),
        ("cm", "in", 1.0 / 2.54),
        ("mm", "mi", 1.0 / 1609344.0),
        ("mm^3", "mi^3", 1.0 / (1609344.0 * 1609344.0 * 1609344.0)),
        ("mi^3", "mm^3", 1609344.0 * 1609344.0 * 1609344.0),
        ("mm^2", "km^2", 1e-12),
        ("km^2", "mm^2", 1e12),
        ("eV", "J", 1.60207e-19),
        ("J", "eV", 1.0 / 1.60207e-19),
        ("dyne", "kN", 1e-8),
        ("dyne/km^2", "Pa", 1e-11),
        ("s", "day", 1.0 / 86400.0),
        ("day", "s", 86400.0),
        ("mi/day", "mm/s", 1609344.0 / 86400.0),
        ("mm/day", "km/s", 1e-6 / 86400.0),
        ("kN-km", "dyne-mm", 1e14),
    ][choose(16)];
    match conversions(&format!("x = 2*[{}->{}]", a, b)) {
        Ok(s) => {
            check(s.starts_with("x = 2*"), 36);
            match s[6..].parse::<f64>() {
                Ok(f) => {
                    check(nexsys::units::convert(a, b).map_or(false, |g| (f - g).abs() <= 1e-14 * g), 37);
                    check((f - v).abs() <= 1e-6 * v, 38);
                }
                Err(_) => check(false, 39),
            }
        }
        Err(_) => check(false, 35),
    }
    reach(10);
}

/// All replacements at once, on lines that may be comments.
pub fn together() {
    tables();
    let lines: [(&str, &str); 6] = [
        ("x = 2*[ft->m] // half", "x = 2*0.25 "),
        ("y = #g", "y = 9.807"),
        ("// z = #nope", ""),
        ("z = #g + [m->ft] //", "z = 9.807 + 4 "),
        ("w = 3 // [ft->s]", "w = 3 "),
        ("v = a/b", "v = a/b"),
    ];
    let mut text = String::new();
    let mut want = String::new();
    for i in 0..range(1, 3) {
        let (a, b) = lines[choose(lines.len())];
        if i > 0 {
            text.push('\n');
            want.push('\n');
        }
        text.push_str(a);
        want.push_str(b);
    }
    let mut ctx = ContextHashMap::new();
    let mut decl = HashMap::new();
    let got = panics(|| compile(&text, &mut ctx, &mut decl).ok());
    check(got.is_some(), 40);
    match got.unwrap() {
        Some(s) => same(s.as_bytes(), want.as_bytes(), 41),
        None => check(false, 43),
    }
    check(ctx.is_empty() && decl.is_empty(), 44);
    reach(8);
}
/// Constants and conversions may be used in the declaration of a constant.
pub fn order() {
    tables();
    let (t, v): (&str, f64) = [("const k = #g", 9.807), ("const k = [ft->m]", 0.25), ("const k = [ft->m] // #g", 0.25), ("const k = #h_NH3", -46190.0), ("const k = 2*[h->s]", 8192.0)][choose(5)];
    let text = format!("{}\nx = k", t);
    let mut ctx = ContextHashMap::new();
    let mut decl = HashMap::new();
    let got = panics(|| compile(&text, &mut ctx, &mut decl).ok());
    check(got.is_some(), 45);
    match got.unwrap() {
        Some(s) => {
            let rest: Vec<&str> = s.split('\n').map(|l| l.trim()).filter(|l| !l.is_empty()).collect();
            check(rest.len() == 1 && rest[0] == "x = k", 46);
        }
        None => check(false, 47),
    }
    match ctx.get("k") {
        Some(Token::Num(x)) => check((x - v).abs() <= 1e-12 * v.abs(), 48),
        _ => check(false, 49),
    }
    reach(9);
}

/// What the three replacements make of a text, read byte by byte.
fn replaced(b: &[u8]) -> Option<Vec<u8>> {
    let b = uncommented(b);
    let mut want = vec![];
    let mut i = 0;
    'next: while i < b.len() {
        if b[i] == b'#' {
            let mut e = i + 1;
            while e < b.len() && (b[e] == b'_' || b[e].is_ascii_alphabetic() || (e > i + 1 && b[e].is_ascii_digit())) {
                e += 1;
            }
            if e > i + 1 {
                let (_, v) = CONSTS.iter().find(|(n, _)| n.as_bytes() == &b[i..e])?;
                want.extend(format!("{}", v).bytes());
                i = e;
                continue 'next;
            }
        }
        for (n, v) in CONVS {
            if b[i..].starts_with(n.as_bytes()) {
                want.extend(format!("{}", v?).bytes());
                i += n.len();
                continue 'next;
            }
        }
        want.push(b[i]);
        i += 1;
    }
    Some(want)
}
/// Texts with a character beyond ASCII anywhere.
pub fn wide() {
    tables();
    let _ = (comments("x // y"), consts("#g"), conversions("[m->m]"));
    let base = ["x // y", "#g*#C1", "2*[ft->m]", "[m->ft] // #g", "#no*2"][choose(5)];
    let at = range(0, base.len());
    let s = format!("{}{}{}", &base[..at], wide_char(), &base[at..]);
    // an identifier of a unit is never one with other characters in it
    let got = panics(|| consts(&comments(&s)).and_then(|t| conversions(&t)).ok());
    check(got.is_some(), 100);
    match (got.unwrap(), replaced(s.as_bytes())) {
        (Some(g), Some(w)) => {
            same(g.as_bytes(), &w, 101);
            reach(11);
        }
        (None, None) => reach(12),
        _ => check(false, 103),
    }
}

// ---- declarations (P02) --------------------------------------------------------

/// A written number and its value.
fn number(blank: bool) -> (String, f64) {
    let (s, sign) = match choose(if blank { 4 } else { 3 }) {
        0 => ("", 1.0),
        1 => ("-", -1.0),
        2 => ("", 1.0),
        _ => ("- ", -1.0),
    };
    let (i, v) = [("0", 0.0), ("7", 7.0), ("12", 12.0), ("400", 400.0)][choose(4)];
    let (f, w) = [("", 0.0), (".", 0.0), (".5", 0.5), (".25", 0.25), (".0", 0.0)][choose(5)];
    let (e, m) = [("", 1.0), ("e2", 100.0), ("E-1", 0.1), ("e+3", 1000.0)][choose(4)];
    (format!("{}{}{}{}", s, i, f, e), sign * (v + w) * m)
}
fn close(x: f64, v: f64) -> bool {
    (x - v).abs() <= 1e-12 * v.abs()
}
pub fn numbers() {
    let _ = guess_values("guess 1 for x");
    let _ = domains("keep x on [0, 1]");
    let (t, v) = number(true);
    let name = ["x", "Ab_2"][choose(2)];
    if boolean() {
        let line = match choose(3) {
            0 => format!("guess {} for {}", t, name),
            1 => format!("guess   {}  for   {}", t, name),
            _ => format!("Guess {} FOR {}", t, name),
        };
        let got = panics(|| guess_values(&line));
        check(got.is_some(), 50);
        let (rest, g) = got.unwrap();
        check(rest.is_empty() && g.len() == 1, 51);
        match g.get(name) {
            Some(x) => check(close(*x, v), 52),
            None => check(false, 53),
        }
        reach(1);
    } else {
        // any amount of blanks where the syntax has them
        let second = boolean();
        let (lo, hi) = if second { ("-9", &t[..]) } else { (&t[..], "- 9") };
        let (line, ok) = match choose(5) {
            0 => (format!("keep {} on [{},{}]", name, lo, hi), true),
            1 => (format!("keep  {}   on  [ {},  {}  ]", name, lo, hi), true),
            2 => (format!("KEEP {} On [  {}, {}]", name, lo, hi), true),
            3 => (format!("keep {} on [ {} ,{} ]", name, lo, hi), false),
            _ => (format!("keep {} on [{}, {} 1]", name, lo, hi), false),
        };
        let got = panics(|| domains(&line));
        check(got.is_some(), 54);
        let (rest, d) = got.unwrap();
        // a blank before the comma is not part of the syntax
        if !ok {
            check(d.is_empty() && rest == line, 55);
            reach(2);
            return;
        }
        check(rest.is_empty() && d.len() == 1, 56);
        match d.get(name) {
            Some(x) if second => check(x[0] == -9.0 && close(x[1], v), 57),
            Some(x) => check(close(x[0], v) && x[1] == -9.0, 57),
            None => check(false, 58),
        }
        reach(3);
    }
}
pub fn const_numbers() {
    let _ = const_values("const a = 1");
    let (t, v) = number(true);
    let name = ["x", "Ab_2"][choose(2)];
    let sp = ["", " ", "  "][choose(3)];
    let line = format!("const {}{}={}{}", name, sp, sp, t);
    let got = panics(|| const_values(&line).ok());
    check(got.is_some(), 60);
    match got.unwrap() {
        Some((rest, c)) => {
            check(rest.is_empty() && c.len() == 1, 61);
            match c.get(name) {
                Some(x) => check(close(*x, v), 62),
                None => check(false, 63),
            }
        }
        None => check(false, 64),
    }
    reach(4);
}
/// Any set of declarations in any order, between equations.
pub fn mix() {
    let names = [("x", "x1"), ("x1", "x"), ("a", "B_b")][choose(3)];
    let mut pool: Vec<(usize, String)> = vec![
        (0, format!("guess 2 for {}", names.0)),
        (1, format!("guess 25 for {}", names.1)),
        (2, format!("keep {} on [-1, 5]", names.0)),
        (3, format!("keep {} on [0.5,100]", names.1)),
        (4, "const k = 3".to_string()),
        (5, "const k2 = -30".to_string()),
        (6, format!("{} + {} = k", names.0, names.1)),
        (7, format!("{} = k2", names.1)),
    ];
    let mut have = 0u32;
    let mut text = String::new();
    let mut eqs: Vec<String> = vec![];
    for i in 0..3 {
        let (id, l) = pool.remove(choose(pool.len()));
        have |= 1 << id;
        if i > 0 {
            text.push('\n');
        }
        text.push_str(&l);
        if id > 5 {
            eqs.push(l);
        }
    }
    let has = |i: u32| have >> i & 1 == 1;
    let mut ctx = ContextHashMap::new();
    let mut decl = HashMap::new();
    let got = panics(|| compile(&text, &mut ctx, &mut decl).ok());
    check(got.is_some(), 70);
    let rest = match got.unwrap() {
        Some(s) => s,
        None => {
            check(false, 71);
            return;
        }
    };
    let rest: Vec<&str> = rest.split('\n').map(|l| l.trim()).filter(|l| !l.is_empty()).collect();
    check(rest.len() == eqs.len(), 72);
    for (a, b) in rest.iter().zip(&eqs) {
        check(a == b, 73);
    }
    let inf = f64::INFINITY;
    for (v, g, d, gv, dv) in [(names.0, has(0), has(2), 2.0, [-1.0, 5.0]), (names.1, has(1), has(3), 25.0, [0.5, 100.0])] {
        let want = match (g, d) {
            (false, false) => None,
            (true, false) => Some([gv, -inf, inf]),
            (false, true) => Some([1.0, dv[0], dv[1]]),
            _ => Some([gv, dv[0], dv[1]]),
        };
        check(decl.get(v).copied() == want, 74);
    }
    let consts = [("k", has(4), 3.0), ("k2", has(5), -30.0)];
    check(ctx.len() == consts.iter().filter(|c| c.1).count(), 75);
    for (n, h, v) in consts {
        match ctx.get(n) {
            Some(Token::Num(x)) => check(h && *x == v, 76),
            Some(_) => check(false, 77),
            None => check(!h, 78),
        }
    }
    check(decl.len() == (has(0) || has(2)) as usize + (has(1) || has(3)) as usize, 79);
    reach(5);
}
/// One byte of a declaration is any other: it is read the same or left alone, never half-read.
pub fn near_misses() {
    let _ = guess_values("guess 1 for x");
    let _ = domains("keep x on [0, 1]");
    let (line, at): (&str, &[usize]) = [("guess 3 for x", &[5usize, 7, 8, 10, 11][..]), ("keep x on [2, 4]", &[4, 6, 7, 9, 10, 12, 13, 15][..])][choose(2)];
    let i = at[choose(at.len())];
    let c = bits(7) as u8;
    assume(!c.is_ascii_alphanumeric() && c != b'.' && c != b'_' && c != b'-');
    let mut text = line.as_bytes().to_vec();
    let orig = text[i];
    text[i] = c;
    let s = as_str(&text);
    let got = panics(|| {
        let (a, g) = guess_values(s);
        let (b, d) = domains(&a);
        (b, g.get("x").copied(), g.len(), d.get("x").copied(), d.len())
    });
    check(got.is_some(), 80);
    let (rest, g, gl, d, dl) = got.unwrap();
    if gl + dl == 0 {
        same(rest.as_bytes(), &text, 81);
        check(c != orig, 83);
        reach(6);
    } else {
        check(rest.is_empty(), 84);
        check(gl <= 1 && dl <= 1 && gl + dl == 1, 85);
        if gl == 1 {
            check(g == Some(3.0), 86);
        } else {
            check(d == Some([2.0, 4.0]), 87);
        }
        check(c == orig, 88);
        reach(7);
    }
}
/// A character beyond ASCII in or around a declaration.
pub fn wide_declarations() {
    let _ = (guess_values("guess 1 for x"), domains("keep x on [0, 1]"));
    let (line, kind) = [("guess 3 for x", 0), ("keep x on [2, 4]", 1), ("const k = 5", 2)][choose(3)];
    let at = range(0, line.len());
    let c = greek_char();
    let inside = at > 0 && at < line.len();
    let text = format!("{}{}{}\ny = 1", &line[..at], c, &line[at..]);
    let mut ctx = ContextHashMap::new();
    let mut decl = HashMap::new();
    let got = panics(|| compile(&text, &mut ctx, &mut decl).ok());
    check(got.is_some(), 90);
    let got = got.unwrap();
    let whole = match kind {
        0 => decl.len() == 1 && decl.get("x").map_or(false, |v| v[0] == 3.0 && v[1] == f64::NEG_INFINITY && v[2] == f64::INFINITY),
        1 => decl.len() == 1 && decl.get("x").map_or(false, |v| v[1] == 2.0 && v[2] == 4.0),
        _ => matches!(ctx.get("k"), Some(Token::Num(v)) if *v == 5.0),
    };
    let none = decl.is_empty() && ctx.is_empty();
    check(decl.len() + ctx.len() <= 1, 91);
    if kind == 2 && at >= 10 {
        // part of the constant's value
        check(none && got.is_none(), 92);
        reach(8);
        return;
    }
    check(if inside { none } else { whole }, 93);
    match got {
        Some(s) => {
            check(s.ends_with("\ny = 1") && s.contains(&c), 94);
            reach(9);
        }
        // what remains of a constant's value
        None => check(kind == 2, 95),
    }
}
