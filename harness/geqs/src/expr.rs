//! Expression grammar: an independent reading of standard notation, used as the oracle.
use geqslib::shunting::*;
use std::collections::HashMap;
use sxlib::*;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum T {
    V(usize),
    Num,
    K,
    Unknown,
    Op(u8),
    Open,
    Close,
    Comma,
    F,
    G,
}
pub const NAMES: [&str; 8] = ["a", "b", "c1", "d_2", "Ex", "f9", "y", "z"];

/// f(t) = 3t + 7
fn ff(x: &[f64]) -> f64 {
    3.0 * x[0] + 7.0
}
/// g(s, t) = s - 5t + 11; functions receive their arguments last one first
fn gg(x: &[f64]) -> f64 {
    x[1] - 5.0 * x[0] + 11.0
}
pub fn context(vals: &[f64], k: f64) -> ContextHashMap {
    let mut ctx = ContextHashMap::new();
    for (i, v) in vals.iter().enumerate() {
        ctx.add_var_to_ctx(NAMES[i], *v);
    }
    ctx.add_const_to_ctx("k", k);
    ctx.add_func_to_ctx("f", ff, 1);
    ctx.add_func_to_ctx("g", gg, 2);
    ctx
}
pub fn text(toks: &[T], blanks: usize) -> String {
    text_with(toks, blanks, "2.5")
}
/// The text, with the number written as `num`.
pub fn text_with(toks: &[T], blanks: usize, num: &str) -> String {
    let mut s = String::new();
    for (i, t) in toks.iter().enumerate() {
        if blanks == 1 && i > 0 {
            s.push(' ');
        }
        if blanks == 2 {
            s.push_str("  ");
        }
        if blanks == 3 && i > 0 {
            s.push('\t');
        }
        match t {
            T::V(i) => s.push_str(NAMES[*i]),
            T::Num => s.push_str(num),
            T::K => s.push('k'),
            T::Unknown => s.push_str("n\u{e9}"),
            T::Op(c) => s.push(*c as char),
            T::Open => s.push('('),
            T::Close => s.push(')'),
            T::Comma => s.push(','),
            T::F => s.push('f'),
            T::G => s.push('g'),
        }
    }
    if blanks == 2 {
        s.push(' ');
    }
    s
}

/// Recursive-descent reading. Values are `Err(true)` for a division by exactly zero,
/// `Err(false)` for text that is not an expression.
pub struct P<'a> {
    pub t: &'a [T],
    pub i: usize,
    pub v: &'a [f64],
    pub k: f64,
    /// only decide well-formedness
    pub dry: bool,
    pub div0: bool,
}
type R = Result<f64, ()>;
impl<'a> P<'a> {
    fn peek(&self) -> Option<T> {
        self.t.get(self.i).copied()
    }
    fn eat(&mut self, t: T) -> Result<(), ()> {
        if self.peek() == Some(t) {
            self.i += 1;
            Ok(())
        } else {
            Err(())
        }
    }
    pub fn sum(&mut self) -> R {
        let mut a = self.product()?;
        loop {
            match self.peek() {
                Some(T::Op(b'+')) => {
                    self.i += 1;
                    let b = self.product()?;
                    if !self.dry {
                        a = a + b;
                    }
                }
                Some(T::Op(b'-')) => {
                    self.i += 1;
                    let b = self.product()?;
                    if !self.dry {
                        a = a - b;
                    }
                }
                _ => return Ok(a),
            }
        }
    }
    fn product(&mut self) -> R {
        let mut a = self.signed()?;
        loop {
            match self.peek() {
                Some(T::Op(b'*')) => {
                    self.i += 1;
                    let b = self.signed()?;
                    if !self.dry {
                        a = a * b;
                    }
                }
                Some(T::Op(b'/')) => {
                    self.i += 1;
                    let b = self.signed()?;
                    if !self.dry {
                        if b == 0.0 {
                            self.div0 = true;
                        } else {
                            a = a / b;
                        }
                    }
                }
                _ => return Ok(a),
            }
        }
    }
    fn signed(&mut self) -> R {
        if self.peek() == Some(T::Op(b'-')) {
            self.i += 1;
            let a = self.signed()?;
            return Ok(if self.dry { a } else { -a });
        }
        let a = self.atom()?;
        if self.peek() == Some(T::Op(b'^')) {
            self.i += 1;
            // right associative; the exponent may carry its own sign
            let b = self.signed()?;
            return Ok(if self.dry { a } else { a.powf(b) });
        }
        Ok(a)
    }
    fn atom(&mut self) -> R {
        let t = self.peek().ok_or(())?;
        self.i += 1;
        match t {
            T::V(i) => Ok(if self.dry { 0.0 } else { self.v[i] }),
            T::Num => Ok(2.5),
            T::K => Ok(self.k),
            T::Open => {
                let a = self.sum()?;
                self.eat(T::Close)?;
                Ok(a)
            }
            T::F => {
                self.eat(T::Open)?;
                let a = self.sum()?;
                self.eat(T::Close)?;
                Ok(if self.dry { a } else { 3.0 * a + 7.0 })
            }
            T::G => {
                self.eat(T::Open)?;
                let a = self.sum()?;
                self.eat(T::Comma)?;
                let b = self.sum()?;
                self.eat(T::Close)?;
                Ok(if self.dry { a } else { a - 5.0 * b + 11.0 })
            }
            _ => Err(()),
        }
    }
    pub fn all(&mut self) -> R {
        let r = self.sum()?;
        if self.i == self.t.len() {
            Ok(r)
        } else {
            Err(())
        }
    }
}
/// The library's regular expressions are built (and their caches filled) once, before any path splits.
pub fn warm() {
    for s in ["a", "a+b*(Ex - 2.5e-1)/k", "  f9(c1,\t2)^.5E3 ", "n\u{e9} + d_2", "1e", "-e.1", ")(,", ""] {
        get_legal_variables_iter(s).count();
    }
}
pub fn oracle(t: &[T], v: &[f64], k: f64) -> Result<Option<f64>, ()> {
    let mut p = P { t, i: 0, v, k, dry: false, div0: false };
    let r = p.all()?;
    Ok(if p.div0 { None } else { Some(r) })
}
pub fn well_formed(t: &[T]) -> bool {
    P { t, i: 0, v: &[], k: 0.0, dry: true, div0: false }.all().is_ok()
}

/// Generates a well-formed expression with up to `n` operands, token by token.
pub fn gen(n: usize, ops: &[u8], signs: usize, funcs: bool, parens: usize) -> (Vec<T>, usize) {
    let mut t = vec![];
    let mut open: Vec<usize> = vec![]; // commas still due per open parenthesis
    let mut used = 0;
    let mut minus = signs;
    let mut par = parens;
    loop {
        // an operand is due; every comma still due needs one more
        loop {
            let due: usize = open.iter().sum();
            let mut c = vec![T::V(used)];
            if minus > 0 {
                c.push(T::Op(b'-'));
            }
            if par > 0 {
                c.push(T::Open);
                if funcs {
                    c.push(T::F);
                    if used + due + 1 < n {
                        c.push(T::G);
                    }
                }
            }
            let k = c[choose(c.len())];
            t.push(k);
            match k {
                T::V(_) => {
                    used += 1;
                    break;
                }
                T::Op(_) => minus -= 1,
                T::Open => {
                    par -= 1;
                    open.push(0);
                }
                T::F => {
                    par -= 1;
                    t.push(T::Open);
                    open.push(0);
                }
                _ => {
                    par -= 1;
                    t.push(T::Open);
                    open.push(1);
                }
            }
        }
        // after an operand: close, separate, continue or stop
        loop {
            let due: usize = open.iter().sum();
            let mut c = vec![];
            if used + due < n {
                c.extend(ops.iter().map(|o| T::Op(*o)));
            }
            match open.last() {
                None => c.push(T::Num), // stands for "stop"
                Some(0) => c.push(T::Close),
                Some(_) => c.push(T::Comma),
            }
            let k = c[choose(c.len())];
            match k {
                T::Num => return (t, used),
                T::Close => {
                    t.push(k);
                    open.pop();
                }
                T::Comma => {
                    t.push(k);
                    *open.last_mut().unwrap() -= 1;
                    break;
                }
                _ => {
                    t.push(k);
                    break;
                }
            }
        }
    }
}

/// The library's result for `s` is what the oracle says about `t`.
fn agrees(s: &str, t: &[T], ctx: &ContextHashMap, v: &[f64], k: f64, id: u32) {
    let got = panics(|| eval_str_with_context(s, ctx).ok());
    check(got.is_some(), id);
    match (got.unwrap(), oracle(t, v, k)) {
        (Some(x), Ok(Some(y))) => {
            reach(1);
            check(eq(x, y), id + 1)
        }
        (None, Ok(None)) => reach(2),
        (None, Err(())) => reach(3),
        (Some(_), Ok(None)) => check(false, id + 2),
        (None, Ok(Some(_))) => check(false, id + 3),
        (Some(_), Err(())) => check(false, id + 4),
    }
    // compiled, and called without changing a variable, it is the same expression
    let f = panics(|| compile_to_fn_of_hashmap(s, ctx).ok());
    check(f.is_some(), id + 5);
    let f = f.unwrap();
    check(f.is_some() == well_formed(t), id + 6);
    if let Some(f) = f {
        let got = panics(|| f(&HashMap::new()).ok());
        check(got.is_some(), id + 7);
        match (got.unwrap(), oracle(t, v, k)) {
            (Some(x), Ok(Some(y))) => check(eq(x, y), id + 8),
            (None, Ok(None)) => {}
            _ => check(false, id + 9),
        }
    }
}

pub fn e01_struct(n: usize) {
    warm();
    let (t, used) = match choose(3) {
        0 => gen(n, b"+-*/^", 1, false, 0),
        1 => gen(n.min(3), b"+-*/^", 1, true, 2),
        _ => gen(n, b"-*^", 2, true, 1),
    };
    let v: Vec<f64> = (0..used).map(|_| real()).collect();
    let ctx = context(&v, 0.0);
    agrees(&text(&t, 0), &t, &ctx, &v, 0.0, 10);
}

/// Blanks, numbers, constants and long names.
pub fn e01_lex() {
    warm();
    let (mut t, used) = gen(2, b"+-*/^", 1, true, 1);
    let v: Vec<f64> = (0..used).map(|_| real()).collect();
    let k = real();
    // turn operands into numbers or constants
    for x in t.iter_mut() {
        if let T::V(_) = *x {
            match choose(3) {
                0 => {}
                1 => *x = T::Num,
                _ => *x = T::K,
            }
        }
    }
    let ctx = context(&v, k);
    if choose(2) == 0 {
        agrees(&text(&t, choose(4)), &t, &ctx, &v, k, 20);
    } else {
        // the same number in other notations
        let num = ["25e-1", ".25E1", "0.025e+2", "25.e-1", "2500E-03"][choose(5)];
        agrees(&text_with(&t, 0, num), &t, &ctx, &v, k, 20);
    }
}

pub fn e02_tokens(n: usize) {
    warm();
    let voc = [T::V(0), T::Op(b'-'), T::Op(b'*'), T::Open, T::Close, T::Comma, T::F, T::G, T::Op(b'+'), T::Unknown];
    let len = choose(n + 1);
    // the longest ones draw from the smaller vocabulary
    let m = if len == n { 8 } else { 10 };
    let t: Vec<T> = (0..len).map(|_| voc[choose(m)]).collect();
    let v = [real()];
    let ctx = context(&v, 0.0);
    // names and functions that touch each other are one word, so use blanks
    let s = text(&t, 1);
    agrees(&s, &t, &ctx, &v, 0.0, 30);
    let f = panics(|| compile_to_fn(&s, &ctx).is_ok());
    check(f == Some(well_formed(&t)), 45);
}

fn digit(c: u8) -> bool {
    c.is_ascii_digit()
}
/// Digits with an optional point and an optional exponent.
fn is_number(w: &[u8]) -> bool {
    let mut i = 0;
    let mut d = 0;
    while i < w.len() && digit(w[i]) {
        i += 1;
        d += 1;
    }
    if i < w.len() && w[i] == b'.' {
        i += 1;
        while i < w.len() && digit(w[i]) {
            i += 1;
            d += 1;
        }
    }
    if d == 0 {
        return false;
    }
    if i < w.len() && (w[i] == b'e' || w[i] == b'E') {
        i += 1;
        if i < w.len() && (w[i] == b'+' || w[i] == b'-') {
            i += 1;
        }
        if i == w.len() {
            return false;
        }
        while i < w.len() && digit(w[i]) {
            i += 1;
        }
    }
    i == w.len()
}
/// Splits text into the tokens of the grammar when no names are known.
fn scan(b: &[u8]) -> Vec<T> {
    let mut t = vec![];
    let mut i = 0;
    let op = |c: u8| matches!(c, b'+' | b'-' | b'*' | b'/' | b'^' | b'(' | b')' | b',');
    let blank = |c: u8| c == b' ' || (9..=13).contains(&c);
    while i < b.len() {
        let c = b[i];
        if blank(c) {
            i += 1;
            continue;
        }
        if op(c) {
            t.push(match c {
                b'(' => T::Open,
                b')' => T::Close,
                b',' => T::Comma,
                c => T::Op(c),
            });
            i += 1;
            continue;
        }
        let st = i;
        while i < b.len() && !blank(b[i]) {
            if op(b[i]) {
                // a sign may continue a number that ends in its exponent mark
                let sign = b[i] == b'+' || b[i] == b'-';
                let w = &b[st..i];
                let e = w[w.len() - 1] == b'e' || w[w.len() - 1] == b'E';
                let m = &w[..w.len() - 1];
                if !(sign && e && is_number(m)) {
                    break;
                }
            }
            i += 1;
        }
        t.push(if is_number(&b[st..i]) {
            T::Num
        } else {
            T::Unknown
        });
    }
    t
}
/// Any short text: no panic, and an answer exactly for an expression.
pub fn e02_bytes(n: usize, compile: bool) {
    warm();
    let len = range(0, n);
    let b: Vec<u8> = (0..len).map(|_| bits(7) as u8).collect();
    // digits beyond 1 only change the value of a number
    for c in &b {
        assume(*c < b'2' || *c > b'9');
    }
    let s = unsafe { std::str::from_utf8_unchecked(&b) };
    let ctx = ContextHashMap::new();
    let r = panics(|| eval_str_with_context(s, &ctx).ok());
    check(r.is_some(), 40);
    let ok = r.unwrap().is_some();
    let t = scan(&b);
    let wf = well_formed(&t);
    check(!ok || wf, 41);
    if wf && !ok {
        // only a division by zero may fail
        check(b.iter().any(|c| *c == b'/'), 42);
    }
    if compile {
        let f = panics(|| compile_to_fn_of_hashmap(s, &ctx).is_ok());
        check(f.is_some(), 43);
        check(f.unwrap() == wf, 44);
    }
    if ok {
        reach(1)
    } else if !wf {
        reach(2)
    }
}
/// Characters beyond ASCII are never part of an expression: an error wherever they stand, never a panic.
pub fn e02_wide() {
    warm();
    let base = ["2", "x + 1", "5e-1*x", "-sqrt(x)"][choose(4)];
    let at = range(0, base.len());
    let blank = choose(4) == 0;
    let c = if blank { ['\u{a0}', '\u{2003}', '\u{85}', '\u{3000}'][choose(4)].to_string() } else { greek_char() };
    let gone = if at < base.len() { choose(2) } else { 0 };
    let s = format!("{}{}{}", &base[..at], c, &base[at + gone..]);
    let mut ctx = new_context();
    ctx.add_const_to_ctx("x", 4.0);
    let r = panics(|| eval_str_with_context(&s, &ctx).ok());
    check(r.is_some(), 46);
    let f = panics(|| compile_to_fn_of_hashmap(&s, &ctx).is_ok());
    check(f.is_some(), 47);
    if blank {
        // white space of any kind separates words
        let plain = format!("{} {}", &base[..at], &base[at + gone..]);
        check(r.unwrap() == eval_str_with_context(&plain, &ctx).ok(), 48);
        reach(3);
    } else {
        check(r.unwrap().is_none() && f == Some(false), 49);
        reach(4);
    }
}
