//! Hash-consed symbolic terms: booleans, bit-vectors and reals (polynomial normal form).
use crate::big::Rat;
use std::cell::UnsafeCell;
use std::cmp::Ordering;
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;

pub type T = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Sort {
    Bool,
    Bv(u8),
    Real,
}

pub type Mono = Rc<[(T, i32)]>;
pub type Poly = Vec<(Mono, Rat)>;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    True,
    False,
    BvC(u128),
    RealC(Rat),
    Var(u32),
    Not,
    And,
    Or,
    Eq, // bool/bv equality
    Ite,
    BAdd,
    BMul,
    BUDiv,
    BURem,
    BSDiv,
    BSRem,
    BAnd,
    BOr,
    BXor,
    BShl,
    BLshr,
    BAshr,
    Concat,
    Extract(u8, u8),
    ZExt,
    SExt,
    Ult,
    Ule,
    Slt,
    Sle,
    RBits, // bit pattern of a real
    Poly(Poly),
    BigAdd,
    BigMul,
    Uf(&'static str),
    RofU, // unsigned bv -> real
    RofS,
    Eq0,
    Lt0,
    Le0,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub sort: Sort,
    pub args: Box<[T]>,
}

pub struct VarInfo {
    pub name: String,
    pub sort: Sort,
}

pub struct Store {
    pub nodes: Vec<&'static Node>,
    /// single-variable support: 0 = none, v+1 = only variable v, u32::MAX = several
    pub uni: Vec<u32>,
    map: HashMap<&'static Node, T>,
    pub vars: Vec<VarInfo>,
    var_ids: HashMap<String, u32>,
    tables: HashMap<T, [u64; 4]>,
    sup: HashMap<T, Rc<Vec<u32>>>,
    pub uf_names: Vec<&'static str>,
}

struct G(UnsafeCell<Option<Store>>);
unsafe impl Sync for G {}
static STORE: G = G(UnsafeCell::new(None));
pub fn st() -> &'static mut Store {
    // single-threaded process by construction
    unsafe {
        let o = &mut *STORE.0.get();
        o.get_or_insert_with(|| {
            let mut s = Store {
                nodes: vec![],
                uni: vec![],
                map: HashMap::new(),
                vars: vec![],
                var_ids: HashMap::new(),
                tables: HashMap::new(),
                sup: HashMap::new(),
                uf_names: vec![],
            };
            s.mk(Op::False, Sort::Bool, &[]);
            s.mk(Op::True, Sort::Bool, &[]);
            s
        })
    }
}
pub const FALSE: T = 0;
pub const TRUE: T = 1;

impl Store {
    fn mk(&mut self, op: Op, sort: Sort, args: &[T]) -> T {
        let n = Node { op, sort, args: args.into() };
        if let Some(&t) = self.map.get(&n) {
            return t;
        }
        let mut u = 0u32;
        let mut add = |x: u32| {
            if x != 0 {
                if u == 0 {
                    u = x
                } else if u != x {
                    u = u32::MAX
                }
            }
        };
        if let Op::Var(v) = n.op {
            add(v + 1);
        }
        for &a in n.args.iter() {
            add(self.uni[a as usize]);
        }
        if let Op::Poly(p) = &n.op {
            for (m, _) in p {
                for &(a, _) in m.iter() {
                    add(self.uni[a as usize]);
                }
            }
        }
        if matches!(n.op, Op::RBits | Op::Uf(_)) {
            u = u32::MAX;
        }
        let t = self.nodes.len() as T;
        let n: &'static Node = Box::leak(Box::new(n));
        self.nodes.push(n);
        self.uni.push(u);
        self.map.insert(n, t);
        t
    }
}

pub fn node(t: T) -> &'static Node {
    st().nodes[t as usize]
}
pub fn sort(t: T) -> Sort {
    node(t).sort
}
pub fn width(t: T) -> u32 {
    match sort(t) {
        Sort::Bv(w) => w as u32,
        Sort::Bool => 1,
        Sort::Real => 64,
    }
}
fn mk(op: Op, sort: Sort, args: &[T]) -> T {
    st().mk(op, sort, args)
}
pub fn var(name: &str, sort: Sort) -> T {
    let s = st();
    let id = match s.var_ids.get(name) {
        Some(&i) => i,
        None => {
            let i = s.vars.len() as u32;
            s.vars.push(VarInfo { name: name.to_string(), sort });
            s.var_ids.insert(name.to_string(), i);
            i
        }
    };
    mk(Op::Var(id), st().vars[id as usize].sort, &[])
}
pub fn var_sort(v: u32) -> Sort {
    st().vars[v as usize].sort
}
pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
pub fn bvc(v: u128, w: u32) -> T {
    mk(Op::BvC(v & mask(w)), Sort::Bv(w as u8), &[])
}
pub fn boolc(b: bool) -> T {
    if b {
        TRUE
    } else {
        FALSE
    }
}
pub fn realc(r: Rat) -> T {
    mk(Op::RealC(r), Sort::Real, &[])
}
pub fn as_bvc(t: T) -> Option<u128> {
    match &node(t).op {
        Op::BvC(v) => Some(*v),
        Op::True => Some(1),
        Op::False => Some(0),
        _ => None,
    }
}
pub fn as_realc(t: T) -> Option<&'static Rat> {
    match &node(t).op {
        Op::RealC(r) => Some(r),
        _ => None,
    }
}
fn sx(v: u128, w: u32) -> i128 {
    if w >= 128 {
        return v as i128;
    }
    let s = 128 - w;
    ((v << s) as i128) >> s
}

// ---------- booleans ----------
pub fn not(t: T) -> T {
    let n = node(t);
    match &n.op {
        Op::True => FALSE,
        Op::False => TRUE,
        Op::Not => n.args[0],
        Op::Lt0 => cmp0(Op::Le0, rneg(n.args[0])),
        Op::Le0 => cmp0(Op::Lt0, rneg(n.args[0])),
        Op::Ult => bcmp(Op::Ule, n.args[1], n.args[0]),
        Op::Ule => bcmp(Op::Ult, n.args[1], n.args[0]),
        Op::Slt => bcmp(Op::Sle, n.args[1], n.args[0]),
        Op::Sle => bcmp(Op::Slt, n.args[1], n.args[0]),
        _ => mk(Op::Not, Sort::Bool, &[t]),
    }
}
fn flat(op: &Op, xs: &[T], out: &mut Vec<T>) {
    for &x in xs {
        let n = node(x);
        if n.op == *op {
            flat(op, &n.args, out)
        } else {
            out.push(x)
        }
    }
}
pub fn and(xs: &[T]) -> T {
    let mut v = vec![];
    flat(&Op::And, xs, &mut v);
    v.sort();
    v.dedup();
    v.retain(|&x| x != TRUE);
    if v.contains(&FALSE) {
        return FALSE;
    }
    for &x in &v {
        if v.binary_search(&not(x)).is_ok() {
            return FALSE;
        }
    }
    match v.len() {
        0 => TRUE,
        1 => v[0],
        _ => mk(Op::And, Sort::Bool, &v),
    }
}
pub fn or(xs: &[T]) -> T {
    let mut v = vec![];
    flat(&Op::Or, xs, &mut v);
    v.sort();
    v.dedup();
    v.retain(|&x| x != FALSE);
    if v.contains(&TRUE) {
        return TRUE;
    }
    for &x in &v {
        if v.binary_search(&not(x)).is_ok() {
            return TRUE;
        }
    }
    match v.len() {
        0 => FALSE,
        1 => v[0],
        _ => mk(Op::Or, Sort::Bool, &v),
    }
}
pub fn xorb(a: T, b: T) -> T {
    not(eq(a, b))
}
pub fn eq(a: T, b: T) -> T {
    if a == b {
        return TRUE;
    }
    let (a, b) = if a < b { (a, b) } else { (b, a) };
    match sort(a) {
        Sort::Real => return req(a, b),
        Sort::Bool => {
            if a == TRUE {
                return b;
            }
            if a == FALSE {
                return not(b);
            }
            if b == TRUE {
                return a;
            }
            if b == FALSE {
                return not(a);
            }
            if not(a) == b {
                return FALSE;
            }
        }
        Sort::Bv(w) => {
            let (ca, cb) = (as_bvc(a), as_bvc(b));
            if let (Some(x), Some(y)) = (ca, cb) {
                return boolc(x == y);
            }
            if ca.is_some() || cb.is_some() {
                let (k, x) = if let Some(k) = ca { (k, b) } else { (cb.unwrap(), a) };
                let n = node(x);
                match &n.op {
                    Op::ZExt => {
                        let iw = width(n.args[0]);
                        if k > mask(iw) {
                            return FALSE;
                        }
                        return eq(n.args[0], bvc(k, iw));
                    }
                    Op::SExt => {
                        let iw = width(n.args[0]);
                        if sx(k & mask(iw), iw) as u128 & mask(w as u32) != k {
                            return FALSE;
                        }
                        return eq(n.args[0], bvc(k, iw));
                    }
                    Op::Ite => {
                        let (c, p, q) = (n.args[0], n.args[1], n.args[2]);
                        if as_bvc(p).is_some() || as_bvc(q).is_some() {
                            let kt = bvc(k, w as u32);
                            return ite(c, eq(p, kt), eq(q, kt));
                        }
                    }
                    Op::Concat => {
                        let lw = width(n.args[1]);
                        let hw = width(n.args[0]);
                        return and(&[eq(n.args[0], bvc(k >> lw, hw)), eq(n.args[1], bvc(k, lw))]);
                    }
                    Op::BXor => {
                        if let Some(c) = as_bvc(n.args[1]) {
                            return eq(n.args[0], bvc(c ^ k, w as u32));
                        }
                    }
                    Op::BAdd => {
                        if let Some(c) = as_bvc(n.args[1]) {
                            return eq(n.args[0], bvc(k.wrapping_sub(c), w as u32));
                        }
                    }
                    _ => {}
                }
            }
        }
    }
    mk(Op::Eq, Sort::Bool, &[a, b])
}
pub fn ite(c: T, a: T, b: T) -> T {
    if c == TRUE {
        return a;
    }
    if c == FALSE {
        return b;
    }
    if a == b {
        return a;
    }
    let cn = node(c);
    if cn.op == Op::Not {
        return ite(cn.args[0], b, a);
    }
    if sort(a) == Sort::Bool {
        if a == TRUE && b == FALSE {
            return c;
        }
        if a == FALSE && b == TRUE {
            return not(c);
        }
        if a == TRUE {
            return or(&[c, b]);
        }
        if b == FALSE {
            return and(&[c, a]);
        }
        if a == FALSE {
            return and(&[not(c), b]);
        }
        if b == TRUE {
            return or(&[not(c), a]);
        }
    }
    mk(Op::Ite, sort(a), &[c, a, b])
}

// ---------- bit-vectors ----------
pub fn b2bv(c: T, w: u32) -> T {
    ite(c, bvc(1, w), bvc(0, w))
}
pub fn bv2b(x: T) -> T {
    // width-1 bv to bool
    if sort(x) == Sort::Bool {
        return x;
    }
    eq(x, bvc(1, width(x)))
}
pub fn bcmp(op: Op, a: T, b: T) -> T {
    let w = width(a);
    if let (Some(x), Some(y)) = (as_bvc(a), as_bvc(b)) {
        return boolc(match op {
            Op::Ult => x < y,
            Op::Ule => x <= y,
            Op::Slt => sx(x, w) < sx(y, w),
            _ => sx(x, w) <= sx(y, w),
        });
    }
    if a == b {
        return boolc(matches!(op, Op::Ule | Op::Sle));
    }
    match op {
        Op::Ult => {
            if as_bvc(b) == Some(0) {
                return FALSE;
            }
            if as_bvc(a) == Some(mask(w)) {
                return FALSE;
            }
            if as_bvc(a) == Some(0) {
                return not(eq(b, a));
            }
            if as_bvc(b) == Some(1) {
                return eq(a, bvc(0, w));
            }
        }
        Op::Ule => {
            if as_bvc(a) == Some(0) || as_bvc(b) == Some(mask(w)) {
                return TRUE;
            }
            if as_bvc(b) == Some(0) {
                return eq(a, b);
            }
        }
        _ => {}
    }
    // strip zext
    let (na, nb) = (node(a), node(b));
    if matches!(op, Op::Ult | Op::Ule) || true {
        let uop = match op {
            Op::Slt => Op::Ult,
            Op::Sle => Op::Ule,
            ref o => o.clone(),
        };
        if na.op == Op::ZExt {
            let iw = width(na.args[0]);
            if let Some(k) = as_bvc(b) {
                let neg = matches!(op, Op::Slt | Op::Sle) && sx(k, w) < 0;
                if neg {
                    return FALSE;
                }
                if k > mask(iw) {
                    return TRUE;
                }
                return bcmp(uop, na.args[0], bvc(k, iw));
            }
            if nb.op == Op::ZExt && width(nb.args[0]) == iw {
                return bcmp(uop, na.args[0], nb.args[0]);
            }
        }
        if nb.op == Op::ZExt {
            let iw = width(nb.args[0]);
            if let Some(k) = as_bvc(a) {
                let neg = matches!(op, Op::Slt | Op::Sle) && sx(k, w) < 0;
                if neg {
                    return TRUE;
                }
                if k > mask(iw) {
                    return FALSE;
                }
                return bcmp(uop, bvc(k, iw), nb.args[0]);
            }
        }
    }
    mk(op, Sort::Bool, &[a, b])
}
pub fn fold_bin(op: &Op, x: u128, y: u128, w: u32) -> Option<u128> {
    let m = mask(w);
    Some(
        match op {
            Op::BAdd => x.wrapping_add(y),
            Op::BMul => x.wrapping_mul(y),
            Op::BUDiv => {
                if y == 0 {
                    m
                } else {
                    x / y
                }
            }
            Op::BURem => {
                if y == 0 {
                    x
                } else {
                    x % y
                }
            }
            Op::BSDiv => {
                if y == 0 {
                    if sx(x, w) < 0 {
                        1
                    } else {
                        m
                    }
                } else {
                    sx(x, w).wrapping_div(sx(y, w)) as u128
                }
            }
            Op::BSRem => {
                if y == 0 {
                    x
                } else {
                    sx(x, w).wrapping_rem(sx(y, w)) as u128
                }
            }
            Op::BAnd => x & y,
            Op::BOr => x | y,
            Op::BXor => x ^ y,
            Op::BShl => {
                if y >= w as u128 {
                    0
                } else {
                    x << y
                }
            }
            Op::BLshr => {
                if y >= w as u128 {
                    0
                } else {
                    x >> y
                }
            }
            Op::BAshr => {
                let s = if y >= w as u128 { w - 1 } else { y as u32 };
                (sx(x, w) >> s) as u128
            }
            _ => return None,
        } & m,
    )
}
pub fn bneg(a: T) -> T {
    bin(Op::BMul, a, bvc(mask(width(a)), width(a)))
}
pub fn bsub(a: T, b: T) -> T {
    let w = width(a);
    if a == b {
        return bvc(0, w);
    }
    if let Some(k) = as_bvc(b) {
        return bin(Op::BAdd, a, bvc(k.wrapping_neg(), w));
    }
    bin(Op::BAdd, a, bneg(b))
}
pub fn bin(op: Op, a: T, b: T) -> T {
    let w = width(a);
    let (ca, cb) = (as_bvc(a), as_bvc(b));
    if let (Some(x), Some(y)) = (ca, cb) {
        return bvc(fold_bin(&op, x, y, w).unwrap(), w);
    }
    // constants on the right for commutative ops
    let comm = matches!(op, Op::BAdd | Op::BMul | Op::BAnd | Op::BOr | Op::BXor);
    let (a, b, ca, cb) = if comm && (ca.is_some() || (cb.is_none() && a > b)) { (b, a, cb, ca) } else { (a, b, ca, cb) };
    let _ = ca;
    if let Some(k) = cb {
        match op {
            Op::BAdd | Op::BOr | Op::BXor | Op::BShl | Op::BLshr | Op::BAshr if k == 0 => return a,
            Op::BMul if k == 1 => return a,
            Op::BMul | Op::BAnd if k == 0 => return b,
            Op::BAnd if k == mask(w) => return a,
            Op::BOr if k == mask(w) => return b,
            Op::BUDiv | Op::BSDiv if k == 1 => return a,
            Op::BMul if k.is_power_of_two() => return bin(Op::BShl, a, bvc(k.trailing_zeros() as u128, w)),
            Op::BUDiv if k.is_power_of_two() => return bin(Op::BLshr, a, bvc(k.trailing_zeros() as u128, w)),
            Op::BURem if k.is_power_of_two() => return bin(Op::BAnd, a, bvc(k - 1, w)),
            Op::BShl if k < w as u128 => {
                let k = k as u32;
                return concat(extract(a, w - 1 - k, 0), bvc(0, k));
            }
            Op::BLshr if k < w as u128 => {
                let k = k as u32;
                return zext(extract(a, w - 1, k), w);
            }
            Op::BShl | Op::BLshr => return bvc(0, w),
            Op::BAnd => {
                // contiguous low mask
                if (k & (k + 1)) == 0 {
                    let n = (k + 1).trailing_zeros();
                    return zext(extract(a, n - 1, 0), w);
                }
                // single run of ones: k = ones << s
                let s = k.trailing_zeros();
                let kk = k >> s;
                if kk & (kk + 1) == 0 {
                    let n = (kk + 1).trailing_zeros();
                    let mid = extract(a, s + n - 1, s);
                    return zext(concat(mid, bvc(0, s)), w);
                }
            }
            Op::BAdd | Op::BXor | Op::BOr => {
                let n = node(a);
                if n.op == op {
                    if let Some(k2) = as_bvc(n.args[1]) {
                        return bin(op.clone(), n.args[0], bvc(fold_bin(&op, k, k2, w).unwrap(), w));
                    }
                }
            }
            _ => {}
        }
    }
    if a == b {
        match op {
            Op::BAnd | Op::BOr => return a,
            Op::BXor => return bvc(0, w),
            _ => {}
        }
    }
    if op == Op::BOr {
        // disjoint pieces -> concat
        if let Some(r) = or_disjoint(a, b, w) {
            return r;
        }
    }
    if op == Op::BAdd {
        // x + (-1)*x
        for (p, q) in [(a, b), (b, a)] {
            let n = node(q);
            if n.op == Op::BMul && as_bvc(n.args[1]) == Some(mask(w)) && n.args[0] == p {
                return bvc(0, w);
            }
        }
    }
    mk(op, Sort::Bv(w as u8), &[a, b])
}
/// (zero-extended low part) | (something shifted above it)
fn or_disjoint(a: T, b: T, w: u32) -> Option<T> {
    for (lo, hi) in [(a, b), (b, a)] {
        let nl = node(lo);
        if nl.op != Op::ZExt {
            continue;
        }
        let lw = width(nl.args[0]);
        // hi must have zero low lw bits
        let nh = node(hi);
        let hi_core = if nh.op == Op::ZExt { nh.args[0] } else { hi };
        let nc = node(hi_core);
        if nc.op == Op::Concat {
            if let Some(0) = as_bvc(nc.args[1]) {
                let zw = width(nc.args[1]);
                if zw >= lw {
                    let top = nc.args[0];
                    let low = zext(nl.args[0], zw);
                    return Some(zext(concat(top, low), w));
                }
            }
        }
    }
    None
}
pub fn bnot(a: T) -> T {
    bin(Op::BXor, a, bvc(mask(width(a)), width(a)))
}
pub fn zext(a: T, w: u32) -> T {
    let a = if sort(a) == Sort::Bool { return b2bv(a, w) } else { a };
    let aw = width(a);
    if aw == w {
        return a;
    }
    if let Some(k) = as_bvc(a) {
        return bvc(k, w);
    }
    let n = node(a);
    match n.op {
        Op::ZExt => return zext(n.args[0], w),
        Op::Ite if as_bvc(n.args[1]).is_some() && as_bvc(n.args[2]).is_some() => {
            return ite(n.args[0], zext(n.args[1], w), zext(n.args[2], w));
        }
        _ => {}
    }
    mk(Op::ZExt, Sort::Bv(w as u8), &[a])
}
pub fn sext(a: T, w: u32) -> T {
    if sort(a) == Sort::Bool {
        return ite(a, bvc(mask(w), w), bvc(0, w));
    }
    let aw = width(a);
    if aw == w {
        return a;
    }
    if let Some(k) = as_bvc(a) {
        return bvc(sx(k, aw) as u128, w);
    }
    let n = node(a);
    match n.op {
        Op::ZExt => return zext(n.args[0], w),
        Op::Ite if as_bvc(n.args[1]).is_some() && as_bvc(n.args[2]).is_some() => {
            return ite(n.args[0], sext(n.args[1], w), sext(n.args[2], w));
        }
        _ => {}
    }
    mk(Op::SExt, Sort::Bv(w as u8), &[a])
}
pub fn extract(a: T, hi: u32, lo: u32) -> T {
    let w = width(a);
    let rw = hi - lo + 1;
    if sort(a) == Sort::Real {
        return extract(rbits(a), hi, lo);
    }
    if rw == w {
        return a;
    }
    if let Some(k) = as_bvc(a) {
        return bvc(k >> lo, rw);
    }
    let n = node(a);
    match &n.op {
        Op::Extract(_, l2) => return extract(n.args[0], hi + *l2 as u32, lo + *l2 as u32),
        Op::Concat => {
            let lw = width(n.args[1]);
            if hi < lw {
                return extract(n.args[1], hi, lo);
            }
            if lo >= lw {
                return extract(n.args[0], hi - lw, lo - lw);
            }
            return concat(extract(n.args[0], hi - lw, 0), extract(n.args[1], lw - 1, lo));
        }
        Op::ZExt => {
            let iw = width(n.args[0]);
            if hi < iw {
                return extract(n.args[0], hi, lo);
            }
            if lo >= iw {
                return bvc(0, rw);
            }
            return zext(extract(n.args[0], iw - 1, lo), rw);
        }
        Op::SExt => {
            let iw = width(n.args[0]);
            if hi < iw {
                return extract(n.args[0], hi, lo);
            }
        }
        Op::Ite => {
            let (c, p, q) = (n.args[0], n.args[1], n.args[2]);
            if as_bvc(p).is_some() || as_bvc(q).is_some() {
                return ite(c, extract(p, hi, lo), extract(q, hi, lo));
            }
        }
        Op::BAnd | Op::BOr | Op::BXor => {
            if as_bvc(n.args[1]).is_some() {
                return bin(n.op.clone(), extract(n.args[0], hi, lo), extract(n.args[1], hi, lo));
            }
        }
        Op::BAdd | Op::BMul if lo == 0 => {
            return bin(n.op.clone(), extract(n.args[0], hi, 0), extract(n.args[1], hi, 0));
        }
        _ => {}
    }
    mk(Op::Extract(hi as u8, lo as u8), Sort::Bv(rw as u8), &[a])
}
pub fn concat(hi: T, lo: T) -> T {
    let (hw, lw) = (width(hi), width(lo));
    if let (Some(x), Some(y)) = (as_bvc(hi), as_bvc(lo)) {
        return bvc((x << lw) | y, hw + lw);
    }
    if as_bvc(hi) == Some(0) {
        return zext(lo, hw + lw);
    }
    let (nh, nl) = (node(hi), node(lo));
    if let (Op::Extract(h1, l1), Op::Extract(h2, l2)) = (&nh.op, &nl.op) {
        if nh.args[0] == nl.args[0] && *l1 as u32 == *h2 as u32 + 1 {
            return extract(nh.args[0], *h1 as u32, *l2 as u32);
        }
    }
    // right-associate merging: concat(concat(a,b),c) with b,c mergeable
    if nh.op == Op::Concat {
        let m = concat_try(nh.args[1], lo);
        if let Some(m) = m {
            return concat(nh.args[0], m);
        }
    }
    mk(Op::Concat, Sort::Bv((hw + lw) as u8), &[hi, lo])
}
fn concat_try(hi: T, lo: T) -> Option<T> {
    let (nh, nl) = (node(hi), node(lo));
    if let (Some(_), Some(_)) = (as_bvc(hi), as_bvc(lo)) {
        return Some(concat(hi, lo));
    }
    if let (Op::Extract(h1, l1), Op::Extract(h2, l2)) = (&nh.op, &nl.op) {
        if nh.args[0] == nl.args[0] && *l1 as u32 == *h2 as u32 + 1 {
            return Some(extract(nh.args[0], *h1 as u32, *l2 as u32));
        }
    }
    None
}
pub fn rbits(r: T) -> T {
    if let Some(k) = as_realc(r) {
        return bvc(k.to_f64().to_bits() as u128, 64);
    }
    mk(Op::RBits, Sort::Bv(64), &[r])
}

// ---------- reals ----------
pub const CAP: usize = 3000;
fn one_mono() -> Mono {
    Rc::from(Vec::new())
}
pub fn to_poly(t: T) -> Poly {
    let n = node(t);
    match &n.op {
        Op::Poly(p) => p.clone(),
        Op::RealC(r) => {
            if r.is_zero() {
                vec![]
            } else {
                vec![(one_mono(), r.clone())]
            }
        }
        _ => vec![(Rc::from(vec![(t, 1)]), Rat::one())],
    }
}
fn from_poly(p: Poly) -> T {
    if p.is_empty() {
        return realc(Rat::zero());
    }
    if p.len() == 1 {
        let (m, c) = &p[0];
        if m.is_empty() {
            return realc(c.clone());
        }
        if c.is_one() && m.len() == 1 && m[0].1 == 1 {
            return m[0].0;
        }
    }
    mk(Op::Poly(p), Sort::Real, &[])
}
fn mono_mul(a: &Mono, b: &Mono) -> Mono {
    if a.is_empty() {
        return b.clone();
    }
    if b.is_empty() {
        return a.clone();
    }
    let mut r = Vec::with_capacity(a.len() + b.len());
    let (mut i, mut j) = (0, 0);
    while i < a.len() || j < b.len() {
        if j >= b.len() || (i < a.len() && a[i].0 < b[j].0) {
            r.push(a[i]);
            i += 1;
        } else if i >= a.len() || b[j].0 < a[i].0 {
            r.push(b[j]);
            j += 1;
        } else {
            let e = a[i].1 + b[j].1;
            if e != 0 {
                r.push((a[i].0, e));
            }
            i += 1;
            j += 1;
        }
    }
    Rc::from(r)
}
fn mono_cmp(a: &Mono, b: &Mono) -> Ordering {
    // lexicographic on exponent vectors (smaller term id = more significant)
    let (mut i, mut j) = (0, 0);
    loop {
        match (a.get(i), b.get(j)) {
            (None, None) => return Ordering::Equal,
            (Some(x), None) => return x.1.cmp(&0),
            (None, Some(y)) => return 0.cmp(&y.1),
            (Some(x), Some(y)) => {
                if x.0 == y.0 {
                    if x.1 != y.1 {
                        return x.1.cmp(&y.1);
                    }
                    i += 1;
                    j += 1;
                } else if x.0 < y.0 {
                    return x.1.cmp(&0);
                } else {
                    return 0.cmp(&y.1);
                }
            }
        }
    }
}
#[derive(PartialEq, Eq, Clone)]
struct MK(Mono);
impl PartialOrd for MK {
    fn partial_cmp(&self, o: &MK) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for MK {
    fn cmp(&self, o: &MK) -> Ordering {
        mono_cmp(&self.0, &o.0)
    }
}
fn acc_to_poly(m: BTreeMap<MK, Rat>) -> Poly {
    // descending order: leading monomial first
    m.into_iter().rev().filter(|(_, c)| !c.is_zero()).map(|(k, c)| (k.0, c)).collect()
}
fn padd(a: &Poly, b: &Poly) -> Poly {
    let mut r = Vec::with_capacity(a.len() + b.len());
    let (mut i, mut j) = (0, 0);
    while i < a.len() || j < b.len() {
        let o = if i >= a.len() {
            Ordering::Less
        } else if j >= b.len() {
            Ordering::Greater
        } else {
            mono_cmp(&a[i].0, &b[j].0)
        };
        match o {
            Ordering::Greater => {
                r.push(a[i].clone());
                i += 1
            }
            Ordering::Less => {
                r.push(b[j].clone());
                j += 1
            }
            Ordering::Equal => {
                let c = a[i].1.add(&b[j].1);
                if !c.is_zero() {
                    r.push((a[i].0.clone(), c));
                }
                i += 1;
                j += 1;
            }
        }
    }
    r
}
fn pscale(a: &Poly, k: &Rat) -> Poly {
    if k.is_zero() {
        return vec![];
    }
    a.iter().map(|(m, c)| (m.clone(), c.mul(k))).collect()
}
fn pmul(a: &Poly, b: &Poly) -> Option<Poly> {
    if a.len().saturating_mul(b.len()) > 40 * CAP {
        return None;
    }
    let mut acc: BTreeMap<MK, Rat> = BTreeMap::new();
    for (ma, ca) in a {
        for (mb, cb) in b {
            let m = mono_mul(ma, mb);
            let c = ca.mul(cb);
            match acc.entry(MK(m)) {
                std::collections::btree_map::Entry::Vacant(e) => {
                    e.insert(c);
                }
                std::collections::btree_map::Entry::Occupied(mut e) => {
                    let s = e.get().add(&c);
                    *e.get_mut() = s;
                }
            }
        }
    }
    Some(acc_to_poly(acc))
}
/// exact division of polynomials with non-negative exponents
fn pdiv_exact(a: &Poly, b: &Poly) -> Option<Poly> {
    if b.is_empty() {
        return None;
    }
    if a.iter().chain(b.iter()).any(|(m, _)| m.iter().any(|x| x.1 < 0)) {
        return None;
    }
    if a.len() * b.len() > 20000 {
        return None;
    }
    let mut r = a.clone();
    let mut q: Poly = vec![];
    let (lm, lc) = &b[0];
    let mut steps = 0;
    while !r.is_empty() {
        steps += 1;
        if steps > 400 {
            return None;
        }
        let (rm, rc) = r[0].clone();
        let inv: Mono = lm.iter().map(|x| (x.0, -x.1)).collect::<Vec<_>>().into();
        let m = mono_mul(&rm, &inv);
        if m.iter().any(|x| x.1 < 0) {
            return None;
        }
        let c = rc.div(lc);
        let sub = pmul(&vec![(m.clone(), c.neg())], b)?;
        r = padd(&r, &sub);
        q.push((m, c));
    }
    // q was produced in descending order
    Some(q)
}
pub fn radd(a: T, b: T) -> T {
    let (pa, pb) = (to_poly(a), to_poly(b));
    if pa.len() + pb.len() > CAP {
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        return mk(Op::BigAdd, Sort::Real, &[a, b]);
    }
    let s = padd(&pa, &pb);
    from_poly(cancel_neg(s))
}
pub fn rneg(a: T) -> T {
    from_poly(pscale(&to_poly(a), &Rat::int(-1)))
}
pub fn rsub(a: T, b: T) -> T {
    radd(a, rneg(b))
}
pub fn rmul(a: T, b: T) -> T {
    let (pa, pb) = (to_poly(a), to_poly(b));
    match pmul(&pa, &pb) {
        Some(p) if p.len() <= CAP => from_poly(cancel_neg(p)),
        _ => {
            let (a, b) = if a < b { (a, b) } else { (b, a) };
            mk(Op::BigMul, Sort::Real, &[a, b])
        }
    }
}
/// If every monomial carries the same multi-term base to a negative power, try to divide it out.
fn cancel_neg(p: Poly) -> Poly {
    if p.is_empty() {
        return p;
    }
    let mut p = p;
    'outer: loop {
        let first: Vec<T> = p[0].0.iter().filter(|x| x.1 < 0 && matches!(node(x.0).op, Op::Poly(_))).map(|x| x.0).collect();
        for b in first {
            if p.iter().all(|(m, _)| m.iter().any(|x| x.0 == b && x.1 < 0)) {
                let num = match pmul(&p, &vec![(Rc::from(vec![(b, 1)]), Rat::one())]) {
                    Some(n) => n,
                    None => continue,
                };
                // multiply by b (as a base) raises the exponent by one; then num must be divisible by b's expansion
                let bp = to_poly(b);
                // pull out remaining negative powers
                let (core, neg) = split_common_neg(&num);
                if let Some(q) = pdiv_exact(&core, &bp) {
                    p = pmul(&q, &vec![(neg, Rat::one())]).unwrap();
                    if p.is_empty() {
                        return p;
                    }
                    continue 'outer;
                }
            }
        }
        return p;
    }
}
/// factor out the common negative powers so the rest may be non-negative
fn split_common_neg(p: &Poly) -> (Poly, Mono) {
    let mut mins: BTreeMap<T, i32> = BTreeMap::new();
    for (m, _) in p {
        for x in m.iter() {
            if x.1 < 0 {
                let e = mins.entry(x.0).or_insert(0);
                *e = (*e).min(x.1);
            }
        }
    }
    let neg: Mono = mins.iter().map(|(k, v)| (*k, *v)).collect::<Vec<_>>().into();
    let pos: Mono = mins.iter().map(|(k, v)| (*k, -*v)).collect::<Vec<_>>().into();
    let core = pmul(p, &vec![(pos, Rat::one())]).unwrap();
    (core, neg)
}
/// a / b; caller guarantees b != 0 on the path
pub fn rdiv(a: T, b: T) -> T {
    if let Some(k) = as_realc(b) {
        return from_poly(pscale(&to_poly(a), &k.inv()));
    }
    let pa = to_poly(a);
    let pb = to_poly(b);
    if pa.is_empty() {
        return a;
    }
    if pb.len() == 1 {
        // monomial
        let (m, c) = &pb[0];
        let inv: Mono = m.iter().map(|x| (x.0, -x.1)).collect::<Vec<_>>().into();
        let p = pmul(&pa, &vec![(inv, c.inv())]).unwrap();
        return from_poly(cancel_neg(p));
    }
    // clear negative exponents of the divisor: a/b = (a*M)/(b*M)
    let (pb, neg) = split_common_neg(&pb);
    let pa = if neg.is_empty() {
        pa
    } else {
        let pos: Mono = neg.iter().map(|x| (x.0, -x.1)).collect::<Vec<_>>().into();
        match pmul(&pa, &vec![(pos, Rat::one())]) {
            Some(p) => cancel_pos(p),
            None => pa,
        }
    };
    let pb = cancel_pos(pb);
    if pb.len() == 1 && pb[0].0.is_empty() {
        return from_poly(pscale(&pa, &pb[0].1.inv()));
    }
    if let Some(q) = pdiv_exact(&pa, &pb) {
        return from_poly(q);
    }
    if pa.len() > 1 {
        if let Some(q) = pdiv_exact(&pb, &pa) {
            // 1/q
            return rdiv(realc(Rat::one()), from_poly(q));
        }
    }
    // make the divisor monic
    let lc = pb[0].1.clone();
    let bm = from_poly(pscale(&pb, &lc.inv()));
    if as_realc(bm).is_some() {
        return from_poly(pscale(&pa, &lc.inv()));
    }
    let inv: Poly = vec![(Rc::from(vec![(bm, -1)]), lc.inv())];
    match pmul(&pa, &inv) {
        Some(p) => from_poly(cancel_neg(p)),
        None => mk(Op::BigMul, Sort::Real, &[a, from_poly(inv)]),
    }
}
/// expand positive powers of multi-term bases
fn cancel_pos(p: Poly) -> Poly {
    if !p.iter().any(|(m, _)| m.iter().any(|x| x.1 > 0 && matches!(node(x.0).op, Op::Poly(_)))) {
        return p;
    }
    let mut acc: Poly = vec![];
    for (m, c) in &p {
        let mut cur: Poly = vec![(m.iter().filter(|x| !(x.1 > 0 && matches!(node(x.0).op, Op::Poly(_)))).cloned().collect::<Vec<_>>().into(), c.clone())];
        for x in m.iter().filter(|x| x.1 > 0 && matches!(node(x.0).op, Op::Poly(_))) {
            let b = to_poly(x.0);
            for _ in 0..x.1 {
                cur = match pmul(&cur, &b) {
                    Some(c) => c,
                    None => return p,
                };
            }
        }
        acc = padd(&acc, &cur);
    }
    cancel_pos(acc)
}
pub fn uf(name: &'static str, args: &[T]) -> T {
    let s = st();
    if !s.uf_names.contains(&name) {
        s.uf_names.push(name);
    }
    mk(Op::Uf(name), Sort::Real, args)
}
pub fn rof(t: T, signed: bool) -> T {
    if let Some(k) = as_bvc(t) {
        let w = width(t);
        let v = if signed { sx(k, w) } else { k as i128 };
        return realc(Rat::new(crate::big::Big::from_i(v), crate::big::Big::from_i(1)));
    }
    mk(if signed { Op::RofS } else { Op::RofU }, Sort::Real, &[t])
}
/// Canonical comparison of a real term with zero.
pub fn cmp0(op: Op, t: T) -> T {
    if let Some(k) = as_realc(t) {
        let s = k.sign();
        return boolc(match op {
            Op::Eq0 => s == 0,
            Op::Lt0 => s < 0,
            _ => s <= 0,
        });
    }
    let mut p = to_poly(t);
    // clear denominators (path condition guarantees they are non-zero)
    let (_, neg) = split_common_neg(&p);
    if !neg.is_empty() {
        let f: Mono = neg.iter().map(|x| (x.0, if op == Op::Eq0 { -x.1 } else { -x.1 + (x.1.rem_euclid(2)) })).collect::<Vec<_>>().into();
        if let Some(q) = pmul(&p, &vec![(f, Rat::one())]) {
            let q = cancel_pos(q);
            if q.len() <= 20 * CAP && !q.iter().any(|(m, _)| m.iter().any(|x| matches!(node(x.0).op, Op::Poly(_)))) {
                p = q;
                if p.is_empty() {
                    return boolc(op != Op::Lt0);
                }
            }
        }
    }
    // drop a common monomial factor? sign-unknown, so only for even powers / equality we keep as is
    let lc = p[0].1.clone();
    let k = if op == Op::Eq0 || lc.sign() > 0 { lc.inv() } else { lc.inv().neg() };
    let p = pscale(&p, &k);
    if p.len() == 1 && p[0].0.is_empty() {
        return cmp0(op, realc(p[0].1.clone()));
    }
    // x^2k style trivialities
    let nonneg = |m: &Mono| m.iter().all(|x| x.1 % 2 == 0);
    if p.iter().all(|(m, c)| c.sign() > 0 && nonneg(m)) {
        // p >= 0 always; > 0 if it has a positive constant
        let has_const = p.iter().any(|(m, _)| m.is_empty());
        match op {
            Op::Lt0 => return FALSE,
            Op::Le0 | Op::Eq0 if has_const => return FALSE,
            _ => {}
        }
    }
    if op == Op::Lt0 || op == Op::Le0 {
        if p.iter().all(|(m, c)| c.sign() < 0 && nonneg(m)) {
            let has_const = p.iter().any(|(m, _)| m.is_empty());
            if op == Op::Le0 || has_const {
                return TRUE;
            }
        }
    }
    let t = from_poly(p);
    // sign of ite over constants
    let n = node(t);
    if n.op == Op::Ite && (as_realc(n.args[1]).is_some() || as_realc(n.args[2]).is_some()) {
        return ite(n.args[0], cmp0(op.clone(), n.args[1]), cmp0(op, n.args[2]));
    }
    mk(op, Sort::Bool, &[t])
}
pub fn req(a: T, b: T) -> T {
    if a == b {
        return TRUE;
    }
    cmp0(Op::Eq0, rsub(a, b))
}
pub fn rlt(a: T, b: T) -> T {
    if a == b {
        return FALSE;
    }
    cmp0(Op::Lt0, rsub(a, b))
}
pub fn rle(a: T, b: T) -> T {
    if a == b {
        return TRUE;
    }
    cmp0(Op::Le0, rsub(a, b))
}

// ---------- evaluation ----------
#[derive(Clone, PartialEq, Debug)]
pub enum Cv {
    B(bool),
    V(u128),
    R(Rat),
}
#[derive(Clone, Default, Debug)]
pub struct Model {
    pub vals: HashMap<u32, Cv>,
    pub uf: HashMap<(&'static str, Vec<Rat>), Rat>,
    /// model contains only exact values (no algebraic approximations)
    pub exact: bool,
}
pub struct Ev<'a> {
    pub m: &'a Model,
    memo: HashMap<T, Option<Cv>>,
}
impl<'a> Ev<'a> {
    pub fn new(m: &'a Model) -> Self {
        Ev { m, memo: HashMap::new() }
    }
    pub fn b(&mut self, t: T) -> Option<bool> {
        match self.ev(t)? {
            Cv::B(b) => Some(b),
            _ => None,
        }
    }
    fn v(&mut self, t: T) -> Option<u128> {
        match self.ev(t)? {
            Cv::V(b) => Some(b),
            Cv::B(b) => Some(b as u128),
            _ => None,
        }
    }
    pub fn r(&mut self, t: T) -> Option<Rat> {
        match self.ev(t)? {
            Cv::R(b) => Some(b),
            _ => None,
        }
    }
    pub fn ev(&mut self, t: T) -> Option<Cv> {
        let n = node(t);
        match &n.op {
            Op::True => return Some(Cv::B(true)),
            Op::False => return Some(Cv::B(false)),
            Op::BvC(v) => return Some(Cv::V(*v)),
            Op::RealC(r) => return Some(Cv::R(r.clone())),
            Op::Var(v) => {
                return Some(match self.m.vals.get(v) {
                    Some(x) => x.clone(),
                    None => match n.sort {
                        Sort::Bool => Cv::B(false),
                        Sort::Bv(_) => Cv::V(0),
                        Sort::Real => Cv::R(Rat::zero()),
                    },
                })
            }
            _ => {}
        }
        if let Some(x) = self.memo.get(&t) {
            return x.clone();
        }
        let r = self.ev1(t, n);
        self.memo.insert(t, r.clone());
        r
    }
    fn ev1(&mut self, t: T, n: &'static Node) -> Option<Cv> {
        let w = width(t);
        let a = &n.args;
        Some(match &n.op {
            Op::Not => Cv::B(!self.b(a[0])?),
            Op::And => {
                for &x in a.iter() {
                    if !self.b(x)? {
                        return Some(Cv::B(false));
                    }
                }
                Cv::B(true)
            }
            Op::Or => {
                for &x in a.iter() {
                    if self.b(x)? {
                        return Some(Cv::B(true));
                    }
                }
                Cv::B(false)
            }
            Op::Eq => Cv::B(self.v(a[0])? == self.v(a[1])?),
            Op::Ite => {
                if self.b(a[0])? {
                    return self.ev(a[1]);
                } else {
                    return self.ev(a[2]);
                }
            }
            Op::BAdd | Op::BMul | Op::BUDiv | Op::BURem | Op::BSDiv | Op::BSRem | Op::BAnd | Op::BOr | Op::BXor | Op::BShl | Op::BLshr | Op::BAshr => {
                Cv::V(fold_bin(&n.op, self.v(a[0])?, self.v(a[1])?, w)?)
            }
            Op::Concat => Cv::V((self.v(a[0])? << width(a[1])) | self.v(a[1])?),
            Op::Extract(h, l) => Cv::V((self.v(a[0])? >> l) & mask((h - l + 1) as u32)),
            Op::ZExt => Cv::V(self.v(a[0])?),
            Op::SExt => Cv::V(sx(self.v(a[0])?, width(a[0])) as u128 & mask(w)),
            Op::Ult => Cv::B(self.v(a[0])? < self.v(a[1])?),
            Op::Ule => Cv::B(self.v(a[0])? <= self.v(a[1])?),
            Op::Slt => Cv::B(sx(self.v(a[0])?, width(a[0])) < sx(self.v(a[1])?, width(a[1]))),
            Op::Sle => Cv::B(sx(self.v(a[0])?, width(a[0])) <= sx(self.v(a[1])?, width(a[1]))),
            Op::RBits => return None,
            Op::Poly(p) => {
                let mut s = Rat::zero();
                for (m, c) in p {
                    let mut x = c.clone();
                    for &(b, e) in m.iter() {
                        let v = self.r(b)?;
                        if e >= 0 {
                            x = x.mul(&v.powi(e as u32));
                        } else {
                            if v.is_zero() {
                                return None;
                            }
                            x = x.mul(&v.inv().powi((-e) as u32));
                        }
                    }
                    s = s.add(&x);
                }
                Cv::R(s)
            }
            Op::BigAdd => Cv::R(self.r(a[0])?.add(&self.r(a[1])?)),
            Op::BigMul => Cv::R(self.r(a[0])?.mul(&self.r(a[1])?)),
            Op::Uf(name) => {
                let mut v = vec![];
                for &x in a.iter() {
                    v.push(self.r(x)?);
                }
                if *name == "sqrt" {
                    if let Some(r) = v[0].exact_sqrt() {
                        return Some(Cv::R(r));
                    }
                }
                Cv::R(self.m.uf.get(&(*name, v))?.clone())
            }
            Op::RofU => Cv::R(Rat::new(crate::big::Big::from_i(self.v(a[0])? as i128), crate::big::Big::from_i(1))),
            Op::RofS => Cv::R(Rat::new(crate::big::Big::from_i(sx(self.v(a[0])?, width(a[0]))), crate::big::Big::from_i(1))),
            Op::Eq0 => Cv::B(self.r(a[0])?.sign() == 0),
            Op::Lt0 => Cv::B(self.r(a[0])?.sign() < 0),
            Op::Le0 => Cv::B(self.r(a[0])?.sign() <= 0),
            _ => return None,
        })
    }
}

/// Truth table of a boolean term over its single small variable: (var, table)
pub fn table(t: T) -> Option<(u32, [u64; 4])> {
    let s = st();
    let u = s.uni[t as usize];
    if u == 0 || u == u32::MAX {
        return None;
    }
    let v = u - 1;
    let w = match s.vars[v as usize].sort {
        Sort::Bool => 1,
        Sort::Bv(w) if w <= 8 => w as u32,
        _ => return None,
    };
    if let Some(x) = s.tables.get(&t) {
        return Some((v, *x));
    }
    let mut tab = [0u64; 4];
    for i in 0..(1u32 << w) {
        let mut m = Model::default();
        m.vals.insert(v, if s.vars[v as usize].sort == Sort::Bool { Cv::B(i != 0) } else { Cv::V(i as u128) });
        let r = Ev::new(&m).b(t)?;
        if r {
            tab[(i / 64) as usize] |= 1 << (i % 64);
        }
    }
    st().tables.insert(t, tab);
    Some((v, tab))
}
/// Values of a bv term for each value of its single small variable.
pub fn small_values(t: T) -> Option<(u32, Vec<u128>)> {
    let s = st();
    let u = s.uni[t as usize];
    if u == 0 || u == u32::MAX {
        return None;
    }
    let v = u - 1;
    let w = match s.vars[v as usize].sort {
        Sort::Bool => 1,
        Sort::Bv(w) if w <= 8 => w as u32,
        _ => return None,
    };
    let mut out = vec![];
    for i in 0..(1u32 << w) {
        let mut m = Model::default();
        m.vals.insert(v, if s.vars[v as usize].sort == Sort::Bool { Cv::B(i != 0) } else { Cv::V(i as u128) });
        match Ev::new(&m).ev(t)? {
            Cv::V(x) => out.push(x),
            Cv::B(b) => out.push(b as u128),
            _ => return None,
        }
    }
    Some((v, out))
}
/// Variables a term depends on (sorted).
pub fn support(t: T) -> Rc<Vec<u32>> {
    if let Some(x) = st().sup.get(&t) {
        return x.clone();
    }
    let n = node(t);
    let mut v: Vec<u32> = vec![];
    if let Op::Var(i) = n.op {
        v.push(i);
    }
    for &a in n.args.iter() {
        v.extend(support(a).iter());
    }
    if let Op::Poly(p) = &n.op {
        for (m, _) in p {
            for &(b, _) in m.iter() {
                v.extend(support(b).iter());
            }
        }
    }
    // uninterpreted functions link everything that uses the same function
    if let Op::Uf(name) = n.op {
        let i = st().uf_names.iter().position(|x| *x == name).unwrap() as u32;
        v.push(0x8000_0000 | i);
    }
    v.sort();
    v.dedup();
    let r = Rc::new(v);
    st().sup.insert(t, r.clone());
    r
}

// ---------- SMT-LIB ----------
pub struct Emit {
    pub out: String,
    pub vars: Vec<u32>,
    pub ufs: Vec<(&'static str, usize)>,
    pub uf_apps: Vec<T>,
    pub rbits: bool,
    done: HashMap<T, String>,
    seen_var: std::collections::HashSet<u32>,
}
fn sort_smt(s: Sort) -> String {
    match s {
        Sort::Bool => "Bool".into(),
        Sort::Real => "Real".into(),
        Sort::Bv(w) => format!("(_ BitVec {})", w),
    }
}
impl Emit {
    pub fn new() -> Emit {
        Emit { out: String::new(), vars: vec![], ufs: vec![], uf_apps: vec![], rbits: false, done: HashMap::new(), seen_var: Default::default() }
    }
    pub fn assert(&mut self, t: T) {
        let e = self.e(t);
        self.out.push_str(&format!("(assert {})\n", e));
    }
    pub fn e(&mut self, t: T) -> String {
        if let Some(s) = self.done.get(&t) {
            return s.clone();
        }
        let n = node(t);
        let s = match &n.op {
            Op::True => return "true".into(),
            Op::False => return "false".into(),
            Op::BvC(v) => return format!("(_ bv{} {})", v, width(t)),
            Op::RealC(r) => return r.smt(),
            Op::Var(v) => {
                if self.seen_var.insert(*v) {
                    self.vars.push(*v);
                    self.out.push_str(&format!("(declare-fun v{} () {})\n", v, sort_smt(n.sort)));
                }
                let s = format!("v{}", v);
                self.done.insert(t, s.clone());
                return s;
            }
            _ => {
                let a: Vec<String> = n.args.iter().map(|&x| self.e(x)).collect();
                let ap = |o: &str| format!("({} {})", o, a.join(" "));
                match &n.op {
                    Op::Not => ap("not"),
                    Op::And => ap("and"),
                    Op::Or => ap("or"),
                    Op::Eq => ap("="),
                    Op::Ite => ap("ite"),
                    Op::BAdd => ap("bvadd"),
                    Op::BMul => ap("bvmul"),
                    Op::BUDiv => ap("bvudiv"),
                    Op::BURem => ap("bvurem"),
                    Op::BSDiv => ap("bvsdiv"),
                    Op::BSRem => ap("bvsrem"),
                    Op::BAnd => ap("bvand"),
                    Op::BOr => ap("bvor"),
                    Op::BXor => ap("bvxor"),
                    Op::BShl => ap("bvshl"),
                    Op::BLshr => ap("bvlshr"),
                    Op::BAshr => ap("bvashr"),
                    Op::Concat => ap("concat"),
                    Op::Extract(h, l) => ap(&format!("(_ extract {} {})", h, l)),
                    Op::ZExt => ap(&format!("(_ zero_extend {})", width(t) - width(n.args[0]))),
                    Op::SExt => ap(&format!("(_ sign_extend {})", width(t) - width(n.args[0]))),
                    Op::Ult => ap("bvult"),
                    Op::Ule => ap("bvule"),
                    Op::Slt => ap("bvslt"),
                    Op::Sle => ap("bvsle"),
                    Op::RBits => {
                        if !self.rbits {
                            self.rbits = true;
                            self.out.push_str("(declare-fun rbits (Real) (_ BitVec 64))\n");
                        }
                        ap("rbits")
                    }
                    Op::Uf(name) => {
                        if !self.ufs.iter().any(|x| x.0 == *name) {
                            self.ufs.push((name, n.args.len()));
                            self.out.push_str(&format!("(declare-fun uf_{} ({}) Real)\n", name, vec!["Real"; n.args.len()].join(" ")));
                        }
                        self.uf_apps.push(t);
                        ap(&format!("uf_{}", name))
                    }
                    Op::RofU => format!("(to_real (bv2nat {}))", a[0]),
                    Op::RofS => {
                        let w = width(n.args[0]);
                        format!("(to_real (ite (bvslt {x} (_ bv0 {w})) (- (bv2nat {x}) {m}) (bv2nat {x})))", x = a[0], w = w, m = 1u128 << w)
                    }
                    Op::BigAdd => ap("+"),
                    Op::BigMul => ap("*"),
                    Op::Eq0 => format!("(= {} 0.0)", a[0]),
                    Op::Lt0 => format!("(< {} 0.0)", a[0]),
                    Op::Le0 => format!("(<= {} 0.0)", a[0]),
                    Op::Poly(p) => {
                        let mut ts = vec![];
                        for (m, c) in p {
                            let mut fs = vec![];
                            let mut ds = vec![];
                            for &(b, e) in m.iter() {
                                let s = self.e(b);
                                for _ in 0..e.unsigned_abs() {
                                    if e > 0 {
                                        fs.push(s.clone())
                                    } else {
                                        ds.push(s.clone())
                                    }
                                }
                            }
                            if !c.is_one() || fs.is_empty() {
                                fs.insert(0, c.smt());
                            }
                            let num = if fs.len() == 1 { fs[0].clone() } else { format!("(* {})", fs.join(" ")) };
                            ts.push(if ds.is_empty() {
                                num
                            } else if ds.len() == 1 {
                                format!("(/ {} {})", num, ds[0])
                            } else {
                                format!("(/ {} (* {}))", num, ds.join(" "))
                            });
                        }
                        if ts.len() == 1 {
                            ts.pop().unwrap()
                        } else {
                            format!("(+ {})", ts.join(" "))
                        }
                    }
                    _ => unreachable!(),
                }
            }
        };
        let name = format!("t{}", t);
        self.out.push_str(&format!("(define-fun {} () {} {})\n", name, sort_smt(n.sort), s));
        self.done.insert(t, name.clone());
        name
    }
}
/// compact human-readable rendering (for evidence samples)
pub fn show(t: T) -> String {
    let mut budget = 60usize;
    show1(t, &mut budget)
}
fn show1(t: T, budget: &mut usize) -> String {
    if *budget == 0 {
        return "…".into();
    }
    *budget -= 1;
    let n = node(t);
    match &n.op {
        Op::True => "true".into(),
        Op::False => "false".into(),
        Op::BvC(v) => format!("{}", v),
        Op::RealC(r) => match r.exact_f64() {
            Some(f) => format!("{}", f),
            None => r.to_string(),
        },
        Op::Var(v) => st().vars[*v as usize].name.clone(),
        Op::Poly(p) => {
            let mut s = vec![];
            for (m, c) in p.iter().take(8) {
                let mut f = vec![];
                if !c.is_one() || m.is_empty() {
                    f.push(match c.exact_f64() {
                        Some(f) => format!("{}", f),
                        None => c.to_string(),
                    });
                }
                for &(b, e) in m.iter() {
                    let x = show1(b, budget);
                    f.push(if e == 1 { x } else { format!("{}^{}", x, e) });
                }
                s.push(f.join("*"));
            }
            if p.len() > 8 {
                s.push(format!("…{} terms", p.len()));
            }
            format!("({})", s.join(" + "))
        }
        Op::Eq0 => format!("{} = 0", show1(n.args[0], budget)),
        Op::Lt0 => format!("{} < 0", show1(n.args[0], budget)),
        Op::Le0 => format!("{} <= 0", show1(n.args[0], budget)),
        o => format!("{:?}({})", o, n.args.iter().map(|&x| show1(x, budget)).collect::<Vec<_>>().join(", ")),
    }
}
