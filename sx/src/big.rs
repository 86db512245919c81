//! Arbitrary-precision integers and rationals (std only).
use std::cmp::Ordering;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Big {
    neg: bool,
    m: Vec<u32>, // little endian, no trailing zeros; zero = empty, neg=false
}

fn trim(m: &mut Vec<u32>) {
    while let Some(&0) = m.last() {
        m.pop();
    }
}
fn cmp_mag(a: &[u32], b: &[u32]) -> Ordering {
    if a.len() != b.len() {
        return a.len().cmp(&b.len());
    }
    for i in (0..a.len()).rev() {
        if a[i] != b[i] {
            return a[i].cmp(&b[i]);
        }
    }
    Ordering::Equal
}
fn add_mag(a: &[u32], b: &[u32]) -> Vec<u32> {
    let (a, b) = if a.len() >= b.len() { (a, b) } else { (b, a) };
    let mut r = Vec::with_capacity(a.len() + 1);
    let mut c = 0u64;
    for i in 0..a.len() {
        let s = a[i] as u64 + *b.get(i).unwrap_or(&0) as u64 + c;
        r.push(s as u32);
        c = s >> 32;
    }
    if c != 0 {
        r.push(c as u32);
    }
    r
}
fn sub_mag(a: &[u32], b: &[u32]) -> Vec<u32> {
    let mut r = Vec::with_capacity(a.len());
    let mut br = 0i64;
    for i in 0..a.len() {
        let mut s = a[i] as i64 - *b.get(i).unwrap_or(&0) as i64 - br;
        if s < 0 {
            s += 1 << 32;
            br = 1;
        } else {
            br = 0;
        }
        r.push(s as u32);
    }
    trim(&mut r);
    r
}
fn mul_mag(a: &[u32], b: &[u32]) -> Vec<u32> {
    if a.is_empty() || b.is_empty() {
        return vec![];
    }
    let mut r = vec![0u32; a.len() + b.len()];
    for i in 0..a.len() {
        let mut c = 0u64;
        for j in 0..b.len() {
            let t = a[i] as u64 * b[j] as u64 + r[i + j] as u64 + c;
            r[i + j] = t as u32;
            c = t >> 32;
        }
        let mut k = i + b.len();
        while c != 0 {
            let t = r[k] as u64 + c;
            r[k] = t as u32;
            c = t >> 32;
            k += 1;
        }
    }
    trim(&mut r);
    r
}
fn shl_mag(a: &[u32], n: usize) -> Vec<u32> {
    if a.is_empty() {
        return vec![];
    }
    let w = n / 32;
    let b = n % 32;
    let mut r = vec![0u32; w];
    if b == 0 {
        r.extend_from_slice(a);
    } else {
        let mut c = 0u32;
        for &x in a {
            r.push((x << b) | c);
            c = x >> (32 - b);
        }
        if c != 0 {
            r.push(c);
        }
    }
    r
}
fn shr_mag(a: &[u32], n: usize) -> Vec<u32> {
    let w = n / 32;
    let b = n % 32;
    if w >= a.len() {
        return vec![];
    }
    let mut r = Vec::new();
    for i in w..a.len() {
        let lo = a[i] >> b;
        let hi = if b > 0 && i + 1 < a.len() { a[i + 1] << (32 - b) } else { 0 };
        r.push(lo | hi);
    }
    trim(&mut r);
    r
}
fn bits_mag(a: &[u32]) -> usize {
    match a.last() {
        None => 0,
        Some(x) => a.len() * 32 - x.leading_zeros() as usize,
    }
}
fn divrem_mag(a: &[u32], b: &[u32]) -> (Vec<u32>, Vec<u32>) {
    assert!(!b.is_empty());
    if cmp_mag(a, b) == Ordering::Less {
        return (vec![], a.to_vec());
    }
    if b.len() == 1 {
        let d = b[0] as u64;
        let mut q = vec![0u32; a.len()];
        let mut r = 0u64;
        for i in (0..a.len()).rev() {
            let cur = (r << 32) | a[i] as u64;
            q[i] = (cur / d) as u32;
            r = cur % d;
        }
        trim(&mut q);
        let mut rr = vec![r as u32];
        trim(&mut rr);
        return (q, rr);
    }
    // Knuth D
    let s = b.last().unwrap().leading_zeros() as usize;
    let v = shl_mag(b, s);
    let mut u = shl_mag(a, s);
    if u.len() == a.len() {
        u.push(0);
    }
    let n = v.len();
    let m = u.len() - n;
    let mut q = vec![0u32; m];
    for j in (0..m).rev() {
        let num = ((u[j + n] as u64) << 32) | u[j + n - 1] as u64;
        let mut qh = num / v[n - 1] as u64;
        let mut rh = num % v[n - 1] as u64;
        while qh >= 1 << 32 || qh * v[n - 2] as u64 > ((rh << 32) | u[j + n - 2] as u64) {
            qh -= 1;
            rh += v[n - 1] as u64;
            if rh >= 1 << 32 {
                break;
            }
        }
        let mut borrow = 0i64;
        let mut carry = 0u64;
        for i in 0..n {
            let p = qh * v[i] as u64 + carry;
            carry = p >> 32;
            let t = u[i + j] as i64 - borrow - (p & 0xffff_ffff) as i64;
            u[i + j] = t as u32;
            borrow = if t < 0 { 1 } else { 0 };
        }
        let t = u[j + n] as i64 - borrow - carry as i64;
        u[j + n] = t as u32;
        if t < 0 {
            qh -= 1;
            let mut c = 0u64;
            for i in 0..n {
                let t = u[i + j] as u64 + v[i] as u64 + c;
                u[i + j] = t as u32;
                c = t >> 32;
            }
            u[j + n] = (u[j + n] as u64 + c) as u32;
        }
        q[j] = qh as u32;
    }
    trim(&mut q);
    u.truncate(n);
    trim(&mut u);
    (q, shr_mag(&u, s))
}

impl Big {
    pub fn zero() -> Big {
        Big { neg: false, m: vec![] }
    }
    pub fn from_i(v: i128) -> Big {
        let mut u = v.unsigned_abs();
        let mut m = vec![];
        while u != 0 {
            m.push(u as u32);
            u >>= 32;
        }
        Big { neg: v < 0, m }
    }
    pub fn is_zero(&self) -> bool {
        self.m.is_empty()
    }
    pub fn is_neg(&self) -> bool {
        self.neg
    }
    pub fn is_one(&self) -> bool {
        !self.neg && self.m.len() == 1 && self.m[0] == 1
    }
    fn mk(neg: bool, m: Vec<u32>) -> Big {
        let neg = neg && !m.is_empty();
        Big { neg, m }
    }
    pub fn neg(&self) -> Big {
        Big::mk(!self.neg, self.m.clone())
    }
    pub fn abs(&self) -> Big {
        Big::mk(false, self.m.clone())
    }
    pub fn add(&self, o: &Big) -> Big {
        if self.neg == o.neg {
            Big::mk(self.neg, add_mag(&self.m, &o.m))
        } else {
            match cmp_mag(&self.m, &o.m) {
                Ordering::Equal => Big::zero(),
                Ordering::Greater => Big::mk(self.neg, sub_mag(&self.m, &o.m)),
                Ordering::Less => Big::mk(o.neg, sub_mag(&o.m, &self.m)),
            }
        }
    }
    pub fn sub(&self, o: &Big) -> Big {
        self.add(&o.neg())
    }
    pub fn mul(&self, o: &Big) -> Big {
        Big::mk(self.neg != o.neg, mul_mag(&self.m, &o.m))
    }
    pub fn divrem(&self, o: &Big) -> (Big, Big) {
        let (q, r) = divrem_mag(&self.m, &o.m);
        (Big::mk(self.neg != o.neg, q), Big::mk(self.neg, r))
    }
    pub fn shl(&self, n: usize) -> Big {
        Big::mk(self.neg, shl_mag(&self.m, n))
    }
    pub fn shr(&self, n: usize) -> Big {
        Big::mk(self.neg, shr_mag(&self.m, n))
    }
    pub fn bits(&self) -> usize {
        bits_mag(&self.m)
    }
    pub fn trailing_zeros(&self) -> usize {
        let mut n = 0;
        for &x in &self.m {
            if x == 0 {
                n += 32
            } else {
                return n + x.trailing_zeros() as usize;
            }
        }
        n
    }
    pub fn gcd(&self, o: &Big) -> Big {
        let mut a = self.abs();
        let mut b = o.abs();
        while !b.is_zero() {
            if let (Some(x), Some(y)) = (a.to_u64(), b.to_u64()) {
                let (mut x, mut y) = (x, y);
                while y != 0 {
                    let t = x % y;
                    x = y;
                    y = t;
                }
                return Big::from_i(x as i128);
            }
            let (_, r) = a.divrem(&b);
            a = b;
            b = r;
        }
        a
    }
    pub fn to_u64(&self) -> Option<u64> {
        if self.neg || self.m.len() > 2 {
            return None;
        }
        Some(*self.m.first().unwrap_or(&0) as u64 | (*self.m.get(1).unwrap_or(&0) as u64) << 32)
    }
    pub fn to_i64(&self) -> Option<i64> {
        if self.m.len() > 2 {
            return None;
        }
        let v = Big::mk(false, self.m.clone()).to_u64()? as i128;
        let v = if self.neg { -v } else { v };
        i64::try_from(v).ok()
    }
    pub fn parse(s: &str) -> Option<Big> {
        let (neg, d) = match s.strip_prefix('-') {
            Some(r) => (true, r),
            None => (false, s),
        };
        if d.is_empty() {
            return None;
        }
        let mut m: Vec<u32> = vec![];
        for c in d.bytes() {
            if !c.is_ascii_digit() {
                return None;
            }
            let mut carry = (c - b'0') as u64;
            for x in m.iter_mut() {
                let t = *x as u64 * 10 + carry;
                *x = t as u32;
                carry = t >> 32;
            }
            if carry > 0 {
                m.push(carry as u32);
            }
        }
        Some(Big::mk(neg, m))
    }
    pub fn cmp(&self, o: &Big) -> Ordering {
        match (self.neg, o.neg) {
            (true, false) => Ordering::Less,
            (false, true) => Ordering::Greater,
            (false, false) => cmp_mag(&self.m, &o.m),
            (true, true) => cmp_mag(&o.m, &self.m),
        }
    }
    pub fn to_string(&self) -> String {
        if self.m.is_empty() {
            return "0".into();
        }
        let mut parts = vec![];
        let mut a = self.m.clone();
        while !a.is_empty() {
            let mut r = 0u64;
            for i in (0..a.len()).rev() {
                let cur = (r << 32) | a[i] as u64;
                a[i] = (cur / 1_000_000_000) as u32;
                r = cur % 1_000_000_000;
            }
            trim(&mut a);
            parts.push(r);
        }
        let mut s = String::new();
        if self.neg {
            s.push('-');
        }
        s.push_str(&parts.pop().unwrap().to_string());
        while let Some(p) = parts.pop() {
            s.push_str(&format!("{:09}", p));
        }
        s
    }
}

/// Rational, normalised: den > 0, gcd = 1.
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Rat {
    pub n: Big,
    pub d: Big,
}
impl Rat {
    pub fn new(n: Big, d: Big) -> Rat {
        assert!(!d.is_zero());
        let (n, d) = if d.neg { (n.neg(), d.neg()) } else { (n, d) };
        if d.is_one() {
            return Rat { n, d };
        }
        let g = n.gcd(&d);
        if g.is_one() {
            Rat { n, d }
        } else {
            Rat { n: n.divrem(&g).0, d: d.divrem(&g).0 }
        }
    }
    pub fn int(v: i64) -> Rat {
        Rat { n: Big::from_i(v as i128), d: Big::from_i(1) }
    }
    pub fn zero() -> Rat {
        Rat::int(0)
    }
    pub fn one() -> Rat {
        Rat::int(1)
    }
    pub fn is_zero(&self) -> bool {
        self.n.is_zero()
    }
    pub fn is_one(&self) -> bool {
        self.n.is_one() && self.d.is_one()
    }
    pub fn is_int(&self) -> bool {
        self.d.is_one()
    }
    pub fn sign(&self) -> i32 {
        if self.n.is_zero() {
            0
        } else if self.n.neg {
            -1
        } else {
            1
        }
    }
    pub fn add(&self, o: &Rat) -> Rat {
        if self.d == o.d {
            if self.d.is_one() {
                return Rat { n: self.n.add(&o.n), d: self.d.clone() };
            }
            return Rat::new(self.n.add(&o.n), self.d.clone());
        }
        Rat::new(self.n.mul(&o.d).add(&o.n.mul(&self.d)), self.d.mul(&o.d))
    }
    pub fn neg(&self) -> Rat {
        Rat { n: self.n.neg(), d: self.d.clone() }
    }
    pub fn sub(&self, o: &Rat) -> Rat {
        self.add(&o.neg())
    }
    pub fn mul(&self, o: &Rat) -> Rat {
        Rat::new(self.n.mul(&o.n), self.d.mul(&o.d))
    }
    pub fn div(&self, o: &Rat) -> Rat {
        Rat::new(self.n.mul(&o.d), self.d.mul(&o.n))
    }
    pub fn inv(&self) -> Rat {
        Rat::new(self.d.clone(), self.n.clone())
    }
    pub fn powi(&self, k: u32) -> Rat {
        let mut r = Rat::one();
        for _ in 0..k {
            r = r.mul(self);
        }
        r
    }
    pub fn cmp(&self, o: &Rat) -> Ordering {
        if self.d == o.d {
            return self.n.cmp(&o.n);
        }
        self.n.mul(&o.d).cmp(&o.n.mul(&self.d))
    }
    pub fn from_f64(f: f64) -> Rat {
        assert!(f.is_finite());
        let b = f.to_bits();
        let neg = b >> 63 != 0;
        let e = ((b >> 52) & 0x7ff) as i64;
        let mut m = b & ((1 << 52) - 1);
        let ex;
        if e == 0 {
            ex = -1074;
        } else {
            m |= 1 << 52;
            ex = e - 1075;
        }
        if m == 0 {
            return Rat::zero();
        }
        let tz = m.trailing_zeros() as i64;
        let m = m >> tz;
        let ex = ex + tz;
        let mut n = Big::from_i(m as i128);
        if neg {
            n = n.neg();
        }
        if ex >= 0 {
            Rat { n: n.shl(ex as usize), d: Big::from_i(1) }
        } else {
            Rat { n, d: Big::from_i(1).shl((-ex) as usize) }
        }
    }
    /// Round to nearest even f64.
    pub fn to_f64(&self) -> f64 {
        if self.n.is_zero() {
            return 0.0;
        }
        let neg = self.n.neg;
        let a = self.n.abs();
        let nb = a.bits() as i64;
        let db = self.d.bits() as i64;
        // want quotient with >= 66 bits
        let shift = 66 - (nb - db);
        let (num, den) = if shift >= 0 { (a.shl(shift as usize), self.d.clone()) } else { (a, self.d.shl((-shift) as usize)) };
        let (q, r) = num.divrem(&den);
        let mut sticky = !r.is_zero();
        let qb = q.bits() as i64;
        // value = q * 2^-shift ; exponent of msb:
        let e = qb - 1 - shift;
        if e > 1023 {
            return if neg { f64::NEG_INFINITY } else { f64::INFINITY };
        }
        let prec = if e >= -1022 { 53 } else { 53 - (-1022 - e) };
        if prec < 0 {
            return if neg { -0.0 } else { 0.0 };
        }
        let drop = qb - prec;
        let top = q.shr(drop as usize);
        let rem = q.sub(&top.shl(drop as usize));
        let half = Big::from_i(1).shl((drop - 1) as usize);
        sticky = sticky || false;
        let up = match rem.cmp(&half) {
            Ordering::Greater => true,
            Ordering::Less => false,
            Ordering::Equal => sticky || top.to_u64().unwrap() & 1 == 1,
        };
        let mut m = top.to_u64().unwrap();
        if up {
            m += 1;
        }
        // value = m * 2^(e - prec + 1)
        let ex = e - prec + 1;
        let v = ldexp(m as f64, ex as i32);
        if neg {
            -v
        } else {
            v
        }
    }
    /// The rational square root, if there is one and it is small.
    pub fn exact_sqrt(&self) -> Option<Rat> {
        let root = |b: &Big| -> Option<Big> {
            if b.bits() > 100 {
                return None;
            }
            let f = Rat { n: b.clone(), d: Big::from_i(1) }.to_f64().sqrt().round();
            let r = Big::from_i(f as i128);
            if r.mul(&r) == *b { Some(r) } else { None }
        };
        if self.sign() < 0 {
            return None;
        }
        Some(Rat::new(root(&self.n)?, root(&self.d)?))
    }
    pub fn exact_f64(&self) -> Option<f64> {
        // quick rejects
        if self.d.bits() > 1076 || self.n.bits() > 1100 {
            return None;
        }
        if self.d.trailing_zeros() + 1 != self.d.bits() {
            return None;
        }
        let f = self.to_f64();
        if !f.is_finite() {
            return None;
        }
        if Rat::from_f64(f) == *self {
            Some(f)
        } else {
            None
        }
    }
    pub fn smt(&self) -> String {
        let a = self.n.abs().to_string();
        let s = if self.d.is_one() { format!("{}.0", a) } else { format!("(/ {}.0 {}.0)", a, self.d.to_string()) };
        if self.n.neg {
            format!("(- {})", s)
        } else {
            s
        }
    }
    pub fn to_string(&self) -> String {
        if self.d.is_one() {
            self.n.to_string()
        } else {
            format!("{}/{}", self.n.to_string(), self.d.to_string())
        }
    }
}
pub fn ldexp(m: f64, e: i32) -> f64 {
    let mut v = m;
    let mut e = e;
    while e > 1000 {
        v *= 2f64.powi(1000);
        e -= 1000;
    }
    // m is an integer < 2^54 already rounded to the target precision, so scaling is exact
    while e < -1000 {
        v *= 2f64.powi(-1000);
        e += 1000;
    }
    v * 2f64.powi(e)
}

#[cfg(test)]
mod tests {
    use super::*;
    #[test]
    fn t() {
        for f in [0.1, 1.0, -3.5, 1e300, 1e-300, 5e-324, 2.2250738585072011e-308, f64::MAX, 1.0 / 3.0] {
            assert_eq!(Rat::from_f64(f).to_f64(), f);
            assert_eq!(Rat::from_f64(f).exact_f64(), Some(f));
        }
        let third = Rat::new(Big::from_i(1), Big::from_i(3));
        assert_eq!(third.to_f64(), 1.0 / 3.0);
        assert_eq!(third.exact_f64(), None);
        let t = Rat::new(Big::from_i(-2), Big::from_i(30));
        assert_eq!(t.to_f64(), -2.0 / 30.0);
        let a = Big::parse("123456789012345678901234567890123456789").unwrap();
        let b = Big::parse("98765432109876543210987").unwrap();
        let (q, r) = a.divrem(&b);
        assert_eq!(q.mul(&b).add(&r), a);
        assert_eq!(a.to_string(), "123456789012345678901234567890123456789");
    }
}
