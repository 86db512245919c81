//! SMT back end: long-lived solver processes driven over pipes, self-contained queries.
use crate::big::{Big, Rat};
use crate::term::*;
use std::collections::HashMap;
use std::io::{Read, Write};
use std::os::unix::io::AsRawFd;
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::time::Instant;

#[derive(Clone, Debug)]
pub enum Res {
    Sat(Model),
    Unsat,
    Unknown,
}
extern "C" {
    fn poll(fds: *mut PollFd, n: u64, timeout: i32) -> i32;
}
#[repr(C)]
struct PollFd {
    fd: i32,
    events: i16,
    revents: i16,
}
struct Proc {
    child: Child,
    inp: ChildStdin,
    out: ChildStdout,
    buf: Vec<u8>,
}
impl Proc {
    fn start(cmd: &[&str]) -> Proc {
        let mut child = Command::new(cmd[0])
            .args(&cmd[1..])
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .unwrap_or_else(|e| panic!("cannot start {}: {}", cmd[0], e));
        let inp = child.stdin.take().unwrap();
        let out = child.stdout.take().unwrap();
        Proc { child, inp, out, buf: vec![] }
    }
    fn send(&mut self, s: &str) -> bool {
        self.inp.write_all(s.as_bytes()).and_then(|_| self.inp.flush()).is_ok()
    }
    /// read until a line consisting of `marker`
    fn read_to(&mut self, marker: &str, ms: u64) -> Option<String> {
        let t0 = Instant::now();
        let pat = format!("{}\n", marker);
        loop {
            if let Some(k) = find(&self.buf, pat.as_bytes()) {
                let s = String::from_utf8_lossy(&self.buf[..k]).to_string();
                self.buf.drain(..k + pat.len());
                return Some(s);
            }
            let left = ms as i64 - t0.elapsed().as_millis() as i64;
            if left <= 0 {
                return None;
            }
            let mut p = PollFd { fd: self.out.as_raw_fd(), events: 1, revents: 0 };
            let r = unsafe { poll(&mut p, 1, left.min(1000) as i32) };
            if r > 0 {
                let mut b = [0u8; 65536];
                match self.out.read(&mut b) {
                    Ok(0) | Err(_) => return None,
                    Ok(n) => self.buf.extend_from_slice(&b[..n]),
                }
            }
        }
    }
    fn kill(mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}
fn find(h: &[u8], n: &[u8]) -> Option<usize> {
    h.windows(n.len()).position(|w| w == n)
}

#[derive(Default, Clone, Debug)]
pub struct SolverStats {
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub cache_hits: u64,
    pub time_s: f64,
    pub max_s: f64,
}
pub struct Solver {
    z3: Option<Proc>,
    pid: u32,
    pub timeout_ms: u64,
    pub stats: SolverStats,
    cache: HashMap<Vec<T>, Res>,
    pub errors: Vec<String>,
    pub dump: Option<String>,
    pub transcripts: Vec<String>,
    pub guessed: u64,
    rng: u64,
}
impl Solver {
    pub fn new() -> Solver {
        Solver { z3: None, pid: 0, timeout_ms: 10_000, stats: Default::default(), cache: HashMap::new(), errors: vec![], dump: std::env::var("SX_DUMP").ok(), transcripts: vec![], guessed: 0, rng: 1 }
    }
    /// Is the conjunction satisfiable?  Asserts are conjoined.
    pub fn check(&mut self, asserts: &[T], timeout_ms: u64) -> Res {
        let mut key: Vec<T> = asserts.to_vec();
        key.sort();
        key.dedup();
        key.retain(|&t| t != TRUE);
        if key.contains(&FALSE) {
            return Res::Unsat;
        }
        if key.is_empty() {
            return Res::Sat(Model { exact: true, ..Default::default() });
        }
        if let Some(r) = self.cache.get(&key) {
            self.stats.cache_hits += 1;
            return r.clone();
        }
        let asked = key.clone();
        // what defines the square roots that occur
        let mut seen = std::collections::HashSet::new();
        let mut i = 0;
        while i < key.len() {
            let (mut a, mut b, mut c) = (false, false, false);
            let mut ufs: Vec<T> = vec![];
            scan(key[i], &mut seen, &mut a, &mut b, &mut c, &mut ufs);
            for u in ufs {
                if node(u).op == Op::Uf("sqrt") {
                    key.push(cmp0(Op::Le0, rneg(u)));
                    key.push(req(rmul(u, u), node(u).args[0]));
                }
            }
            i += 1;
        }
        let t0 = Instant::now();
        let (mut real, mut bv, mut nonlin) = (false, false, false);
        let mut seen = std::collections::HashSet::new();
        let mut ufs: Vec<T> = vec![];
        for &t in &key {
            scan(t, &mut seen, &mut real, &mut bv, &mut nonlin, &mut ufs);
        }
        let easy = real && nonlin && ufs.is_empty();
        let mut r = Res::Unknown;
        if easy {
            r = self.guess(&key, 16);
        }
        if matches!(r, Res::Unknown) {
            r = self.query(&key, timeout_ms);
        }
        if easy && matches!(r, Res::Unknown) {
            r = self.guess(&key, 400);
        }
        let dt = t0.elapsed().as_secs_f64();
        self.stats.queries += 1;
        self.stats.time_s += dt;
        if dt > self.stats.max_s {
            self.stats.max_s = dt;
        }
        match &r {
            Res::Sat(_) => self.stats.sat += 1,
            Res::Unsat => self.stats.unsat += 1,
            Res::Unknown => self.stats.unknown += 1,
        }
        if self.cache.len() > 200_000 {
            self.cache.clear();
        }
        self.cache.insert(asked, r.clone());
        r
    }
    /// A satisfying assignment among small random values, confirmed by evaluation.
    fn guess(&mut self, key: &[T], tries: u32) -> Res {
        let mut vs: Vec<u32> = vec![];
        for &t in key {
            vs.extend(support(t).iter());
        }
        vs.sort();
        vs.dedup();
        for k in 0..tries {
            let mut m = Model { exact: true, ..Default::default() };
            for &v in &vs {
                self.rng = self.rng.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                let z = (self.rng >> 33) as u128;
                let c = match var_sort(v) {
                    Sort::Bool => Cv::B(z & 1 == 1),
                    Sort::Bv(w) => Cv::V(z & mask(w as u32)),
                    Sort::Real => {
                        let span = if k % 3 == 0 { 7 } else { 19 };
                        let n = (z % span) as i128 - (span as i128) / 2;
                        if k % 4 == 3 {
                            Cv::R(Rat::new(Big::from_i(n), Big::from_i(2)))
                        } else {
                            Cv::R(Rat::int(n as i64))
                        }
                    }
                };
                m.vals.insert(v, c);
            }
            let mut ev = Ev::new(&m);
            if key.iter().all(|&t| ev.b(t) == Some(true)) {
                self.guessed += 1;
                return Res::Sat(m);
            }
        }
        Res::Unknown
    }
    pub fn stop(&mut self) {
        if self.pid == std::process::id() {
            if let Some(p) = self.z3.take() {
                p.kill();
            }
        }
    }
    fn proc_(&mut self) -> &mut Proc {
        let me = std::process::id();
        if self.pid != me {
            // after a fork the parent's pipes must not be shared
            if let Some(p) = self.z3.take() {
                std::mem::forget(p);
            }
            self.pid = me;
        }
        self.z3.get_or_insert_with(|| Proc::start(&["z3-new", "-in", "-smt2"]))
    }
    fn query(&mut self, key: &[T], timeout_ms: u64) -> Res {
        let mut e = Emit::new();
        // pick a logic
        let mut real = false;
        let mut bv = false;
        let mut nonlin = false;
        let mut seen = std::collections::HashSet::new();
        let mut ufs: Vec<T> = vec![];
        for &t in key {
            scan(t, &mut seen, &mut real, &mut bv, &mut nonlin, &mut ufs);
        }
        let mut pre = String::from("(reset)\n(set-option :print-success false)\n");
        pre.push_str(&format!("(set-option :timeout {})\n", timeout_ms));
        let _ = (real, bv, nonlin);
        if ufs.is_empty() {
            if real && !bv && nonlin {
                pre.push_str("(set-logic QF_NRA)\n");
            } else if real && !bv {
                pre.push_str("(set-logic QF_LRA)\n");
            } else if bv && !real {
                pre.push_str("(set-logic QF_BV)\n");
            }
        }
        for &t in key {
            e.assert(t);
        }
        // declared bitpattern function is only seen together with reals; leave logic unset in that case
        if e.rbits {
            pre = pre.replace("(set-logic QF_BV)\n", "").replace("(set-logic QF_NRA)\n", "").replace("(set-logic QF_LRA)\n", "");
        }
        let q = format!("{}{}(check-sat)\n(echo \"DONE\")\n", pre, e.out);
        if let Some(d) = &self.dump {
            let n = self.stats.queries;
            let _ = std::fs::write(format!("{}/q{}_{}.smt2", d, std::process::id(), n), &q);
        }
        let p = self.proc_();
        let mut ans = None;
        if p.send(&q) {
            ans = p.read_to("DONE", timeout_ms * 2 + 3000);
        }
        let ans = match ans {
            Some(a) => a,
            None => {
                if let Some(p) = self.z3.take() {
                    p.kill();
                }
                return Res::Unknown;
            }
        };
        if ans.contains("(error") {
            if self.errors.len() < 5 {
                self.errors.push(format!("{} :: {}", ans.trim(), q.chars().take(2000).collect::<String>()));
            }
            return Res::Unknown;
        }
        let a = ans.trim();
        if self.transcripts.len() < 6 && (a == "unsat" || a == "sat") && e.out.len() < 6000 {
            self.transcripts.push(format!("{}; => {}", q, a));
        }
        if a == "unsat" {
            return Res::Unsat;
        }
        if a != "sat" {
            return Res::Unknown;
        }
        // model
        let mut want: Vec<(String, Want)> = vec![];
        for &v in &e.vars {
            want.push((format!("v{}", v), Want::Var(v)));
        }
        for &u in &e.uf_apps.clone() {
            let n = node(u);
            let ex = e.e(u);
            want.push((ex, Want::UfRes(u)));
            for (i, &a) in n.args.iter().enumerate() {
                let ex = e.e(a);
                want.push((ex, Want::UfArg(u, i)));
            }
        }
        let mut m = Model { exact: true, ..Default::default() };
        if want.is_empty() {
            return Res::Sat(m);
        }
        let g = format!("(get-value ({}))\n(echo \"DONE\")\n", want.iter().map(|x| x.0.clone()).collect::<Vec<_>>().join(" "));
        let p = self.proc_();
        let mut txt = String::new();
        if p.send(&g) {
            txt = p.read_to("DONE", 10_000).unwrap_or_default();
        }
        if txt.contains("root-obj") {
            m.exact = false;
            let g2 = format!("(set-option :pp.decimal true)\n(set-option :pp.decimal_precision 24)\n{}", g.replace("(echo", "(set-option :pp.decimal false)\n(echo"));
            let p = self.proc_();
            if p.send(&g2) {
                txt = p.read_to("DONE", 10_000).unwrap_or_default();
            }
        }
        let sx = match parse_sexp(&txt) {
            Some(s) => s,
            None => {
                m.exact = false;
                return Res::Sat(m);
            }
        };
        let items = match sx {
            Sx::L(v) => v,
            _ => vec![],
        };
        let mut args: HashMap<T, Vec<Option<Rat>>> = HashMap::new();
        let mut ress: HashMap<T, Rat> = HashMap::new();
        for (k, it) in items.iter().enumerate() {
            if k >= want.len() {
                break;
            }
            let val = match it {
                Sx::L(v) if v.len() == 2 => &v[1],
                _ => continue,
            };
            match &want[k].1 {
                Want::Var(v) => match st().vars[*v as usize].sort {
                    Sort::Bool => {
                        m.vals.insert(*v, Cv::B(matches!(val, Sx::A(a) if a == "true")));
                    }
                    Sort::Bv(_) => {
                        if let Some(x) = bv_val(val) {
                            m.vals.insert(*v, Cv::V(x));
                        }
                    }
                    Sort::Real => match real_val(val) {
                        Some((r, ex)) => {
                            if !ex {
                                m.exact = false;
                            }
                            m.vals.insert(*v, Cv::R(r));
                        }
                        None => m.exact = false,
                    },
                },
                Want::UfRes(u) => {
                    if let Some((r, ex)) = real_val(val) {
                        if !ex {
                            m.exact = false;
                        }
                        ress.insert(*u, r);
                    }
                }
                Want::UfArg(u, i) => {
                    let n = node(*u).args.len();
                    let a = args.entry(*u).or_insert_with(|| vec![None; n]);
                    if let Some((r, _)) = real_val(val) {
                        a[*i] = Some(r);
                    }
                }
            }
        }
        for (u, a) in args {
            if let (Op::Uf(name), Some(r)) = (&node(u).op, ress.get(&u)) {
                if a.iter().all(|x| x.is_some()) {
                    m.uf.insert((*name, a.into_iter().map(|x| x.unwrap()).collect()), r.clone());
                }
            }
        }
        Res::Sat(m)
    }
}
enum Want {
    Var(u32),
    UfRes(T),
    UfArg(T, usize),
}
fn scan(t: T, seen: &mut std::collections::HashSet<T>, real: &mut bool, bv: &mut bool, nonlin: &mut bool, ufs: &mut Vec<T>) {
    if !seen.insert(t) {
        return;
    }
    let n = node(t);
    match n.sort {
        Sort::Real => *real = true,
        Sort::Bv(_) => *bv = true,
        _ => {}
    }
    match &n.op {
        Op::Uf(_) => ufs.push(t),
        Op::BigMul => *nonlin = true,
        Op::RofS | Op::RofU => *bv = true,
        Op::Poly(p) => {
            for (m, _) in p {
                if m.len() > 1 || (m.len() == 1 && m[0].1 != 1) {
                    *nonlin = true;
                }
                for &(b, _) in m.iter() {
                    scan(b, seen, real, bv, nonlin, ufs);
                }
            }
        }
        _ => {}
    }
    for &a in n.args.iter() {
        scan(a, seen, real, bv, nonlin, ufs);
    }
}
#[derive(Debug)]
enum Sx {
    A(String),
    L(Vec<Sx>),
}
fn parse_sexp(s: &str) -> Option<Sx> {
    let b = s.as_bytes();
    let mut i = 0;
    let mut stack: Vec<Vec<Sx>> = vec![];
    while i < b.len() {
        match b[i] {
            b'(' => {
                stack.push(vec![]);
                i += 1;
            }
            b')' => {
                let l = Sx::L(stack.pop()?);
                i += 1;
                match stack.last_mut() {
                    Some(t) => t.push(l),
                    None => return Some(l),
                }
            }
            c if c.is_ascii_whitespace() => i += 1,
            _ => {
                let st = i;
                while i < b.len() && !b[i].is_ascii_whitespace() && b[i] != b'(' && b[i] != b')' {
                    i += 1;
                }
                if let Some(t) = stack.last_mut() {
                    t.push(Sx::A(s[st..i].to_string()));
                }
            }
        }
    }
    None
}
fn bv_val(s: &Sx) -> Option<u128> {
    match s {
        Sx::A(a) => {
            if let Some(h) = a.strip_prefix("#x") {
                u128::from_str_radix(h, 16).ok()
            } else if let Some(h) = a.strip_prefix("#b") {
                u128::from_str_radix(h, 2).ok()
            } else {
                None
            }
        }
        _ => None,
    }
}
fn real_val(s: &Sx) -> Option<(Rat, bool)> {
    match s {
        Sx::A(a) => {
            let (a, ex) = match a.strip_suffix('?') {
                Some(x) => (x, false),
                None => (a.as_str(), true),
            };
            match a.find('.') {
                None => Some((Rat::new(Big::parse(a)?, Big::from_i(1)), ex)),
                Some(k) => {
                    let frac = &a[k + 1..];
                    let n = Big::parse(&format!("{}{}", &a[..k], frac))?;
                    let mut d = Big::from_i(1);
                    for _ in 0..frac.len() {
                        d = d.mul(&Big::from_i(10));
                    }
                    Some((Rat::new(n, d), ex))
                }
            }
        }
        Sx::L(v) => match (v.first()?, v.len()) {
            (Sx::A(o), 2) if o == "-" => {
                let (r, e) = real_val(&v[1])?;
                Some((r.neg(), e))
            }
            (Sx::A(o), 3) if o == "/" => {
                let (a, e1) = real_val(&v[1])?;
                let (b, e2) = real_val(&v[2])?;
                if b.is_zero() {
                    return None;
                }
                Some((a.div(&b), e1 && e2))
            }
            _ => None,
        },
    }
}
