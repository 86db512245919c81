//! The symbolic executor proper.
use crate::big::Rat;
use crate::ir::*;
use crate::mem::*;
use crate::solver::*;
use crate::term::*;
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone)]
pub struct Frame {
    pub func: Rc<Func>,
    pub blk: u32,
    pub pc: u32,
    pub regs: Vec<Val>,
    pub stack: u32,
}
#[derive(Clone)]
pub struct State {
    pub frames: Vec<Frame>,
    pub mem: Mem,
    pub pc: Vec<T>,
    pub dom: HashMap<u32, [u64; 4]>,
    pub multi: Rc<std::collections::HashSet<u32>>,
    pub model: Option<Rc<Model>>,
    pub nvars: u32,
    pub inputs: Vec<(u8, T)>,
    pub pending: Option<T>,
    pub exc: u64,
    pub steps: u64,
    pub forks: u32,
    pub undecided: bool,
    pub specialised: bool,
    pub next_tls: u64,
    pub reached: Vec<u32>,
    pub checks: u32,
    pub trace: Vec<u32>,
    /// values tried in a row by `concretize`
    pub conc: u32,
}
pub enum Stop {
    End,
    Kill(&'static str),
    Viol(&'static str, u32, String),
}
type R<A> = Result<A, Stop>;

#[derive(Clone, Debug)]
pub struct Violation {
    pub kind: String,
    pub id: u32,
    pub msg: String,
    pub inputs: Vec<Vec<String>>,
    pub place: String,
}
#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub paths: u64,
    pub killed: BTreeMap<String, u64>,
    pub forks: u64,
    pub steps: u64,
    pub checks_folded: u64,
    pub checks_solver: u64,
    pub checks_undecided: u64,
    pub checks_violated: u64,
    pub branch_queries: u64,
    pub undecided_branches: u64,
    pub specialised_paths: u64,
    pub unexplored: u64,
    pub reached: BTreeMap<u32, u64>,
    pub max_depth: u64,
    pub check_ids: BTreeMap<u32, [u64; 4]>,
    pub sample_conds: Vec<String>,
}
#[derive(Clone)]
pub struct Cfg {
    pub max_steps: u64,
    pub branch_ms: u64,
    pub check_ms: u64,
    pub deadline: Instant,
    pub max_viol: usize,
}
pub struct X {
    pub m: Module,
    pub im: Images,
    pub sol: Solver,
    pub work: Vec<State>,
    pub st: Stats,
    pub cfg: Cfg,
    pub viol: Vec<Violation>,
    exts: Vec<Ext>,
    pub unsupported: BTreeMap<String, u64>,
    /// completed paths to be re-run natively: inputs, number of checks, reach ids
    pub samples: Vec<(Vec<String>, u32, Vec<u32>)>,
    pub max_samples: usize,
    /// called at every fork; may hand part of the worklist to another process
    pub trace_calls: bool,
    fmt_write: Option<u32>,
}

macro_rules! exts {
    ($($id:ident = $name:expr),* $(,)?) => {
        #[derive(Clone, Copy, PartialEq, Debug)]
        #[allow(non_camel_case_types)]
        enum Ext { None, Unknown, $($id),* }
        fn ext_of(n: &str) -> Ext { match n { $($name => Ext::$id,)* _ => Ext::Unknown } }
    };
}
exts! {
    SxF64 = "sx_f64", SxBits = "sx_bits", SxBool = "sx_bool", SxChoose = "sx_choose", SxAssume = "sx_assume",
    SxCheck = "sx_check", SxReach = "sx_reach", SxEq = "sx_eq", SxNear = "sx_near", SxSymbolic = "sx_symbolic", SxConc = "sx_concretize",
    SxLive = "sx_live", SxTrace = "sx_trace", SxEnd = "sx_end", SxSame = "sx_same",
    Malloc = "malloc", Calloc = "calloc", Realloc = "realloc", Free = "free", PosixMemalign = "posix_memalign", AlignedAlloc = "aligned_alloc",
    Memcmp = "memcmp", Bcmp = "bcmp", Strlen = "strlen", Memcpy = "memcpy", Memmove = "memmove", Memset = "memset", Memchr="memchr",
    Raise = "_Unwind_RaiseException", DelExc = "_Unwind_DeleteException", Backtrace = "_Unwind_Backtrace", GetIp = "_Unwind_GetIP",
    Abort = "abort", Trap = "llvm.trap", Getrandom = "getrandom", Getenv = "getenv", Syscall = "syscall", Gettid = "gettid",
    Write = "write", Writev = "writev", Errno = "__errno_location", TlsDtor = "__cxa_thread_atexit_impl",
    PkCreate = "pthread_key_create", PkDelete = "pthread_key_delete", PkSet = "pthread_setspecific", PkGet = "pthread_getspecific",
    PthreadSelf = "pthread_self", Sysconf = "sysconf", Open = "open64", SchedAff = "sched_getaffinity", Getauxval = "getauxval", Xgetbv = "llvm.x86.xgetbv", Pause = "llvm.x86.sse2.pause",
    TlAddr = "llvm.threadlocal.address.p0", IsConst = "llvm.is.constant.i1",
    PshufbSse = "llvm.x86.ssse3.pshuf.b.128", PshufbAvx = "llvm.x86.avx2.pshuf.b",
    Sin = "sin", Cos = "cos", Tan = "tan", Asin = "asin", Acos = "acos", Atan = "atan", Atan2="atan2", Sinh = "sinh", Cosh = "cosh", Tanh = "tanh",
    Exp = "exp", Log = "log", Log2="log2", Log10 = "log10", Pow = "pow", Sqrt = "sqrt", Cbrt = "cbrt", Fmod = "fmod", Hypot="hypot",
    LSin = "llvm.sin.f64", LCos = "llvm.cos.f64", LTan = "llvm.tan.f64", LAsin = "llvm.asin.f64", LAcos = "llvm.acos.f64", LAtan = "llvm.atan.f64",
    LSinh = "llvm.sinh.f64", LCosh = "llvm.cosh.f64", LTanh = "llvm.tanh.f64",
    LExp = "llvm.exp.f64", LLog = "llvm.log.f64", LLog2="llvm.log2.f64", LLog10 = "llvm.log10.f64", LPow = "llvm.pow.f64", LPowi = "llvm.powi.f64.i32", LSqrt = "llvm.sqrt.f64",
    Fabs = "llvm.fabs.f64", Round = "llvm.round.f64", Floor = "llvm.floor.f64", Ceil = "llvm.ceil.f64", Trunc = "llvm.trunc.f64", Rint="llvm.roundeven.f64",
    Fpclass = "llvm.is.fpclass.f64", Minnum = "llvm.minnum.f64", Maxnum = "llvm.maxnum.f64", Minimumnum="llvm.minimumnum.f64", Maximumnum="llvm.maximumnum.f64", Copysign = "llvm.copysign.f64", Fma = "llvm.fma.f64", Fmuladd="llvm.fmuladd.f64",
    Nop0 = "llvm.prefetch.p0", Nop1 = "llvm.stackrestore.p0",
}

const TWO_SUM_MAX: f64 = 1e290;

fn low128(n: u32) -> u128 {
    mask(n)
}
fn tw(v: &Val, w: u32) -> T {
    match v {
        Val::I(x) => {
            if w == 1 {
                boolc(*x & 1 == 1)
            } else {
                bvc(*x as u128, w)
            }
        }
        Val::W(x) => bvc(**x, w),
        Val::S(t) => match sort(*t) {
            Sort::Real => rbits(*t),
            Sort::Bool if w != 1 => b2bv(*t, w),
            _ => *t,
        },
        Val::U => {
            if w == 1 {
                FALSE
            } else {
                bvc(0, w)
            }
        }
        Val::A(_) => panic!("aggregate as scalar"),
    }
}
fn conc(v: &Val) -> Option<u64> {
    match v {
        Val::I(x) => Some(*x),
        Val::U => Some(0),
        Val::W(x) => Some(**x as u64),
        Val::S(_) | Val::A(_) => None,
    }
}
fn tb(v: &Val) -> T {
    tw(v, 1)
}
/// real view of a double
enum F {
    C(f64),
    S(T),
}
fn fview(v: &Val) -> Option<F> {
    match v {
        Val::I(x) => Some(F::C(f64::from_bits(*x))),
        Val::U => Some(F::C(0.0)),
        Val::S(t) => match sort(*t) {
            Sort::Real => Some(F::S(*t)),
            _ => match &node(*t).op {
                Op::RBits => Some(F::S(node(*t).args[0])),
                _ => None,
            },
        },
        _ => None,
    }
}
fn ft(f: &F) -> T {
    match f {
        F::C(c) => realc(Rat::from_f64(*c)),
        F::S(t) => *t,
    }
}
fn fv(f: f64) -> Val {
    Val::I(f.to_bits())
}
fn rv(t: T) -> Val {
    if let Some(r) = as_realc(t) {
        if let Some(f) = r.exact_f64() {
            return fv(f);
        }
        if r.n.bits() + r.d.bits() > 1500 {
            return fv(r.to_f64());
        }
    }
    Val::S(t)
}

impl State {
    pub fn new() -> State {
        State {
            frames: vec![],
            mem: Mem::new(),
            pc: vec![],
            dom: HashMap::new(),
            multi: Rc::new(Default::default()),
            model: Some(Rc::new(Model { exact: true, ..Default::default() })),
            nvars: 0,
            inputs: vec![],
            pending: None,
            exc: 0,
            steps: 0,
            forks: 0,
            undecided: false,
            specialised: false,
            next_tls: 1,
            reached: vec![],
            checks: 0,
            trace: vec![],
            conc: 0,
        }
    }
    fn implied(&self, c: T) -> Option<bool> {
        if c == TRUE {
            return Some(true);
        }
        if c == FALSE {
            return Some(false);
        }
        let n = not(c);
        for &p in self.pc.iter().rev() {
            if p == c {
                return Some(true);
            }
            if p == n {
                return Some(false);
            }
        }
        None
    }
    fn add_pc(&mut self, c: T) {
        if c == TRUE {
            return;
        }
        let n = node(c);
        if n.op == Op::And {
            for &a in n.args.iter() {
                self.add_pc(a);
            }
            return;
        }
        if self.pc.contains(&c) {
            return;
        }
        self.pc.push(c);
        if let Some((v, t)) = table(c) {
            let d = self.dom.entry(v).or_insert([u64::MAX; 4]);
            for i in 0..4 {
                d[i] &= t[i];
            }
        } else {
            let sup = support(c);
            let m = Rc::make_mut(&mut self.multi);
            for &v in sup.iter() {
                m.insert(v);
            }
        }
    }
    /// the part of the path condition connected with the given terms
    fn slice(&self, ts: &[T]) -> Vec<T> {
        let mut vars: std::collections::HashSet<u32> = Default::default();
        for &t in ts {
            vars.extend(support(t).iter());
        }
        let mut used = vec![false; self.pc.len()];
        let mut out = vec![];
        loop {
            let mut ch = false;
            for (i, &p) in self.pc.iter().enumerate() {
                if !used[i] {
                    let s = support(p);
                    if s.iter().any(|v| vars.contains(v)) {
                        used[i] = true;
                        vars.extend(s.iter());
                        out.push(p);
                        ch = true;
                    }
                }
            }
            if !ch {
                return out;
            }
        }
    }
    fn where_(&self) -> String {
        let mut v = vec![];
        for f in self.frames.iter().rev() {
            let n = demangle(f.func.name);
            v.push(n);
            if v.len() >= 6 {
                break;
            }
        }
        v.join(" < ")
    }
}
fn sl_or(a: Vec<T>, b: &[T]) -> Vec<T> {
    let mut a = a;
    a.extend_from_slice(b);
    a
}

pub fn demangle(n: &str) -> String {
    // rough v0 demangling: collect the identifiers
    if !n.starts_with("_R") {
        return n.to_string();
    }
    let b = n.as_bytes();
    let mut i = 2;
    let mut out: Vec<String> = vec![];
    while i < b.len() {
        if b[i] == b's' {
            // disambiguator s[base62]_
            let mut j = i + 1;
            while j < b.len() && b[j].is_ascii_alphanumeric() {
                j += 1;
            }
            if j < b.len() && b[j] == b'_' && j - i > 5 {
                i = j + 1;
                continue;
            }
        }
        if b[i].is_ascii_digit() && b[i] != b'0' {
            let mut j = i;
            let mut k = 0usize;
            while j < b.len() && b[j].is_ascii_digit() {
                k = k * 10 + (b[j] - b'0') as usize;
                j += 1;
            }
            if j < b.len() && b[j] == b'_' {
                j += 1;
            }
            if k > 0 && k < 120 && j + k <= b.len() {
                let id = &n[j..j + k];
                if id.bytes().all(|c| c.is_ascii_alphanumeric() || c == b'_') {
                    out.push(id.to_string());
                    i = j + k;
                    continue;
                }
            }
        }
        i += 1;
    }
    out.truncate(8);
    out.join("::")
}

impl X {
    pub fn new(m: Module, cfg: Cfg) -> X {
        let exts = m.fns.iter().map(|f| if f.text.is_some() { if matches!(f.name, "memcmp" | "bcmp" | "strlen" | "memcpy") { ext_of(f.name) } else { Ext::None } } else { ext_of(f.name) }).collect();
        let n = m.globals.len();
        let fmt_write = m.fns.iter().position(|f| f.text.is_some() && f.name.starts_with("_RNv") && f.name.ends_with("4core3fmt5write")).map(|i| i as u32);
        X {
            fmt_write,
            m,
            im: Images { imgs: (0..n).map(|_| None).collect() },
            sol: Solver::new(),
            work: vec![],
            st: Stats::default(),
            cfg,
            viol: vec![],
            exts,
            unsupported: BTreeMap::new(),
            samples: vec![],
            max_samples: 4,
            trace_calls: std::env::var("SX_TRACE").is_ok(),
        }
    }
    /// Forget what was counted so far (a forked worker reports only its own share).
    pub fn reset(&mut self) {
        self.st = Stats::default();
        self.viol.clear();
        self.unsupported.clear();
        self.samples.clear();
        self.sol.stats = Default::default();
        self.sol.errors.clear();
        self.sol.transcripts.clear();
        self.sol.guessed = 0;
        for f in &self.m.fns {
            f.calls.set(0);
        }
    }
    pub fn start(&mut self, entry: &str) -> State {
        let id = *self.m.fn_ids.get(entry).unwrap_or_else(|| panic!("no entry {}", entry));
        let mut s = State::new();
        let f = self.m.func(id);
        self.push_frame(&mut s, f, vec![]);
        s
    }
    fn push_frame(&mut self, s: &mut State, f: Rc<Func>, args: Vec<Val>) {
        let mut regs = vec![Val::U; f.nregs as usize];
        for (i, a) in args.into_iter().enumerate() {
            if i < f.params.len() {
                regs[f.params[i] as usize] = a;
            }
        }
        let c = &self.m.fns[f.id as usize].calls;
        c.set(c.get() + 1);
        if self.trace_calls {
            eprintln!("{:w$}{}", "", demangle(f.name), w = s.frames.len());
        }
        let stack = s.mem.stack.len() as u32;
        s.frames.push(Frame { func: f, blk: 0, pc: 0, regs, stack });
    }

    // ----- solver-backed decisions -----
    fn model_bool(&self, s: &State, c: T) -> Option<bool> {
        let m = s.model.as_ref()?;
        if !m.exact {
            return None;
        }
        Ev::new(m).b(c)
    }
    /// set the model of state s, known to satisfy the conjunction `asserted` (a slice of pc)
    fn merge_model(s: &mut State, m: &Model) {
        match &s.model {
            Some(old) if old.exact && m.exact => {
                let mut n = (**old).clone();
                for (k, v) in &m.vals {
                    n.vals.insert(*k, v.clone());
                }
                // function values from the slice replace the old interpretation of the functions it mentions
                let names: std::collections::HashSet<&'static str> = m.uf.keys().map(|k| k.0).collect();
                n.uf.retain(|k, _| !names.contains(k.0));
                for (k, v) in &m.uf {
                    n.uf.insert(k.clone(), v.clone());
                }
                s.model = Some(Rc::new(n));
            }
            _ => s.model = None,
        }
    }
    /// Decide a branch condition; forks the state when both sides are possible.
    /// Must be called before the instruction has had any effect.
    pub fn branch(&mut self, s: &mut State, c: T) -> R<bool> {
        if Instant::now() > self.cfg.deadline {
            return Err(Stop::Kill("time"));
        }
        if let Some(b) = s.implied(c) {
            return Ok(b);
        }
        // exact decision through the variable's finite domain
        if let Some((v, t)) = table(c) {
            let d = *s.dom.entry(v).or_insert_with(|| full_dom(v));
            let mut y = false;
            let mut n = false;
            for i in 0..4 {
                y |= d[i] & t[i] != 0;
                n |= d[i] & !t[i] != 0;
            }
            if !y || !n {
                return Ok(y);
            }
            if !s.multi.contains(&v) {
                // both sides feasible: pick values directly
                let mut o = s.clone();
                o.add_pc(not(c));
                set_model_val(&mut o, v);
                self.fork(s, o);
                s.add_pc(c);
                set_model_val(s, v);
                return Ok(true);
            }
        }
        let known = self.model_bool(s, c);
        let nc = not(c);
        let sl = s.slice(&[c]);
        let (mut rt, mut rf): (Option<Res>, Option<Res>) = (None, None);
        self.st.branch_queries += 1;
        match known {
            Some(true) => rf = Some(self.sol.check(&sl_or(sl, &[nc]), self.cfg.branch_ms)),
            Some(false) => rt = Some(self.sol.check(&sl_or(sl, &[c]), self.cfg.branch_ms)),
            None => {
                rt = Some(self.sol.check(&sl_or(sl.clone(), &[c]), self.cfg.branch_ms));
                if !matches!(rt, Some(Res::Unsat)) {
                    rf = Some(self.sol.check(&sl_or(sl, &[nc]), self.cfg.branch_ms));
                } else {
                    // only the false side can be feasible
                    return Ok(false);
                }
            }
        }
        let t_ok = !matches!(rt, Some(Res::Unsat));
        let f_ok = !matches!(rf, Some(Res::Unsat));
        if !f_ok {
            return Ok(true);
        }
        if !t_ok {
            return Ok(false);
        }
        let mut o = s.clone();
        o.add_pc(nc);
        match &rf {
            Some(Res::Sat(m)) => X::merge_model(&mut o, m),
            Some(Res::Unknown) => {
                o.undecided = true;
                o.model = None;
                self.st.undecided_branches += 1;
            }
            _ => {}
        }
        s.add_pc(c);
        match &rt {
            Some(Res::Sat(m)) => X::merge_model(s, m),
            Some(Res::Unknown) => {
                s.undecided = true;
                s.model = None;
                self.st.undecided_branches += 1;
            }
            _ => {}
        }
        self.fork(s, o);
        Ok(true)
    }
    fn fork(&mut self, s: &mut State, mut o: State) {
        if Instant::now() > self.cfg.deadline {
            self.st.unexplored += 1;
            return;
        }
        self.st.forks += 1;
        s.forks += 1;
        o.forks += 1;
        self.work.push(o);
    }
    fn ensure_model(&mut self, s: &mut State) -> R<()> {
        if s.model.as_ref().map(|m| m.exact).unwrap_or(false) {
            return Ok(());
        }
        match self.sol.check(&s.pc, self.cfg.branch_ms) {
            Res::Sat(m) => {
                s.model = Some(Rc::new(m));
                Ok(())
            }
            Res::Unsat => Err(Stop::Kill("infeasible")),
            Res::Unknown => {
                s.undecided = true;
                Ok(())
            }
        }
    }
    /// force a bit-vector term to one value on this path (other values go to forks)
    pub fn concretize(&mut self, s: &mut State, v: &Val, w: u32) -> R<u64> {
        if let Some(x) = conc(v) {
            return Ok(x);
        }
        let t = match v {
            Val::S(t) if sort(*t) == Sort::Real => rbits(*t),
            Val::S(t) => *t,
            _ => panic!("concretize aggregate"),
        };
        if sort(t) == Sort::Bool {
            return Ok(self.branch(s, t)? as u64);
        }
        let _ = w;
        loop {
            if Instant::now() > self.cfg.deadline {
                self.st.unexplored += 1;
                return Err(Stop::Kill("time"));
            }
            if contains_rbits(t) {
                return self.specialise(s, t);
            }
            if let Some((v, vals)) = small_values(t) {
                let d = *s.dom.entry(v).or_insert_with(|| full_dom(v));
                let mut cand: Vec<u128> = vec![];
                for (i, x) in vals.iter().enumerate() {
                    if d[i / 64] >> (i % 64) & 1 == 1 && !cand.contains(x) {
                        cand.push(*x);
                    }
                }
                if cand.len() == 1 {
                    return Ok(cand[0] as u64);
                }
                if cand.is_empty() {
                    return Err(Stop::Kill("infeasible"));
                }
            }
            self.ensure_model(s)?;
            let val = match &s.model {
                Some(m) => match Ev::new(m).ev(t) {
                    Some(Cv::V(x)) => x,
                    Some(Cv::B(b)) => b as u128,
                    _ => return Err(Stop::Kill("cannot evaluate a value to concretize")),
                },
                None => return Err(Stop::Kill("no model to concretize with")),
            };
            let c = eq(t, bvc(val, width(t)));
            s.conc += 1;
            if s.conc > 600 {
                return Err(Stop::Kill("concretization limit"));
            }
            if self.branch(s, c)? {
                s.conc = 0;
                return Ok(val as u64);
            }
            // the model value was not feasible after all: try again
        }
    }
    /// A bit pattern of a real is needed: continue with one representative value only.
    fn specialise(&mut self, s: &mut State, t: T) -> R<u64> {
        let mut reals = vec![];
        collect_rbits(t, &mut reals);
        self.ensure_model(s)?;
        let m = match &s.model {
            Some(m) => m.clone(),
            None => return Err(Stop::Kill("no model to specialise with")),
        };
        let mut ev = Ev::new(&m);
        let mut sub: HashMap<T, u128> = HashMap::new();
        let mut conds = vec![];
        for r in reals {
            let v = match ev.r(r) {
                Some(v) => v,
                None => return Err(Stop::Kill("cannot evaluate a real to specialise")),
            };
            conds.push(req(r, realc(v.clone())));
            sub.insert(r, v.to_f64().to_bits() as u128);
        }
        for c in conds {
            if s.implied(c) == Some(false) {
                return Err(Stop::Kill("specialisation conflict"));
            }
            s.add_pc(c);
        }
        s.specialised = true;
        eval_bits(t, &sub, &mut ev).map(|x| x as u64).ok_or(Stop::Kill("cannot evaluate a bit pattern"))
    }
    fn concf(&mut self, s: &mut State, v: &Val) -> R<f64> {
        match v {
            Val::I(x) => Ok(f64::from_bits(*x)),
            Val::U => Ok(0.0),
            Val::S(t) => {
                let t = if sort(*t) == Sort::Real { rbits(*t) } else { *t };
                if let Some(k) = as_bvc(t) {
                    return Ok(f64::from_bits(k as u64));
                }
                let b = self.concretize(s, &Val::S(t), 64)?;
                Ok(f64::from_bits(b))
            }
            _ => panic!("double"),
        }
    }
    fn fview(&mut self, s: &mut State, v: &Val) -> R<F> {
        match fview(v) {
            Some(f) => Ok(f),
            None => Ok(F::C(self.concf(s, v)?)),
        }
    }

    // ----- memory -----
    fn merr(&self, e: MemErr) -> Stop {
        Stop::Viol("memory", 0, e.msg())
    }
    fn addr(&mut self, s: &mut State, v: &Val) -> R<u64> {
        match v {
            Val::I(a) => Ok(*a),
            _ => self.concretize(s, v, 64),
        }
    }
    pub fn load(&mut self, s: &mut State, ty: &Ty, a: u64) -> R<Val> {
        match ty {
            Ty::Struct(..) | Ty::Arr(..) => {
                let n = match ty {
                    Ty::Struct(f, _) => f.len() as u64,
                    Ty::Arr(n, _) => *n,
                    _ => 0,
                };
                let mut v = vec![];
                for i in 0..n {
                    let (o, t) = ty.field(i);
                    v.push(self.load(s, &t, a + o)?);
                }
                return Ok(Val::A(v.into()));
            }
            Ty::Vec(n, t) => {
                if **t == Ty::I(1) {
                    let iv = self.load(s, &Ty::I((*n as u32 + 7) / 8 * 8), a)?;
                    return Ok(bits_to_vec(&iv, *n as u32));
                }
                let sz = t.size();
                let mut v = vec![];
                for i in 0..*n {
                    v.push(self.load(s, t, a + i * sz)?);
                }
                return Ok(Val::A(v.into()));
            }
            _ => {}
        }
        let n = ty.ssize();
        let o = match s.mem.obj(a, &self.m, &mut self.im) {
            Ok(o) => o,
            Err(e) => return Err(self.merr(e)),
        };
        let (off, n) = match Mem::range(o, a, n, "read") {
            Ok(x) => x,
            Err(e) => return Err(Stop::Viol("memory", 0, e.msg())),
        };
        if !o.has_sym(off, n) {
            let d = &o.data[off as usize..(off + n) as usize];
            if n == 8 {
                let x = u64::from_le_bytes(d.try_into().unwrap());
                return Ok(Val::I(if let Ty::I(w) = ty { x & low(*w) } else { x }));
            }
            let mut b = [0u8; 16];
            b[..n as usize].copy_from_slice(d);
            let x = u128::from_le_bytes(b);
            return Ok(if n > 8 {
                Val::W(Box::new(x))
            } else {
                let w = ty.bits();
                Val::I(x as u64 & low(w))
            });
        }
        let t = match o.sym.get(&off) {
            Some((l, t)) if *l as u32 == n => *t,
            _ => {
                let mut acc: Option<T> = None;
                for k in (0..n).rev() {
                    let b = match o.byte(off + k) {
                        Val::I(x) => bvc(x as u128, 8),
                        Val::S(t) => t,
                        _ => unreachable!(),
                    };
                    acc = Some(match acc {
                        None => b,
                        Some(h) => concat(h, b),
                    });
                }
                acc.unwrap()
            }
        };
        match ty {
            Ty::F64 => match sort(t) {
                Sort::Real => Ok(rv(t)),
                _ => match &node(t).op {
                    Op::RBits => Ok(rv(node(t).args[0])),
                    _ => Ok(vterm(t)),
                },
            },
            _ => {
                let w = ty.bits();
                let t = match sort(t) {
                    Sort::Real => rbits(t),
                    Sort::Bool => {
                        if w == 1 {
                            return Ok(vterm(t));
                        }
                        b2bv(t, w)
                    }
                    _ => t,
                };
                let t = if width(t) > w { extract(t, w - 1, 0) } else { t };
                if w == 1 {
                    return Ok(vterm(bv2b(t)));
                }
                Ok(vterm(t))
            }
        }
    }
    pub fn store(&mut self, s: &mut State, ty: &Ty, v: &Val, a: u64) -> R<()> {
        match (ty, v) {
            (Ty::Struct(..), Val::A(vs)) | (Ty::Arr(..), Val::A(vs)) => {
                for (i, x) in vs.iter().enumerate() {
                    let (o, t) = ty.field(i as u64);
                    self.store(s, &t, x, a + o)?;
                }
                return Ok(());
            }
            (Ty::Vec(n, t), Val::A(vs)) => {
                if **t == Ty::I(1) {
                    let iv = vec_to_bits(vs, *n as u32);
                    return self.store(s, &Ty::I((*n as u32 + 7) / 8 * 8), &iv, a);
                }
                let sz = t.size();
                for (i, x) in vs.iter().enumerate() {
                    self.store(s, t, x, a + i as u64 * sz)?;
                }
                return Ok(());
            }
            (Ty::Struct(..) | Ty::Arr(..) | Ty::Vec(..), Val::U) => return Ok(()),
            _ => {}
        }
        let n = ty.ssize();
        let o = match s.mem.obj_mut(a, &self.m, &mut self.im) {
            Ok(o) => o,
            Err(e) => return Err(Stop::Viol("memory", 0, e.msg())),
        };
        let (off, n) = match Mem::range(o, a, n, "write") {
            Ok(x) => x,
            Err(e) => return Err(Stop::Viol("memory", 0, e.msg())),
        };
        if !o.sym.is_empty() {
            o.clear_sym(off, n);
        }
        match v {
            Val::I(x) => {
                let d = &mut o.data[off as usize..(off + n) as usize];
                if n <= 8 {
                    d.copy_from_slice(&x.to_le_bytes()[..n as usize]);
                } else {
                    d[..8].copy_from_slice(&x.to_le_bytes());
                    d[8..].fill(0);
                }
            }
            Val::W(x) => o.data[off as usize..(off + n) as usize].copy_from_slice(&x.to_le_bytes()[..n as usize]),
            Val::U => {}
            Val::S(t) => {
                let mut t = *t;
                let w = n * 8;
                match sort(t) {
                    Sort::Bool => t = b2bv(t, w),
                    Sort::Bv(tw) if (tw as u32) < w => t = zext(t, w),
                    _ => {}
                }
                o.sym.insert(off, (n as u8, t));
            }
            Val::A(_) => panic!("store aggregate"),
        }
        Ok(())
    }
    fn copy(&mut self, s: &mut State, dst: u64, src: u64, n: u64) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let so = match s.mem.obj(src, &self.m, &mut self.im) {
            Ok(o) => o,
            Err(e) => return Err(self.merr(e)),
        };
        let (soff, n32) = match Mem::range(so, src, n, "read") {
            Ok(x) => x,
            Err(e) => return Err(Stop::Viol("memory", 0, e.msg())),
        };
        let bytes = so.data[soff as usize..(soff + n32) as usize].to_vec();
        let mut syms: Vec<(u32, u8, T)> = vec![];
        if so.has_sym(soff, n32) {
            let mut k = soff;
            while k < soff + n32 {
                // whole entries
                if let Some((l, t)) = so.sym.get(&k) {
                    if k + *l as u32 <= soff + n32 {
                        syms.push((k - soff, *l, *t));
                        k += *l as u32;
                        continue;
                    }
                }
                if so.has_sym(k, 1) {
                    if let Val::S(t) = so.byte(k) {
                        syms.push((k - soff, 1, t));
                    } else if let Val::I(_) = so.byte(k) {
                        // partially constant byte
                    }
                }
                k += 1;
            }
        }
        let fix: Vec<(u32, u8)> = if syms.is_empty() {
            vec![]
        } else {
            // bytes that are covered by a symbolic entry but evaluate to constants
            let mut f = vec![];
            for k in soff..soff + n32 {
                if so.has_sym(k, 1) {
                    if let Val::I(x) = so.byte(k) {
                        f.push((k - soff, x as u8));
                    }
                }
            }
            f
        };
        let d = match s.mem.obj_mut(dst, &self.m, &mut self.im) {
            Ok(o) => o,
            Err(e) => return Err(Stop::Viol("memory", 0, e.msg())),
        };
        let (doff, _) = match Mem::range(d, dst, n, "write") {
            Ok(x) => x,
            Err(e) => return Err(Stop::Viol("memory", 0, e.msg())),
        };
        if !d.sym.is_empty() {
            d.clear_sym(doff, n32);
        }
        d.data[doff as usize..(doff + n32) as usize].copy_from_slice(&bytes);
        for (k, b) in fix {
            d.data[(doff + k) as usize] = b;
        }
        for (k, l, t) in syms {
            d.sym.insert(doff + k, (l, t));
        }
        Ok(())
    }
    fn load_byte(&mut self, s: &mut State, a: u64) -> R<Val> {
        self.load(s, &Ty::I(8), a)
    }
    /// load through a symbolic pointer: table lookup when the index has a small domain
    fn load_sym(&mut self, s: &mut State, ty: &Ty, p: &Val) -> R<Val> {
        if let (Val::S(t), true) = (p, matches!(ty, Ty::I(w) if *w <= 64)) {
            if let Some((v, vals)) = small_values(*t) {
                let d = *s.dom.entry(v).or_insert_with(|| full_dom(v));
                let mut groups: Vec<(u64, Vec<usize>)> = vec![];
                let mut ok = true;
                for (i, x) in vals.iter().enumerate() {
                    if d[i / 64] >> (i % 64) & 1 == 0 {
                        continue;
                    }
                    match self.load(s, ty, *x as u64) {
                        Ok(Val::I(r)) => match groups.iter_mut().find(|g| g.0 == r) {
                            Some(g) => g.1.push(i),
                            None => groups.push((r, vec![i])),
                        },
                        _ => {
                            ok = false;
                            break;
                        }
                    }
                }
                if ok && !groups.is_empty() {
                    let w = ty.bits();
                    groups.sort_by_key(|g| std::cmp::Reverse(g.1.len()));
                    let isb = st().vars[v as usize].sort == Sort::Bool;
                    let vt = var(&st().vars[v as usize].name.clone(), Sort::Bool);
                    let mut r = if w == 1 { boolc(groups[0].0 == 1) } else { bvc(groups[0].0 as u128, w) };
                    for g in &groups[1..] {
                        let c: Vec<T> = g.1.iter().map(|&i| if isb { if i == 1 { vt } else { not(vt) } } else { eq(vt, bvc(i as u128, width(vt))) }).collect();
                        let k = if w == 1 { boolc(g.0 == 1) } else { bvc(g.0 as u128, w) };
                        r = ite(or(&c), k, r);
                    }
                    return Ok(vterm(r));
                }
            }
        }
        let a = self.addr(s, p)?;
        self.load(s, ty, a)
    }

    // ----- running -----
    pub fn run_state(&mut self, mut s: State) {
        let start = s.steps;
        let r = self.run(&mut s);
        self.st.steps += s.steps - start;
        let done = matches!(r, Stop::End);
        match r {
            Stop::End => {
                self.st.paths += 1;
            }
            Stop::Kill(w) => {
                if w == "time" {
                    self.st.unexplored += 1;
                }
                if w != "assume" && w != "infeasible" && w != "end" {
                    let place = s.where_();
                    *self.unsupported.entry(format!("{} @ {}", w, place)).or_insert(0) += 1;
                }
                if w == "end" {
                    self.st.paths += 1;
                }
                *self.st.killed.entry(w.to_string()).or_insert(0) += 1;
            }
            Stop::Viol(kind, id, msg) => {
                self.st.paths += 1;
                self.violation(&mut s, kind, id, msg, &[]);
            }
        }
        if done && !s.undecided && self.samples.len() < self.max_samples {
            let n = self.st.paths;
            if n < 3 || n.is_power_of_two() {
                let c = self.candidates(&mut s, &[], 1);
                if let Some(c) = c.into_iter().next() {
                    let mut r = s.reached.clone();
                    r.sort();
                    self.samples.push((c, s.checks, r));
                }
            }
        }
        if s.specialised {
            self.st.specialised_paths += 1;
        }
        for r in &s.reached {
            *self.st.reached.entry(*r).or_insert(0) += 1;
        }
        if s.forks as u64 > self.st.max_depth {
            self.st.max_depth = s.forks as u64;
        }
    }
    /// Concrete input vectors for this path, preferring small round numbers.
    fn candidates(&mut self, s: &mut State, extra: &[T], max: usize) -> Vec<Vec<String>> {
        let mut cands: Vec<Vec<String>> = vec![];
        let base = sl_or(s.pc.clone(), extra);
        // variables that matter
        let reals: Vec<T> = s.inputs.iter().filter(|(k, _)| *k == b'f').map(|(_, t)| *t).collect();
        let nice = |set: &[(i64, i64)]| -> Vec<T> {
            reals
                .iter()
                .map(|&v| or(&set.iter().map(|&(n, d)| req(v, realc(Rat::new(crate::big::Big::from_i(n as i128), crate::big::Big::from_i(d as i128))))).collect::<Vec<_>>()))
                .collect()
        };
        let margin: Vec<T> = extra
            .iter()
            .filter_map(|&e| {
                // e is a negated equality p != 0: ask for a clear gap
                let n = node(e);
                if n.op == Op::Not && node(n.args[0]).op == Op::Eq0 {
                    let p = node(n.args[0]).args[0];
                    let h = realc(Rat::new(crate::big::Big::from_i(1), crate::big::Big::from_i(4)));
                    return Some(or(&[rlt(h, p), rlt(p, rneg(h))]));
                }
                None
            })
            .collect();
        let sets: [&[(i64, i64)]; 3] = [
            &[(2, 1), (3, 1), (5, 1), (-3, 1), (7, 1)],
            &[(1, 1), (2, 1), (3, 1), (4, 1), (5, 1), (6, 1), (8, 1), (-1, 1), (-2, 1), (-4, 1), (1, 2), (0, 1)],
            &[(0, 1), (1, 1), (-1, 1), (1, 4), (3, 4), (-5, 1), (10, 1), (100, 1), (-100, 1), (1, 1024)],
        ];
        let mut queries: Vec<Vec<T>> = vec![];
        for set in sets {
            if reals.is_empty() {
                break;
            }
            let mut q = base.clone();
            q.extend(margin.iter());
            q.extend(nice(set));
            queries.push(q);
        }
        {
            let mut q = base.clone();
            q.extend(margin.iter());
            let k = realc(Rat::int(1000));
            let mut qb = q.clone();
            for &v in &reals {
                qb.push(rle(v, k));
                qb.push(rle(rneg(k), v));
            }
            if !reals.is_empty() {
                queries.push(qb);
            }
            queries.push(q);
        }
        queries.push(base);
        for q in queries {
            if let Res::Sat(m) = self.sol.check(&q, self.cfg.check_ms.min(5000)) {
                let mut mm = (*s.model.clone().unwrap_or_else(|| Rc::new(Model::default()))).clone();
                for (k, v) in m.vals {
                    mm.vals.insert(k, v);
                }
                let mut ev = Ev::new(&mm);
                let v: Vec<String> = s
                    .inputs
                    .iter()
                    .map(|(k, t)| {
                        let x = ev.ev(*t);
                        match (k, x) {
                            (b'f', Some(Cv::R(r))) => format!("f {:016x} {:?}", r.to_f64().to_bits(), r.to_f64()),
                            (k, Some(Cv::V(x))) => format!("{} {:x} {}", *k as char, x, x),
                            (k, Some(Cv::B(b))) => format!("{} {:x} {}", *k as char, b as u8, b),
                            (k, _) => format!("{} 0 ?", *k as char),
                        }
                    })
                    .collect();
                if !cands.contains(&v) {
                    cands.push(v);
                }
                if cands.len() >= max {
                    break;
                }
            }
        }
        cands
    }
    fn violation(&mut self, s: &mut State, kind: &'static str, id: u32, msg: String, extra: &[T]) {
        self.st.checks_violated += 1;
        let n = self.viol.iter().filter(|v| v.kind == kind && v.id == id).count();
        if n >= self.cfg.max_viol {
            return;
        }
        let place = s.where_();
        let cands = self.candidates(s, extra, 4);
        if std::env::var("SX_VIOL").is_ok() {
            eprintln!("violation {} {} {} at {} undecided={} pc={:?}", kind, id, msg, place, s.undecided, s.pc.iter().map(|&t| show(t)).collect::<Vec<_>>());
            for c in &cands {
                eprintln!("   {:?}", c);
            }
        }
        self.viol.push(Violation { kind: kind.into(), id, msg, inputs: cands, place });
    }
    fn run(&mut self, s: &mut State) -> Stop {
        let mut tick = 0u32;
        loop {
            tick += 1;
            if tick & 0xffff == 0 {
                if Instant::now() > self.cfg.deadline {
                    return Stop::Kill("time");
                }
            }
            s.steps += 1;
            if s.steps > self.cfg.max_steps {
                return Stop::Kill("step limit");
            }
            let n = s.frames.len();
            let f = &s.frames[n - 1];
            // functions live as long as the module
            let func: &'static Func = unsafe { &*(Rc::as_ptr(&f.func)) };
            let inst = &func.blocks[f.blk as usize].insts[f.pc as usize];
            match self.exec(s, inst) {
                Ok(()) => {}
                Err(e) => return e,
            }
        }
    }
    #[inline]
    fn g(&self, s: &State, o: &Opd) -> Val {
        match o {
            Opd::R(r) => s.frames[s.frames.len() - 1].regs[*r as usize].clone(),
            Opd::C(v) => v.clone(),
        }
    }
    #[inline]
    fn set(&self, s: &mut State, d: u32, v: Val) {
        let n = s.frames.len();
        let f = &mut s.frames[n - 1];
        if d != NOREG {
            f.regs[d as usize] = v;
        }
        f.pc += 1;
    }
    fn jump(&mut self, s: &mut State, to: u32) {
        let n = s.frames.len();
        let f = &mut s.frames[n - 1];
        let func: &'static Func = unsafe { &*(Rc::as_ptr(&f.func)) };
        let from = f.blk;
        let b = &func.blocks[to as usize];
        if !b.phis.is_empty() {
            if b.phis.len() == 1 {
                let (d, v) = &b.phis[0];
                let o = &v.iter().find(|x| x.0 == from).expect("phi").1;
                let x = match o {
                    Opd::R(r) => f.regs[*r as usize].clone(),
                    Opd::C(v) => v.clone(),
                };
                f.regs[*d as usize] = x;
            } else {
                let mut tmp: Vec<(u32, Val)> = Vec::with_capacity(b.phis.len());
                for (d, v) in &b.phis {
                    let o = &v.iter().find(|x| x.0 == from).expect("phi").1;
                    let x = match o {
                        Opd::R(r) => f.regs[*r as usize].clone(),
                        Opd::C(v) => v.clone(),
                    };
                    tmp.push((*d, x));
                }
                for (d, x) in tmp {
                    f.regs[d as usize] = x;
                }
            }
        }
        f.blk = to;
        f.pc = 0;
    }
    fn unwind(&mut self, s: &mut State) -> R<()> {
        // the current frame's instruction is the raising call
        loop {
            let n = s.frames.len();
            if n == 0 {
                return Err(Stop::Viol("panic", 0, "panic escaped the harness".into()));
            }
            let f = &s.frames[n - 1];
            let func: &'static Func = unsafe { &*(Rc::as_ptr(&f.func)) };
            if let Inst::Call(c) = &func.blocks[f.blk as usize].insts[f.pc as usize] {
                if let Some((_, u)) = c.inv {
                    self.jump(s, u);
                    return Ok(());
                }
            }
            let st = f.stack;
            s.mem.stack.truncate(st as usize);
            s.frames.pop();
        }
    }
    fn finish_call(&mut self, s: &mut State, c: &Call, v: Val) {
        match c.inv {
            None => self.set(s, c.d, v),
            Some((n, _)) => {
                let k = s.frames.len();
                if c.d != NOREG {
                    s.frames[k - 1].regs[c.d as usize] = v;
                }
                self.jump(s, n);
            }
        }
    }

    fn exec(&mut self, s: &mut State, inst: &'static Inst) -> R<()> {
        match inst {
            Inst::Bin { d, op, w, lanes, a, b } => {
                let x = self.g(s, a);
                let y = self.g(s, b);
                let r = if *lanes == 0 {
                    if let (Val::I(x), Val::I(y)) = (&x, &y) {
                        if *w <= 64 {
                            if matches!(op, BinOp::UDiv | BinOp::SDiv | BinOp::URem | BinOp::SRem) && *y == 0 {
                                return Err(Stop::Viol("memory", 1, "division by zero instruction".into()));
                            }
                            let v = bin_c(*op, *x, *y, *w);
                            self.set(s, *d, Val::I(v));
                            return Ok(());
                        }
                    }
                    self.bin(s, *op, *w, &x, &y)?
                } else {
                    let mut v = vec![];
                    for i in 0..*lanes as usize {
                        let (p, q) = (lane(&x, i), lane(&y, i));
                        v.push(self.bin(s, *op, *w, &p, &q)?);
                    }
                    Val::A(v.into())
                };
                self.set(s, *d, r);
            }
            Inst::FBin { d, op, a, b } => {
                let x = self.g(s, a);
                let y = self.g(s, b);
                let r = self.fbin(s, *op, &x, &y)?;
                self.set(s, *d, r);
            }
            Inst::FNeg { d, a } => {
                let x = self.g(s, a);
                let r = match self.fview(s, &x)? {
                    F::C(f) => fv(-f),
                    F::S(t) => rv(rneg(t)),
                };
                self.set(s, *d, r);
            }
            Inst::ICmp { d, p, w, lanes, a, b } => {
                let x = self.g(s, a);
                let y = self.g(s, b);
                let r = if *lanes == 0 {
                    if let (Val::I(x), Val::I(y)) = (&x, &y) {
                        let v = icmp_c(*p, *x, *y, *w);
                        self.set(s, *d, Val::I(v as u64));
                        return Ok(());
                    }
                    icmp(*p, *w, &x, &y)
                } else {
                    let mut v = vec![];
                    for i in 0..*lanes as usize {
                        v.push(icmp(*p, *w, &lane(&x, i), &lane(&y, i)));
                    }
                    Val::A(v.into())
                };
                self.set(s, *d, r);
            }
            Inst::FCmp { d, p, a, b } => {
                let x = self.g(s, a);
                let y = self.g(s, b);
                let r = self.fcmp(s, *p, &x, &y)?;
                self.set(s, *d, r);
            }
            Inst::Cast { d, op, from, to, a } => {
                let x = self.g(s, a);
                let r = self.cast(s, *op, from, to, &x)?;
                self.set(s, *d, r);
            }
            Inst::Gep { d, base, off, idx } => {
                let b = self.g(s, base);
                let mut conc_off = *off;
                let mut symt: Option<T> = None;
                for (o, sc, w) in idx {
                    match self.g(s, o) {
                        Val::S(t) => {
                            let t = if sort(t) == Sort::Bool { sext(t, *w) } else { t };
                            let e = bin(Op::BMul, sext(t, 64), bvc(*sc as u64 as u128, 64));
                            symt = Some(match symt {
                                None => e,
                                Some(p) => bin(Op::BAdd, p, e),
                            });
                        }
                        v => conc_off = conc_off.wrapping_add(sext64(conc(&v).unwrap(), *w).wrapping_mul(*sc)),
                    }
                }
                let r = match (b, symt) {
                    (Val::I(b), None) => Val::I(b.wrapping_add(conc_off as u64)),
                    (b, None) => vterm(bin(Op::BAdd, tw(&b, 64), bvc(conc_off as u64 as u128, 64))),
                    (b, Some(t)) => vterm(bin(Op::BAdd, bin(Op::BAdd, t, bvc(conc_off as u64 as u128, 64)), tw(&b, 64))),
                };
                self.set(s, *d, r);
            }
            Inst::Load { d, ty, p } => {
                let r = match self.g(s, p) {
                    Val::I(a) => self.load(s, ty, a)?,
                    v => self.load_sym(s, ty, &v)?,
                };
                self.set(s, *d, r);
            }
            Inst::Store { ty, v, p } => {
                let x = self.g(s, v);
                let p = self.g(s, p);
                let a = self.addr(s, &p)?;
                self.store(s, ty, &x, a)?;
                self.set(s, NOREG, Val::U);
            }
            Inst::Alloca { d, size, n } => {
                let n = conc(&self.g(s, n)).unwrap_or(1);
                let a = s.mem.alloca(size * n);
                self.set(s, *d, Val::I(a));
            }
            Inst::Call(c) => return self.call(s, c),
            Inst::Br(b) => self.jump(s, *b),
            Inst::CondBr(c, t, f) => {
                let v = self.g(s, c);
                let b = match v {
                    Val::I(x) => x & 1 == 1,
                    Val::U => false,
                    v => self.branch(s, tb(&v))?,
                };
                self.jump(s, if b { *t } else { *f });
            }
            Inst::Switch { w, v, def, cases } => {
                let x = self.g(s, v);
                match x {
                    Val::I(x) => {
                        let to = cases.iter().find(|c| c.0 == x as u128).map(|c| c.1).unwrap_or(*def);
                        self.jump(s, to);
                    }
                    Val::W(x) => {
                        let to = cases.iter().find(|c| c.0 == *x).map(|c| c.1).unwrap_or(*def);
                        self.jump(s, to);
                    }
                    Val::U => self.jump(s, *def),
                    v => {
                        let t = tw(&v, *w);
                        // group cases by target
                        let mut targets: Vec<(u32, Vec<T>)> = vec![];
                        for (k, b) in cases {
                            let c = if *w == 1 { eq(t, boolc(*k & 1 == 1)) } else { eq(t, bvc(*k, *w)) };
                            match targets.iter_mut().find(|x| x.0 == *b) {
                                Some(x) => x.1.push(c),
                                None => targets.push((*b, vec![c])),
                            }
                        }
                        for (b, cs) in targets {
                            if b == *def {
                                continue;
                            }
                            let c = or(&cs);
                            if self.branch(s, c)? {
                                self.jump(s, b);
                                return Ok(());
                            }
                        }
                        self.jump(s, *def);
                    }
                }
            }
            Inst::Ret(v) => {
                let v = match v {
                    Some(o) => self.g(s, o),
                    None => Val::U,
                };
                let f = s.frames.pop().unwrap();
                s.mem.stack.truncate(f.stack as usize);
                let n = s.frames.len();
                if n == 0 {
                    return Err(Stop::End);
                }
                let f = &s.frames[n - 1];
                let func: &'static Func = unsafe { &*(Rc::as_ptr(&f.func)) };
                match &func.blocks[f.blk as usize].insts[f.pc as usize] {
                    Inst::Call(c) => self.finish_call(s, c, v),
                    _ => unreachable!(),
                }
            }
            Inst::Resume(_) => {
                let f = s.frames.pop().unwrap();
                s.mem.stack.truncate(f.stack as usize);
                return self.unwind(s);
            }
            Inst::Unreachable => return Err(Stop::Viol("memory", 2, "reached `unreachable`".into())),
            Inst::Select { d, lanes, c, a, b, ty } => {
                let c = self.g(s, c);
                let x = self.g(s, a);
                let y = self.g(s, b);
                let r = if *lanes == 0 {
                    match c {
                        Val::I(k) => {
                            if k & 1 == 1 {
                                x
                            } else {
                                y
                            }
                        }
                        Val::U => y,
                        c => self.select(s, tb(&c), &x, &y, ty)?,
                    }
                } else {
                    let et = match ty {
                        Ty::Vec(_, t) => (**t).clone(),
                        _ => panic!(),
                    };
                    let mut v = vec![];
                    for i in 0..*lanes as usize {
                        let (p, q) = (lane(&x, i), lane(&y, i));
                        match lane(&c, i) {
                            Val::I(k) => v.push(if k & 1 == 1 { p } else { q }),
                            Val::U => v.push(q),
                            c => v.push(self.select(s, tb(&c), &p, &q, &et)?),
                        }
                    }
                    Val::A(v.into())
                };
                self.set(s, *d, r);
            }
            Inst::ExtractValue { d, a, idx } => {
                let mut v = self.g(s, a);
                for i in idx {
                    v = lane(&v, *i as usize);
                }
                self.set(s, *d, v);
            }
            Inst::InsertValue { d, ty, a, v, idx } => {
                let mut x = self.g(s, a);
                if let Val::U = x {
                    x = zero_of(ty, true);
                }
                let v = self.g(s, v);
                let r = insert(&x, idx, v);
                self.set(s, *d, r);
            }
            Inst::ExtractElement { d, a, i } => {
                let v = self.g(s, a);
                let i = self.g(s, i);
                let i = self.concretize(s, &i, 64)?;
                self.set(s, *d, lane(&v, i as usize));
            }
            Inst::InsertElement { d, n, a, v, i } => {
                let mut x = self.g(s, a);
                if let Val::U = x {
                    x = Val::A(vec![Val::U; *n as usize].into());
                }
                let i = self.g(s, i);
                let i = self.concretize(s, &i, 64)?;
                let v = self.g(s, v);
                let r = insert(&x, &[i as u32], v);
                self.set(s, *d, r);
            }
            Inst::Shuffle { d, a, b, n, mask } => {
                let x = self.g(s, a);
                let y = self.g(s, b);
                let v: Vec<Val> = mask
                    .iter()
                    .map(|&k| {
                        if k < 0 {
                            Val::U
                        } else if (k as u32) < *n {
                            lane(&x, k as usize)
                        } else {
                            lane(&y, k as usize - *n as usize)
                        }
                    })
                    .collect();
                self.set(s, *d, Val::A(v.into()));
            }
            Inst::Freeze { d, a, ty } => {
                let v = self.g(s, a);
                let v = if let Val::U = v { zero_of(ty, false) } else { v };
                self.set(s, *d, v);
            }
            Inst::Rmw { d, op, ty, p, v } => {
                let p = self.g(s, p);
                let a = self.addr(s, &p)?;
                let old = self.load(s, ty, a)?;
                let v = self.g(s, v);
                let w = ty.bits();
                let n = match op {
                    Rmw::Xchg => v,
                    Rmw::Add => self.bin(s, BinOp::Add, w, &old, &v)?,
                    Rmw::Sub => self.bin(s, BinOp::Sub, w, &old, &v)?,
                    Rmw::And => self.bin(s, BinOp::And, w, &old, &v)?,
                    Rmw::Or => self.bin(s, BinOp::Or, w, &old, &v)?,
                    Rmw::Xor => self.bin(s, BinOp::Xor, w, &old, &v)?,
                    Rmw::Umax => Val::I(conc(&old).unwrap().max(conc(&v).unwrap())),
                    Rmw::Umin => Val::I(conc(&old).unwrap().min(conc(&v).unwrap())),
                    _ => return Err(Stop::Kill("atomicrmw")),
                };
                self.store(s, ty, &n, a)?;
                self.set(s, *d, old);
            }
            Inst::CmpXchg { d, ty, p, c, n } => {
                let p = self.g(s, p);
                let a = self.addr(s, &p)?;
                let old = self.load(s, ty, a)?;
                let c = self.g(s, c);
                let (o, c) = match (conc(&old), conc(&c)) {
                    (Some(o), Some(c)) => (o, c),
                    _ => return Err(Stop::Kill("symbolic cmpxchg")),
                };
                if o == c {
                    let nv = self.g(s, n);
                    self.store(s, ty, &nv, a)?;
                }
                self.set(s, *d, Val::A(vec![old, Val::I((o == c) as u64)].into()));
            }
            Inst::Nop => self.set(s, NOREG, Val::U),
            Inst::LandingPad { d, sel } => {
                let e = s.exc;
                self.set(s, *d, Val::A(vec![Val::I(e), Val::I((*sel as i64 as u64) & 0xffff_ffff)].into()));
            }
        }
        Ok(())
    }
    fn select(&mut self, s: &mut State, c: T, x: &Val, y: &Val, ty: &Ty) -> R<Val> {
        match s.implied(c) {
            Some(true) => return Ok(x.clone()),
            Some(false) => return Ok(y.clone()),
            None => {}
        }
        match ty {
            Ty::I(w) => {
                let (a, b) = (tw(x, *w), tw(y, *w));
                Ok(vterm(ite(c, a, b)))
            }
            _ => {
                let b = self.branch(s, c)?;
                Ok(if b { x.clone() } else { y.clone() })
            }
        }
    }
    fn bin(&mut self, s: &mut State, op: BinOp, w: u32, x: &Val, y: &Val) -> R<Val> {
        if let (Some(a), Some(b), true) = (conc(x), conc(y), w <= 64) {
            if matches!(op, BinOp::UDiv | BinOp::SDiv | BinOp::URem | BinOp::SRem) && b == 0 {
                return Err(Stop::Viol("memory", 1, "division by zero instruction".into()));
            }
            return Ok(Val::I(bin_c(op, a, b, w)));
        }
        // sign-bit manipulation of a real's bit pattern
        if w == 64 {
            if let (Val::S(t), Some(k)) = (x, conc(y)) {
                let n = node(*t);
                let r = if n.op == Op::RBits { Some(n.args[0]) } else if n.sort == Sort::Real { Some(*t) } else { None };
                if let Some(r) = r {
                    if op == BinOp::And && k == i64::MAX as u64 {
                        let neg = self.branch(s, cmp0(Op::Lt0, r))?;
                        return Ok(rv(if neg { rneg(r) } else { r }));
                    }
                    if op == BinOp::Xor && k == 1 << 63 {
                        return Ok(rv(rneg(r)));
                    }
                }
            }
        }
        let (mut a, mut b) = (tw(x, w), tw(y, w));
        if w == 1 {
            let r = match op {
                BinOp::And | BinOp::Mul => and(&[a, b]),
                BinOp::Or => or(&[a, b]),
                BinOp::Xor | BinOp::Add | BinOp::Sub => xorb(a, b),
                _ => return Err(Stop::Kill("i1 arithmetic")),
            };
            return Ok(vterm(r));
        }
        // hashing style mixing of symbolic data: continue per concrete value
        if w == 64 && op == BinOp::Xor {
            let heavy = |t: T| as_bvc(t).is_none() && !is_b2bv(t);
            if heavy(a) || heavy(b) {
                a = bvc(self.concretize(s, &vterm(a), 64)? as u128, 64);
                b = bvc(self.concretize(s, &vterm(b), 64)? as u128, 64);
            }
        }
        let o = match op {
            BinOp::Add => Op::BAdd,
            BinOp::Sub => return Ok(vterm(bsub(a, b))),
            BinOp::Mul => Op::BMul,
            BinOp::UDiv => Op::BUDiv,
            BinOp::SDiv => Op::BSDiv,
            BinOp::URem => Op::BURem,
            BinOp::SRem => Op::BSRem,
            BinOp::Shl => Op::BShl,
            BinOp::LShr => Op::BLshr,
            BinOp::AShr => Op::BAshr,
            BinOp::And => Op::BAnd,
            BinOp::Or => Op::BOr,
            BinOp::Xor => Op::BXor,
        };
        Ok(vterm(crate::term::bin(o, a, b)))
    }
    fn fbin(&mut self, s: &mut State, op: FOp, x: &Val, y: &Val) -> R<Val> {
        let a = self.fview(s, x)?;
        let b = self.fview(s, y)?;
        if let (F::C(a), F::C(b)) = (&a, &b) {
            let (a, b) = (*a, *b);
            let r = match op {
                FOp::Add => a + b,
                FOp::Sub => a - b,
                FOp::Mul => a * b,
                FOp::Div => a / b,
                FOp::Rem => a % b,
            };
            if !r.is_finite() || !a.is_finite() || !b.is_finite() || op == FOp::Rem {
                return Ok(fv(r));
            }
            // exactness tests
            let exact = match op {
                FOp::Add | FOp::Sub => {
                    let b = if op == FOp::Sub { -b } else { b };
                    let bb = r - a;
                    let e = (a - (r - bb)) + (b - bb);
                    e == 0.0 && r.abs() < TWO_SUM_MAX
                }
                FOp::Mul => r == 0.0 && (a == 0.0 || b == 0.0) || (r.abs() > 1e-280 && r.abs() < TWO_SUM_MAX && a.mul_add(b, -r) == 0.0),
                FOp::Div => r == 0.0 && a == 0.0 || (r.abs() > 1e-280 && r.abs() < TWO_SUM_MAX && a.abs() > 1e-280 && r.mul_add(b, -a) == 0.0),
                FOp::Rem => true,
            };
            if exact {
                return Ok(fv(r));
            }
            let (p, q) = (Rat::from_f64(a), Rat::from_f64(b));
            let e = match op {
                FOp::Add => p.add(&q),
                FOp::Sub => p.sub(&q),
                FOp::Mul => p.mul(&q),
                _ => p.div(&q),
            };
            if e.n.bits() + e.d.bits() > 600 {
                return Ok(fv(r));
            }
            return Ok(rv(realc(e)));
        }
        // special values
        for (v, o, first) in [(&a, &b, true), (&b, &a, false)] {
            if let F::C(c) = v {
                if c.is_nan() {
                    return Ok(fv(f64::NAN));
                }
                if c.is_infinite() {
                    let t = match o {
                        F::S(t) => *t,
                        _ => unreachable!(),
                    };
                    match op {
                        FOp::Add => return Ok(fv(*c)),
                        FOp::Sub => return Ok(fv(if first { *c } else { -*c })),
                        FOp::Mul => {
                            if self.branch(s, cmp0(Op::Eq0, t))? {
                                return Ok(fv(f64::NAN));
                            }
                            let neg = self.branch(s, cmp0(Op::Lt0, t))?;
                            return Ok(fv(if neg { -*c } else { *c }));
                        }
                        FOp::Div => {
                            if !first {
                                return Ok(fv(0.0));
                            }
                            let neg = self.branch(s, cmp0(Op::Lt0, t))?;
                            return Ok(fv(if neg { -*c } else { *c }));
                        }
                        FOp::Rem => {
                            return if first { Ok(fv(f64::NAN)) } else { Ok(rv(t)) };
                        }
                    }
                }
            }
        }
        if Instant::now() > self.cfg.deadline {
            return Err(Stop::Kill("time"));
        }
        let (p, q) = (ft(&a), ft(&b));
        Ok(rv(match op {
            FOp::Add => radd(p, q),
            FOp::Sub => rsub(p, q),
            FOp::Mul => rmul(p, q),
            FOp::Div => {
                if as_realc(q).map(|k| k.is_zero()).unwrap_or(false) || (as_realc(q).is_none() && self.branch(s, cmp0(Op::Eq0, q))?) {
                    let negz = matches!(b, F::C(f) if f.is_sign_negative());
                    if self.branch(s, cmp0(Op::Eq0, p))? {
                        return Ok(fv(f64::NAN));
                    }
                    let neg = self.branch(s, cmp0(Op::Lt0, p))?;
                    return Ok(fv(if neg != negz { f64::NEG_INFINITY } else { f64::INFINITY }));
                }
                rdiv(p, q)
            }
            FOp::Rem => {
                let a = self.concf(s, x)?;
                let b = self.concf(s, y)?;
                return Ok(fv(a % b));
            }
        }))
    }
    fn fcmp(&mut self, s: &mut State, p: u8, x: &Val, y: &Val) -> R<Val> {
        let a = self.fview(s, x)?;
        let b = self.fview(s, y)?;
        let nan = |f: &F| matches!(f, F::C(c) if c.is_nan());
        if nan(&a) || nan(&b) {
            return Ok(Val::I((p >> 3 & 1) as u64));
        }
        if p == 7 {
            return Ok(Val::I(1));
        }
        if p == 8 {
            return Ok(Val::I(0));
        }
        let k = p & 7;
        if k == 0 || k == 7 {
            return Ok(Val::I((k == 7) as u64));
        }
        let (e, g, l) = (k & 1 != 0, k & 2 != 0, k & 4 != 0);
        if let (F::C(a), F::C(b)) = (&a, &b) {
            return Ok(Val::I(((e && a == b) || (g && a > b) || (l && a < b)) as u64));
        }
        for (v, first) in [(&a, true), (&b, false)] {
            if let F::C(c) = v {
                if c.is_infinite() {
                    // inf compared with a finite value
                    let a_less = (*c < 0.0) == first;
                    return Ok(Val::I(((a_less && l) || (!a_less && g)) as u64));
                }
            }
        }
        let (p, q) = (ft(&a), ft(&b));
        let t = match (e, g, l) {
            (true, false, false) => sreq(p, q),
            (false, true, true) => not(sreq(p, q)),
            (false, false, true) => srlt(p, q),
            (true, false, true) => srle(p, q),
            (false, true, false) => srlt(q, p),
            (true, true, false) => srle(q, p),
            _ => TRUE,
        };
        Ok(vterm(t))
    }
    fn cast(&mut self, s: &mut State, op: CastOp, from: &Ty, to: &Ty, x: &Val) -> R<Val> {
        if let (Ty::Vec(n, f), Ty::Vec(m, t)) = (from, to) {
            if n == m {
                let mut v = vec![];
                for i in 0..*n as usize {
                    v.push(self.cast(s, op, f, t, &lane(x, i))?);
                }
                return Ok(Val::A(v.into()));
            }
        }
        match op {
            CastOp::PtrToInt => {
                let w = to.bits();
                Ok(match x {
                    Val::I(v) => Val::I(v & low(w)),
                    v => vterm(extract(tw(v, 64), w - 1, 0)),
                })
            }
            CastOp::IntToPtr => Ok(match x {
                Val::I(v) => Val::I(*v),
                v => vterm(zext(tw(v, from.bits()), 64)),
            }),
            CastOp::Trunc => {
                let (fw, w) = (from.bits(), to.bits());
                Ok(match x {
                    Val::I(v) => Val::I(v & low(w)),
                    Val::W(v) => {
                        if w > 64 {
                            Val::W(Box::new(**v & low128(w)))
                        } else {
                            Val::I(**v as u64 & low(w))
                        }
                    }
                    Val::U => Val::U,
                    v => {
                        let t = extract(tw(v, fw), w - 1, 0);
                        vterm(if w == 1 { bv2b(t) } else { t })
                    }
                })
            }
            CastOp::Zext => {
                let (fw, w) = (from.bits(), to.bits());
                Ok(match x {
                    Val::I(v) => {
                        if w > 64 {
                            Val::W(Box::new(*v as u128))
                        } else {
                            Val::I(*v)
                        }
                    }
                    Val::W(v) => Val::W(v.clone()),
                    v => vterm(zext(tw(v, fw), w)),
                })
            }
            CastOp::Sext => {
                let (fw, w) = (from.bits(), to.bits());
                Ok(match x {
                    Val::I(v) if w <= 64 => Val::I(sext64(*v, fw) as u64 & low(w)),
                    Val::I(v) => Val::W(Box::new(sext64(*v, fw) as i128 as u128 & low128(w))),
                    v => vterm(sext(tw(v, fw), w)),
                })
            }
            CastOp::Bit => match (from, to) {
                (Ty::F64, Ty::I(64)) => Ok(match x {
                    Val::S(t) if sort(*t) == Sort::Real => vterm(rbits(*t)),
                    v => v.clone(),
                }),
                (Ty::I(64), Ty::F64) => Ok(match fview(x) {
                    Some(F::S(t)) => rv(t),
                    _ => x.clone(),
                }),
                (Ty::Vec(n, t), Ty::I(w)) => {
                    let a = match x {
                        Val::A(a) => a.clone(),
                        _ => return Ok(Val::I(0)),
                    };
                    if **t == Ty::I(1) {
                        return Ok(vec_to_bits(&a, *n as u32));
                    }
                    let ew = t.bits();
                    Ok(join(&a, ew, *w))
                }
                (Ty::I(w), Ty::Vec(n, t)) => {
                    if **t == Ty::I(1) {
                        return Ok(bits_to_vec(x, *n as u32));
                    }
                    let ew = t.bits();
                    let tm = tw(x, *w);
                    Ok(Val::A((0..*n as u32).map(|i| vterm(extract(tm, i * ew + ew - 1, i * ew))).collect::<Vec<_>>().into()))
                }
                (Ty::Vec(n, t), Ty::Vec(m, t2)) => {
                    // reinterpret via bytes
                    let a = match x {
                        Val::A(a) => a.clone(),
                        _ => return Ok(zero_of(to, true)),
                    };
                    let (ew, fw) = (t.bits(), t2.bits());
                    let mut out = vec![];
                    if fw < ew {
                        let r = ew / fw;
                        for i in 0..*n as usize {
                            let tm = tw(&a[i], ew);
                            for k in 0..r {
                                let e = extract(tm, k * fw + fw - 1, k * fw);
                                out.push(vterm(if fw == 1 { bv2b(e) } else { e }));
                            }
                        }
                    } else {
                        let r = (fw / ew) as usize;
                        for i in 0..*m as usize {
                            out.push(join(&a[i * r..(i + 1) * r], ew, fw));
                        }
                    }
                    Ok(Val::A(out.into()))
                }
                _ => Ok(x.clone()),
            },
            CastOp::SiToFp | CastOp::UiToFp => {
                if *to != Ty::F64 {
                    return Err(Stop::Kill("f32"));
                }
                let w = from.bits();
                let v = if w > 64 {
                    match x {
                        Val::W(v) => return Ok(fv(if op == CastOp::SiToFp { **v as i128 as f64 } else { **v as f64 })),
                        _ => return Err(Stop::Kill("wide int to float")),
                    }
                } else {
                    self.concretize(s, x, w)?
                };
                Ok(fv(if op == CastOp::SiToFp { sext64(v, w) as f64 } else { v as f64 }))
            }
            CastOp::FpToSi => {
                let f = self.concf(s, x)?;
                Ok(Val::I(f as i64 as u64 & low(to.bits())))
            }
            CastOp::FpToUi => {
                let f = self.concf(s, x)?;
                Ok(Val::I(f as u64 & low(to.bits())))
            }
            CastOp::FpExt | CastOp::FpTrunc => Err(Stop::Kill("f32")),
        }
    }

    // ----- calls -----
    fn call(&mut self, s: &mut State, c: &'static Call) -> R<()> {
        let id = match &c.callee {
            Callee::Fn(id) => *id,
            Callee::Ind(o) => {
                let v = self.g(s, o);
                let a = self.addr(s, &v)?;
                let id = (a >> 32) as u32;
                if id < FN_BASE || id >= FN_BASE + self.m.fns.len() as u32 || a as u32 != 0 {
                    return Err(Stop::Viol("memory", 3, format!("indirect call to {:#x}", a)));
                }
                id - FN_BASE
            }
            Callee::Asm(t) => {
                let v = if t.contains("cpuid") {
                    zero_of(&c.ret, false)
                } else if c.ret == Ty::Void {
                    Val::U
                } else if c.args.len() == 1 {
                    self.g(s, &c.args[0])
                } else {
                    zero_of(&c.ret, false)
                };
                self.finish_call(s, c, v);
                return Ok(());
            }
        };
        let e = self.exts[id as usize];
        if e == Ext::None {
            // the text of a panic message is not computed (nothing can observe it)
            if self.fmt_write == Some(id) && s.frames.last().map_or(false, |f| f.func.name.contains("FormatStringPayload")) {
                self.finish_call(s, c, Val::I(0));
                return Ok(());
            }
            let f = self.m.func(id);
            let args: Vec<Val> = c.args.iter().map(|a| self.g(s, a)).collect();
            if s.frames.len() > 6000 {
                return Err(Stop::Viol("stack", 0, "recursion deeper than 6000 frames".into()));
            }
            self.push_frame(s, f, args);
            return Ok(());
        }
        let args: Vec<Val> = c.args.iter().map(|a| self.g(s, a)).collect();
        if e == Ext::Raise {
            let a = self.addr(s, &args[0])?;
            s.exc = a;
            return self.unwind(s);
        }
        let r = if e == Ext::Unknown {
            let name = self.m.fns[id as usize].name;
            self.named(s, name, c, &args)?
        } else {
            self.ext(s, e, c, &args)?
        };
        self.finish_call(s, c, r);
        Ok(())
    }
    fn fresh(&mut self, s: &mut State, k: u8, so: Sort) -> T {
        let p = match so {
            Sort::Bool => "b".to_string(),
            Sort::Real => "r".to_string(),
            Sort::Bv(w) => format!("u{}_", w),
        };
        let v = var(&format!("{}{}", p, s.nvars), so);
        s.nvars += 1;
        s.inputs.push((k, v));
        v
    }
    fn check(&mut self, s: &mut State, v: &Val, id: u32) -> R<()> {
        s.checks += 1;
        let c = tb(v);
        let e = self.st.check_ids.entry(id).or_insert([0; 4]);
        match s.implied(c) {
            Some(true) => {
                if c == TRUE {
                    self.st.checks_folded += 1;
                    e[0] += 1;
                } else {
                    self.st.checks_solver += 1;
                    e[1] += 1;
                }
                return Ok(());
            }
            Some(false) => {
                e[3] += 1;
                // the path itself is the counterexample, if it is feasible
                if s.undecided {
                    match self.sol.check(&s.pc, self.cfg.check_ms) {
                        Res::Unsat => return Err(Stop::Kill("infeasible")),
                        Res::Unknown => {
                            self.st.checks_undecided += 1;
                            return Err(Stop::Kill("end"));
                        }
                        Res::Sat(_) => {}
                    }
                }
                self.violation(s, "check", id, "assertion is false on this path".into(), &[]);
                return Err(Stop::Kill("end"));
            }
            None => {}
        }
        let nc = not(c);
        if self.st.sample_conds.len() < 6 {
            self.st.sample_conds.push(format!("check {}: pc[{}] |= {}", id, s.pc.len(), show(c)));
        }
        let sl = s.slice(&[c]);
        let r = self.sol.check(&sl_or(sl, &[nc]), self.cfg.check_ms);
        let e = self.st.check_ids.entry(id).or_insert([0; 4]);
        match r {
            Res::Unsat => {
                self.st.checks_solver += 1;
                e[1] += 1;
                s.add_pc(c);
            }
            Res::Unknown => {
                self.st.checks_undecided += 1;
                e[2] += 1;
                s.add_pc(c);
                s.undecided = true;
                s.model = None;
            }
            Res::Sat(_) => {
                e[3] += 1;
                // an undecided path may be infeasible as a whole
                let mut really = true;
                if s.undecided {
                    really = matches!(self.sol.check(&sl_or(s.pc.clone(), &[nc]), self.cfg.check_ms), Res::Sat(_));
                }
                if really {
                    self.violation(s, "check", id, "assertion can fail".into(), &[nc]);
                } else {
                    self.st.checks_undecided += 1;
                }
                // continue with the assertion assumed
                if matches!(self.model_bool(s, c), Some(true)) {
                    s.add_pc(c);
                } else {
                    let sl = s.slice(&[c]);
                    match self.sol.check(&sl_or(sl, &[c]), self.cfg.branch_ms) {
                        Res::Unsat => return Err(Stop::Kill("end")),
                        Res::Sat(m) => {
                            s.add_pc(c);
                            X::merge_model(s, &m);
                        }
                        Res::Unknown => {
                            s.add_pc(c);
                            s.undecided = true;
                            s.model = None;
                        }
                    }
                }
            }
        }
        Ok(())
    }
    fn assume(&mut self, s: &mut State, v: &Val) -> R<()> {
        let c = tb(v);
        match s.implied(c) {
            Some(true) => return Ok(()),
            Some(false) => return Err(Stop::Kill("assume")),
            None => {}
        }
        if let Some((v, t)) = table(c) {
            let d = *s.dom.entry(v).or_insert_with(|| full_dom(v));
            if (0..4).all(|i| d[i] & t[i] == 0) {
                return Err(Stop::Kill("assume"));
            }
            if !s.multi.contains(&v) {
                s.add_pc(c);
                set_model_val(s, v);
                return Ok(());
            }
        }
        if self.model_bool(s, c) == Some(true) {
            s.add_pc(c);
            return Ok(());
        }
        let sl = s.slice(&[c]);
        match self.sol.check(&sl_or(sl, &[c]), self.cfg.branch_ms) {
            Res::Unsat => Err(Stop::Kill("assume")),
            Res::Sat(m) => {
                s.add_pc(c);
                X::merge_model(s, &m);
                Ok(())
            }
            Res::Unknown => {
                s.add_pc(c);
                s.undecided = true;
                s.model = None;
                Ok(())
            }
        }
    }
    fn fun1(&mut self, s: &mut State, name: &'static str, f: fn(f64) -> f64, v: &Val) -> R<Val> {
        match self.fview(s, v)? {
            F::C(c) => Ok(fv(f(c))),
            F::S(t) => {
                if as_realc(t).is_some() {
                    return Ok(fv(f(as_realc(t).unwrap().to_f64())));
                }
                Ok(rv(uf(name, &[t])))
            }
        }
    }
    fn sqrt(&mut self, s: &mut State, v: &Val) -> R<Val> {
        match self.fview(s, v)? {
            F::C(c) => Ok(fv(c.sqrt())),
            F::S(t) => {
                if let Some(k) = as_realc(t) {
                    return Ok(fv(k.to_f64().sqrt()));
                }
                if self.branch(s, cmp0(Op::Lt0, t))? {
                    return Ok(fv(f64::NAN));
                }
                // perfect square of a monomial
                let p = to_poly(t);
                if p.len() == 1 {
                    let (m, c) = &p[0];
                    if m.iter().all(|x| x.1 % 2 == 0) {
                        if let Some(cf) = c.exact_f64() {
                            let r = cf.sqrt();
                            if Rat::from_f64(r).mul(&Rat::from_f64(r)) == *c {
                                let mut acc = realc(Rat::one());
                                for &(b, e) in m.iter() {
                                    for _ in 0..(e.abs() / 2) {
                                        acc = if e > 0 { rmul(acc, b) } else { rdiv(acc, b) };
                                    }
                                }
                                let neg = self.branch(s, cmp0(Op::Lt0, acc))?;
                                let acc = if neg { rneg(acc) } else { acc };
                                return Ok(rv(rmul(acc, realc(Rat::from_f64(r)))));
                            }
                        }
                    }
                }
                let r = uf("sqrt", &[t]);
                Ok(rv(r))
            }
        }
    }
    fn pow(&mut self, s: &mut State, x: &Val, y: &Val) -> R<Val> {
        let a = self.fview(s, x)?;
        let b = self.fview(s, y)?;
        match (&a, &b) {
            (F::C(a), F::C(b)) => Ok(fv(a.powf(*b))),
            (F::S(t), F::C(n)) => {
                if *n == 0.0 {
                    return Ok(fv(1.0));
                }
                if n.is_finite() && n.fract() == 0.0 && n.abs() <= 16.0 {
                    let k = n.abs() as u32;
                    if *n < 0.0 {
                        if self.branch(s, cmp0(Op::Eq0, *t))? {
                            return Ok(fv(f64::INFINITY));
                        }
                    }
                    let mut acc = *t;
                    for _ in 1..k {
                        acc = rmul(acc, *t);
                    }
                    if *n < 0.0 {
                        acc = rdiv(realc(Rat::one()), acc);
                    }
                    return Ok(rv(acc));
                }
                if *n == 0.5 {
                    return self.sqrt(s, x);
                }
                if !n.is_finite() {
                    return Err(Stop::Kill("pow with a non-finite exponent"));
                }
                if self.branch(s, cmp0(Op::Lt0, *t))? {
                    return Ok(fv(f64::NAN));
                }
                Ok(rv(uf("pow", &[*t, realc(Rat::from_f64(*n))])))
            }
            (F::C(c), F::S(_)) if !c.is_finite() => Err(Stop::Kill("pow of a non-finite base")),
            _ => {
                let (p, q) = (ft(&a), ft(&b));
                if let (F::S(_), true) = (&b, as_realc(q).is_some()) {
                    let f = as_realc(q).unwrap().to_f64();
                    return self.pow(s, x, &fv(f));
                }
                // negative base with a symbolic exponent: NaN unless integral; leave that side out
                let c = cmp0(Op::Lt0, rneg(p));
                self.assume(s, &vterm(c))?;
                Ok(rv(uf("pow", &[p, q])))
            }
        }
    }
    fn ext(&mut self, s: &mut State, e: Ext, c: &'static Call, a: &[Val]) -> R<Val> {
        Ok(match e {
            Ext::SxSymbolic => Val::I(1),
            Ext::SxF64 => {
                let t = self.fresh(s, b'f', Sort::Real);
                Val::S(t)
            }
            Ext::SxBool => Val::S(self.fresh(s, b'b', Sort::Bool)),
            Ext::SxBits => {
                let w = conc(&a[0]).expect("width") as u32;
                let t = self.fresh(s, b'u', Sort::Bv(w as u8));
                vterm(zext(t, 64))
            }
            Ext::SxChoose => {
                let n = conc(&a[0]).expect("sx_choose bound") as u32;
                if n == 0 {
                    return Err(Stop::Kill("assume"));
                }
                let t = match s.pending {
                    Some(t) => t,
                    None => {
                        let t = self.fresh(s, b'c', Sort::Bv(8));
                        s.add_pc(bcmp(Op::Ult, t, bvc(n as u128, 8)));
                        if n < 256 {
                            set_model_val(s, match node(t).op {
                                Op::Var(v) => v,
                                _ => unreachable!(),
                            });
                        }
                        s.pending = Some(t);
                        t
                    }
                };
                // fork one value per alternative
                let v = st_var(t);
                let d = *s.dom.entry(v).or_insert_with(|| full_dom(v));
                let k = (0..n).find(|&i| d[(i / 64) as usize] >> (i % 64) & 1 == 1);
                let k = match k {
                    Some(k) => k,
                    None => return Err(Stop::Kill("infeasible")),
                };
                let cnd = eq(t, bvc(k as u128, 8));
                if !self.branch(s, cnd)? {
                    return Err(Stop::Kill("infeasible"));
                }
                s.pending = None;
                s.trace.push(k);
                Val::I(k as u64)
            }
            Ext::SxAssume => {
                self.assume(s, &a[0])?;
                Val::U
            }
            Ext::SxCheck => {
                let id = conc(&a[1]).unwrap() as u32;
                self.check(s, &a[0], id)?;
                Val::U
            }
            Ext::SxReach => {
                let id = conc(&a[0]).unwrap() as u32;
                if !s.reached.contains(&id) {
                    s.reached.push(id);
                }
                Val::U
            }
            Ext::SxEnd => return Err(Stop::Kill("end")),
            Ext::SxEq => {
                let x = self.fview(s, &a[0])?;
                let y = self.fview(s, &a[1])?;
                match (&x, &y) {
                    (F::C(p), F::C(q)) => Val::I((p == q || (p.is_nan() && q.is_nan()) || (p - q).abs() <= 1e-9 * p.abs().max(q.abs())) as u64),
                    (F::C(p), _) | (_, F::C(p)) if !p.is_finite() => Val::I(0),
                    _ => {
                        let (p, q) = (ft(&x), ft(&y));
                        if let (Some(p), Some(q)) = (as_realc(p), as_realc(q)) {
                            let (p, q) = (p.to_f64(), q.to_f64());
                            return Ok(Val::I((p == q || (p - q).abs() <= 1e-9 * p.abs().max(q.abs())) as u64));
                        }
                        vterm(req(p, q))
                    }
                }
            }
            Ext::SxNear => {
                let x = self.fview(s, &a[0])?;
                let y = self.fview(s, &a[1])?;
                let near = |p: f64, q: f64| p == q || (p.is_nan() && q.is_nan()) || (p - q).abs() <= 1e-6 * (1.0 + p.abs().max(q.abs()));
                match (&x, &y) {
                    (F::C(p), F::C(q)) => Val::I(near(*p, *q) as u64),
                    (F::C(p), _) | (_, F::C(p)) if !p.is_finite() => Val::I(0),
                    _ => {
                        let (p, q) = (ft(&x), ft(&y));
                        if let (Some(p), Some(q)) = (as_realc(p), as_realc(q)) {
                            return Ok(Val::I(near(p.to_f64(), q.to_f64()) as u64));
                        }
                        let e = realc(Rat::from_f64(1e-6));
                        let d = rsub(p, q);
                        let one = realc(Rat::one());
                        let mut any = req(p, q);
                        for m in [realc(Rat::zero()), p, rneg(p), q, rneg(q)] {
                            let b = rmul(e, radd(one, m));
                            let c = and(&[cmp0(Op::Le0, rsub(d, b)), cmp0(Op::Le0, rneg(radd(d, b)))]);
                            any = or(&[any, c]);
                        }
                        vterm(any)
                    }
                }
            }
            Ext::SxSame => {
                // identical bit patterns / identical terms
                let r = match (&a[0], &a[1]) {
                    (Val::I(x), Val::I(y)) => x == y,
                    (Val::S(x), Val::S(y)) => x == y,
                    _ => false,
                };
                Val::I(r as u64)
            }
            Ext::SxConc => Val::I(self.concretize(s, &a[0], 64)?),
            Ext::SxLive => Val::I(s.mem.live),
            Ext::SxTrace => {
                if std::env::var("SX_LOG").is_ok() {
                    eprintln!("trace {:?} {}", conc(&a[0]), a.get(1).map(|v| match v {
                        Val::S(t) => show(*t),
                        Val::I(x) => format!("{}", f64::from_bits(*x)),
                        _ => "?".into(),
                    }).unwrap_or_default());
                }
                Val::U
            }
            Ext::Malloc => {
                let n = self.size(s, &a[0])?;
                self.malloc(s, n)
            }
            Ext::AlignedAlloc => {
                let n = self.size(s, &a[1])?;
                self.malloc(s, n)
            }
            Ext::Calloc => {
                let n = self.size(s, &a[0])?;
                let m = self.size(s, &a[1])?;
                self.malloc(s, n.saturating_mul(m))
            }
            Ext::PosixMemalign => {
                let n = self.size(s, &a[2])?;
                let p = self.addr(s, &a[0])?;
                let v = self.malloc(s, n);
                self.store(s, &Ty::Ptr, &v, p)?;
                Val::I(0)
            }
            Ext::Realloc => {
                let n = self.size(s, &a[1])?;
                let p = self.addr(s, &a[0])?;
                let v = self.malloc(s, n);
                if p != 0 {
                    let old = match s.mem.obj(p, &self.m, &mut self.im) {
                        Ok(o) => o.data.len() as u64,
                        Err(e) => return Err(self.merr(e)),
                    };
                    let na = conc(&v).unwrap();
                    if na == 0 {
                        return Ok(v);
                    }
                    self.copy(s, na, p, old.min(n))?;
                    if let Err(e) = s.mem.free(p) {
                        return Err(self.merr(e));
                    }
                }
                v
            }
            Ext::Free => {
                let p = self.addr(s, &a[0])?;
                if p != 0 {
                    if let Err(e) = s.mem.free(p) {
                        return Err(Stop::Viol("memory", 4, format!("free: {}", e.msg())));
                    }
                }
                Val::U
            }
            Ext::Memcpy | Ext::Memmove => {
                let n = self.concretize(s, &a[2], 64)?;
                let d = self.addr(s, &a[0])?;
                let p = self.addr(s, &a[1])?;
                self.copy(s, d, p, n)?;
                a[0].clone()
            }
            Ext::Memset => {
                self.memset(s, a)?;
                a[0].clone()
            }
            Ext::Memcmp | Ext::Bcmp => {
                let n = self.concretize(s, &a[2], 64)?;
                let p = self.addr(s, &a[0])?;
                let q = self.addr(s, &a[1])?;
                if n == 0 {
                    return Ok(Val::I(0));
                }
                let mut xs = Vec::with_capacity(n as usize);
                let mut sym = false;
                for i in 0..n {
                    let x = self.load_byte(s, p + i)?;
                    let y = self.load_byte(s, q + i)?;
                    if let (Val::I(x), Val::I(y)) = (&x, &y) {
                        if x != y && !sym {
                            return Ok(Val::I(if x < y { 0xffff_ffff } else { 1 }));
                        }
                        if x == y {
                            continue;
                        }
                    }
                    sym = true;
                    xs.push((tw(&x, 8), tw(&y, 8)));
                }
                if !sym {
                    return Ok(Val::I(0));
                }
                if e == Ext::Bcmp {
                    let all: Vec<T> = xs.iter().map(|&(x, y)| eq(x, y)).collect();
                    vterm(ite(and(&all), bvc(0, 32), bvc(1, 32)))
                } else {
                    let mut r = bvc(0, 32);
                    for &(x, y) in xs.iter().rev() {
                        r = ite(eq(x, y), r, ite(bcmp(Op::Ult, x, y), bvc(0xffff_ffff, 32), bvc(1, 32)));
                    }
                    vterm(r)
                }
            }
            Ext::Strlen => {
                let p = self.addr(s, &a[0])?;
                let mut n = 0;
                loop {
                    let b = self.load_byte(s, p + n)?;
                    let z = match b {
                        Val::I(x) => x == 0,
                        v => self.branch(s, eq(tw(&v, 8), bvc(0, 8)))?,
                    };
                    if z {
                        break;
                    }
                    n += 1;
                }
                Val::I(n)
            }
            Ext::Memchr => {
                let p = self.addr(s, &a[0])?;
                let n = self.concretize(s, &a[2], 64)?;
                let k = tw(&a[1], 32);
                let k = extract(k, 7, 0);
                let mut r = 0;
                for i in 0..n {
                    let b = self.load_byte(s, p + i)?;
                    if self.branch(s, eq(tw(&b, 8), k))? {
                        r = p + i;
                        break;
                    }
                }
                Val::I(r)
            }
            Ext::DelExc | Ext::Pause | Ext::Nop0 | Ext::Nop1 => Val::U,
            Ext::Backtrace | Ext::GetIp => Val::I(0),
            Ext::Abort | Ext::Trap => return Err(Stop::Viol("abort", 0, "process abort".into())),
            Ext::Getrandom => {
                let p = self.addr(s, &a[0])?;
                let n = self.concretize(s, &a[1], 64)?;
                for i in 0..n {
                    self.store(s, &Ty::I(8), &Val::I((i * 37 + 11) & 0xff), p + i)?;
                }
                Val::I(n)
            }
            Ext::Getenv => Val::I(0),
            Ext::Syscall => {
                let n = conc(&a[0]).unwrap_or(0);
                if n == 318 {
                    // getrandom
                    let p = self.addr(s, &a[1])?;
                    let n = self.concretize(s, &a[2], 64)?;
                    for i in 0..n {
                        self.store(s, &Ty::I(8), &Val::I((i * 37 + 11) & 0xff), p + i)?;
                    }
                    Val::I(n)
                } else {
                    Val::I(0)
                }
            }
            Ext::Gettid | Ext::PthreadSelf => Val::I(1),
            Ext::Write => a[2].clone(),
            Ext::Writev => Val::I(0),
            Ext::Errno => {
                let a = self.m.globals.len();
                let _ = a;
                // a private cell per path
                let p = s.mem.alloc(8);
                Val::I(p)
            }
            Ext::TlsDtor => Val::I(0),
            Ext::PkCreate => {
                let p = self.addr(s, &a[0])?;
                let k = s.next_tls;
                s.next_tls += 1;
                self.store(s, &Ty::I(32), &Val::I(k), p)?;
                Val::I(0)
            }
            Ext::PkDelete | Ext::PkSet | Ext::PkGet => Val::I(0),
            Ext::Sysconf => Val::I(4096),
            // no file can be opened, the affinity is not known
            Ext::Open | Ext::SchedAff => Val::I(0xffff_ffff),
            Ext::Getauxval => Val::I(0),
            Ext::Xgetbv => Val::I(0),
            Ext::TlAddr => a[0].clone(),
            Ext::IsConst => Val::I(0),
            Ext::PshufbSse | Ext::PshufbAvx => {
                let mut v = vec![];
                let n = if e == Ext::PshufbSse { 16 } else { 32 };
                for i in 0..n {
                    let m = lane(&a[1], i);
                    let m = self.concretize(s, &m, 8)?;
                    v.push(if m & 0x80 != 0 { Val::I(0) } else { lane(&a[0], (i & !15) + (m & 15) as usize) });
                }
                Val::A(v.into())
            }
            Ext::Sin | Ext::LSin => self.fun1(s, "sin", f64::sin, &a[0])?,
            Ext::Cos | Ext::LCos => self.fun1(s, "cos", f64::cos, &a[0])?,
            Ext::Tan | Ext::LTan => self.fun1(s, "tan", f64::tan, &a[0])?,
            Ext::Asin | Ext::LAsin => self.fun1(s, "asin", f64::asin, &a[0])?,
            Ext::Acos | Ext::LAcos => self.fun1(s, "acos", f64::acos, &a[0])?,
            Ext::Atan | Ext::LAtan => self.fun1(s, "atan", f64::atan, &a[0])?,
            Ext::Sinh | Ext::LSinh => self.fun1(s, "sinh", f64::sinh, &a[0])?,
            Ext::Cosh | Ext::LCosh => self.fun1(s, "cosh", f64::cosh, &a[0])?,
            Ext::Tanh | Ext::LTanh => self.fun1(s, "tanh", f64::tanh, &a[0])?,
            Ext::Exp | Ext::LExp => self.fun1(s, "exp", f64::exp, &a[0])?,
            Ext::Cbrt => self.fun1(s, "cbrt", f64::cbrt, &a[0])?,
            Ext::Log | Ext::LLog | Ext::Log2 | Ext::LLog2 | Ext::Log10 | Ext::LLog10 => {
                let (n, f): (&'static str, fn(f64) -> f64) = match e {
                    Ext::Log | Ext::LLog => ("ln", f64::ln),
                    Ext::Log2 | Ext::LLog2 => ("log2", f64::log2),
                    _ => ("log10", f64::log10),
                };
                if let F::S(t) = self.fview(s, &a[0])? {
                    if as_realc(t).is_none() {
                        if self.branch(s, cmp0(Op::Eq0, t))? {
                            return Ok(fv(f64::NEG_INFINITY));
                        }
                        if self.branch(s, cmp0(Op::Lt0, t))? {
                            return Ok(fv(f64::NAN));
                        }
                    }
                }
                self.fun1(s, n, f, &a[0])?
            }
            Ext::Pow | Ext::LPow => self.pow(s, &a[0], &a[1])?,
            Ext::LPowi => {
                let n = self.concretize(s, &a[1], 32)? as u32 as i32;
                self.pow(s, &a[0], &fv(n as f64))?
            }
            Ext::Sqrt | Ext::LSqrt => self.sqrt(s, &a[0])?,
            Ext::Atan2 | Ext::Hypot => {
                let (x, y) = (self.fview(s, &a[0])?, self.fview(s, &a[1])?);
                match (&x, &y) {
                    (F::C(p), F::C(q)) => fv(if e == Ext::Atan2 { p.atan2(*q) } else { p.hypot(*q) }),
                    _ => rv(uf(if e == Ext::Atan2 { "atan2" } else { "hypot" }, &[ft(&x), ft(&y)])),
                }
            }
            Ext::Fmod => self.fbin(s, FOp::Rem, &a[0], &a[1])?,
            Ext::Fabs => match self.fview(s, &a[0])? {
                F::C(c) => fv(c.abs()),
                F::S(t) => {
                    let neg = self.branch(s, cmp0(Op::Lt0, t))?;
                    rv(if neg { rneg(t) } else { t })
                }
            },
            Ext::Round | Ext::Floor | Ext::Ceil | Ext::Trunc | Ext::Rint => {
                let f = self.concf(s, &a[0])?;
                fv(match e {
                    Ext::Round => f.round(),
                    Ext::Floor => f.floor(),
                    Ext::Ceil => f.ceil(),
                    Ext::Rint => f.round_ties_even(),
                    _ => f.trunc(),
                })
            }
            Ext::Fpclass => {
                let m = conc(&a[1]).unwrap();
                match self.fview(s, &a[0])? {
                    F::C(f) => {
                        let k = match f.classify() {
                            std::num::FpCategory::Nan => 0x3,
                            std::num::FpCategory::Infinite => {
                                if f < 0.0 {
                                    0x4
                                } else {
                                    0x200
                                }
                            }
                            std::num::FpCategory::Normal => {
                                if f < 0.0 {
                                    0x8
                                } else {
                                    0x100
                                }
                            }
                            std::num::FpCategory::Subnormal => {
                                if f < 0.0 {
                                    0x10
                                } else {
                                    0x80
                                }
                            }
                            std::num::FpCategory::Zero => {
                                if f.is_sign_negative() {
                                    0x20
                                } else {
                                    0x40
                                }
                            }
                        };
                        Val::I((m & k != 0) as u64)
                    }
                    F::S(t) => {
                        // finite by construction
                        if self.branch(s, cmp0(Op::Eq0, t))? {
                            Val::I((m & 0x40 != 0) as u64)
                        } else if self.branch(s, cmp0(Op::Lt0, t))? {
                            Val::I((m & 0x8 != 0) as u64)
                        } else {
                            Val::I((m & 0x100 != 0) as u64)
                        }
                    }
                }
            }
            Ext::Minnum | Ext::Maxnum | Ext::Minimumnum | Ext::Maximumnum => {
                let (x, y) = (self.fview(s, &a[0])?, self.fview(s, &a[1])?);
                if let (F::C(p), F::C(q)) = (&x, &y) {
                    return Ok(fv(if matches!(e, Ext::Minnum | Ext::Minimumnum) { p.min(*q) } else { p.max(*q) }));
                }
                if matches!(x, F::C(f) if f.is_nan()) {
                    return Ok(a[1].clone());
                }
                if matches!(y, F::C(f) if f.is_nan()) {
                    return Ok(a[0].clone());
                }
                let lt = self.fcmp(s, 4, &a[0], &a[1])?;
                let lt = match lt {
                    Val::I(k) => k == 1,
                    v => self.branch(s, tb(&v))?,
                };
                if lt == matches!(e, Ext::Minnum | Ext::Minimumnum) {
                    a[0].clone()
                } else {
                    a[1].clone()
                }
            }
            Ext::Copysign => {
                let neg = match self.fview(s, &a[1])? {
                    F::C(c) => c.is_sign_negative(),
                    F::S(t) => self.branch(s, cmp0(Op::Lt0, t))?,
                };
                match self.fview(s, &a[0])? {
                    F::C(c) => fv(c.abs().copysign(if neg { -1.0 } else { 1.0 })),
                    F::S(t) => {
                        let n = self.branch(s, cmp0(Op::Lt0, t))?;
                        rv(if n != neg { rneg(t) } else { t })
                    }
                }
            }
            Ext::Fma | Ext::Fmuladd => {
                if let (Val::I(x), Val::I(y), Val::I(z)) = (&a[0], &a[1], &a[2]) {
                    return Ok(fv(f64::from_bits(*x).mul_add(f64::from_bits(*y), f64::from_bits(*z))));
                }
                let p = self.fbin(s, FOp::Mul, &a[0], &a[1])?;
                self.fbin(s, FOp::Add, &p, &a[2])?
            }
            Ext::Raise | Ext::None | Ext::Unknown => unreachable!("{:?} {:?}", e, c.ret),
        })
    }
    fn memset(&mut self, s: &mut State, a: &[Val]) -> R<()> {
        let n = self.concretize(s, &a[2], 64)?;
        let d = self.addr(s, &a[0])?;
        if n == 0 {
            return Ok(());
        }
        let b = match &a[1] {
            Val::S(_) => {
                for i in 0..n {
                    self.store(s, &Ty::I(8), &a[1], d + i)?;
                }
                return Ok(());
            }
            v => conc(v).unwrap() as u8,
        };
        let o = match s.mem.obj_mut(d, &self.m, &mut self.im) {
            Ok(o) => o,
            Err(e) => return Err(Stop::Viol("memory", 0, e.msg())),
        };
        let (off, n) = match Mem::range(o, d, n, "write") {
            Ok(x) => x,
            Err(e) => return Err(Stop::Viol("memory", 0, e.msg())),
        };
        if !o.sym.is_empty() {
            o.clear_sym(off, n);
        }
        o.data[off as usize..(off + n) as usize].fill(b);
        Ok(())
    }
    /// A size to allocate: huge ones fail (as one alternative), others are enumerated.
    fn size(&mut self, s: &mut State, v: &Val) -> R<u64> {
        if let Val::S(t) = v {
            let big = bcmp(Op::Ult, bvc(1 << 28, 64), *t);
            if self.branch(s, big)? {
                return Ok(u64::MAX);
            }
        }
        self.concretize(s, v, 64)
    }
    fn malloc(&mut self, s: &mut State, n: u64) -> Val {
        if n > 1 << 28 {
            return Val::I(0);
        }
        Val::I(s.mem.alloc(n))
    }
    /// llvm.* intrinsics resolved by name
    fn named(&mut self, s: &mut State, name: &'static str, c: &'static Call, a: &[Val]) -> R<Val> {
        if name.starts_with("llvm.memcpy") || name.starts_with("llvm.memmove") {
            let n = self.concretize(s, &a[2], 64)?;
            let d = self.addr(s, &a[0])?;
            let p = self.addr(s, &a[1])?;
            self.copy(s, d, p, n)?;
            return Ok(Val::U);
        }
        if name.starts_with("llvm.memset") {
            self.memset(s, a)?;
            return Ok(Val::U);
        }
        let base = name.strip_prefix("llvm.").unwrap_or("");
        if let (Ty::Vec(n, _), Some(_)) = (&c.ret, base.split('.').next()) {
            let n = *n as usize;
            let et = match &c.ret {
                Ty::Vec(_, t) => (**t).clone(),
                _ => unreachable!(),
            };
            let mut v = vec![];
            for i in 0..n {
                let args: Vec<Val> = a.iter().map(|x| if let Val::A(_) = x { lane(x, i) } else { x.clone() }).collect();
                v.push(self.scalar(s, name, base, &et, &c.tys, &args)?);
            }
            return Ok(Val::A(v.into()));
        }
        self.scalar(s, name, base, &c.ret, &c.tys, a)
    }
    fn scalar(&mut self, s: &mut State, name: &'static str, base: &str, ret: &Ty, tys: &[Ty], a: &[Val]) -> R<Val> {
        let op = base.split('.').next().unwrap_or("");
        let has = |p: &str| base.starts_with(p);
        let w = match tys.first() {
            Some(Ty::Vec(_, t)) => t.bits(),
            Some(t @ (Ty::I(_) | Ty::Ptr | Ty::F64)) => t.bits(),
            _ => 0,
        };
        if has("vector.reduce.") {
            if let Val::A(v) = &a[0] {
                let o = base.split('.').nth(2).unwrap();
                let mut acc = v[0].clone();
                for x in v[1..].iter() {
                    acc = match o {
                        "or" => self.bin(s, BinOp::Or, w, &acc, x)?,
                        "and" => self.bin(s, BinOp::And, w, &acc, x)?,
                        "xor" => self.bin(s, BinOp::Xor, w, &acc, x)?,
                        "add" => self.bin(s, BinOp::Add, w, &acc, x)?,
                        _ => return Err(Stop::Kill("vector.reduce")),
                    };
                }
                return Ok(acc);
            }
        }
        match op {
            "umin" | "umax" | "smin" | "smax" => {
                let p = match op {
                    "umin" => Pred::Ult,
                    "umax" => Pred::Ugt,
                    "smin" => Pred::Slt,
                    _ => Pred::Sgt,
                };
                let c = icmp(p, w, &a[0], &a[1]);
                return Ok(match c {
                    Val::I(k) => a[if k == 1 { 0 } else { 1 }].clone(),
                    c => vterm(ite(tb(&c), tw(&a[0], w), tw(&a[1], w))),
                });
            }
            "abs" => {
                return Ok(match conc(&a[0]) {
                    Some(x) => Val::I(sext64(x, w).unsigned_abs() & low(w)),
                    None => {
                        let t = tw(&a[0], w);
                        vterm(ite(bcmp(Op::Slt, t, bvc(0, w)), bneg(t), t))
                    }
                })
            }
            "scmp" | "ucmp" => {
                let rw = ret.bits();
                let (lt, gt) = if op == "scmp" { (Pred::Slt, Pred::Sgt) } else { (Pred::Ult, Pred::Ugt) };
                let l = icmp(lt, w, &a[0], &a[1]);
                let g = icmp(gt, w, &a[0], &a[1]);
                return Ok(vterm(ite(tb(&l), bvc(mask(rw), rw), ite(tb(&g), bvc(1, rw), bvc(0, rw)))));
            }
            "ctlz" | "cttz" | "ctpop" => {
                if w <= 64 {
                    if let Some(x) = conc(&a[0]) {
                        return Ok(Val::I(match op {
                            "ctlz" => x.leading_zeros() as u64 - (64 - w as u64),
                            "cttz" => (x.trailing_zeros()).min(w) as u64,
                            _ => x.count_ones() as u64,
                        }));
                    }
                } else if let Val::W(x) = &a[0] {
                    return Ok(Val::W(Box::new(match op {
                        "ctlz" => x.leading_zeros() as u128,
                        "cttz" => x.trailing_zeros() as u128,
                        _ => x.count_ones() as u128,
                    })));
                }
                let t = tw(&a[0], w);
                let bit = |i: u32| bv2b(extract(t, i, i));
                let mut r = bvc(w as u128, w);
                match op {
                    "cttz" => {
                        for i in (0..w).rev() {
                            r = ite(bit(i), bvc(i as u128, w), r);
                        }
                    }
                    "ctlz" => {
                        for i in 0..w {
                            r = ite(bit(i), bvc((w - 1 - i) as u128, w), r);
                        }
                    }
                    _ => {
                        r = bvc(0, w);
                        for i in 0..w {
                            r = crate::term::bin(Op::BAdd, r, b2bv(bit(i), w));
                        }
                    }
                }
                return Ok(vterm(r));
            }
            "bswap" => {
                let n = w / 8;
                if let Some(x) = conc(&a[0]) {
                    return Ok(Val::I(x.swap_bytes() >> (64 - w)));
                }
                let t = tw(&a[0], w);
                let mut r = extract(t, 7, 0);
                for i in 1..n {
                    r = concat(r, extract(t, i * 8 + 7, i * 8));
                }
                return Ok(vterm(r));
            }
            "bitreverse" => {
                if let Some(x) = conc(&a[0]) {
                    return Ok(Val::I(x.reverse_bits() >> (64 - w)));
                }
                return Err(Stop::Kill("bitreverse"));
            }
            "fshl" | "fshr" => {
                if let (Some(x), Some(y), Some(z)) = (conc(&a[0]), conc(&a[1]), conc(&a[2])) {
                    let k = (z % w as u64) as u32;
                    let cat = ((x as u128) << w) | y as u128;
                    let r = if op == "fshl" { cat << k >> w } else { cat >> k };
                    return Ok(Val::I(r as u64 & low(w)));
                }
                let k = self.concretize(s, &a[2], w)? as u32 % w;
                let t = concat(tw(&a[0], w), tw(&a[1], w));
                let lo = if op == "fshl" { w - k } else { k };
                return Ok(vterm(extract(t, lo + w - 1, lo)));
            }
            "uadd" | "sadd" | "usub" | "ssub" | "umul" | "smul" => {
                let signed = op.starts_with('s');
                let sat = base.split('.').nth(1) == Some("sat");
                let o = &op[1..];
                if let (Some(x), Some(y), true) = (conc(&a[0]), conc(&a[1]), w <= 64) {
                    let (r, ov) = if signed {
                        let (x, y) = (sext64(x, w) as i128, sext64(y, w) as i128);
                        let r = match o {
                            "add" => x + y,
                            "sub" => x - y,
                            _ => x * y,
                        };
                        let (mn, mx) = (-(1i128 << (w - 1)), (1i128 << (w - 1)) - 1);
                        let ov = r < mn || r > mx;
                        let r2 = if sat { r.clamp(mn, mx) } else { r };
                        (r2 as u64 & low(w), ov)
                    } else {
                        let (x, y) = (x as i128, y as i128);
                        let r = match o {
                            "add" => x + y,
                            "sub" => x - y,
                            _ => ((x as u128).wrapping_mul(y as u128)) as i128,
                        };
                        let big = o == "mul" && (x as u128).checked_mul(y as u128).map(|v| v > low(w) as u128).unwrap_or(true);
                        let ov = if o == "mul" { big } else { r < 0 || r > low(w) as i128 };
                        let r2 = if sat && ov { if r < 0 { 0 } else { low(w) as i128 } } else { r };
                        (r2 as u64 & low(w), ov)
                    };
                    return Ok(if sat { Val::I(r) } else { Val::A(vec![Val::I(r), Val::I(ov as u64)].into()) });
                }
                let (x, y) = (tw(&a[0], w), tw(&a[1], w));
                let ew = if o == "mul" { 2 * w } else { w + 1 };
                if ew > 128 {
                    return Err(Stop::Kill("wide overflow arithmetic"));
                }
                let (ex, ey) = if signed { (sext(x, ew), sext(y, ew)) } else { (zext(x, ew), zext(y, ew)) };
                let wide = match o {
                    "add" => crate::term::bin(Op::BAdd, ex, ey),
                    "sub" => bsub(ex, ey),
                    _ => crate::term::bin(Op::BMul, ex, ey),
                };
                let r = match o {
                    "add" => crate::term::bin(Op::BAdd, x, y),
                    "sub" => bsub(x, y),
                    _ => crate::term::bin(Op::BMul, x, y),
                };
                let ov = if signed {
                    not(eq(wide, sext(r, ew)))
                } else if o == "sub" {
                    bcmp(Op::Ult, x, y)
                } else {
                    not(eq(wide, zext(r, ew)))
                };
                if sat {
                    if signed {
                        return Err(Stop::Kill("signed saturation"));
                    }
                    let lim = if o == "sub" { bvc(0, w) } else { bvc(mask(w), w) };
                    return Ok(vterm(ite(ov, lim, r)));
                }
                return Ok(Val::A(vec![vterm(r), vterm(ov)].into()));
            }
            "fptoui" | "fptosi" => {
                let f = self.concf(s, &a[0])?;
                let rw = ret.bits();
                return Ok(Val::I(if op == "fptoui" {
                    if rw >= 64 {
                        f as u64
                    } else {
                        (f as u64).min(low(rw))
                    }
                } else {
                    let v = f as i64;
                    let v = if rw >= 64 { v } else { v.clamp(-(1i64 << (rw - 1)), (1i64 << (rw - 1)) - 1) };
                    v as u64 & low(rw)
                }));
            }
            "expect" => return Ok(a[0].clone()),
            _ => {}
        }
        if std::env::var("SX_UNK").is_ok() {
            eprintln!("unknown external {} at {}", name, s.where_());
        }
        *self.unsupported.entry(format!("external {}", name)).or_insert(0) += 1;
        if matches!(ret, Ty::Void) {
            return Err(Stop::Kill("unknown external"));
        }
        Err(Stop::Kill("unknown external"))
    }
}

/// Comparisons with a square root, stated without it (the root's argument is not negative).
fn root(t: T) -> Option<T> {
    let n = node(t);
    match n.op {
        Op::Uf("sqrt") => Some(n.args[0]),
        _ => None,
    }
}
fn srle(p: T, q: T) -> T {
    match (root(p), root(q)) {
        (Some(t), Some(u)) => rle(t, u),
        (Some(t), None) => and(&[cmp0(Op::Le0, rneg(q)), rle(t, rmul(q, q))]),
        (None, Some(u)) => or(&[cmp0(Op::Le0, p), rle(rmul(p, p), u)]),
        _ => rle(p, q),
    }
}
fn srlt(p: T, q: T) -> T {
    match (root(p), root(q)) {
        (Some(t), Some(u)) => rlt(t, u),
        (Some(t), None) => and(&[cmp0(Op::Lt0, rneg(q)), rlt(t, rmul(q, q))]),
        (None, Some(u)) => or(&[cmp0(Op::Lt0, p), rlt(rmul(p, p), u)]),
        _ => rlt(p, q),
    }
}
fn sreq(p: T, q: T) -> T {
    match (root(p), root(q)) {
        (Some(t), Some(u)) => req(t, u),
        (Some(t), None) => and(&[cmp0(Op::Le0, rneg(q)), req(t, rmul(q, q))]),
        (None, Some(u)) => and(&[cmp0(Op::Le0, rneg(p)), req(u, rmul(p, p))]),
        _ => req(p, q),
    }
}

pub fn full_dom(v: u32) -> [u64; 4] {
    let w = match st().vars[v as usize].sort {
        Sort::Bool => 1,
        Sort::Bv(w) => w as u32,
        _ => 8,
    };
    if w >= 8 {
        [u64::MAX; 4]
    } else {
        let n = 1u32 << w;
        let mut d = [0; 4];
        for i in 0..n {
            d[(i / 64) as usize] |= 1 << (i % 64);
        }
        d
    }
}
/// give variable v a value from its domain in the cached model
fn set_model_val(s: &mut State, v: u32) {
    let d = *s.dom.entry(v).or_insert_with(|| full_dom(v));
    if let Some(m) = &s.model {
        let cur = match m.vals.get(&v) {
            Some(Cv::V(x)) => *x as u32,
            Some(Cv::B(b)) => *b as u32,
            _ => 0,
        };
        if cur < 256 && d[(cur / 64) as usize] >> (cur % 64) & 1 == 1 {
            return;
        }
        for i in 0..256u32 {
            if d[(i / 64) as usize] >> (i % 64) & 1 == 1 {
                let mut n = (**m).clone();
                n.vals.insert(v, if st().vars[v as usize].sort == Sort::Bool { Cv::B(i != 0) } else { Cv::V(i as u128) });
                s.model = Some(Rc::new(n));
                return;
            }
        }
    }
}
fn st_var(t: T) -> u32 {
    match node(t).op {
        Op::Var(v) => v,
        _ => panic!("not a variable"),
    }
}
fn is_b2bv(t: T) -> bool {
    let n = node(t);
    n.op == Op::Ite && as_bvc(n.args[1]).is_some() && as_bvc(n.args[2]).is_some()
}
fn contains_rbits(t: T) -> bool {
    let n = node(t);
    if n.op == Op::RBits {
        return true;
    }
    if n.sort == Sort::Real || n.sort == Sort::Bool {
        return false;
    }
    n.args.iter().any(|&a| contains_rbits(a))
}
fn collect_rbits(t: T, out: &mut Vec<T>) {
    let n = node(t);
    if n.op == Op::RBits {
        if !out.contains(&n.args[0]) {
            out.push(n.args[0]);
        }
        return;
    }
    for &a in n.args.iter() {
        collect_rbits(a, out);
    }
}
fn eval_bits(t: T, sub: &HashMap<T, u128>, ev: &mut Ev) -> Option<u128> {
    let n = node(t);
    let w = width(t);
    if n.op == Op::RBits {
        return sub.get(&n.args[0]).copied();
    }
    if !contains_rbits_deep(t) {
        return match ev.ev(t)? {
            Cv::V(x) => Some(x),
            Cv::B(b) => Some(b as u128),
            _ => None,
        };
    }
    let a = |i: usize, ev: &mut Ev| eval_bits(n.args[i], sub, ev);
    Some(match &n.op {
        Op::BvC(v) => *v,
        Op::Extract(h, l) => (a(0, ev)? >> l) & mask((h - l + 1) as u32),
        Op::Concat => (a(0, ev)? << width(n.args[1])) | a(1, ev)?,
        Op::ZExt => a(0, ev)?,
        Op::SExt => {
            let iw = width(n.args[0]);
            let v = a(0, ev)?;
            if v >> (iw - 1) & 1 == 1 {
                (v | (mask(w) & !mask(iw))) & mask(w)
            } else {
                v
            }
        }
        Op::Ite => {
            if a(0, ev)? != 0 {
                a(1, ev)?
            } else {
                a(2, ev)?
            }
        }
        Op::Eq => (a(0, ev)? == a(1, ev)?) as u128,
        Op::Not => (a(0, ev)? == 0) as u128,
        Op::And => {
            for i in 0..n.args.len() {
                if a(i, ev)? == 0 {
                    return Some(0);
                }
            }
            1
        }
        Op::Or => {
            for i in 0..n.args.len() {
                if a(i, ev)? != 0 {
                    return Some(1);
                }
            }
            0
        }
        Op::Ult => (a(0, ev)? < a(1, ev)?) as u128,
        Op::Ule => (a(0, ev)? <= a(1, ev)?) as u128,
        o => fold_bin(o, a(0, ev)?, a(1, ev)?, w)?,
    })
}
fn contains_rbits_deep(t: T) -> bool {
    let n = node(t);
    n.op == Op::RBits || n.args.iter().any(|&a| contains_rbits_deep(a))
}
fn lane(v: &Val, i: usize) -> Val {
    match v {
        Val::A(a) => a[i].clone(),
        Val::U => Val::U,
        _ => panic!("lane of scalar"),
    }
}
fn insert(v: &Val, idx: &[u32], x: Val) -> Val {
    if idx.is_empty() {
        return x;
    }
    match v {
        Val::A(a) => {
            let mut n: Vec<Val> = a.to_vec();
            let k = idx[0] as usize;
            n[k] = insert(&n[k], &idx[1..], x);
            Val::A(n.into())
        }
        _ => panic!("insert into scalar"),
    }
}
fn join(a: &[Val], ew: u32, w: u32) -> Val {
    if a.iter().all(|v| conc(v).is_some()) && w <= 128 {
        let mut r = 0u128;
        for (i, v) in a.iter().enumerate() {
            r |= (conc(v).unwrap() as u128 & mask(ew)) << (i as u32 * ew);
        }
        return if w > 64 { Val::W(Box::new(r)) } else { Val::I(r as u64) };
    }
    let mut acc: Option<T> = None;
    for v in a.iter().rev() {
        let t = tw(v, ew);
        acc = Some(match acc {
            None => t,
            Some(h) => concat(h, t),
        });
    }
    vterm(acc.unwrap())
}
fn vec_to_bits(a: &[Val], n: u32) -> Val {
    if a.iter().all(|v| conc(v).is_some()) {
        let mut r = 0u64;
        for (i, v) in a.iter().enumerate() {
            r |= (conc(v).unwrap() & 1) << i;
        }
        return Val::I(r);
    }
    let mut acc: Option<T> = None;
    for v in a.iter().rev() {
        let t = b2bv(tb(v), 1);
        acc = Some(match acc {
            None => t,
            Some(h) => concat(h, t),
        });
    }
    let _ = n;
    vterm(acc.unwrap())
}
fn bits_to_vec(v: &Val, n: u32) -> Val {
    let r: Vec<Val> = match conc(v) {
        Some(x) => (0..n).map(|i| Val::I(x >> i & 1)).collect(),
        None => {
            let t = match v {
                Val::S(t) => *t,
                _ => panic!(),
            };
            (0..n).map(|i| vterm(bv2b(extract(t, i, i)))).collect()
        }
    };
    Val::A(r.into())
}
fn bin_c(op: BinOp, x: u64, y: u64, w: u32) -> u64 {
    let m = low(w);
    (match op {
        BinOp::Add => x.wrapping_add(y),
        BinOp::Sub => x.wrapping_sub(y),
        BinOp::Mul => x.wrapping_mul(y),
        BinOp::UDiv => x / y,
        BinOp::URem => x % y,
        BinOp::SDiv => sext64(x, w).wrapping_div(sext64(y, w)) as u64,
        BinOp::SRem => sext64(x, w).wrapping_rem(sext64(y, w)) as u64,
        BinOp::Shl => {
            if y >= w as u64 {
                0
            } else {
                x << y
            }
        }
        BinOp::LShr => {
            if y >= w as u64 {
                0
            } else {
                x >> y
            }
        }
        BinOp::AShr => (sext64(x, w) >> y.min(63)) as u64,
        BinOp::And => x & y,
        BinOp::Or => x | y,
        BinOp::Xor => x ^ y,
    }) & m
}
fn icmp_c(p: Pred, x: u64, y: u64, w: u32) -> bool {
    match p {
        Pred::Eq => x == y,
        Pred::Ne => x != y,
        Pred::Ugt => x > y,
        Pred::Uge => x >= y,
        Pred::Ult => x < y,
        Pred::Ule => x <= y,
        Pred::Sgt => sext64(x, w) > sext64(y, w),
        Pred::Sge => sext64(x, w) >= sext64(y, w),
        Pred::Slt => sext64(x, w) < sext64(y, w),
        Pred::Sle => sext64(x, w) <= sext64(y, w),
    }
}
fn icmp(p: Pred, w: u32, x: &Val, y: &Val) -> Val {
    if let (Some(a), Some(b), true) = (conc(x), conc(y), w <= 64) {
        return Val::I(icmp_c(p, a, b, w) as u64);
    }
    let (a, b) = (tw(x, w), tw(y, w));
    if w == 1 {
        return vterm(match p {
            Pred::Eq => eq(a, b),
            Pred::Ne => not(eq(a, b)),
            Pred::Ult | Pred::Sgt => and(&[not(a), b]),
            Pred::Ugt | Pred::Slt => and(&[a, not(b)]),
            Pred::Ule | Pred::Sge => or(&[not(a), b]),
            Pred::Uge | Pred::Sle => or(&[a, not(b)]),
        });
    }
    vterm(match p {
        Pred::Eq => eq(a, b),
        Pred::Ne => not(eq(a, b)),
        Pred::Ugt => bcmp(Op::Ult, b, a),
        Pred::Uge => bcmp(Op::Ule, b, a),
        Pred::Ult => bcmp(Op::Ult, a, b),
        Pred::Ule => bcmp(Op::Ule, a, b),
        Pred::Sgt => bcmp(Op::Slt, b, a),
        Pred::Sge => bcmp(Op::Sle, b, a),
        Pred::Slt => bcmp(Op::Slt, a, b),
        Pred::Sle => bcmp(Op::Sle, a, b),
    })
}
