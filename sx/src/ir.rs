//! Reader for the textual LLVM IR of the linked harness (functions are parsed on first use).
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, PartialEq, Debug)]
pub enum Ty {
    Void,
    I(u32),
    F64,
    F32,
    Ptr,
    Arr(u64, Rc<Ty>),
    Vec(u64, Rc<Ty>),
    Struct(Rc<Vec<Ty>>, bool),
    Label,
    Meta,
    Fun,
}
impl Ty {
    pub fn size(&self) -> u64 {
        match self {
            Ty::I(n) => {
                let b = ((*n as u64) + 7) / 8;
                b.next_power_of_two()
            }
            Ty::F64 | Ty::Ptr => 8,
            Ty::F32 => 4,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Vec(n, t) => match &**t {
                Ty::I(1) => ((n + 7) / 8).next_power_of_two(),
                t => (n * t.size()).next_power_of_two(),
            },
            Ty::Struct(f, packed) => {
                let mut o = 0;
                let mut al = 1;
                for t in f.iter() {
                    let a = if *packed { 1 } else { t.align() };
                    al = al.max(a);
                    o = (o + a - 1) / a * a;
                    o += t.size();
                }
                (o + al - 1) / al * al
            }
            _ => 0,
        }
    }
    /// bytes touched by a load or store (an i40 takes 8 bytes in an aggregate but stores 5)
    pub fn ssize(&self) -> u64 {
        match self {
            Ty::I(n) => ((*n as u64) + 7) / 8,
            _ => self.size(),
        }
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::I(n) => (((*n as u64) + 7) / 8).next_power_of_two().min(16),
            Ty::F64 | Ty::Ptr => 8,
            Ty::F32 => 4,
            Ty::Arr(_, t) => t.align(),
            Ty::Vec(_, _) => self.size(),
            Ty::Struct(f, packed) => {
                if *packed {
                    1
                } else {
                    f.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            _ => 1,
        }
    }
    pub fn field(&self, i: u64) -> (u64, Ty) {
        match self {
            Ty::Arr(_, t) | Ty::Vec(_, t) => (i * t.size(), (**t).clone()),
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for (k, t) in f.iter().enumerate() {
                    let a = if *packed { 1 } else { t.align() };
                    o = (o + a - 1) / a * a;
                    if k as u64 == i {
                        return (o, t.clone());
                    }
                    o += t.size();
                }
                panic!("field")
            }
            _ => panic!("field of {:?}", self),
        }
    }
    pub fn bits(&self) -> u32 {
        match self {
            Ty::I(n) => *n,
            Ty::F64 | Ty::Ptr => 64,
            Ty::F32 => 32,
            _ => panic!("bits of {:?}", self),
        }
    }
}

/// Runtime value.
#[derive(Clone, Debug)]
pub enum Val {
    I(u64),
    S(u32),
    W(Box<u128>),
    A(Rc<[Val]>),
    U,
}

#[derive(Clone, Debug)]
pub enum Opd {
    R(u32),
    C(Val),
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum BinOp {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum FOp {
    Add,
    Sub,
    Mul,
    Div,
    Rem,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Pred {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum CastOp {
    Trunc,
    Zext,
    Sext,
    Bit,
    PtrToInt,
    IntToPtr,
    SiToFp,
    UiToFp,
    FpToSi,
    FpToUi,
    FpExt,
    FpTrunc,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Rmw {
    Xchg,
    Add,
    Sub,
    And,
    Or,
    Xor,
    Umax,
    Umin,
    Max,
    Min,
    Nand,
}
#[derive(Clone, Debug)]
pub enum Callee {
    Fn(u32),
    Ind(Opd),
    Asm(Rc<str>),
}
#[derive(Debug)]
pub struct Call {
    pub d: u32,
    pub callee: Callee,
    pub args: Vec<Opd>,
    pub tys: Vec<Ty>,
    pub ret: Ty,
    pub inv: Option<(u32, u32)>,
}
pub const NOREG: u32 = u32::MAX;
#[derive(Debug)]
pub enum Inst {
    Bin { d: u32, op: BinOp, w: u32, lanes: u32, a: Opd, b: Opd },
    FBin { d: u32, op: FOp, a: Opd, b: Opd },
    FNeg { d: u32, a: Opd },
    ICmp { d: u32, p: Pred, w: u32, lanes: u32, a: Opd, b: Opd },
    FCmp { d: u32, p: u8, a: Opd, b: Opd }, // bit0 eq, bit1 gt, bit2 lt, bit3 uno
    Cast { d: u32, op: CastOp, from: Ty, to: Ty, a: Opd },
    Gep { d: u32, base: Opd, off: i64, idx: Vec<(Opd, i64, u32)> },
    Load { d: u32, ty: Ty, p: Opd },
    Store { ty: Ty, v: Opd, p: Opd },
    Alloca { d: u32, size: u64, n: Opd },
    Call(Box<Call>),
    Br(u32),
    CondBr(Opd, u32, u32),
    Switch { w: u32, v: Opd, def: u32, cases: Vec<(u128, u32)> },
    Ret(Option<Opd>),
    Resume(Opd),
    Unreachable,
    Select { d: u32, lanes: u32, c: Opd, a: Opd, b: Opd, ty: Ty },
    ExtractValue { d: u32, a: Opd, idx: Vec<u32> },
    InsertValue { d: u32, ty: Ty, a: Opd, v: Opd, idx: Vec<u32> },
    ExtractElement { d: u32, a: Opd, i: Opd },
    InsertElement { d: u32, n: u32, a: Opd, v: Opd, i: Opd },
    Shuffle { d: u32, a: Opd, b: Opd, n: u32, mask: Vec<i32> },
    Freeze { d: u32, a: Opd, ty: Ty },
    Rmw { d: u32, op: Rmw, ty: Ty, p: Opd, v: Opd },
    CmpXchg { d: u32, ty: Ty, p: Opd, c: Opd, n: Opd },
    Nop,
    LandingPad { d: u32, sel: i32 }, // 0 cleanup, 1 catch, -1 filter
}
pub struct Block {
    pub phis: Vec<(u32, Vec<(u32, Opd)>)>,
    pub insts: Vec<Inst>,
}
pub struct Func {
    pub name: &'static str,
    pub id: u32,
    pub params: Vec<u32>,
    pub blocks: Vec<Block>,
    pub nregs: u32,
}
pub struct FnEntry {
    pub name: &'static str,
    pub text: Option<(usize, usize)>,
    pub parsed: Option<Rc<Func>>,
    pub calls: std::cell::Cell<u64>,
}
pub struct GlobalEntry {
    pub name: &'static str,
    pub text: &'static str, // after '='
    pub constant: bool,
}
/// A global's initial image.
pub struct Image {
    pub data: Vec<u8>,
    pub constant: bool,
}
pub struct Module {
    pub src: &'static str,
    pub fns: Vec<FnEntry>,
    pub fn_ids: HashMap<&'static str, u32>,
    pub globals: Vec<GlobalEntry>,
    pub global_ids: HashMap<&'static str, u32>,
}
pub const FN_BASE: u32 = 0x0080_0000;
pub const GL_BASE: u32 = 0x0000_0100;

impl Module {
    pub fn load(path: &str) -> Module {
        let src: &'static str = Box::leak(std::fs::read_to_string(path).expect("read IR").into_boxed_str());
        let mut m = Module { src, fns: vec![], fn_ids: HashMap::new(), globals: vec![], global_ids: HashMap::new() };
        let b = src.as_bytes();
        let mut i = 0;
        while i < b.len() {
            let e = src[i..].find('\n').map(|x| i + x).unwrap_or(b.len());
            let line = &src[i..e];
            if line.starts_with('@') {
                let (name, rest) = read_global_name(&line[1..]);
                let rest = rest.trim_start();
                if let Some(r) = rest.strip_prefix("= ") {
                    let id = m.globals.len() as u32;
                    // aliases are not expected
                    m.globals.push(GlobalEntry { name, text: r, constant: r.contains("constant ") && !r.split(" constant ").next().unwrap().contains(" global ") });
                    m.global_ids.insert(name, id);
                }
            } else if line.starts_with("define ") || line.starts_with("declare ") {
                let at = line.find('@').unwrap();
                let (name, _) = read_global_name(&line[at + 1..]);
                let id = m.fns.len() as u32;
                let text = if line.starts_with("define ") {
                    let end = e + src[e..].find("\n}\n").unwrap() + 1;
                    let t = Some((i, end));
                    i = end;
                    m.fns.push(FnEntry { name, text: t, parsed: None, calls: Default::default() });
                    m.fn_ids.insert(name, id);
                    continue;
                } else {
                    None
                };
                m.fns.push(FnEntry { name, text, parsed: None, calls: Default::default() });
                m.fn_ids.insert(name, id);
            } else if line.starts_with('%') && line.contains(" = type ") {
                panic!("named types are not supported: {}", line);
            }
            i = e + 1;
        }
        m
    }
    pub fn fn_addr(id: u32) -> u64 {
        ((FN_BASE + id) as u64) << 32
    }
    pub fn gl_addr(id: u32) -> u64 {
        ((GL_BASE + id) as u64) << 32
    }
    pub fn func(&mut self, id: u32) -> Rc<Func> {
        if let Some(f) = &self.fns[id as usize].parsed {
            return f.clone();
        }
        let (a, b) = self.fns[id as usize].text.unwrap_or_else(|| panic!("no body for {}", self.fns[id as usize].name));
        let f = Rc::new(FnParser::parse(self, id, &self.src[a..b]));
        self.fns[id as usize].parsed = Some(f.clone());
        f
    }
    pub fn image(&self, gid: u32) -> Image {
        let g = &self.globals[gid as usize];
        let t = g.text;
        // "... global|constant <ty> <init>, align N"
        let k = find_kw(t, "constant").into_iter().chain(find_kw(t, "global")).min();
        let (k, l) = match k {
            Some(k) => {
                if t[k..].starts_with("constant") {
                    (k, 8)
                } else {
                    (k, 6)
                }
            }
            None => panic!("global {}: {}", g.name, t),
        };
        let mut p = P { s: &t[k + l..], i: 0, m: self };
        p.ws();
        let ty = p.ty();
        p.ws();
        let mut data = vec![0u8; ty.size() as usize];
        if p.peek() == b',' || p.eof() {
            // external declaration
            return Image { data, constant: false };
        }
        p.init(&ty, &mut data, 0);
        Image { data, constant: &t[k..k + l] == "constant" }
    }
}
fn find_kw(t: &str, kw: &str) -> Option<usize> {
    // keyword appears among the linkage tokens before any type
    let mut i = 0;
    for tok in t.split(' ') {
        if tok == kw {
            return Some(i);
        }
        if tok.starts_with('<') || tok.starts_with('[') || tok.starts_with('{') {
            return None;
        }
        i += tok.len() + 1;
    }
    None
}
fn read_global_name(s: &'static str) -> (&'static str, &'static str) {
    if s.starts_with('"') {
        let e = s[1..].find('"').unwrap() + 1;
        (&s[1..e], &s[e + 1..])
    } else {
        let e = s.find(|c: char| !(c.is_ascii_alphanumeric() || c == '_' || c == '.' || c == '$' || c == '-')).unwrap_or(s.len());
        (&s[..e], &s[e..])
    }
}

struct P<'a> {
    s: &'static str,
    i: usize,
    m: &'a Module,
}
impl<'a> P<'a> {
    fn b(&self) -> &'static [u8] {
        self.s.as_bytes()
    }
    fn eof(&self) -> bool {
        self.i >= self.s.len()
    }
    fn peek(&self) -> u8 {
        *self.b().get(self.i).unwrap_or(&0)
    }
    fn ws(&mut self) {
        loop {
            while matches!(self.peek(), b' ' | b'\t') {
                self.i += 1;
            }
            if self.s[self.i..].starts_with("/*") {
                self.i += self.s[self.i..].find("*/").expect("comment") + 2;
                continue;
            }
            return;
        }
    }
    fn is(&self, t: &str) -> bool {
        self.s[self.i..].starts_with(t)
    }
    fn eat(&mut self, t: &str) -> bool {
        self.ws();
        if self.is(t) {
            self.i += t.len();
            true
        } else {
            false
        }
    }
    fn expect(&mut self, t: &str) {
        if !self.eat(t) {
            panic!("expected `{}` at `{}`", t, &self.s[self.i..(self.i + 120).min(self.s.len())]);
        }
    }
    fn word(&mut self) -> &'static str {
        self.ws();
        let st = self.i;
        while matches!(self.peek(), b'a'..=b'z' | b'A'..=b'Z' | b'0'..=b'9' | b'_' | b'.' | b'-' | b'+') {
            self.i += 1;
        }
        &self.s[st..self.i]
    }
    fn peek_word(&mut self) -> &'static str {
        let s = self.i;
        let w = self.word();
        self.i = s;
        w
    }
    fn eat_word(&mut self, w: &str) -> bool {
        self.ws();
        let s = self.i;
        if self.word() == w {
            true
        } else {
            self.i = s;
            false
        }
    }
    fn num(&mut self) -> i128 {
        let w = self.word();
        w.parse().unwrap_or_else(|_| panic!("number `{}` at `{}`", w, &self.s[self.i.saturating_sub(20)..(self.i + 40).min(self.s.len())]))
    }
    fn ty(&mut self) -> Ty {
        self.ws();
        let t = match self.peek() {
            b'[' => {
                self.i += 1;
                let n = self.num() as u64;
                self.expect("x");
                let t = self.ty();
                self.expect("]");
                Ty::Arr(n, Rc::new(t))
            }
            b'<' => {
                self.i += 1;
                self.ws();
                if self.peek() == b'{' {
                    let t = self.strukt(true);
                    self.expect(">");
                    t
                } else {
                    let n = self.num() as u64;
                    self.expect("x");
                    let t = self.ty();
                    self.expect(">");
                    Ty::Vec(n, Rc::new(t))
                }
            }
            b'{' => self.strukt(false),
            _ => {
                let w = self.word();
                match w {
                    "void" => Ty::Void,
                    "ptr" => Ty::Ptr,
                    "double" => Ty::F64,
                    "float" => Ty::F32,
                    "label" => Ty::Label,
                    "metadata" => Ty::Meta,
                    _ if w.starts_with('i') => Ty::I(w[1..].parse().unwrap_or_else(|_| panic!("type {}", w))),
                    _ => panic!("type `{}` at `{}`", w, &self.s[self.i.saturating_sub(60)..(self.i + 60).min(self.s.len())]),
                }
            }
        };
        // function type in calls: "i32 (ptr, ...)"
        t
    }
    fn strukt(&mut self, packed: bool) -> Ty {
        self.expect("{");
        let mut f = vec![];
        self.ws();
        if self.eat("}") {
            return Ty::Struct(Rc::new(f), packed);
        }
        loop {
            f.push(self.ty());
            if self.eat(",") {
                continue;
            }
            self.expect("}");
            break;
        }
        Ty::Struct(Rc::new(f), packed)
    }
    fn gname(&mut self) -> &'static str {
        // at '@'
        self.i += 1;
        let (n, rest) = read_global_name(&self.s[self.i..]);
        self.i = self.s.len() - rest.len();
        n
    }
    fn gaddr(&mut self) -> u64 {
        let n = self.gname();
        if let Some(&f) = self.m.fn_ids.get(n) {
            return Module::fn_addr(f);
        }
        if let Some(&g) = self.m.global_ids.get(n) {
            return Module::gl_addr(g);
        }
        panic!("unknown global @{}", n)
    }
    fn konst(&mut self, ty: &Ty) -> Val {
        self.ws();
        match self.peek() {
            b'@' => return Val::I(self.gaddr()),
            b'{' | b'[' | b'<' => {
                let open = self.peek();
                let mut packed = false;
                self.i += 1;
                if open == b'<' && self.peek() == b'{' {
                    packed = true;
                    self.i += 1;
                }
                let mut v = vec![];
                self.ws();
                let close = match open {
                    b'{' => "}",
                    b'[' => "]",
                    _ if packed => "}>",
                    _ => ">",
                };
                if !self.eat(close) {
                    loop {
                        let t = self.ty();
                        v.push(self.konst(&t));
                        if self.eat(",") {
                            continue;
                        }
                        self.expect(close);
                        break;
                    }
                }
                return Val::A(v.into());
            }
            b'c' if self.is("c\"") => {
                let by = self.cstr();
                return Val::A(by.into_iter().map(|b| Val::I(b as u64)).collect::<Vec<_>>().into());
            }
            _ => {}
        }
        let w = self.word();
        match w {
            "true" => Val::I(1),
            "false" => Val::I(0),
            "null" => Val::I(0),
            "none" => Val::I(0),
            "undef" | "poison" => zero_of(ty, true),
            "zeroinitializer" => zero_of(ty, false),
            "splat" => {
                self.expect("(");
                let t = self.ty();
                let v = self.konst(&t);
                self.expect(")");
                let n = match ty {
                    Ty::Vec(n, _) | Ty::Arr(n, _) => *n,
                    _ => panic!("splat"),
                };
                Val::A(vec![v; n as usize].into())
            }
            "inttoptr" | "ptrtoint" | "trunc" | "bitcast" | "zext" => {
                self.expect("(");
                let t = self.ty();
                let v = self.konst(&t);
                self.expect("to");
                let t2 = self.ty();
                self.expect(")");
                match (w, v) {
                    ("trunc", Val::I(x)) => Val::I(x & low(t2.bits())),
                    (_, v) => v,
                }
            }
            "getelementptr" => {
                while !self.eat("(") {
                    self.word();
                }
                let t = self.ty();
                self.expect(",");
                let pt = self.ty();
                let base = match self.konst(&pt) {
                    Val::I(b) => b,
                    _ => panic!("gep base"),
                };
                let mut off = 0i64;
                let mut cur = t;
                let mut first = true;
                while self.eat(",") {
                    let it = self.ty();
                    let ix = match self.konst(&it) {
                        Val::I(x) => sext64(x, it.bits()),
                        _ => panic!("gep idx"),
                    };
                    if first {
                        off += ix * cur.size() as i64;
                        first = false;
                    } else {
                        let (o, t) = cur.field(ix as u64);
                        off += o as i64;
                        cur = t;
                    }
                }
                self.expect(")");
                Val::I(base.wrapping_add(off as u64))
            }
            "sub" | "add" => {
                while !self.eat("(") {
                    self.word();
                }
                let t = self.ty();
                let a = self.konst(&t);
                self.expect(",");
                let t2 = self.ty();
                let b = self.konst(&t2);
                self.expect(")");
                match (a, b) {
                    (Val::I(a), Val::I(b)) => Val::I(if w == "sub" { a.wrapping_sub(b) } else { a.wrapping_add(b) } & low(t.bits())),
                    _ => panic!("const expr"),
                }
            }
            "" => panic!("constant at `{}`", &self.s[self.i..(self.i + 80).min(self.s.len())]),
            _ => {
                // number
                match ty {
                    Ty::F64 => {
                        if let Some(h) = w.strip_prefix("0x").or(w.strip_prefix("f0x")) {
                            Val::I(u64::from_str_radix(h, 16).unwrap())
                        } else {
                            let v = match w {
                                "+qnan" => f64::NAN,
                                "-qnan" => -f64::NAN,
                                "+inf" => f64::INFINITY,
                                "-inf" => f64::NEG_INFINITY,
                                _ => w.parse::<f64>().unwrap_or_else(|_| panic!("double {}", w)),
                            };
                            Val::I(v.to_bits())
                        }
                    }
                    Ty::F32 => {
                        if let Some(h) = w.strip_prefix("f0x") {
                            Val::I(u64::from_str_radix(h, 16).unwrap())
                        } else if let Some(h) = w.strip_prefix("0x") {
                            Val::I((f64::from_bits(u64::from_str_radix(h, 16).unwrap()) as f32).to_bits() as u64)
                        } else {
                            let v = match w {
                                "+qnan" => f32::NAN,
                                "-qnan" => -f32::NAN,
                                "+inf" => f32::INFINITY,
                                "-inf" => f32::NEG_INFINITY,
                                _ => w.parse::<f64>().unwrap_or_else(|_| panic!("float {}", w)) as f32,
                            };
                            Val::I(v.to_bits() as u64)
                        }
                    }
                    Ty::I(n) => {
                        let v: i128 = match w.parse::<i128>() {
                            Ok(v) => v,
                            Err(_) => w.parse::<u128>().unwrap_or_else(|_| panic!("int {}", w)) as i128,
                        };
                        if *n > 64 {
                            Val::W(Box::new(v as u128 & crate::term::mask(*n)))
                        } else {
                            Val::I(v as u64 & low(*n))
                        }
                    }
                    _ => panic!("constant `{}` of {:?} at `{}`", w, ty, &self.s[self.i.saturating_sub(60)..(self.i + 60).min(self.s.len())]),
                }
            }
        }
    }
    fn cstr(&mut self) -> Vec<u8> {
        self.i += 2;
        let b = self.b();
        let mut v = vec![];
        loop {
            let c = b[self.i];
            self.i += 1;
            match c {
                b'"' => break,
                b'\\' => {
                    if b[self.i] == b'\\' {
                        v.push(b'\\');
                        self.i += 1;
                    } else {
                        let h = |c: u8| (c as char).to_digit(16).unwrap() as u8;
                        v.push(h(b[self.i]) << 4 | h(b[self.i + 1]));
                        self.i += 2;
                    }
                }
                c => v.push(c),
            }
        }
        v
    }
    fn init(&mut self, ty: &Ty, out: &mut [u8], off: usize) {
        self.ws();
        if self.is("c\"") {
            let v = self.cstr();
            out[off..off + v.len()].copy_from_slice(&v);
            return;
        }
        let v = self.konst(ty);
        put(ty, &v, out, off);
    }
}
fn put(ty: &Ty, v: &Val, out: &mut [u8], off: usize) {
    match (ty, v) {
        (_, Val::U) => {}
        (Ty::Arr(..) | Ty::Struct(..) | Ty::Vec(..), Val::A(a)) => {
            for (i, x) in a.iter().enumerate() {
                let (o, t) = ty.field(i as u64);
                put(&t, x, out, off + o as usize);
            }
        }
        (_, Val::I(x)) => {
            let n = ty.size() as usize;
            out[off..off + n].copy_from_slice(&x.to_le_bytes()[..n]);
        }
        (_, Val::W(x)) => {
            let n = ty.size() as usize;
            out[off..off + n].copy_from_slice(&x.to_le_bytes()[..n]);
        }
        _ => panic!("init {:?} {:?}", ty, v),
    }
}
pub fn zero_of(ty: &Ty, undef: bool) -> Val {
    match ty {
        Ty::Arr(n, t) | Ty::Vec(n, t) => Val::A(vec![zero_of(t, undef); *n as usize].into()),
        Ty::Struct(f, _) => Val::A(f.iter().map(|t| zero_of(t, undef)).collect::<Vec<_>>().into()),
        _ if undef => Val::U,
        Ty::I(n) if *n > 64 => Val::W(Box::new(0)),
        _ => Val::I(0),
    }
}
pub fn low(n: u32) -> u64 {
    if n >= 64 {
        u64::MAX
    } else {
        (1u64 << n) - 1
    }
}
pub fn sext64(v: u64, n: u32) -> i64 {
    if n >= 64 {
        return v as i64;
    }
    ((v << (64 - n)) as i64) >> (64 - n)
}

struct FnParser<'a> {
    p: P<'a>,
    regs: HashMap<&'static str, u32>,
    blocks: HashMap<&'static str, u32>,
}
impl<'a> FnParser<'a> {
    fn reg(&mut self, n: &'static str) -> u32 {
        let k = self.regs.len() as u32;
        *self.regs.entry(n).or_insert(k)
    }
    fn blk(&mut self, n: &'static str) -> u32 {
        let k = self.blocks.len() as u32;
        *self.blocks.entry(n).or_insert(k)
    }
    fn lname(&mut self) -> &'static str {
        // at '%'
        self.p.ws();
        assert!(self.p.peek() == b'%', "local at `{}`", &self.p.s[self.p.i..(self.p.i + 60).min(self.p.s.len())]);
        self.p.i += 1;
        if self.p.peek() == b'"' {
            let st = self.p.i;
            let e = self.p.s[st + 1..].find('"').unwrap() + st + 2;
            self.p.i = e;
            &self.p.s[st..e]
        } else {
            self.p.word()
        }
    }
    fn opd(&mut self, ty: &Ty) -> Opd {
        self.p.ws();
        if self.p.peek() == b'%' {
            let n = self.lname();
            Opd::R(self.reg(n))
        } else {
            Opd::C(self.p.konst(ty))
        }
    }
    fn topd(&mut self) -> (Ty, Opd) {
        let t = self.p.ty();
        let o = self.opd(&t);
        (t, o)
    }
    fn label(&mut self) -> u32 {
        self.p.expect("label");
        let n = self.lname();
        self.blk(n)
    }
    /// skip parameter / return attributes
    fn attrs(&mut self) {
        loop {
            self.p.ws();
            let s = self.p.i;
            if self.p.peek() == b'#' {
                self.p.i += 1;
                self.p.word();
                continue;
            }
            let w = self.p.word();
            match w {
                "noalias" | "nofree" | "noundef" | "nonnull" | "readonly" | "writeonly" | "readnone" | "zeroext" | "signext" | "nocapture" | "dead_on_unwind" | "writable" | "returned" | "inreg" | "immarg" | "nest" | "swiftself"
                | "noext" | "allocalign" | "allocptr" | "nocallback" | "dead_on_return" => {
                    self.parens();
                }
                "align" => {
                    self.p.ws();
                    if self.p.peek() == b'(' {
                        self.parens()
                    } else {
                        self.p.word();
                    }
                }
                "dereferenceable" | "dereferenceable_or_null" | "sret" | "byval" | "captures" | "range" | "initializes" | "elementtype" | "nofpclass" | "memory" => self.parens(),
                _ => {
                    self.p.i = s;
                    return;
                }
            }
        }
    }
    fn parens(&mut self) {
        if self.p.peek() != b'(' {
            return;
        }
        let mut d = 0;
        loop {
            match self.p.peek() {
                b'(' => d += 1,
                b')' => {
                    d -= 1;
                    if d == 0 {
                        self.p.i += 1;
                        return;
                    }
                }
                0 => panic!("parens"),
                _ => {}
            }
            self.p.i += 1;
        }
    }
    fn parse(m: &Module, id: u32, text: &'static str) -> Func {
        let mut lines = text.lines();
        let head = lines.next().unwrap();
        let mut f = FnParser { p: P { s: head, i: 0, m }, regs: HashMap::new(), blocks: HashMap::new() };
        let at = head.find('@').unwrap();
        f.p.i = at;
        let name = f.p.gname();
        f.p.expect("(");
        let mut params = vec![];
        let mut auto = 0i64;
        if !f.p.eat(")") {
            loop {
                if f.p.eat("...") {
                    f.p.expect(")");
                    break;
                }
                let _t = f.p.ty();
                f.attrs();
                f.p.ws();
                if f.p.peek() == b'%' {
                    let n = f.lname();
                    let r = f.reg(n);
                    params.push(r);
                    if !n.bytes().all(|c| c.is_ascii_digit()) {
                        auto -= 1;
                    }
                } else {
                    let n: &'static str = Box::leak(format!("{}", auto).into_boxed_str());
                    let r = f.reg(n);
                    params.push(r);
                }
                auto += 1;
                if f.p.eat(",") {
                    continue;
                }
                f.p.expect(")");
                break;
            }
        }
        let mut blocks: Vec<Option<Block>> = vec![];
        let mut cur: Option<(u32, Block)> = None;
        let mut it = lines.peekable();
        while let Some(line) = it.next() {
            if line.is_empty() || line.starts_with('}') {
                continue;
            }
            if !line.starts_with(' ') {
                // label
                if line.starts_with(';') {
                    continue;
                }
                let e = if line.starts_with('"') { line[1..].find('"').unwrap() + 2 } else { line.find(':').unwrap() };
                let b = f.blk(&line[..e]);
                if let Some((k, bl)) = cur.take() {
                    set(&mut blocks, k, bl);
                }
                cur = Some((b, Block { phis: vec![], insts: vec![] }));
                continue;
            }
            if cur.is_none() {
                // entry block: unnamed number = next auto
                let n: &'static str = Box::leak(format!("{}", auto).into_boxed_str());
                let b = f.blk(n);
                assert!(b == 0 || !f.blocks.is_empty());
                cur = Some((b, Block { phis: vec![], insts: vec![] }));
            }
            f.p.s = line;
            f.p.i = 0;
            // multi-line constructs
            let mut extra: Vec<&'static str> = vec![];
            let tl = line.trim_start();
            let body = match tl.find(" = ") {
                Some(k) if tl.starts_with('%') => &tl[k + 3..],
                _ => tl,
            };
            if body.starts_with("#dbg") {
                continue;
            }
            if body.starts_with("invoke ") {
                extra.push(it.next().unwrap());
            } else if body.starts_with("landingpad ") {
                while let Some(l) = it.peek() {
                    if l.starts_with("          ") {
                        extra.push(it.next().unwrap());
                    } else {
                        break;
                    }
                }
            } else if body.starts_with("switch ") {
                if !line.trim_end().ends_with(']') {
                    loop {
                        let l = it.next().unwrap();
                        extra.push(l);
                        if l.trim_start().starts_with(']') {
                            break;
                        }
                    }
                }
            }
            f.inst(&mut cur.as_mut().unwrap().1, &extra);
        }
        if let Some((k, bl)) = cur.take() {
            set(&mut blocks, k, bl);
        }
        let entry_first = 0u32; // first block created is the entry
        let _ = entry_first;
        let nregs = f.regs.len() as u32;
        Func { name, id, params, blocks: blocks.into_iter().map(|b| b.unwrap_or(Block { phis: vec![], insts: vec![Inst::Unreachable] })).collect(), nregs }
    }
    fn inst(&mut self, b: &mut Block, extra: &[&'static str]) {
        self.p.ws();
        let mut d = NOREG;
        if self.p.peek() == b'%' {
            let n = self.lname();
            d = self.reg(n);
            self.p.expect("=");
        }
        let mut op = self.p.word();
        while matches!(op, "tail" | "musttail" | "notail") {
            op = self.p.word();
        }
        let ins = match op {
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "shl" | "lshr" | "ashr" | "and" | "or" | "xor" => {
                while matches!(self.p.peek_word(), "nuw" | "nsw" | "exact" | "disjoint") {
                    self.p.word();
                }
                let t = self.p.ty();
                let a = self.opd(&t);
                self.p.expect(",");
                let bb = self.opd(&t);
                let (lanes, w) = lanes_w(&t);
                let o = match op {
                    "add" => BinOp::Add,
                    "sub" => BinOp::Sub,
                    "mul" => BinOp::Mul,
                    "udiv" => BinOp::UDiv,
                    "sdiv" => BinOp::SDiv,
                    "urem" => BinOp::URem,
                    "srem" => BinOp::SRem,
                    "shl" => BinOp::Shl,
                    "lshr" => BinOp::LShr,
                    "ashr" => BinOp::AShr,
                    "and" => BinOp::And,
                    "or" => BinOp::Or,
                    _ => BinOp::Xor,
                };
                Inst::Bin { d, op: o, w, lanes, a, b: bb }
            }
            "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                self.fmf();
                let t = self.p.ty();
                assert!(t == Ty::F64, "float type {:?} in {}", t, self.p.s);
                let a = self.opd(&t);
                self.p.expect(",");
                let bb = self.opd(&t);
                let o = match op {
                    "fadd" => FOp::Add,
                    "fsub" => FOp::Sub,
                    "fmul" => FOp::Mul,
                    "fdiv" => FOp::Div,
                    _ => FOp::Rem,
                };
                Inst::FBin { d, op: o, a, b: bb }
            }
            "fneg" => {
                self.fmf();
                let (t, a) = self.topd();
                assert!(t == Ty::F64);
                Inst::FNeg { d, a }
            }
            "icmp" => {
                if self.p.peek_word() == "samesign" {
                    self.p.word();
                }
                let p = match self.p.word() {
                    "eq" => Pred::Eq,
                    "ne" => Pred::Ne,
                    "ugt" => Pred::Ugt,
                    "uge" => Pred::Uge,
                    "ult" => Pred::Ult,
                    "ule" => Pred::Ule,
                    "sgt" => Pred::Sgt,
                    "sge" => Pred::Sge,
                    "slt" => Pred::Slt,
                    "sle" => Pred::Sle,
                    x => panic!("icmp {}", x),
                };
                let t = self.p.ty();
                let a = self.opd(&t);
                self.p.expect(",");
                let bb = self.opd(&t);
                let (lanes, w) = lanes_w(&t);
                Inst::ICmp { d, p, w, lanes, a, b: bb }
            }
            "fcmp" => {
                let mut w = self.p.word();
                while matches!(w, "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc") {
                    w = self.p.word();
                }
                let p = match w {
                    "false" => 0,
                    "oeq" => 1,
                    "ogt" => 2,
                    "oge" => 3,
                    "olt" => 4,
                    "ole" => 5,
                    "one" => 6,
                    "ord" => 7,
                    "uno" => 8,
                    "ueq" => 9,
                    "ugt" => 10,
                    "uge" => 11,
                    "ult" => 12,
                    "ule" => 13,
                    "une" => 14,
                    _ => 15,
                };
                let t = self.p.ty();
                assert!(t == Ty::F64);
                let a = self.opd(&t);
                self.p.expect(",");
                let bb = self.opd(&t);
                Inst::FCmp { d, p, a, b: bb }
            }
            "trunc" | "zext" | "sext" | "bitcast" | "ptrtoint" | "inttoptr" | "sitofp" | "uitofp" | "fptosi" | "fptoui" | "fpext" | "fptrunc" => {
                while matches!(self.p.peek_word(), "nuw" | "nsw" | "nneg") {
                    self.p.word();
                }
                let (from, a) = self.topd();
                self.p.expect("to");
                let to = self.p.ty();
                let o = match op {
                    "trunc" => CastOp::Trunc,
                    "zext" => CastOp::Zext,
                    "sext" => CastOp::Sext,
                    "bitcast" => CastOp::Bit,
                    "ptrtoint" => CastOp::PtrToInt,
                    "inttoptr" => CastOp::IntToPtr,
                    "sitofp" => CastOp::SiToFp,
                    "uitofp" => CastOp::UiToFp,
                    "fptosi" => CastOp::FpToSi,
                    "fptoui" => CastOp::FpToUi,
                    "fpext" => CastOp::FpExt,
                    _ => CastOp::FpTrunc,
                };
                Inst::Cast { d, op: o, from, to, a }
            }
            "getelementptr" => {
                while matches!(self.p.peek_word(), "inbounds" | "nuw" | "nusw" | "inrange") {
                    self.p.word();
                }
                let mut cur = self.p.ty();
                self.p.expect(",");
                let (bt, base) = self.topd();
                assert!(bt == Ty::Ptr, "vector gep");
                let mut off = 0i64;
                let mut idx = vec![];
                let mut first = true;
                while self.p.eat(",") {
                    self.p.ws();
                    if self.p.peek() == b'!' {
                        break;
                    }
                    let (it, o) = self.topd();
                    let w = it.bits();
                    if first {
                        first = false;
                        let sc = cur.size() as i64;
                        match o {
                            Opd::C(Val::I(k)) => off += sext64(k, w).wrapping_mul(sc),
                            o => idx.push((o, sc, w)),
                        }
                    } else {
                        match (&cur, o) {
                            (_, Opd::C(Val::I(k))) => {
                                let k = sext64(k, w);
                                match &cur {
                                    Ty::Struct(..) => {
                                        let (fo, t) = cur.field(k as u64);
                                        off += fo as i64;
                                        cur = t;
                                    }
                                    Ty::Arr(_, t) | Ty::Vec(_, t) => {
                                        off += k * t.size() as i64;
                                        cur = (**t).clone();
                                    }
                                    _ => panic!("gep"),
                                }
                            }
                            (Ty::Arr(_, t) | Ty::Vec(_, t), o) => {
                                idx.push((o, t.size() as i64, w));
                                cur = (**t).clone();
                            }
                            _ => panic!("gep"),
                        }
                    }
                }
                Inst::Gep { d, base, off, idx }
            }
            "load" => {
                while matches!(self.p.peek_word(), "atomic" | "volatile") {
                    self.p.word();
                }
                let ty = self.p.ty();
                self.p.expect(",");
                let (_, p) = self.topd();
                Inst::Load { d, ty, p }
            }
            "store" => {
                while matches!(self.p.peek_word(), "atomic" | "volatile") {
                    self.p.word();
                }
                let (ty, v) = self.topd();
                self.p.expect(",");
                let (_, p) = self.topd();
                Inst::Store { ty, v, p }
            }
            "alloca" => {
                let ty = self.p.ty();
                let mut n = Opd::C(Val::I(1));
                if self.p.eat(",") {
                    self.p.ws();
                    if !self.p.is("align") && self.p.peek() != b'!' {
                        n = self.topd().1;
                    }
                }
                Inst::Alloca { d, size: ty.size(), n }
            }
            "call" | "invoke" => {
                self.fmf();
                while matches!(self.p.peek_word(), "fastcc" | "ccc" | "coldcc" | "cc" | "preserve_mostcc" | "preserve_allcc") {
                    self.p.word();
                }
                self.attrs();
                let ret = self.p.ty();
                self.p.ws();
                if self.p.peek() == b'(' {
                    self.parens(); // function type of a vararg call
                    self.p.ws();
                }
                let callee = match self.p.peek() {
                    b'@' => {
                        let n = self.p.gname();
                        Callee::Fn(*self.p.m.fn_ids.get(n).unwrap_or_else(|| panic!("call @{}", n)))
                    }
                    b'%' => {
                        let n = self.lname();
                        Callee::Ind(Opd::R(self.reg(n)))
                    }
                    _ => {
                        if self.p.is("asm") {
                            let st = self.p.i;
                            // asm flags "..." , "..."
                            let q1 = self.p.s[self.p.i..].find('"').unwrap() + self.p.i;
                            let e1 = self.p.s[q1 + 1..].find('"').unwrap() + q1 + 1;
                            let q2 = self.p.s[e1 + 1..].find('"').unwrap() + e1 + 1;
                            let e2 = self.p.s[q2 + 1..].find('"').unwrap() + q2 + 1;
                            self.p.i = e2 + 1;
                            Callee::Asm(self.p.s[st..e2].into())
                        } else {
                            Callee::Ind(Opd::C(self.p.konst(&Ty::Ptr)))
                        }
                    }
                };
                self.p.expect("(");
                let mut args = vec![];
                let mut tys = vec![];
                if !self.p.eat(")") {
                    loop {
                        let t = self.p.ty();
                        self.attrs();
                        if t == Ty::Meta {
                            // skip metadata operand
                            while !matches!(self.p.peek(), b',' | b')') {
                                if self.p.peek() == b'(' {
                                    self.parens();
                                } else {
                                    self.p.i += 1;
                                }
                            }
                            args.push(Opd::C(Val::I(0)));
                        } else {
                            let o = self.opd(&t);
                            args.push(o);
                        }
                        tys.push(t);
                        if self.p.eat(",") {
                            continue;
                        }
                        self.p.expect(")");
                        break;
                    }
                }
                let mut inv = None;
                if op == "invoke" {
                    self.p.s = extra[0];
                    self.p.i = 0;
                    self.p.expect("to");
                    let n = self.label();
                    self.p.expect("unwind");
                    let u = self.label();
                    inv = Some((n, u));
                }
                if let Callee::Fn(id) = &callee {
                    let n = self.p.m.fns[*id as usize].name;
                    if n.starts_with("llvm.lifetime") || n.starts_with("llvm.assume") || n.starts_with("llvm.experimental.noalias") || n.starts_with("llvm.dbg") {
                        return;
                    }
                }
                let d = if ret == Ty::Void { NOREG } else { d };
                Inst::Call(Box::new(Call { d, callee, args, tys, ret, inv }))
            }
            "br" => {
                if self.p.peek_word() == "label" {
                    Inst::Br(self.label())
                } else {
                    let (_, c) = self.topd();
                    self.p.expect(",");
                    let a = self.label();
                    self.p.expect(",");
                    let b2 = self.label();
                    Inst::CondBr(c, a, b2)
                }
            }
            "switch" => {
                let (t, v) = self.topd();
                self.p.expect(",");
                let def = self.label();
                let w = t.bits();
                let mut cases = vec![];
                for l in extra {
                    let l2 = l.trim_start();
                    if l2.starts_with(']') {
                        break;
                    }
                    self.p.s = l;
                    self.p.i = 0;
                    let t = self.p.ty();
                    let k = match self.p.konst(&t) {
                        Val::I(k) => k as u128,
                        Val::W(k) => *k,
                        o => panic!("switch case {:?} {}", o, l),
                    };
                    self.p.expect(",");
                    cases.push((k, self.label()));
                }
                Inst::Switch { w, v, def, cases }
            }
            "ret" => {
                let t = self.p.ty();
                if t == Ty::Void {
                    Inst::Ret(None)
                } else {
                    Inst::Ret(Some(self.opd(&t)))
                }
            }
            "resume" => Inst::Resume(self.topd().1),
            "unreachable" => Inst::Unreachable,
            "phi" => {
                self.fmf();
                let t = self.p.ty();
                let mut v = vec![];
                loop {
                    self.p.expect("[");
                    let o = self.opd(&t);
                    self.p.expect(",");
                    let n = self.lname();
                    let bl = self.blk(n);
                    self.p.expect("]");
                    v.push((bl, o));
                    if self.p.eat(",") {
                        self.p.ws();
                        if self.p.peek() == b'!' {
                            break;
                        }
                        continue;
                    }
                    break;
                }
                b.phis.push((d, v));
                return;
            }
            "select" => {
                self.fmf();
                let (ct, c) = self.topd();
                self.p.expect(",");
                let (t, a) = self.topd();
                self.p.expect(",");
                let (_, bb) = self.topd();
                let lanes = match ct {
                    Ty::Vec(n, _) => n as u32,
                    _ => 0,
                };
                Inst::Select { d, lanes, c, a, b: bb, ty: t }
            }
            "extractvalue" => {
                let (_, a) = self.topd();
                let mut idx = vec![];
                while self.p.eat(",") {
                    self.p.ws();
                    if self.p.peek() == b'!' {
                        break;
                    }
                    idx.push(self.p.num() as u32);
                }
                Inst::ExtractValue { d, a, idx }
            }
            "insertvalue" => {
                let (ty, a) = self.topd();
                self.p.expect(",");
                let (_, v) = self.topd();
                let mut idx = vec![];
                while self.p.eat(",") {
                    self.p.ws();
                    if self.p.peek() == b'!' {
                        break;
                    }
                    idx.push(self.p.num() as u32);
                }
                Inst::InsertValue { d, ty, a, v, idx }
            }
            "extractelement" => {
                let (_, a) = self.topd();
                self.p.expect(",");
                let (_, i) = self.topd();
                Inst::ExtractElement { d, a, i }
            }
            "insertelement" => {
                let (t, a) = self.topd();
                self.p.expect(",");
                let (_, v) = self.topd();
                self.p.expect(",");
                let (_, i) = self.topd();
                let n = match t {
                    Ty::Vec(n, _) => n as u32,
                    _ => panic!(),
                };
                Inst::InsertElement { d, n, a, v, i }
            }
            "shufflevector" => {
                let (t, a) = self.topd();
                self.p.expect(",");
                let (_, bb) = self.topd();
                self.p.expect(",");
                let mt = self.p.ty();
                let m = self.p.konst(&mt);
                let n = match t {
                    Ty::Vec(n, _) => n as u32,
                    _ => panic!(),
                };
                let mask = match m {
                    Val::A(v) => v.iter().map(|x| if let Val::I(k) = x { *k as i32 } else { -1 }).collect(),
                    _ => panic!(),
                };
                Inst::Shuffle { d, a, b: bb, n, mask }
            }
            "freeze" => {
                let (ty, a) = self.topd();
                Inst::Freeze { d, a, ty }
            }
            "atomicrmw" => {
                if self.p.peek_word() == "volatile" {
                    self.p.word();
                }
                let o = match self.p.word() {
                    "xchg" => Rmw::Xchg,
                    "add" => Rmw::Add,
                    "sub" => Rmw::Sub,
                    "and" => Rmw::And,
                    "or" => Rmw::Or,
                    "xor" => Rmw::Xor,
                    "umax" => Rmw::Umax,
                    "umin" => Rmw::Umin,
                    "max" => Rmw::Max,
                    "min" => Rmw::Min,
                    "nand" => Rmw::Nand,
                    x => panic!("atomicrmw {}", x),
                };
                let (_, p) = self.topd();
                self.p.expect(",");
                let (ty, v) = self.topd();
                Inst::Rmw { d, op: o, ty, p, v }
            }
            "cmpxchg" => {
                while matches!(self.p.peek_word(), "weak" | "volatile") {
                    self.p.word();
                }
                let (_, p) = self.topd();
                self.p.expect(",");
                let (ty, c) = self.topd();
                self.p.expect(",");
                let (_, n) = self.topd();
                Inst::CmpXchg { d, ty, p, c, n }
            }
            "fence" => Inst::Nop,
            "landingpad" => {
                let mut sel = 0;
                for l in extra {
                    let l = l.trim();
                    if l.starts_with("catch") {
                        sel = 1;
                    } else if l.starts_with("filter") {
                        sel = -1;
                    }
                }
                Inst::LandingPad { d, sel }
            }
            x => panic!("instruction `{}` in `{}`", x, self.p.s),
        };
        b.insts.push(ins);
    }
    fn fmf(&mut self) {
        while matches!(self.p.peek_word(), "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc") {
            self.p.word();
        }
    }
}
fn set(v: &mut Vec<Option<Block>>, k: u32, b: Block) {
    while v.len() <= k as usize {
        v.push(None);
    }
    v[k as usize] = Some(b);
}
fn lanes_w(t: &Ty) -> (u32, u32) {
    match t {
        Ty::Vec(n, t) => (*n as u32, t.bits()),
        t => (0, t.bits()),
    }
}
