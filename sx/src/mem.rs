//! Object memory: 64-bit address = object id << 32 | offset.
use crate::ir::*;
use crate::term::*;
use std::collections::BTreeMap;
use std::rc::Rc;

#[derive(Clone)]
pub struct Obj {
    pub data: Vec<u8>,
    pub sym: BTreeMap<u32, (u8, T)>,
    pub ro: bool,
}
impl Obj {
    pub fn zeroed(n: usize) -> Obj {
        Obj { data: vec![0; n], sym: BTreeMap::new(), ro: false }
    }
    /// does [off, off+n) touch symbolic bytes?
    #[inline]
    pub fn has_sym(&self, off: u32, n: u32) -> bool {
        if self.sym.is_empty() {
            return false;
        }
        match self.sym.range(..off + n).next_back() {
            Some((o, (l, _))) => {
                if o + *l as u32 > off {
                    return true;
                }
                false
            }
            None => false,
        }
    }
    /// one byte as a term / value
    pub fn byte(&self, off: u32) -> Val {
        if let Some((o, (l, t))) = self.sym.range(..=off).next_back() {
            if o + *l as u32 > off {
                let k = off - o;
                return vterm(extract(tobv(*t, *l), k * 8 + 7, k * 8));
            }
        }
        Val::I(self.data[off as usize] as u64)
    }
    /// remove symbolic coverage of a range, splitting partially covered entries into bytes
    pub fn clear_sym(&mut self, off: u32, n: u32) {
        if !self.has_sym(off, n) {
            return;
        }
        let keys: Vec<u32> = self.sym.range(off.saturating_sub(16)..off + n).map(|(o, _)| *o).collect();
        for k in keys {
            let (l, t) = self.sym[&k];
            let end = k + l as u32;
            if end <= off {
                continue;
            }
            self.sym.remove(&k);
            if k < off || end > off + n {
                for b in k..end {
                    if b < off || b >= off + n {
                        let bt = extract(tobv(t, l), (b - k) * 8 + 7, (b - k) * 8);
                        match as_bvc(bt) {
                            Some(v) => self.data[b as usize] = v as u8,
                            None => {
                                self.sym.insert(b, (1, bt));
                            }
                        }
                    }
                }
            }
        }
    }
}
fn tobv(t: T, l: u8) -> T {
    match sort(t) {
        Sort::Real => rbits(t),
        Sort::Bool => b2bv(t, l as u32 * 8),
        _ => t,
    }
}
pub fn vterm(t: T) -> Val {
    match &node(t).op {
        Op::BvC(v) => {
            if width(t) > 64 {
                Val::W(Box::new(*v))
            } else {
                Val::I(*v as u64)
            }
        }
        Op::True => Val::I(1),
        Op::False => Val::I(0),
        Op::RealC(r) => match r.exact_f64() {
            Some(f) => Val::I(f.to_bits()),
            None => Val::S(t),
        },
        _ => Val::S(t),
    }
}

pub const HEAP_BASE: u32 = 0x0100_0000;
pub const STACK_BASE: u32 = 0x6000_0000;
const PG: u32 = 64;

#[derive(Clone)]
pub struct Page {
    objs: Vec<Option<Rc<Obj>>>,
    live: u32,
}
#[derive(Clone)]
pub struct Mem {
    pages: Vec<Option<Rc<Page>>>,
    pub next: u32,
    pub stack: Vec<Rc<Obj>>,
    pub globals: BTreeMap<u32, Rc<Obj>>,
    pub live: u64,
}
#[derive(Debug, Clone)]
pub enum MemErr {
    Null,
    Oob(&'static str, u64, u64),
    Freed,
    Bad(u64),
    ReadOnly,
}
impl MemErr {
    pub fn msg(&self) -> String {
        match self {
            MemErr::Null => "access through a null or dangling constant pointer".into(),
            MemErr::Oob(k, off, size) => format!("{} out of bounds: offset {} of an object of {} bytes", k, *off as u32 as i32, size),
            MemErr::Freed => "use of freed memory".into(),
            MemErr::Bad(a) => format!("access to invalid address {:#x}", a),
            MemErr::ReadOnly => "write to read-only memory".into(),
        }
    }
}
pub struct Images {
    pub imgs: Vec<Option<Rc<Obj>>>,
}
impl Images {
    pub fn get(&mut self, m: &Module, g: u32) -> &Rc<Obj> {
        let e = &mut self.imgs[g as usize];
        e.get_or_insert_with(|| {
            let i = m.image(g);
            Rc::new(Obj { data: i.data, sym: BTreeMap::new(), ro: i.constant })
        })
    }
}
impl Mem {
    pub fn new() -> Mem {
        Mem { pages: vec![], next: 0, stack: vec![], globals: BTreeMap::new(), live: 0 }
    }
    pub fn alloc(&mut self, size: u64) -> u64 {
        let id = self.next;
        self.next += 1;
        let (p, k) = (id / PG, id % PG);
        while self.pages.len() <= p as usize {
            self.pages.push(None);
        }
        let pg = self.pages[p as usize].get_or_insert_with(|| Rc::new(Page { objs: vec![None; PG as usize], live: 0 }));
        let pg = Rc::make_mut(pg);
        pg.objs[k as usize] = Some(Rc::new(Obj::zeroed(size as usize)));
        pg.live += 1;
        self.live += 1;
        ((HEAP_BASE + id) as u64) << 32
    }
    pub fn free(&mut self, addr: u64) -> Result<(), MemErr> {
        let id = (addr >> 32) as u32;
        if addr as u32 != 0 || id < HEAP_BASE || id >= STACK_BASE {
            return Err(MemErr::Bad(addr));
        }
        let id = id - HEAP_BASE;
        if id >= self.next {
            return Err(MemErr::Bad(addr));
        }
        let (p, k) = (id / PG, id % PG);
        let e = &mut self.pages[p as usize];
        let pg = match e {
            Some(pg) => Rc::make_mut(pg),
            None => return Err(MemErr::Freed),
        };
        if pg.objs[k as usize].take().is_none() {
            return Err(MemErr::Freed);
        }
        pg.live -= 1;
        self.live -= 1;
        if pg.live == 0 && id / PG != self.next / PG {
            *e = None;
        }
        Ok(())
    }
    pub fn alloca(&mut self, size: u64) -> u64 {
        let id = self.stack.len() as u32;
        self.stack.push(Rc::new(Obj::zeroed(size as usize)));
        ((STACK_BASE + id) as u64) << 32
    }
    #[inline]
    pub fn obj<'a>(&'a self, addr: u64, m: &Module, im: &'a mut Images) -> Result<&'a Obj, MemErr> {
        let id = (addr >> 32) as u32;
        if id >= STACK_BASE {
            return match self.stack.get((id - STACK_BASE) as usize) {
                Some(o) => Ok(o),
                None => Err(MemErr::Bad(addr)),
            };
        }
        if id >= HEAP_BASE {
            let id = id - HEAP_BASE;
            if id >= self.next {
                return Err(MemErr::Bad(addr));
            }
            return match &self.pages[(id / PG) as usize] {
                Some(pg) => match &pg.objs[(id % PG) as usize] {
                    Some(o) => Ok(o),
                    None => Err(MemErr::Freed),
                },
                None => Err(MemErr::Freed),
            };
        }
        if id >= FN_BASE {
            return Err(MemErr::Bad(addr));
        }
        if id >= GL_BASE {
            let g = id - GL_BASE;
            if g as usize >= m.globals.len() {
                return Err(MemErr::Bad(addr));
            }
            if let Some(o) = self.globals.get(&g) {
                return Ok(o);
            }
            return Ok(im.get(m, g));
        }
        Err(MemErr::Null)
    }
    #[inline]
    pub fn obj_mut<'a>(&'a mut self, addr: u64, m: &Module, im: &mut Images) -> Result<&'a mut Obj, MemErr> {
        let id = (addr >> 32) as u32;
        if id >= STACK_BASE {
            return match self.stack.get_mut((id - STACK_BASE) as usize) {
                Some(o) => Ok(Rc::make_mut(o)),
                None => Err(MemErr::Bad(addr)),
            };
        }
        if id >= HEAP_BASE {
            let id = id - HEAP_BASE;
            if id >= self.next {
                return Err(MemErr::Bad(addr));
            }
            return match &mut self.pages[(id / PG) as usize] {
                Some(pg) => match &mut Rc::make_mut(pg).objs[(id % PG) as usize] {
                    Some(o) => Ok(Rc::make_mut(o)),
                    None => Err(MemErr::Freed),
                },
                None => Err(MemErr::Freed),
            };
        }
        if id >= FN_BASE {
            return Err(MemErr::Bad(addr));
        }
        if id >= GL_BASE {
            let g = id - GL_BASE;
            if g as usize >= m.globals.len() {
                return Err(MemErr::Bad(addr));
            }
            if !self.globals.contains_key(&g) {
                let o = im.get(m, g).clone();
                if o.ro {
                    return Err(MemErr::ReadOnly);
                }
                self.globals.insert(g, o);
            }
            return Ok(Rc::make_mut(self.globals.get_mut(&g).unwrap()));
        }
        Err(MemErr::Null)
    }
    /// bounds check a range; zero-length ranges are always fine
    #[inline]
    pub fn range(o: &Obj, addr: u64, n: u64, what: &'static str) -> Result<(u32, u32), MemErr> {
        let off = addr as u32 as u64;
        if off + n > o.data.len() as u64 {
            return Err(MemErr::Oob(what, off, o.data.len() as u64));
        }
        Ok((off as u32, n as u32))
    }
}
