//! Copy-on-write object memory. An address is (object id << 32) + offset.

use crate::expr::X;
use std::rc::Rc;

pub const PAGE: usize = 512;
const FLAT_MAX: usize = 4096;
const CHUNK: usize = 64;

#[derive(Clone)]
pub struct Page {
    pub b: [u8; PAGE],
    pub s: Option<Box<[X]>>,
}

#[derive(Clone)]
pub enum Data {
    Flat(Vec<u8>, Option<Box<[X]>>),
    Paged(Vec<Option<Rc<Page>>>),
}

#[derive(Clone)]
pub struct Obj {
    pub size: u64,
    pub data: Data,
}

impl Obj {
    pub fn zeroed(size: u64) -> Obj {
        let data = if size as usize <= FLAT_MAX {
            Data::Flat(vec![0; size as usize], None)
        } else {
            Data::Paged(vec![None; (size as usize).div_ceil(PAGE)])
        };
        Obj { size, data }
    }
    pub fn from_bytes(b: Vec<u8>) -> Obj {
        Obj { size: b.len() as u64, data: Data::Flat(b, None) }
    }
    /// concrete bytes only; None when any byte is symbolic
    pub fn read(&self, off: usize, n: usize) -> Option<u128> {
        let mut r = [0u8; 16];
        match &self.data {
            Data::Flat(b, s) => {
                if let Some(s) = s {
                    if s[off..off + n].iter().any(|x| *x != 0) {
                        return None;
                    }
                }
                if n == 8 {
                    return Some(u64::from_le_bytes(b[off..off + 8].try_into().unwrap()) as u128);
                }
                r[..n].copy_from_slice(&b[off..off + n]);
            }
            Data::Paged(_) => {
                for i in 0..n {
                    let (v, x) = self.byte(off + i);
                    if x != 0 {
                        return None;
                    }
                    r[i] = v;
                }
            }
        }
        Some(u128::from_le_bytes(r))
    }
    pub fn byte(&self, off: usize) -> (u8, X) {
        match &self.data {
            Data::Flat(b, s) => (b[off], s.as_ref().map(|s| s[off]).unwrap_or(0)),
            Data::Paged(ps) => match &ps[off / PAGE] {
                None => (0, 0),
                Some(p) => (p.b[off % PAGE], p.s.as_ref().map(|s| s[off % PAGE]).unwrap_or(0)),
            },
        }
    }
    pub fn set(&mut self, off: usize, v: u8, x: X) {
        match &mut self.data {
            Data::Flat(b, s) => {
                b[off] = v;
                match s {
                    Some(s) => s[off] = x,
                    None if x != 0 => {
                        let mut n = vec![0; b.len()].into_boxed_slice();
                        n[off] = x;
                        *s = Some(n);
                    }
                    None => {}
                }
            }
            Data::Paged(ps) => {
                let p = &mut ps[off / PAGE];
                if p.is_none() {
                    if v == 0 && x == 0 {
                        return;
                    }
                    *p = Some(Rc::new(Page { b: [0; PAGE], s: None }));
                }
                let p = Rc::make_mut(p.as_mut().unwrap());
                p.b[off % PAGE] = v;
                match &mut p.s {
                    Some(s) => s[off % PAGE] = x,
                    None if x != 0 => {
                        let mut n = vec![0; PAGE].into_boxed_slice();
                        n[off % PAGE] = x;
                        p.s = Some(n);
                    }
                    None => {}
                }
            }
        }
    }
    pub fn write(&mut self, off: usize, v: &[u8]) {
        if let Data::Flat(b, s) = &mut self.data {
            b[off..off + v.len()].copy_from_slice(v);
            if let Some(s) = s {
                s[off..off + v.len()].fill(0);
            }
            return;
        }
        for (i, c) in v.iter().enumerate() {
            self.set(off + i, *c, 0);
        }
    }
    /// bytes and symbolic cells of a range
    pub fn slice(&self, off: usize, n: usize) -> (Vec<u8>, Option<Vec<X>>) {
        match &self.data {
            Data::Flat(b, s) => (
                b[off..off + n].to_vec(),
                s.as_ref().and_then(|s| {
                    let t = &s[off..off + n];
                    if t.iter().any(|x| *x != 0) {
                        Some(t.to_vec())
                    } else {
                        None
                    }
                }),
            ),
            _ => {
                let mut b = vec![0; n];
                let mut sy: Option<Vec<X>> = None;
                let Data::Paged(ps) = &self.data else { unreachable!() };
                let mut i = 0;
                while i < n {
                    let o = off + i;
                    let k = (PAGE - o % PAGE).min(n - i);
                    if let Some(p) = &ps[o / PAGE] {
                        b[i..i + k].copy_from_slice(&p.b[o % PAGE..o % PAGE + k]);
                        if let Some(s) = &p.s {
                            if s[o % PAGE..o % PAGE + k].iter().any(|x| *x != 0) {
                                let v = sy.get_or_insert_with(|| vec![0; n]);
                                v[i..i + k].copy_from_slice(&s[o % PAGE..o % PAGE + k]);
                            }
                        }
                    }
                    i += k;
                }
                (b, sy)
            }
        }
    }
    pub fn put(&mut self, off: usize, b: &[u8], s: &Option<Vec<X>>) {
        match s {
            None => self.write(off, b),
            Some(s) => {
                for i in 0..b.len() {
                    self.set(off + i, b[i], s[i]);
                }
            }
        }
    }
}

type Chunk = [Option<Rc<Obj>>; CHUNK];

#[derive(Clone)]
pub struct Mem {
    base: u64, // first dynamic object id
    table: Vec<Rc<Chunk>>,
    free: Vec<u32>,
    next: u32,
    over: Vec<(u64, Rc<Obj>)>, // written globals
    pub live: u64,
}

impl Mem {
    pub fn new(nglobals: usize) -> Mem {
        Mem { base: nglobals as u64 + 1, table: vec![], free: vec![], next: 0, over: vec![], live: 0 }
    }
    pub fn alloc(&mut self, o: Obj) -> u64 {
        let i = match self.free.pop() {
            Some(i) => i,
            None => {
                let i = self.next;
                self.next += 1;
                if i as usize / CHUNK >= self.table.len() {
                    self.table.push(Rc::new(std::array::from_fn(|_| None)));
                }
                i
            }
        };
        Rc::make_mut(&mut self.table[i as usize / CHUNK])[i as usize % CHUNK] = Some(Rc::new(o));
        self.live += 1;
        (self.base + i as u64) << 32
    }
    pub fn free(&mut self, addr: u64) -> Result<(), String> {
        let id = addr >> 32;
        if id < self.base || addr as u32 != 0 {
            return Err(format!("free of {addr:#x}"));
        }
        let i = (id - self.base) as usize;
        if i / CHUNK >= self.table.len() || self.table[i / CHUNK][i % CHUNK].is_none() {
            return Err(format!("double free of {addr:#x}"));
        }
        Rc::make_mut(&mut self.table[i / CHUNK])[i % CHUNK] = None;
        self.free.push(i as u32);
        self.live -= 1;
        Ok(())
    }
    pub fn obj(&self, id: u64) -> Option<&Rc<Obj>> {
        if id >= self.base {
            let i = (id - self.base) as usize;
            self.table.get(i / CHUNK).and_then(|c| c[i % CHUNK].as_ref())
        } else {
            self.over.iter().find(|(g, _)| *g == id).map(|(_, o)| o)
        }
    }
    pub fn obj_mut(&mut self, id: u64) -> Option<&mut Obj> {
        if id >= self.base {
            let i = (id - self.base) as usize;
            let c = self.table.get_mut(i / CHUNK)?;
            Rc::make_mut(c)[i % CHUNK].as_mut().map(Rc::make_mut)
        } else {
            self.over.iter_mut().find(|(g, _)| *g == id).map(|(_, o)| Rc::make_mut(o))
        }
    }
    pub fn is_global(&self, id: u64) -> bool {
        id < self.base && id > 0
    }
    pub fn overlay(&mut self, id: u64, o: Rc<Obj>) {
        self.over.push((id, o));
    }
}
