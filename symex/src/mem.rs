//! Values and copy-on-write object memory.
use crate::term::{Bx, P};
use crate::z3::Ast;
use std::collections::BTreeMap;
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum V {
    I(u64),
    W(Rc<u128>),
    F(f64),
    F32(f32),
    /// symbolic integer
    S(P),
    /// symbolic Boolean (or 0/1 integer)
    B(Bx),
    /// symbolic f64 (exact real value)
    R(P),
    /// symbolic f64 in IEEE theory
    FP(Ast),
    Agg(Rc<Vec<V>>),
    Undef,
}
impl V {
    pub fn is_sym(&self) -> bool { matches!(self, V::S(_) | V::B(_) | V::R(_) | V::FP(_)) }
}

pub const SHIFT: u32 = 26;
pub const BASE: u64 = 4096;
pub const STACK: u64 = 1 << 61;
pub const FN: u64 = 1 << 60;

#[derive(Clone)]
pub struct Obj {
    pub data: Vec<u8>,
    pub cells: BTreeMap<u32, (u8, V)>,
    pub ro: bool,
}
const CH: usize = 32;
type Chunk = [Option<Rc<Obj>>; CH];

#[derive(Clone)]
pub struct Mem {
    chunks: Vec<Rc<Chunk>>,
    n: usize,
    stack: Vec<Rc<Obj>>,
    pub live: usize,
}

#[derive(Debug)]
pub struct MemErr(pub String);

fn empty() -> Rc<Chunk> { Rc::new(std::array::from_fn(|_| None)) }

impl Mem {
    pub fn new() -> Mem { Mem { chunks: vec![empty()], n: 1, stack: Vec::new(), live: 0 } }
    pub fn alloc(&mut self, size: u64, fill: u8) -> u64 { self.add(Obj { data: vec![fill; size as usize], cells: BTreeMap::new(), ro: false }) }
    pub fn add(&mut self, o: Obj) -> u64 {
        let id = self.n;
        self.n += 1;
        if id / CH >= self.chunks.len() { self.chunks.push(empty()); }
        Rc::make_mut(&mut self.chunks[id / CH])[id % CH] = Some(Rc::new(o));
        self.live += 1;
        ((id as u64) << SHIFT) + BASE
    }
    pub fn push_stack(&mut self, size: u64) -> u64 {
        let id = self.stack.len() as u64;
        self.stack.push(Rc::new(Obj { data: vec![0xAA; size as usize], cells: BTreeMap::new(), ro: false }));
        STACK | (id << SHIFT) | BASE
    }
    pub fn stack_mark(&self) -> usize { self.stack.len() }
    pub fn pop_stack(&mut self, m: usize) { self.stack.truncate(m); }
    fn loc(a: u64) -> (bool, usize, i64) {
        let st = a & STACK != 0;
        let id = ((a & (STACK - 1)) >> SHIFT) as usize;
        (st, id, (a & ((1 << SHIFT) - 1)) as i64 - BASE as i64)
    }
    pub fn obj(&self, a: u64) -> Option<(&Rc<Obj>, i64)> {
        if a & FN != 0 || a >> 62 != 0 { return None; }
        let (st, id, off) = Self::loc(a);
        if st { self.stack.get(id).map(|o| (o, off)) } else { if id >= self.n { return None; } self.chunks[id / CH][id % CH].as_ref().map(|o| (o, off)) }
    }
    fn obj_mut(&mut self, a: u64) -> Option<(&mut Obj, i64)> {
        if a & FN != 0 || a >> 62 != 0 { return None; }
        let (st, id, off) = Self::loc(a);
        if st { self.stack.get_mut(id).map(|o| (Rc::make_mut(o), off)) }
        else {
            if id >= self.n { return None; }
            Rc::make_mut(&mut self.chunks[id / CH])[id % CH].as_mut().map(|o| (Rc::make_mut(o), off))
        }
    }
    fn check(&self, a: u64, n: u64, what: &str) -> Result<usize, MemErr> {
        match self.obj(a) {
            None => Err(MemErr(format!("{} of {} bytes at invalid or freed address {:#x}", what, n, a))),
            Some((o, off)) => if off < 0 || off as u64 + n > o.data.len() as u64 { Err(MemErr(format!("{} of {} bytes at offset {} of a {} byte object", what, n, off, o.data.len()))) } else { Ok(off as usize) },
        }
    }
    pub fn free(&mut self, a: u64) -> Result<(), MemErr> {
        let off = self.check(a, 0, "free")?;
        let (st, id, _) = Self::loc(a);
        if st || off != 0 { return Err(MemErr(format!("free of interior or stack pointer {:#x}", a))); }
        Rc::make_mut(&mut self.chunks[id / CH])[id % CH] = None;
        self.live -= 1;
        Ok(())
    }
    pub fn size_of(&self, a: u64) -> Option<u64> { self.obj(a).map(|(o, _)| o.data.len() as u64) }
    /// Concrete little-endian bytes (n <= 16), or the symbolic cell.
    pub fn load(&self, a: u64, n: u64) -> Result<Loaded, MemErr> {
        let off = self.check(a, n, "read")?;
        let (o, _) = self.obj(a).unwrap();
        if !o.cells.is_empty() {
            let lo = (off as u32).saturating_sub(15);
            for (k, (sz, v)) in o.cells.range(lo..(off as u32 + n as u32)) {
                if *k + *sz as u32 <= off as u32 { continue; }
                if *k == off as u32 && *sz as u64 == n { return Ok(Loaded::Cell(v.clone())); }
                return Ok(Loaded::Partial);
            }
        }
        let mut b = [0u8; 16];
        b[..n as usize].copy_from_slice(&o.data[off..off + n as usize]);
        Ok(Loaded::Bytes(u128::from_le_bytes(b)))
    }
    pub fn store(&mut self, a: u64, n: u64, x: u128) -> Result<(), MemErr> {
        let off = self.check(a, n, "write")?;
        let (o, _) = self.obj_mut(a).unwrap();
        if o.ro { return Err(MemErr("write to constant memory".into())); }
        Self::clear(o, off, n as usize)?;
        o.data[off..off + n as usize].copy_from_slice(&x.to_le_bytes()[..n as usize]);
        Ok(())
    }
    pub fn store_sym(&mut self, a: u64, n: u64, v: V) -> Result<(), MemErr> {
        let off = self.check(a, n, "write")?;
        let (o, _) = self.obj_mut(a).unwrap();
        if o.ro { return Err(MemErr("write to constant memory".into())); }
        Self::clear(o, off, n as usize)?;
        o.cells.insert(off as u32, (n as u8, v));
        Ok(())
    }
    fn clear(o: &mut Obj, off: usize, n: usize) -> Result<(), MemErr> {
        if o.cells.is_empty() || n == 0 { return Ok(()); }
        let lo = (off as u32).saturating_sub(15);
        let mut del: Vec<u32> = Vec::new();
        for (k, (sz, _)) in o.cells.range(lo..(off + n) as u32) {
            if (*k + *sz as u32) as usize <= off { continue; }
            if (*k as usize) < off || (*k + *sz as u32) as usize > off + n { return Err(MemErr("engine: partial overwrite of a symbolic cell".into())); }
            del.push(*k);
        }
        for k in del { o.cells.remove(&k); }
        Ok(())
    }
    pub fn copy(&mut self, d: u64, s: u64, n: u64) -> Result<(), MemErr> {
        if n == 0 { return Ok(()); }
        let so = self.check(s, n, "read")?;
        let off = self.check(d, n, "write")?;
        let (o, _) = self.obj(s).unwrap();
        let bytes = o.data[so..so + n as usize].to_vec();
        let mut cells = Vec::new();
        if !o.cells.is_empty() {
            let lo = (so as u32).saturating_sub(15);
            for (k, (sz, v)) in o.cells.range(lo..(so + n as usize) as u32) {
                if (*k + *sz as u32) as usize <= so { continue; }
                if (*k as usize) < so || (*k + *sz as u32) as usize > so + n as usize { return Err(MemErr("engine: partial copy of a symbolic cell".into())); }
                cells.push((*k - so as u32, *sz, v.clone()));
            }
        }
        let (o, _) = self.obj_mut(d).unwrap();
        if o.ro { return Err(MemErr("write to constant memory".into())); }
        Self::clear(o, off, n as usize)?;
        o.data[off..off + n as usize].copy_from_slice(&bytes);
        for (k, sz, v) in cells { o.cells.insert(off as u32 + k, (sz, v)); }
        Ok(())
    }
    pub fn set(&mut self, d: u64, b: u8, n: u64) -> Result<(), MemErr> {
        if n == 0 { return Ok(()); }
        let off = self.check(d, n, "write")?;
        let (o, _) = self.obj_mut(d).unwrap();
        if o.ro { return Err(MemErr("write to constant memory".into())); }
        Self::clear(o, off, n as usize)?;
        o.data[off..off + n as usize].fill(b);
        Ok(())
    }
    /// concrete bytes of a range
    pub fn bytes(&self, a: u64, n: u64) -> Result<Vec<u8>, MemErr> {
        if n == 0 { return Ok(vec![]); }
        let off = self.check(a, n, "read")?;
        let (o, _) = self.obj(a).unwrap();
        if o.cells.range((off as u32).saturating_sub(15)..(off as u32 + n as u32)).any(|(k, c)| k + c.0 as u32 > off as u32) { return Err(MemErr("engine: symbolic bytes where concrete ones are needed".into())); }
        Ok(o.data[off..off + n as usize].to_vec())
    }
    pub fn write_bytes(&mut self, a: u64, b: &[u8]) -> Result<(), MemErr> {
        if b.is_empty() { return Ok(()); }
        let off = self.check(a, b.len() as u64, "write")?;
        let (o, _) = self.obj_mut(a).unwrap();
        Self::clear(o, off, b.len())?;
        o.data[off..off + b.len()].copy_from_slice(b);
        Ok(())
    }
    pub fn seal(&mut self, a: u64) { if let Some((o, _)) = self.obj_mut(a) { o.ro = true; } }
}
pub enum Loaded { Bytes(u128), Cell(V), Partial }
