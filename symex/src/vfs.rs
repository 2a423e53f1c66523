//! In-memory files for the code's file I/O: bytes may be symbolic.
use crate::builtin::{u, cstr};
use crate::exec::*;
use crate::ir::*;
use crate::mem::*;
use std::rc::Rc;

#[derive(Clone, Default)]
pub struct Vfs {
    pub files: std::collections::BTreeMap<Vec<u8>, Rc<Vec<V>>>,
    /// open descriptors (from 3): file, position, append
    pub fds: Vec<Option<(Vec<u8>, usize, bool)>>,
    pub errno: u64,
    /// which descriptors are open for writing
    pub writers: std::collections::BTreeSet<u64>,
}
impl Vfs { pub fn writing(&self) -> bool { !self.writers.is_empty() } }

fn set_errno(s: &mut State, v: u64) -> R<V> {
    let a = errno_addr(s);
    s.mem.store(a, 4, v as u128)?;
    Ok(V::I(0xffff_ffff))
}
pub fn errno_addr(s: &mut State) -> u64 {
    if s.vfs.errno == 0 { let a = s.mem.alloc(4, 0); Rc::make_mut(&mut s.vfs).errno = a; }
    s.vfs.errno
}
fn fd(s: &State, f: u64) -> Option<(Vec<u8>, usize, bool)> { if (f as u32) < 3 { None } else { s.vfs.fds.get(f as u32 as usize - 3).cloned().flatten() } }

pub fn open(e: &mut Eng, s: &mut State, a: &[V], _: &Ty) -> R<V> {
    let (p, fl) = (u(e, s, &a[0])?, u(e, s, &a[1])?);
    let name = cstr(s, p)?;
    if name.is_empty() { return set_errno(s, 2); }
    let there = s.vfs.files.contains_key(&name);
    if !there && fl & 0x40 == 0 { return set_errno(s, 2); }
    if there && fl & 0xc0 == 0xc0 { return set_errno(s, 17); }
    let v = Rc::make_mut(&mut s.vfs);
    if !there || fl & 0x200 != 0 { v.files.insert(name.clone(), Rc::new(vec![])); }
    v.fds.push(Some((name, 0, fl & 0x400 != 0)));
    if fl & 3 != 0 { let f = v.fds.len() as u64 + 2; v.writers.insert(f); }
    Ok(V::I(v.fds.len() as u64 + 2))
}
pub fn read(e: &mut Eng, s: &mut State, a: &[V], _: &Ty) -> R<V> {
    let (f, p, n) = (u(e, s, &a[0])?, u(e, s, &a[1])?, u(e, s, &a[2])? as usize);
    let Some((name, pos, _)) = fd(s, f) else { return abort("read of a descriptor that is not open") };
    let d = s.vfs.files[&name].clone();
    let n = n.min(d.len().saturating_sub(pos));
    for i in 0..n { e.store(s, &Ty::Int(8), p + i as u64, &d[pos + i])?; }
    if let Some(Some(x)) = Rc::make_mut(&mut s.vfs).fds.get_mut(f as usize - 3) { x.1 += n; }
    Ok(V::I(n as u64))
}
pub fn write(e: &mut Eng, s: &mut State, a: &[V], _: &Ty) -> R<V> {
    let (f, p, n) = (u(e, s, &a[0])?, u(e, s, &a[1])?, u(e, s, &a[2])?);
    if f as u32 == 1 || f as u32 == 2 { return Ok(V::I(n)); }
    let Some((name, pos, app)) = fd(s, f) else { return abort("write to a descriptor that is not open") };
    let mut b = Vec::new();
    for i in 0..n { b.push(e.load(s, &Ty::Int(8), p + i)?); }
    let v = Rc::make_mut(&mut s.vfs);
    let d = Rc::make_mut(v.files.get_mut(&name).unwrap());
    let pos = if app { d.len() } else { pos };
    for (i, x) in b.into_iter().enumerate() { if pos + i < d.len() { d[pos + i] = x } else { d.push(x) } }
    if let Some(Some(x)) = v.fds.get_mut(f as usize - 3) { x.1 = pos + n as usize; }
    Ok(V::I(n))
}
pub fn close(e: &mut Eng, s: &mut State, a: &[V], _: &Ty) -> R<V> {
    let f = u(e, s, &a[0])? as usize;
    let v = Rc::make_mut(&mut s.vfs);
    v.writers.remove(&(f as u64));
    if let Some(x) = v.fds.get_mut(f.wrapping_sub(3)) { *x = None; }
    Ok(V::I(0))
}
pub fn lseek(e: &mut Eng, s: &mut State, a: &[V], _: &Ty) -> R<V> {
    let (f, off, wh) = (u(e, s, &a[0])?, u(e, s, &a[1])? as i64, u(e, s, &a[2])?);
    let Some((name, pos, _)) = fd(s, f) else { return abort("lseek") };
    let len = s.vfs.files[&name].len() as i64;
    let n = match wh as u32 { 0 => off, 1 => pos as i64 + off, _ => len + off };
    if let Some(Some(x)) = Rc::make_mut(&mut s.vfs).fds.get_mut(f as usize - 3) { x.1 = n as usize; }
    Ok(V::I(n as u64))
}
pub fn statx(e: &mut Eng, s: &mut State, a: &[V], _: &Ty) -> R<V> {
    let (f, p, b) = (u(e, s, &a[0])?, u(e, s, &a[1])?, u(e, s, &a[4])?);
    if b == 0 { return set_errno(s, 14); }
    let name = if p != 0 { cstr(s, p)? } else { vec![] };
    let name = if name.is_empty() { match fd(s, f) { Some(x) => x.0, None => return set_errno(s, 2) } } else { name };
    let Some(d) = s.vfs.files.get(&name) else { return set_errno(s, 2) };
    let len = d.len() as u128;
    s.mem.set(b, 0, 256)?;
    s.mem.store(b, 4, 0xfff)?;
    s.mem.store(b + 4, 4, 4096)?;
    s.mem.store(b + 16, 4, 1)?;
    s.mem.store(b + 28, 2, 0o100644)?;
    s.mem.store(b + 40, 8, len)?;
    Ok(V::I(0))
}
pub fn stat_path(e: &mut Eng, s: &mut State, a: &[V], _: &Ty) -> R<V> {
    let (p, b) = (u(e, s, &a[0])?, u(e, s, &a[1])?);
    let name = cstr(s, p)?;
    let Some(d) = s.vfs.files.get(&name) else { return set_errno(s, 2) };
    let len = d.len() as u128;
    s.mem.set(b, 0, 144)?;
    s.mem.store(b + 24, 4, 0o100644)?;
    s.mem.store(b + 48, 8, len)?;
    Ok(V::I(0))
}
pub fn fstat(e: &mut Eng, s: &mut State, a: &[V], _: &Ty) -> R<V> {
    let (f, b) = (u(e, s, &a[0])?, u(e, s, &a[1])?);
    let Some((name, ..)) = fd(s, f) else { return abort("fstat") };
    let len = s.vfs.files[&name].len() as u128;
    s.mem.set(b, 0, 144)?;
    s.mem.store(b + 24, 4, 0o100644)?;
    s.mem.store(b + 48, 8, len)?;
    Ok(V::I(0))
}
pub fn unlink(e: &mut Eng, s: &mut State, a: &[V], _: &Ty) -> R<V> {
    let p = u(e, s, &a[0])?;
    let name = cstr(s, p)?;
    if Rc::make_mut(&mut s.vfs).files.remove(&name).is_none() { return set_errno(s, 2); }
    Ok(V::I(0))
}
/// rename(2): a file takes the place of another
pub fn rename(e: &mut Eng, s: &mut State, a: &[V], _: &Ty) -> R<V> {
    let (p, q) = (u(e, s, &a[0])?, u(e, s, &a[1])?);
    let (from, to) = (cstr(s, p)?, cstr(s, q)?);
    match Rc::make_mut(&mut s.vfs).files.remove(&from) { Some(d) => { Rc::make_mut(&mut s.vfs).files.insert(to, d); Ok(V::I(0)) } None => set_errno(s, 2) }
}
