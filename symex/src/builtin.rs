//! Intrinsics, libc / allocator entry points and the harness API.
use crate::exec::*;
use crate::ir::*;
use crate::mem::*;
use crate::term::*;
use std::rc::Rc;

pub fn u(e: &mut Eng, s: &mut State, v: &V) -> R<u64> { e.conc(s, v) }
fn string(e: &mut Eng, s: &mut State, p: &V, n: &V) -> R<String> {
    let (a, l) = (u(e, s, p)?, u(e, s, n)?);
    Ok(String::from_utf8_lossy(&s.mem.bytes(a, l)?).into_owned())
}
pub fn cstr(s: &State, a: u64) -> R<Vec<u8>> {
    let mut o = Vec::new();
    let mut a = a;
    loop { let b = s.mem.bytes(a, 1)?[0]; if b == 0 { return Ok(o); } o.push(b); a += 1; }
}
const NIL: V = V::Undef;

fn w(t: &Ty) -> u32 { match t { Ty::Int(w) => *w, _ => 64 } }

fn lanes1(e: &mut Eng, s: &mut State, ty: &Ty, a: &V, f: &mut dyn FnMut(&mut Eng, &mut State, &V) -> R<V>) -> R<V> {
    match (ty, a) { (Ty::Vec(..), V::Agg(x)) => { let x = x.clone(); let mut o = Vec::new(); for v in x.iter() { o.push(f(e, s, v)?); } Ok(V::Agg(Rc::new(o))) } _ => f(e, s, a) }
}

#[derive(Clone, Copy)]
#[repr(u32)]
enum K { Nop, Memcpy, Memset, Expect, AddO, SubO, MulO, SAddO, SSubO, SMulO, UMax, UMin, SMax, SMin, Ctpop, Cttz, Ctlz, Fshl, Fshr, Bswap, Abs, USubSat, UAddSat, SSubSat, SAddSat, IsConst, Ucmp, Scmp,
    Fabs, Floor, Ceil, Trunc, Round, RoundEven, Sqrt, MaxNum, MinNum, FptouiSat, FptosiSat, FMulAdd, Tls, Trap, Copysign, Powi, Exp, Log, Log2, Log10, Sin, Cos, Pow, VecReduceOr, VecReduceAnd, VecReduceAdd, ObjSize, Bitrev, Fma, Ldexp, VecReduceUmax, ReturnAddr, Canon, LoadRel, FpClass }

fn intr(e: &mut Eng, s: &mut State, k: u32, a: &[V], args: &[(Ty, Op)], ret: &Ty) -> R<V> {
    let k: K = unsafe { std::mem::transmute(k) };
    let ww = args.first().map(|x| w(&x.0)).unwrap_or(64);
    match k {
        K::Nop => Ok(if *ret == Ty::Void { NIL } else { e.zero(ret) }),
        K::Memcpy => { let (d, sr, n) = (u(e, s, &a[0])?, u(e, s, &a[1])?, u(e, s, &a[2])?); s.mem.copy(d, sr, n)?; Ok(NIL) }
        K::Memset => { let (d, b, n) = (u(e, s, &a[0])?, u(e, s, &a[1])?, u(e, s, &a[2])?); s.mem.set(d, b as u8, n)?; Ok(NIL) }
        K::Expect | K::Tls | K::Canon => Ok(a[0].clone()),
        K::AddO | K::SubO | K::MulO | K::SAddO | K::SSubO | K::SMulO => {
            let (op, sg) = match k { K::AddO => (Bin::Add, false), K::SubO => (Bin::Sub, false), K::MulO => (Bin::Mul, false), K::SAddO => (Bin::Add, true), K::SSubO => (Bin::Sub, true), _ => (Bin::Mul, true) };
            if let (V::I(x), V::I(y)) = (&a[0], &a[1]) {
                let (x, y) = (*x, *y);
                let (r, o) = if sg {
                    let (p, q) = (sext(x as u128, ww), sext(y as u128, ww));
                    let r = match op { Bin::Add => p + q, Bin::Sub => p - q, _ => p * q };
                    (r as u64, r < -(1i128 << (ww - 1)) || r >= (1i128 << (ww - 1)))
                } else {
                    let (p, q) = (x as i128, y as i128);
                    match op { Bin::Add => ((p + q) as u64, (p + q) >> ww != 0), Bin::Sub => ((p - q) as u64, p < q), _ => { let r = x as u128 * y as u128; (r as u64, r >> ww != 0) } }
                };
                return Ok(V::Agg(Rc::new(vec![V::I(mask(r as u128, ww) as u64), V::I(o as u64)])));
            }
            if ww > 64 {
                if !(e.small(&a[0], ww) && e.small(&a[1], ww)) || !sg && (op == Bin::Sub || !matches!(&a[0], V::I(_) | V::W(_))) { return abort("wide overflow op"); }
                return Ok(V::Agg(Rc::new(vec![e.ibin(s, op, ww, &a[0], &a[1])?, V::I(0)])));
            }
            e.with_overflow(s, op, sg, ww, &a[0], &a[1])
        }
        K::UMax | K::UMin | K::SMax | K::SMin => {
            if let (Ty::Vec(n, t), V::Agg(x), V::Agg(y)) = (ret, &a[0], &a[1]) {
                let (x, y, ew) = (x.clone(), y.clone(), w(t));
                let mut o = Vec::new();
                for i in 0..*n as usize { o.push(mm(e, s, k, ew, &x[i], &y[i])?); }
                return Ok(V::Agg(Rc::new(o)));
            }
            mm(e, s, k, ww, &a[0], &a[1])
        }
        K::Ctpop => { let ew = ww; lanes1(e, s, ret, &a[0], &mut |e, s, v| { let x = e.wide(s, v)?; Ok(mk(mask(x, ew).count_ones() as u128, ew)) }) }
        K::Cttz => { let x = e.wide(s, &a[0])?; Ok(mk(if x == 0 { ww as u128 } else { x.trailing_zeros() as u128 }, ww)) }
        K::Ctlz => { let x = e.wide(s, &a[0])?; Ok(mk((x.leading_zeros() - (128 - ww)) as u128, ww)) }
        K::Fshl | K::Fshr => {
            let (x, y, n) = (e.wide(s, &a[0])?, e.wide(s, &a[1])?, e.wide(s, &a[2])? as u32 % ww);
            if ww > 64 { return abort("wide fsh"); }
            let n = if matches!(k, K::Fshr) { (ww - n) % ww } else { n };
            let full = matches!(k, K::Fshr) && e.wide(s, &a[2])? as u32 % ww == 0;
            let r = if full { y } else if n == 0 { x } else { (x << n) | (y >> (ww - n)) };
            Ok(mk(r, ww))
        }
        K::Bswap => { let x = e.wide(s, &a[0])?; Ok(mk(x.swap_bytes() >> (128 - ww), ww)) }
        K::Bitrev => { let x = e.wide(s, &a[0])?; Ok(mk(x.reverse_bits() >> (128 - ww), ww)) }
        K::Abs => {
            if let V::I(x) = &a[0] { return Ok(mk(sext(*x as u128, ww).unsigned_abs(), ww)); }
            let neg = e.icmp(s, Ip::Slt, ww, &a[0], &V::I(0))?;
            let b = e.bool_of(s, &neg)?;
            if e.decide(s, b)? { e.ibin(s, Bin::Sub, ww, &V::I(0), &a[0]) } else { Ok(a[0].clone()) }
        }
        K::USubSat => { let c = e.icmp(s, Ip::Ult, ww, &a[0], &a[1])?; let b = e.bool_of(s, &c)?; if e.decide(s, b)? { Ok(V::I(0)) } else { e.ibin(s, Bin::Sub, ww, &a[0], &a[1]) } }
        K::UAddSat => { let (x, y) = (u(e, s, &a[0])? as u128, u(e, s, &a[1])? as u128); Ok(mk((x + y).min((1u128 << ww) - 1), ww)) }
        K::SSubSat | K::SAddSat => {
            let (x, y) = (sext(u(e, s, &a[0])? as u128, ww), sext(u(e, s, &a[1])? as u128, ww));
            let r = if matches!(k, K::SSubSat) { x - y } else { x + y };
            Ok(mk(r.clamp(-(1i128 << (ww - 1)), (1i128 << (ww - 1)) - 1) as u128, ww))
        }
        K::IsConst => Ok(V::I(0)),
        K::ObjSize => Ok(V::I(u64::MAX)),
        K::Ucmp | K::Scmp => {
            let rw = w(ret);
            let (lt, gt) = if matches!(k, K::Ucmp) { (Ip::Ult, Ip::Ugt) } else { (Ip::Slt, Ip::Sgt) };
            let c = e.icmp(s, lt, ww, &a[0], &a[1])?;
            let b = e.bool_of(s, &c)?;
            if e.decide(s, b)? { return Ok(mk(u128::MAX, rw)); }
            let c = e.icmp(s, gt, ww, &a[0], &a[1])?;
            let b = e.bool_of(s, &c)?;
            Ok(V::I(e.decide(s, b)? as u64))
        }
        K::Fabs => lanes1(e, s, ret, &a[0], &mut |e, s, v| e.fabs(s, v)),
        K::Floor => e.fround(s, 0, &a[0]),
        K::Ceil => e.fround(s, 1, &a[0]),
        K::Trunc => e.fround(s, 2, &a[0]),
        K::Round => e.fround(s, 3, &a[0]),
        K::RoundEven => e.fround(s, 4, &a[0]),
        K::Sqrt => fsqrt(e, s, &a[0]),
        K::MaxNum => e.fminmax(s, true, &a[0], &a[1]),
        K::MinNum => e.fminmax(s, false, &a[0], &a[1]),
        K::FptouiSat | K::FptosiSat => e.f2i_pub(s, &a[0], w(ret), matches!(k, K::FptosiSat)),
        K::FMulAdd => { let m = e.fbin(s, Bin::FMul, &a[0], &a[1])?; e.fbin(s, Bin::FAdd, &m, &a[2]) }
        K::Fma => match (&a[0], &a[1], &a[2]) { (V::F(x), V::F(y), V::F(z)) => Ok(V::F(x.mul_add(*y, *z))), _ => abort("symbolic fma") },
        K::Copysign => match (&a[0], &a[1]) {
            (V::F(x), V::F(y)) => Ok(V::F(x.copysign(*y))),
            (V::FP(_), _) | (_, V::FP(_)) => abort("symbolic copysign"),
            (x, y) => {
                // a symbolic zero has the positive sign
                let neg = match y { V::F(c) => c.is_sign_negative(), _ => { let q = e.fpoly_pub(s, y)?; let b = e.t.cmp0(q, true); e.decide(s, b)? } };
                let m = e.fabs(s, x)?;
                if neg { e.fbin(s, Bin::FSub, &V::F(0.0), &m) } else { Ok(m) }
            }
        },
        K::FpClass => {
            let m = u(e, s, &a[1])?;
            let c = match &a[0] {
                V::F(x) => fpclass(*x),
                V::F32(x) => match x.classify() { std::num::FpCategory::Subnormal => if *x < 0.0 { 0x10 } else { 0x80 }, _ => fpclass(*x as f64) },
                V::FP(_) => return abort("symbolic fpclass"),
                x => {
                    // symbolic values are finite and normal, a symbolic zero has the positive sign
                    let q = e.fpoly_pub(s, x)?;
                    let neg = e.t.cmp0(q, true);
                    let zero = e.t.eq0(q);
                    if m >> 3 & 1 == m >> 8 & 1 && m >> 3 & 1 == m >> 6 & 1 { return Ok(V::I(m >> 3 & 1)); }
                    if e.decide(s, neg)? { 0x8 } else if e.decide(s, zero)? { 0x40 } else { 0x100 }
                }
            };
            Ok(V::I((m & c != 0) as u64))
        }
        K::Powi => match (&a[0], &a[1]) { (V::F(x), V::I(n)) => Ok(V::F(x.powi(*n as i32))),
            (_, V::I(n)) if (*n as i32) >= 1 && (*n as i32) <= 8 => { let mut r = a[0].clone(); for _ in 1..*n { r = e.fbin(s, Bin::FMul, &r, &a[0])?; } Ok(r) }
            _ => abort("symbolic powi") },
        K::Exp => fexp(e, s, &a[0]),
        K::Log => flog(e, s, &a[0]),
        K::Log2 => match &a[0] { V::F(x) => Ok(V::F(x.log2())), _ => abort("log2") },
        K::Log10 => match &a[0] { V::F(x) => Ok(V::F(x.log10())), _ => abort("log10") },
        K::Sin => match &a[0] { V::F(x) => Ok(V::F(x.sin())), _ => fbounded(e, s, 41, &a[0], -1.0, 1.0) },
        K::Cos => match &a[0] { V::F(x) => Ok(V::F(x.cos())), _ => fbounded(e, s, 42, &a[0], -1.0, 1.0) },
        K::Pow => match (&a[0], &a[1]) { (V::F(x), V::F(y)) => Ok(V::F(x.powf(*y))), (x, V::F(y)) if *y == 2.0 => { let x = x.clone(); e.fbin(s, Bin::FMul, &x, &x) } _ => fpow(e, s, &a[0], &a[1]) },
        K::Ldexp => abort("ldexp"),
        K::VecReduceOr | K::VecReduceAnd | K::VecReduceAdd | K::VecReduceUmax => {
            let x = match &a[0] { V::Agg(x) => x.clone(), _ => return abort("reduce") };
            let ew = w(ret);
            let mut r = x[0].clone();
            for v in &x[1..] { r = match k { K::VecReduceOr => e.ibin(s, Bin::Or, ew, &r, v)?, K::VecReduceAnd => e.ibin(s, Bin::And, ew, &r, v)?, K::VecReduceUmax => mm(e, s, K::UMax, ew, &r, v)?, _ => e.ibin(s, Bin::Add, ew, &r, v)? }; }
            Ok(r)
        }
        K::Trap => Err(Ctl::Viol("panic".into(), "trap".into())),
        K::ReturnAddr => Ok(V::I(0)),
        K::LoadRel => { let (p, o) = (u(e, s, &a[0])?, u(e, s, &a[1])?); let t = e.rel.borrow().get(&p.wrapping_add(o)).copied(); match t { Some(t) => Ok(V::I(t)), None => abort("relative lookup") } }
    }
}
fn mk(x: u128, w: u32) -> V { if w > 64 { V::W(Rc::new(mask(x, w))) } else { V::I(mask(x, w) as u64) } }
fn mm(e: &mut Eng, s: &mut State, k: K, ww: u32, x: &V, y: &V) -> R<V> {
    let p = match k { K::UMax => Ip::Ugt, K::UMin => Ip::Ult, K::SMax => Ip::Sgt, _ => Ip::Slt };
    let c = e.icmp(s, p, ww, x, y)?;
    let b = e.bool_of(s, &c)?;
    Ok(if e.decide(s, b)? { x.clone() } else { y.clone() })
}
fn to_poly(e: &mut Eng, s: &mut State, v: &V) -> R<P> { e.fpoly_pub(s, v) }
pub fn fsqrt(e: &mut Eng, s: &mut State, a: &V) -> R<V> {
    if let V::F(x) = a { return Ok(V::F(x.sqrt())); }
    if let V::FP(x) = a { return Ok(V::FP(e.z.fp_sqrt(*x))); }
    let p = to_poly(e, s, a)?;
    if !e.t.nonneg.contains(&p) {
        let neg = e.t.cmp0(p, true);
        if e.decide(s, neg)? { return Ok(V::F(f64::NAN)); }
    }
    let (l, h) = e.t.interval(p);
    let late = s.flags.get("sqrt_late").copied().unwrap_or(0) == 1;
    let r = e.t.func(40, p, 0, |t| {
        let deps = t.atoms_of(p);
        let zx = t.zval(p);
        let z = t.z.clone();
        let q = t.defined("sqrt", false, l.max(0.0).sqrt() * (1.0 - 1e-15), h.max(0.0).sqrt() * (1.0 + 1e-15), deps, |t, v| {
            let sq = z.mul(&[v, v]);
            let lo = z.mul(&[t.zf64(1.0 - 2f64.powi(-51)), zx]);
            let hi = z.mul(&[t.zf64(1.0 + 2f64.powi(-51)), zx]);
            vec![z.le(lo, sq), z.le(sq, hi)]
        });
        if late {
            let a = t.atoms_of(q)[0] as usize;
            let ax = &mut t.atoms[a].axioms;
            let tail = ax.split_off(ax.len() - 2);
            t.atoms[a].late = tail;
        }
        t.known_float(q);
        q
    });
    Ok(V::R(r))
}
fn fbounded(e: &mut Eng, s: &mut State, tag: u32, a: &V, lo: f64, hi: f64) -> R<V> {
    let p = to_poly(e, s, a)?;
    let r = e.t.func(tag, p, 0, |t| { let a = t.fresh_real("fn", lo, hi, false); let q = t.atom_poly(a, 0); t.known_float(q); q });
    Ok(V::R(r))
}
fn fexp(e: &mut Eng, s: &mut State, a: &V) -> R<V> {
    if let V::F(x) = a { return Ok(V::F(x.exp())); }
    let p = to_poly(e, s, a)?;
    let (l, h) = e.t.interval(p);
    fbounded(e, s, 43, a, l.exp() * 0.999999999, h.exp() * 1.000000001)
}
fn flog(e: &mut Eng, s: &mut State, a: &V) -> R<V> {
    if let V::F(x) = a { return Ok(V::F(x.ln())); }
    let p = to_poly(e, s, a)?;
    let neg = e.t.cmp0(p, true);
    if e.decide(s, neg)? { return Ok(V::F(f64::NAN)); }
    let pos = e.t.cmp0(p, false).not();
    if !e.decide(s, pos)? { return Ok(V::F(f64::NEG_INFINITY)); }
    let (l, h) = e.t.interval(p);
    let q = e.t.get(p);
    // the smallest positive grid value
    let l = if l > 0.0 { l } else if e.t.on_grid(p) { 2f64.powi(-(q.shift as i32)) } else { 5e-324 };
    let (lo, hi) = (l.ln(), h.ln());
    // ln(x) <= x - 1, ln(x) >= 1 - 1/x, sign
    let r = e.t.func(44, p, 0, |t| {
        let deps = t.atoms_of(p);
        let zx = t.zval(p);
        let z = t.z.clone();
        let q = t.defined("ln", false, lo - lo.abs() * 1e-12 - 1e-15, hi + hi.abs() * 1e-12 + 1e-15, deps, |t, v| {
            let one = z.num("1", z.real);
            let zero = z.num("0", z.real);
            let m1 = z.num("-1", z.real);
            let tol = t.zf64(1e-12);
            let ub = z.le(v, z.add(&[zx, m1, tol]));
            let s1 = z.or(&[z.lt(one, zx), z.le(v, zero)]);
            let s2 = z.or(&[z.lt(zx, one), z.le(zero, v)]);
            vec![ub, s1, s2]
        });
        t.known_float(q);
        q
    });
    Ok(V::R(r))
}
fn fpow(e: &mut Eng, s: &mut State, a: &V, b: &V) -> R<V> {
    let (x, y) = (to_poly(e, s, a)?, to_poly(e, s, b)?);
    let (lx, hx) = e.t.interval(x);
    let (ly, hy) = e.t.interval(y);
    if lx <= 0.0 { return abort("pow of possibly non-positive base"); }
    let c = [lx.powf(ly), lx.powf(hy), hx.powf(ly), hx.powf(hy)];
    let lo = c.iter().fold(f64::INFINITY, |m, v| m.min(*v)) * 0.999999999;
    let hi = c.iter().fold(0.0f64, |m, v| m.max(*v)) * 1.000000001;
    let r = e.t.func(45, x, y, |t| { let a = t.fresh_real("pow", lo, hi, false); let q = t.atom_poly(a, 0); t.known_float(q); q });
    Ok(V::R(r))
}
fn b_atan2(e: &mut Eng, s: &mut State, a: &[V], _: &Ty) -> R<V> {
    if let (V::F(y), V::F(x)) = (&a[0], &a[1]) { return Ok(V::F(y.atan2(*x))); }
    let (y, x) = (to_poly(e, s, &a[0])?, to_poly(e, s, &a[1])?);
    let yn = e.t.cmp0(y, true);
    let neg = e.decide(s, yn)?;
    let pi = std::f64::consts::PI;
    let r = e.t.func(46 + neg as u32, y, x, |t| { let a = t.fresh_real("atan2", if neg { -pi } else { 0.0 }, if neg { 0.0 } else { pi }, false); let q = t.atom_poly(a, 0); t.known_float(q); q });
    Ok(V::R(r))
}
fn b_hypot(e: &mut Eng, s: &mut State, a: &[V], _: &Ty) -> R<V> {
    if let (V::F(y), V::F(x)) = (&a[0], &a[1]) { return Ok(V::F(y.hypot(*x))); }
    let x = e.fbin(s, Bin::FMul, &a[0].clone(), &a[0].clone())?;
    let y = e.fbin(s, Bin::FMul, &a[1].clone(), &a[1].clone())?;
    let z = e.fbin(s, Bin::FAdd, &x, &y)?;
    fsqrt(e, s, &z)
}
macro_rules! math1 { ($n:ident, $k:expr) => { fn $n(e: &mut Eng, s: &mut State, a: &[V], r: &Ty) -> R<V> { intr(e, s, $k as u32, a, &[], r) } } }
math1!(b_exp, K::Exp);
math1!(b_log, K::Log);
math1!(b_sin, K::Sin);
math1!(b_cos, K::Cos);
math1!(b_pow, K::Pow);
fn b_tan(_: &mut Eng, _: &mut State, a: &[V], _: &Ty) -> R<V> { match &a[0] { V::F(x) => Ok(V::F(x.tan())), _ => abort("tan") } }
fn b_acos(e: &mut Eng, s: &mut State, a: &[V], _: &Ty) -> R<V> { match &a[0] { V::F(x) => Ok(V::F(x.acos())), _ => fbounded(e, s, 48, &a[0], 0.0, 3.1415926536) } }
fn b_asin(_: &mut Eng, _: &mut State, a: &[V], _: &Ty) -> R<V> { match &a[0] { V::F(x) => Ok(V::F(x.asin())), _ => abort("asin") } }

// ---------------------------------------------------------------- allocator and libc
fn b_alloc(e: &mut Eng, s: &mut State, a: &[V], _: &Ty) -> R<V> {
    let n = u(e, s, &a[0])?;
    if n >= 1 << 25 { return abort(format!("allocation of {} bytes", n)); }
    if n == 0 { return Err(Ctl::Viol("memory".into(), "zero-size allocation".into())); }
    Ok(V::I(s.mem.alloc(n, 0xCD)))
}
fn b_alloc_zeroed(e: &mut Eng, s: &mut State, a: &[V], _: &Ty) -> R<V> {
    let n = u(e, s, &a[0])?;
    if n >= 1 << 25 { return abort(format!("allocation of {} bytes", n)); }
    if n == 0 { return Err(Ctl::Viol("memory".into(), "zero-size allocation".into())); }
    Ok(V::I(s.mem.alloc(n, 0)))
}
fn b_dealloc(e: &mut Eng, s: &mut State, a: &[V], _: &Ty) -> R<V> { let p = u(e, s, &a[0])?; s.mem.free(p)?; Ok(NIL) }
fn b_realloc(e: &mut Eng, s: &mut State, a: &[V], _: &Ty) -> R<V> {
    let (p, o, n) = (u(e, s, &a[0])?, u(e, s, &a[1])?, u(e, s, &a[3])?);
    if n >= 1 << 25 { return abort("allocation too large"); }
    let q = s.mem.alloc(n, 0xCD);
    s.mem.copy(q, p, o.min(n))?;
    s.mem.free(p)?;
    Ok(V::I(q))
}
fn b_malloc(e: &mut Eng, s: &mut State, a: &[V], _: &Ty) -> R<V> { let n = u(e, s, &a[0])?; Ok(V::I(s.mem.alloc(n, 0xCD))) }
fn b_free(e: &mut Eng, s: &mut State, a: &[V], _: &Ty) -> R<V> { let p = u(e, s, &a[0])?; if p != 0 { s.mem.free(p)?; } Ok(NIL) }
fn b_nop(e: &mut Eng, _: &mut State, _: &[V], r: &Ty) -> R<V> { Ok(if *r == Ty::Void { NIL } else { e.zero(r) }) }
fn b_one(_: &mut Eng, _: &mut State, _: &[V], _: &Ty) -> R<V> { Ok(V::I(1)) }
fn b_memcmp(e: &mut Eng, s: &mut State, a: &[V], _: &Ty) -> R<V> {
    let (p, q, n) = (u(e, s, &a[0])?, u(e, s, &a[1])?, u(e, s, &a[2])?);
    match (s.mem.bytes(p, n), s.mem.bytes(q, n)) {
        (Ok(x), Ok(y)) => Ok(V::I(match x.cmp(&y) { std::cmp::Ordering::Less => 0xffff_ffff, std::cmp::Ordering::Equal => 0, _ => 1 })),
        (Err(x), _) | (_, Err(x)) => {
            if !x.0.starts_with("engine:") { return Err(x.into()); }
            // compare byte by byte
            for i in 0..n {
                let (x, y) = (e.load(s, &Ty::Int(8), p + i)?, e.load(s, &Ty::Int(8), q + i)?);
                let c = e.icmp(s, Ip::Eq, 8, &x, &y)?;
                let b = e.bool_of(s, &c)?;
                if !e.decide(s, b)? {
                    let c = e.icmp(s, Ip::Ult, 8, &x, &y)?;
                    let b = e.bool_of(s, &c)?;
                    return Ok(V::I(if e.decide(s, b)? { 0xffff_ffff } else { 1 }));
                }
            }
            Ok(V::I(0))
        }
    }
}
fn b_memcpy(e: &mut Eng, s: &mut State, a: &[V], _: &Ty) -> R<V> { let (d, sr, n) = (u(e, s, &a[0])?, u(e, s, &a[1])?, u(e, s, &a[2])?); s.mem.copy(d, sr, n)?; Ok(V::I(d)) }
fn b_memset(e: &mut Eng, s: &mut State, a: &[V], _: &Ty) -> R<V> { let (d, b, n) = (u(e, s, &a[0])?, u(e, s, &a[1])?, u(e, s, &a[2])?); s.mem.set(d, b as u8, n)?; Ok(V::I(d)) }
fn find(e: &mut Eng, s: &mut State, a: &[V], back: bool) -> R<V> {
    let (p, c, n) = (u(e, s, &a[0])?, u(e, s, &a[1])? & 255, u(e, s, &a[2])?);
    for k in 0..n {
        let i = if back { n - 1 - k } else { k };
        let x = e.load(s, &Ty::Int(8), p + i)?;
        let r = e.icmp(s, Ip::Eq, 8, &x, &V::I(c))?;
        let b = e.bool_of(s, &r)?;
        if e.decide(s, b)? { return Ok(V::I(p + i)); }
    }
    Ok(V::I(0))
}
fn b_memchr(e: &mut Eng, s: &mut State, a: &[V], _: &Ty) -> R<V> { find(e, s, a, false) }
fn b_memrchr(e: &mut Eng, s: &mut State, a: &[V], _: &Ty) -> R<V> { find(e, s, a, true) }
/// core::slice::memchr::{memchr_aligned, memrchr}: Option<usize> in two words
fn b_core_memchr(e: &mut Eng, s: &mut State, a: &[V], _: &Ty) -> R<V> { core_find(e, s, a, false) }
fn b_core_memrchr(e: &mut Eng, s: &mut State, a: &[V], _: &Ty) -> R<V> { core_find(e, s, a, true) }
fn core_find(e: &mut Eng, s: &mut State, a: &[V], back: bool) -> R<V> {
    let p = u(e, s, &a[1])?;
    let r = find(e, s, &[a[1].clone(), a[0].clone(), a[2].clone()], back)?;
    let r = u(e, s, &r)?;
    Ok(V::Agg(Rc::new(if r == 0 { vec![V::I(0), V::I(0)] } else { vec![V::I(1), V::I(r - p)] })))
}
/// the harness sets the program's arguments
fn b_argv(e: &mut Eng, s: &mut State, a: &[V], _: &Ty) -> R<V> {
    let (n, p) = (u(e, s, &a[0])?, u(e, s, &a[1])?);
    let mut done = 0;
    for g in 0..e.m.globals.len() {
        let nm = &e.m.globals[g].name;
        let v = if nm.contains("4unix3imp4ARGC") { n } else if nm.contains("4unix3imp4ARGV") && !nm.contains("INIT") { p } else { continue };
        s.mem.store(e.gaddr[g], 8, v as u128)?;
        done += 1;
    }
    if done != 2 { return abort("no program arguments in this module"); }
    Ok(NIL)
}
fn b_strlen(e: &mut Eng, s: &mut State, a: &[V], _: &Ty) -> R<V> {
    let p = u(e, s, &a[0])?;
    let mut n = 0;
    loop {
        let b = e.load(s, &Ty::Int(8), p + n)?;
        let z = e.icmp(s, Ip::Eq, 8, &b, &V::I(0))?;
        let z = e.bool_of(s, &z)?;
        if e.decide(s, z)? { return Ok(V::I(n)); }
        n += 1;
    }
}
fn b_clock(e: &mut Eng, s: &mut State, a: &[V], _: &Ty) -> R<V> {
    let p = u(e, s, &a[1])?;
    let step = s.flags.get("clock").copied().unwrap_or(0);
    if step >= 16 {
        // wide steps are symbolic
        let at = e.input_atom(s, "clock", 0, step, false);
        s.inputs.push(Input { name: Rc::from("clock"), float: false, v: InVal::Atom(at, 0) });
        let d = V::S(e.t.atom_poly(at, 0));
        let c = s.clock.clone();
        s.clock = e.ibin(s, Bin::Add, 64, &c, &d)?;
    } else if step > 0 {
        let d = choose(e, s, "clock", 0, step);
        let c = s.clock.clone();
        s.clock = e.ibin(s, Bin::Add, 64, &c, &V::I(d as u64))?;
    }
    if let Some(d) = s.flags.get("drift").copied() {
        let c = s.clock.clone();
        s.clock = e.ibin(s, Bin::Add, 64, &c, &V::I(d as u64))?;
    }
    let c = s.clock.clone();
    e.store(s, &Ty::Int(64), p, &c)?;
    let nanos = s.flags.get("nanos").copied().unwrap_or(0);
    s.mem.store(p + 8, 8, nanos as u128)?;
    Ok(V::I(0))
}
fn b_errno(_: &mut Eng, s: &mut State, _: &[V], _: &Ty) -> R<V> { Ok(V::I(crate::vfs::errno_addr(s))) }
/// getrandom(2): the operating system's entropy, a function of the flag "entropy"
fn b_getrandom(e: &mut Eng, s: &mut State, a: &[V], _: &Ty) -> R<V> {
    let (p, n) = (u(e, s, &a[0])?, u(e, s, &a[1])?);
    let k = s.flags.get("entropy").copied().unwrap_or(0) as u64;
    let b: Vec<u8> = (0..n).map(|i| ((i + 1 + k).wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 33) as u8).collect();
    s.mem.write_bytes(p, &b)?;
    Ok(V::I(n))
}
fn b_exit(_: &mut Eng, s: &mut State, _: &[V], _: &Ty) -> R<V> { if s.flags.get("panic_ok").copied().unwrap_or(0) == 1 { Err(Ctl::End) } else { Err(Ctl::Viol("exit".into(), "process exit".into())) } }
fn b_getenv(_: &mut Eng, _: &mut State, _: &[V], _: &Ty) -> R<V> { Ok(V::I(0)) }
/// alloc::fmt::format::format_inner -> an empty String unless formatting is the subject
fn b_format(e: &mut Eng, s: &mut State, a: &[V], _: &Ty) -> R<V> {
    let p = u(e, s, &a[0])?;
    // String { cap, ptr, len }
    s.mem.store(p, 8, 0)?;
    s.mem.store(p + 8, 8, 1)?;
    s.mem.store(p + 16, 8, 0)?;
    Ok(NIL)
}

// ---------------------------------------------------------------- harness API
/// Fork over every value of lo..=hi.
fn choose(e: &mut Eng, s: &mut State, name: &str, lo: i64, hi: i64) -> i64 {
    let name: Rc<str> = Rc::from(name);
    // the clones re-execute the call with a forced answer
    if let Some(v) = s.flags.get("\u{1}force").copied() {
        Rc::make_mut(&mut s.flags).remove("\u{1}force");
        s.inputs.push(Input { name, float: false, v: InVal::Int(v) });
        return v;
    }
    if hi > lo {
        e.st.forks += 1;
        s.forks += 1;
        for v in (lo + 1..=hi).rev() {
            let mut o = s.clone();
            Rc::make_mut(&mut o.flags).insert("\u{1}force".into(), v);
            e.work.push_back(o);
        }
    }
    s.inputs.push(Input { name, float: false, v: InVal::Int(lo) });
    lo
}
fn b_int(e: &mut Eng, s: &mut State, a: &[V], _: &Ty) -> R<V> {
    let n = string(e, s, &a[0], &a[1])?;
    let (lo, hi) = (u(e, s, &a[2])? as i64, u(e, s, &a[3])? as i64);
    if lo == hi { s.inputs.push(Input { name: Rc::from(n.as_str()), float: false, v: InVal::Int(lo) }); return Ok(V::I(lo as u64)); }
    let at = e.input_atom(s, &n, lo, hi, false);
    s.inputs.push(Input { name: Rc::from(n.as_str()), float: false, v: InVal::Atom(at, 0) });
    Ok(V::S(e.t.atom_poly(at, 0)))
}
fn b_choice(e: &mut Eng, s: &mut State, a: &[V], _: &Ty) -> R<V> {
    let n = string(e, s, &a[0], &a[1])?;
    let (lo, hi) = (u(e, s, &a[2])? as i64, u(e, s, &a[3])? as i64);
    if hi < lo { return abort(format!("empty choice {}", n)); }
    if hi - lo > 4096 { return abort(format!("choice {} too wide", n)); }
    e.flush(s)?;
    Ok(V::I(choose(e, s, &n, lo, hi) as u64))
}
fn b_f64(e: &mut Eng, s: &mut State, a: &[V], _: &Ty) -> R<V> {
    let n = string(e, s, &a[0], &a[1])?;
    let (lo, hi, sh) = (u(e, s, &a[2])? as i64, u(e, s, &a[3])? as i64, u(e, s, &a[4])? as u32);
    let at = e.input_atom(s, &n, lo, hi, true);
    s.inputs.push(Input { name: Rc::from(n.as_str()), float: true, v: InVal::Atom(at, sh) });
    if lo == hi { return Ok(V::F(lo as f64 * 2f64.powi(-(sh as i32)))); }
    Ok(V::R(e.t.atom_poly(at, sh)))
}
/// Any real number in an interval: a superset of the doubles there.
fn b_f64real(e: &mut Eng, s: &mut State, a: &[V], _: &Ty) -> R<V> {
    let n = string(e, s, &a[0], &a[1])?;
    let (V::F(lo), V::F(hi)) = (&a[2], &a[3]) else { return abort("bounds of a real input") };
    let at = e.t.fresh_real(&n, *lo, *hi, false);
    e.t.atoms[at as usize].input = true;
    s.inputs.push(Input { name: Rc::from(n.as_str()), float: true, v: InVal::Atom(at, u32::MAX) });
    let p = e.t.atom_poly(at, 0);
    e.t.known_float(p);
    Ok(V::R(p))
}
fn b_f64any(e: &mut Eng, s: &mut State, a: &[V], _: &Ty) -> R<V> {
    let n = string(e, s, &a[0], &a[1])?;
    let nm = e.t.name(&n);
    let v = e.z.var(&nm, e.z.fp);
    s.inputs.push(Input { name: Rc::from(n.as_str()), float: true, v: InVal::Fp(v) });
    Ok(V::FP(v))
}
fn b_assume(e: &mut Eng, s: &mut State, a: &[V], _: &Ty) -> R<V> { let b = e.bool_of(s, &a[0])?; e.assume(s, b)?; Ok(NIL) }
fn b_check(e: &mut Eng, s: &mut State, a: &[V], _: &Ty) -> R<V> {
    let b = e.bool_of(s, &a[0])?;
    let n = string(e, s, &a[1], &a[2])?;
    e.check(s, b, Rc::from(n.as_str()))?;
    Ok(NIL)
}
fn b_reach(e: &mut Eng, s: &mut State, a: &[V], _: &Ty) -> R<V> { let n = string(e, s, &a[0], &a[1])?; *e.reached.entry(n).or_insert(0) += 1; Ok(NIL) }
fn b_obs(e: &mut Eng, s: &mut State, a: &[V], _: &Ty) -> R<V> { let n = string(e, s, &a[0], &a[1])?; s.obs.push((Rc::from(n.as_str()), a[2].clone())); Ok(NIL) }
fn b_flag(e: &mut Eng, s: &mut State, a: &[V], _: &Ty) -> R<V> { 
    let n = string(e, s, &a[0], &a[1])?;
    if n == "tick" {
        // the clock moves on by (symbolic) seconds
        let c = s.clock.clone();
        s.clock = e.ibin(s, Bin::Add, 64, &c, &a[2])?;
        return Ok(NIL);
    }
    let v = u(e, s, &a[2])? as i64;
    Rc::make_mut(&mut s.flags).insert(n, v);
    Ok(NIL)
}
fn b_param(e: &mut Eng, s: &mut State, a: &[V], _: &Ty) -> R<V> {
    let n = string(e, s, &a[0], &a[1])?;
    let d = u(e, s, &a[2])? as i64;
    let v = *e.params.get(&n).unwrap_or(&d);
    e.used_params.insert(n, v);
    Ok(V::I(v as u64))
}

pub fn lookup(n: &str) -> Option<Target> {
    let k = |k: K| Some(Target::Intr(k as u32, intr as Bf2));
    let b = |f: Bf| Some(Target::Builtin(f));
    if let Some(r) = n.strip_prefix("llvm.") {
        let starts = |p: &str| r.starts_with(p);
        return if starts("memcpy") || starts("memmove") { k(K::Memcpy) } else if starts("memset") { k(K::Memset) }
            else if starts("assume") || starts("lifetime") || starts("dbg") || starts("experimental.noalias") || starts("prefetch") || starts("x86.sse2.pause") || starts("donothing") || starts("va_") || starts("invariant") { k(K::Nop) }
            else if starts("expect") { k(K::Expect) } else if starts("launder") || starts("threadlocal.address") { k(K::Tls) }
            else if starts("uadd.with.overflow") { k(K::AddO) } else if starts("usub.with.overflow") { k(K::SubO) } else if starts("umul.with.overflow") { k(K::MulO) }
            else if starts("sadd.with.overflow") { k(K::SAddO) } else if starts("ssub.with.overflow") { k(K::SSubO) } else if starts("smul.with.overflow") { k(K::SMulO) }
            else if starts("umax") { k(K::UMax) } else if starts("umin") { k(K::UMin) } else if starts("smax") { k(K::SMax) } else if starts("smin") { k(K::SMin) }
            else if starts("ctpop") { k(K::Ctpop) } else if starts("cttz") { k(K::Cttz) } else if starts("ctlz") { k(K::Ctlz) }
            else if starts("fshl") { k(K::Fshl) } else if starts("fshr") { k(K::Fshr) } else if starts("bswap") { k(K::Bswap) } else if starts("bitreverse") { k(K::Bitrev) }
            else if starts("abs.") { k(K::Abs) } else if starts("usub.sat") { k(K::USubSat) } else if starts("uadd.sat") { k(K::UAddSat) } else if starts("ssub.sat") { k(K::SSubSat) } else if starts("sadd.sat") { k(K::SAddSat) }
            else if starts("is.constant") { k(K::IsConst) } else if starts("objectsize") { k(K::ObjSize) } else if starts("ucmp") { k(K::Ucmp) } else if starts("scmp") { k(K::Scmp) }
            else if starts("fabs") { k(K::Fabs) } else if starts("floor") { k(K::Floor) } else if starts("ceil") { k(K::Ceil) } else if starts("trunc.") { k(K::Trunc) } else if starts("round.") { k(K::Round) } else if starts("roundeven") || starts("rint") || starts("nearbyint") { k(K::RoundEven) }
            else if starts("sqrt") { k(K::Sqrt) } else if starts("maxnum") || starts("maximumnum") { k(K::MaxNum) } else if starts("minnum") || starts("minimumnum") { k(K::MinNum) }
            else if starts("fptoui.sat") { k(K::FptouiSat) } else if starts("fptosi.sat") { k(K::FptosiSat) } else if starts("fmuladd") { k(K::FMulAdd) } else if starts("fma.") { k(K::Fma) }
            else if starts("is.fpclass") { k(K::FpClass) } else if starts("copysign") { k(K::Copysign) } else if starts("powi") { k(K::Powi) } else if starts("pow.") { k(K::Pow) } else if starts("exp.") { k(K::Exp) } else if starts("log.") { k(K::Log) } else if starts("log2") { k(K::Log2) } else if starts("log10") { k(K::Log10) }
            else if starts("sin.") { k(K::Sin) } else if starts("cos.") { k(K::Cos) } else if starts("vector.reduce.or") { k(K::VecReduceOr) } else if starts("vector.reduce.and") { k(K::VecReduceAnd) } else if starts("vector.reduce.add") { k(K::VecReduceAdd) } else if starts("vector.reduce.umax") { k(K::VecReduceUmax) }
            else if starts("trap") || starts("debugtrap") || starts("ubsantrap") { k(K::Trap) } else if starts("load.relative") { k(K::LoadRel) } else if starts("returnaddress") { k(K::ReturnAddr) } else { Some(Target::Unknown) };
    }
    match n {
        "malloc" => return b(b_malloc), "free" => return b(b_free), "memcmp" | "bcmp" => return b(b_memcmp), "memcpy" | "memmove" => return b(b_memcpy), "memset" => return b(b_memset),
        "memchr" => return b(b_memchr), "memrchr" => return b(b_memrchr), "strlen" => return b(b_strlen), "clock_gettime" => return b(b_clock), "__errno_location" => return b(b_errno),
        "open64" | "open" => return b(crate::vfs::open), "read" => return b(crate::vfs::read), "write" => return b(crate::vfs::write), "close" => return b(crate::vfs::close), "lseek64" | "lseek" => return b(crate::vfs::lseek),
        "statx" => return b(crate::vfs::statx), "stat64" | "lstat64" | "stat" => return b(crate::vfs::stat_path), "fstat64" | "fstat" => return b(crate::vfs::fstat), "unlink" => return b(crate::vfs::unlink), "rename" => return b(crate::vfs::rename),
        "__sym_argv" => return b(b_argv),
        "getrandom" => return b(b_getrandom), "exit" | "_exit" | "abort" => return b(b_exit), "getenv" => return b(b_getenv),
        "atan2" => return b(b_atan2), "hypot" => return b(b_hypot), "exp" => return b(b_exp), "log" => return b(b_log), "sin" => return b(b_sin), "cos" => return b(b_cos), "pow" => return b(b_pow), "tan" => return b(b_tan), "acos" => return b(b_acos), "asin" => return b(b_asin),
        "pthread_self" => return b(b_one), "sched_yield" | "pthread_mutex_lock" | "pthread_mutex_unlock" | "pthread_setspecific" | "pthread_key_create" | "pthread_getspecific" | "__cxa_thread_atexit_impl" => return b(b_nop),
        "__sym_int" => return b(b_int), "__sym_choice" => return b(b_choice), "__sym_f64" => return b(b_f64), "__sym_f64_any" => return b(b_f64any), "__sym_f64_real" => return b(b_f64real), "__sym_assume" => return b(b_assume),
        "__sym_check" => return b(b_check), "__sym_reach" => return b(b_reach), "__sym_obs_f64" | "__sym_obs_int" => return b(b_obs), "__sym_flag" => return b(b_flag), "__sym_param" => return b(b_param),
        _ => {}
    }
    if n.starts_with("_R") {
        if n.ends_with("12___rust_alloc") { return b(b_alloc); }
        if n.ends_with("14___rust_dealloc") { return b(b_dealloc); }
        if n.ends_with("19___rust_alloc_zeroed") { return b(b_alloc_zeroed); }
        if n.ends_with("14___rust_realloc") { return b(b_realloc); }
        if n.contains("rust_no_alloc_shim_is_unstable") { return b(b_nop); }
        if n.contains("3fmt6format12format_inner") { return b(b_format_sel); }
        if n.contains("2io5stdio6__print") || n.contains("2io5stdio7__eprint") || n.contains("2io5stdio6_print") || n.contains("2io5stdio7_eprint") { return b(b_nop); }
        if n.ends_with("5slice6memchr14memchr_aligned") { return b(b_core_memchr); }
        if n.ends_with("5slice6memchr7memrchr") { return b(b_core_memrchr); }
        if n.contains("thread_local11destructors10linux_like8register") { return b(b_nop); }
    }
    None
}
/// The class of a float as a bit of the mask of llvm.is.fpclass.
fn fpclass(x: f64) -> u64 {
    use std::num::FpCategory::*;
    let n = x.is_sign_negative();
    match x.classify() {
        Nan => if x.to_bits() >> 51 & 1 == 1 { 2 } else { 1 },
        Infinite => if n { 4 } else { 0x200 },
        Normal => if n { 8 } else { 0x100 },
        Subnormal => if n { 0x10 } else { 0x80 },
        Zero => if n { 0x20 } else { 0x40 },
    }
}
fn b_format_sel(e: &mut Eng, s: &mut State, a: &[V], r: &Ty) -> R<V> { b_format(e, s, a, r) }
