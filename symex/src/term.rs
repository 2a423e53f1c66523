//! Terms: hash-consed polynomials over atoms (dyadic rational coefficients) and a Boolean layer.
//!
//! A symbolic f64 is the *exact real* polynomial of the value it holds. Every float operation whose
//! exact result may not be representable gets a fresh bounded rounding-error atom, memoised by the
//! exact polynomial (rounding is a function of the exact value).
use crate::z3::{Ast, Model, Z3};
use std::collections::HashMap;
use std::rc::Rc;

pub type P = u32;
pub type Mono = [u32; 4];
pub const ONE: Mono = [0; 4];

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Poly {
    /// sorted by monomial, no zero coefficients; value = sum / 2^shift
    pub t: Vec<(Mono, i128)>,
    pub shift: u32,
}
impl Poly {
    pub fn constant(&self) -> i128 { if let Some((m, c)) = self.t.first() { if *m == ONE { return *c; } } 0 }
    pub fn is_const(&self) -> bool { self.t.is_empty() || (self.t.len() == 1 && self.t[0].0 == ONE) }
    fn normal(mut self) -> Poly {
        self.t.retain(|x| x.1 != 0);
        if self.t.is_empty() { self.shift = 0; return self; }
        if self.shift > 0 {
            let tz = self.t.iter().map(|x| x.1.trailing_zeros()).min().unwrap().min(self.shift);
            if tz > 0 { for x in self.t.iter_mut() { x.1 >>= tz; } self.shift -= tz; }
        }
        self
    }
    fn scaled(&self, shift: u32) -> Option<Vec<(Mono, i128)>> {
        let k = shift - self.shift;
        if k == 0 { return Some(self.t.clone()); }
        if k > 120 { return None; }
        self.t.iter().map(|(m, c)| {
            let b = 128 - c.unsigned_abs().leading_zeros();
            if b + k > 122 { None } else { Some((*m, c << k)) }
        }).collect()
    }
    pub fn add(&self, o: &Poly, neg: bool) -> Option<Poly> {
        let s = self.shift.max(o.shift);
        let a = self.scaled(s)?;
        let b = o.scaled(s)?;
        let mut r = Vec::with_capacity(a.len() + b.len());
        let (mut i, mut j) = (0, 0);
        while i < a.len() || j < b.len() {
            if j >= b.len() || (i < a.len() && a[i].0 < b[j].0) { r.push(a[i]); i += 1; }
            else {
                let c = if neg { -b[j].1 } else { b[j].1 };
                if i < a.len() && a[i].0 == b[j].0 { r.push((a[i].0, a[i].1.checked_add(c)?)); i += 1; } else { r.push((b[j].0, c)); }
                j += 1;
            }
        }
        Some(Poly { t: r, shift: s }.normal())
    }
    pub fn neg(&self) -> Poly { Poly { t: self.t.iter().map(|(m, c)| (*m, -c)).collect(), shift: self.shift } }
    pub fn mul(&self, o: &Poly) -> Option<Poly> {
        let mut h: HashMap<Mono, i128> = HashMap::new();
        for (m, c) in &self.t {
            for (n, d) in &o.t {
                let mut k: Vec<u32> = m.iter().chain(n.iter()).copied().filter(|x| *x != 0).collect();
                if k.len() > 4 { return None; }
                k.sort();
                let mut key = ONE;
                key[..k.len()].copy_from_slice(&k);
                let bits = 256 - c.unsigned_abs().leading_zeros() - d.unsigned_abs().leading_zeros();
                if bits > 122 { return None; }
                let e = h.entry(key).or_insert(0);
                *e = e.checked_add(c * d)?;
            }
        }
        let mut t: Vec<(Mono, i128)> = h.into_iter().collect();
        t.sort();
        Some(Poly { t, shift: self.shift + o.shift }.normal())
    }
}

#[derive(Clone, Debug)]
pub struct Atom {
    pub z: Ast,
    /// z3 sort is Int
    pub int_sort: bool,
    /// the value is an integer
    pub integral: bool,
    pub lo: f64,
    pub hi: f64,
    /// asserted whenever the atom occurs
    pub axioms: Vec<Ast>,
    /// further (nonlinear) axioms, used only to confirm counterexamples
    pub late: Vec<Ast>,
    /// atoms its definition / axioms mention
    pub deps: Vec<u32>,
    /// input variable (name)
    pub input: bool,
    /// rounding error atom
    pub error: bool,
}

/// Boolean handle: index << 1 | negated.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub struct Bx(pub u32);
pub const TRUE: Bx = Bx(0);
pub const FALSE: Bx = Bx(1);
impl Bx {
    pub fn not(self) -> Bx { Bx(self.0 ^ 1) }
    pub fn neg(self) -> bool { self.0 & 1 == 1 }
    pub fn idx(self) -> usize { (self.0 >> 1) as usize }
    pub fn of(b: bool) -> Bx { if b { TRUE } else { FALSE } }
    pub fn konst(self) -> Option<bool> { if self == TRUE { Some(true) } else if self == FALSE { Some(false) } else { None } }
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Bn {
    True,
    /// integer-valued p <= 0
    LeI(P),
    EqI(P),
    LeR(P),
    LtR(P),
    EqR(P),
    And(Vec<Bx>),
    Iff(Bx, Bx),
    Ite(Bx, Bx, Bx),
    Raw(usize),
}

pub struct Terms {
    pub z: Rc<Z3>,
    pub polys: Vec<Rc<Poly>>,
    ids: HashMap<Rc<Poly>, P>,
    iv: Vec<(f64, f64)>,
    zp: Vec<Option<Ast>>,
    pub atoms: Vec<Atom>,
    bn: Vec<Bn>,
    bids: HashMap<Bn, u32>,
    zb: Vec<Option<(Ast, Ast)>>,
    batoms: Vec<Option<Rc<Vec<u32>>>>,
    rounding: HashMap<P, P>,
    /// rounded value -> the exact quotient (numerator, positive constant denominator) it is the rounding of
    pub exact_of: HashMap<P, (P, P)>,
    /// word differences that only matter as zero or not
    pub diffs: std::collections::HashSet<P>,
    /// squares and sums of squares
    pub nonneg: std::collections::HashSet<P>,
    /// error atom -> rounded value, exact value
    pub err_of: HashMap<u32, (P, P)>,
    memo: HashMap<(u32, P, P), P>,
    pub raw_atoms: HashMap<usize, Vec<u32>>,
    fresh: u32,
    pub n_round: u64,
}

fn out(lo: f64, hi: f64) -> (f64, f64) {
    let l = if lo.fract() == 0.0 && lo.abs() < 9e15 { lo } else { lo - lo.abs() * 1e-15 - 1e-300 };
    let h = if hi.fract() == 0.0 && hi.abs() < 9e15 { hi } else { hi + hi.abs() * 1e-15 + 1e-300 };
    (l, h)
}
fn imul(a: (f64, f64), b: (f64, f64)) -> (f64, f64) {
    let c = [a.0 * b.0, a.0 * b.1, a.1 * b.0, a.1 * b.1];
    let mut l = f64::INFINITY;
    let mut h = f64::NEG_INFINITY;
    for x in c { let x = if x.is_nan() { 0.0 } else { x }; l = l.min(x); h = h.max(x); }
    out(l, h)
}

/// f64 -> (mantissa, shift) with x = m / 2^shift, when it fits.
pub fn dyadic(x: f64) -> Option<(i128, u32)> {
    if x == 0.0 { return Some((0, 0)); }
    if !x.is_finite() { return None; }
    let b = x.to_bits();
    let e = ((b >> 52) & 0x7ff) as i32;
    let m = (b & ((1 << 52) - 1)) as i128 | if e == 0 { 0 } else { 1 << 52 };
    let mut ex = if e == 0 { -1074 } else { e - 1075 };
    let tz = m.trailing_zeros();
    let mut m = m >> tz;
    ex += tz as i32;
    if b >> 63 == 1 { m = -m; }
    if ex >= 0 { if ex > 60 { return None; } Some((m << ex, 0)) } else if -ex > 110 { None } else { Some((m, (-ex) as u32)) }
}
fn gcd(a: u128, b: u128) -> u128 { let (mut a, mut b) = (a, b); while b != 0 { let t = a % b; a = b; b = t; } a }
fn div_ceil(a: i128, b: i128) -> i128 { let q = a / b; if a % b != 0 && (a > 0) == (b > 0) { q + 1 } else { q } }

impl Terms {
    pub fn new(z: Rc<Z3>) -> Terms {
        let z2 = z.clone();
        Terms {
            z, polys: Vec::new(), ids: HashMap::new(), iv: Vec::new(), zp: Vec::new(),
            atoms: vec![Atom { z: z2.tru, int_sort: false, integral: true, lo: 1.0, hi: 1.0, axioms: vec![], late: vec![], deps: vec![], input: false, error: false }],
            bn: vec![Bn::True], bids: HashMap::new(), zb: vec![Some((z2.tru, z2.fals))], batoms: vec![Some(Rc::new(vec![]))],
            rounding: HashMap::new(), exact_of: HashMap::new(), diffs: Default::default(), err_of: HashMap::new(), nonneg: Default::default(), memo: HashMap::new(), raw_atoms: HashMap::new(), fresh: 0, n_round: 0,
        }
    }
    pub fn poly(&mut self, p: Poly) -> P {
        if let Some(i) = self.ids.get(&p) { return *i; }
        let i = self.polys.len() as P;
        let iv = self.calc_interval(&p);
        let r = Rc::new(p);
        self.polys.push(r.clone());
        self.ids.insert(r, i);
        self.iv.push(iv);
        self.zp.push(None);
        i
    }
    fn calc_interval(&self, p: &Poly) -> (f64, f64) {
        let mut l = 0.0;
        let mut h = 0.0;
        for (m, c) in &p.t {
            let mut r = (1.0, 1.0);
            let mut i = 0;
            while i < 4 && m[i] != 0 {
                let a = &self.atoms[m[i] as usize];
                // squares
                if i + 1 < 4 && m[i + 1] == m[i] {
                    let s = imul((a.lo, a.hi), (a.lo, a.hi));
                    let lo = if a.lo <= 0.0 && a.hi >= 0.0 { 0.0 } else { s.0.max(0.0) };
                    r = imul(r, (lo, s.1));
                    i += 2;
                    continue;
                }
                r = imul(r, (a.lo, a.hi));
                i += 1;
            }
            let cf = *c as f64;
            let cf2 = if (cf as i128) == *c { (cf, cf) } else { (cf - cf.abs() * 1e-15, cf + cf.abs() * 1e-15) };
            let r = imul(r, cf2);
            let s = out(l + r.0, h + r.1);
            l = s.0;
            h = s.1;
        }
        let k = 2f64.powi(-(p.shift as i32));
        (l * k, h * k)
    }
    pub fn interval(&self, p: P) -> (f64, f64) { self.iv[p as usize] }
    pub fn get(&self, p: P) -> Rc<Poly> { self.polys[p as usize].clone() }
    pub fn dy(&mut self, m: i128, shift: u32) -> P {
        let p = Poly { t: if m == 0 { vec![] } else { vec![(ONE, m)] }, shift }.normal();
        self.poly(p)
    }
    pub fn int_const(&mut self, m: i128) -> P { self.dy(m, 0) }
    pub fn f64_const(&mut self, x: f64) -> Option<P> { let (m, s) = dyadic(x)?; Some(self.dy(m, s)) }
    pub fn atom_poly(&mut self, a: u32, shift: u32) -> P { self.poly(Poly { t: vec![([a, 0, 0, 0], 1)], shift }) }
    pub fn name(&mut self, b: &str) -> String { self.fresh += 1; format!("{}!{}", b, self.fresh) }
    pub fn new_atom(&mut self, a: Atom) -> u32 { self.atoms.push(a); (self.atoms.len() - 1) as u32 }
    /// Input variable. `real`: Real sort with integrality left to the final solve.
    pub fn input(&mut self, name: &str, lo: i64, hi: i64, real: bool) -> u32 {
        let n = self.name(name);
        let z = self.z.clone();
        let sort = if real { z.real } else { z.int };
        let v = z.var(&n, sort);
        let ax = vec![z.le(z.num(&lo.to_string(), sort), v), z.le(v, z.num(&hi.to_string(), sort))];
        self.new_atom(Atom { z: v, int_sort: !real, integral: true, lo: lo as f64, hi: hi as f64, axioms: ax, late: vec![], deps: vec![], input: true, error: false })
    }
    /// Fresh real in an interval.
    pub fn fresh_real(&mut self, name: &str, lo: f64, hi: f64, error: bool) -> u32 {
        let n = self.name(name);
        let z = self.z.clone();
        let v = z.var(&n, z.real);
        let mut ax = Vec::new();
        if lo > -1e300 { let c = self.zf64(lo); ax.push(z.le(c, v)); }
        if hi < 1e300 { let c = self.zf64(hi); ax.push(z.le(v, c)); }
        self.new_atom(Atom { z: v, int_sort: false, integral: false, lo, hi, axioms: ax, late: vec![], deps: vec![], input: false, error })
    }
    pub fn zf64(&self, x: f64) -> Ast {
        // exact rational of a double
        if x == 0.0 { return self.z.num("0", self.z.real); }
        let b = x.to_bits();
        let e = ((b >> 52) & 0x7ff) as i32;
        let m = (b & ((1 << 52) - 1)) | if e == 0 { 0 } else { 1 << 52 };
        let ex = if e == 0 { -1074 } else { e - 1075 };
        let tz = m.trailing_zeros();
        let m = m >> tz;
        let ex = ex + tz as i32;
        let s = if b >> 63 == 1 { "-" } else { "" };
        let n = self.z.num(&format!("{}{}", s, m), self.z.real);
        if ex == 0 { n } else {
            let p = self.pow2(ex.unsigned_abs());
            if ex > 0 { self.z.mul(&[n, p]) } else { self.z.div(n, p) }
        }
    }
    fn pow2(&self, k: u32) -> Ast {
        // decimal string of 2^k
        let mut d: Vec<u8> = vec![1];
        for _ in 0..k {
            let mut c = 0;
            for x in d.iter_mut() { let v = *x * 2 + c; *x = v % 10; c = v / 10; }
            if c > 0 { d.push(c); }
        }
        let s: String = d.iter().rev().map(|x| (b'0' + x) as char).collect();
        self.z.num(&s, self.z.real)
    }
    /// z3 term of poly * 2^shift (numerator).
    pub fn znum(&mut self, p: P) -> Ast {
        if let Some(a) = self.zp[p as usize] { return a; }
        let q = self.get(p);
        let z = self.z.clone();
        let mut sum = Vec::new();
        for (m, c) in &q.t {
            let cz = z.num(&c.to_string(), z.real);
            let mut f = Vec::new();
            if *c != 1 || *m == ONE { f.push(cz); }
            for a in m { if *a != 0 { let at = &self.atoms[*a as usize]; f.push(if at.int_sort { z.to_real(at.z) } else { at.z }); } }
            sum.push(if f.len() == 1 { f[0] } else { z.mul(&f) });
        }
        let r = match sum.len() { 0 => z.num("0", z.real), 1 => sum[0], _ => z.add(&sum) };
        self.zp[p as usize] = Some(r);
        r
    }
    pub fn zval(&mut self, p: P) -> Ast {
        let n = self.znum(p);
        let s = self.polys[p as usize].shift;
        if s == 0 { n } else { let d = self.pow2(s); self.z.div(n, d) }
    }
    pub fn atoms_of(&self, p: P) -> Vec<u32> {
        let mut v: Vec<u32> = self.polys[p as usize].t.iter().flat_map(|(m, _)| m.iter().copied()).filter(|a| *a != 0).collect();
        v.sort();
        v.dedup();
        v
    }
    /// Replace a polynomial by one atom standing for its value.
    fn opaque(&mut self, p: P) -> P {
        if let Some(r) = self.memo.get(&(100, p, 0)) { return *r; }
        let (lo, hi) = self.interval(p);
        let a = self.fresh_real("opq", lo, hi, false);
        let zv = self.zval(p);
        let eq = self.z.eq(self.atoms[a as usize].z, zv);
        let deps = self.atoms_of(p);
        let at = &mut self.atoms[a as usize];
        at.axioms.push(eq);
        at.deps = deps;
        let r = self.atom_poly(a, 0);
        self.memo.insert((100, p, 0), r);
        r
    }
    pub fn padd(&mut self, a: P, b: P, neg: bool) -> P {
        let (x, y) = (self.get(a), self.get(b));
        if let Some(r) = x.add(&y, neg) { return self.poly(r); }
        let (a2, b2) = if x.shift > y.shift { (self.opaque(a), b) } else { (a, self.opaque(b)) };
        let (x, y) = (self.get(a2), self.get(b2));
        if let Some(r) = x.add(&y, neg) { return self.poly(r); }
        let (a3, b3) = (self.opaque(a2), self.opaque(b2));
        let r = self.get(a3).add(&self.get(b3), neg).unwrap();
        self.poly(r)
    }
    pub fn pneg(&mut self, a: P) -> P { let r = self.get(a).neg(); self.poly(r) }
    pub fn pmul(&mut self, a: P, b: P) -> P {
        if let Some(r) = self.get(a).mul(&self.get(b)) { return self.poly(r); }
        let (x, y) = (self.opaque(a), self.opaque(b));
        let r = self.get(x).mul(&self.get(y)).unwrap();
        self.poly(r)
    }
    pub fn as_const(&self, p: P) -> Option<(i128, u32)> { let q = &self.polys[p as usize]; if q.is_const() { Some((q.constant(), q.shift)) } else { None } }
    pub fn as_f64(&self, p: P) -> Option<f64> { self.as_const(p).map(|(c, s)| c as f64 * 2f64.powi(-(s as i32))) }
    /// all atoms integral
    pub fn on_grid(&self, p: P) -> bool { self.polys[p as usize].t.iter().all(|(m, _)| m.iter().all(|a| *a == 0 || self.atoms[*a as usize].integral)) }
    /// The polynomial's value is certainly an f64.
    fn exact(&self, p: P) -> bool {
        if !self.on_grid(p) { return false; }
        let (l, h) = self.interval(p);
        let k = 2f64.powi(self.polys[p as usize].shift as i32);
        // any common power of two can be divided out
        let tz = self.polys[p as usize].t.iter().map(|x| x.1.trailing_zeros()).min().unwrap_or(0);
        let lim = 9007199254740992.0 * 2f64.powi(tz as i32);
        (l * k).abs() <= lim && (h * k).abs() <= lim
    }
    /// f64 rounding of an exact value.
    pub fn round(&mut self, p: P) -> P {
        if self.exact(p) { return p; }
        if let Some(r) = self.rounding.get(&p) { return *r; }
        // symmetric: round(-p) = -round(p)
        let q = self.pneg(p);
        if let Some(r) = self.rounding.get(&q) { let r = *r; return self.pneg(r); }
        if let Some((c, s)) = self.as_const(p) {
            // i128 -> f64 conversion rounds to nearest even
            let v = c as f64 * 2f64.powi(-(s as i32));
            if let Some(r) = self.f64_const(v) { self.rounding.insert(p, r); return r; }
        }
        let (l, h) = self.interval(p);
        let m = l.abs().max(h.abs());
        let u = if m.is_finite() { m * 1.1102230246251567e-16 + 5e-324 } else { f64::INFINITY };
        let e = self.fresh_real("e", -u, u, true);
        self.n_round += 1;
        let ep = self.atom_poly(e, 0);
        let r = self.padd(p, ep, false);
        self.err_of.insert(e, (r, p));
        self.rounding.insert(p, r);
        // the rounded value is an f64: rounding it again changes nothing
        self.rounding.insert(r, r);
        let one = self.int_const(1);
        self.exact_of.insert(r, (p, one));
        r
    }
    /// The values an integral function of the rounded value `r` may be bounded by: exact quotients
    /// (numerator, positive denominator), following sums of a rounded value and an integer.
    pub fn exact_chain(&mut self, r: P) -> Vec<(P, P)> {
        let mut v = Vec::new();
        let Some((mut n, d)) = self.exact_of.get(&r).copied() else { return v };
        v.push((n, d));
        if self.as_const(d) != Some((1, 0)) { return v; }
        for _ in 0..4 {
            let mut next = None;
            for a in self.atoms_of(n) {
                if let Some((r2, p2)) = self.err_of.get(&a).copied() {
                    let c = self.padd(n, r2, true);
                    if let Some((_, 0)) = self.as_const(c) { next = Some(self.padd(p2, c, false)); }
                }
            }
            // a quotient plus an integer
            if next.is_none() {
                let cands: Vec<(P, (P, P))> = self.exact_of.iter().map(|(a, b)| (*a, *b)).filter(|(_, (_, q))| self.as_const(*q) != Some((1, 0))).collect();
                for (r2, (m, q)) in cands {
                    let c = self.padd(n, r2, true);
                    if let Some((_, 0)) = self.as_const(c) {
                        let k = self.pmul(c, q);
                        let num = self.padd(m, k, false);
                        v.push((num, q));
                        return v;
                    }
                }
                return v;
            }
            n = next.unwrap();
            v.push((n, d));
        }
        v
    }
    pub fn known_float(&mut self, p: P) { if !self.exact(p) { self.rounding.insert(p, p); } }

    // ------------------------------------------------------------ booleans
    fn node(&mut self, b: Bn) -> Bx {
        if let Some(i) = self.bids.get(&b) { return Bx(*i << 1); }
        let i = self.bn.len() as u32;
        self.bn.push(b.clone());
        self.bids.insert(b, i);
        self.zb.push(None);
        self.batoms.push(None);
        Bx(i << 1)
    }
    pub fn raw(&mut self, a: Ast, atoms: Vec<u32>) -> Bx {
        self.raw_atoms.insert(a as usize, atoms);
        self.node(Bn::Raw(a as usize))
    }
    fn content(&self, q: &Poly) -> u128 { q.t.iter().filter(|x| x.0 != ONE).fold(0u128, |g, x| gcd(g, x.1.unsigned_abs())) }
    /// p <= 0 for an integer-valued numerator
    fn le_grid(&mut self, q: &Poly) -> Bx {
        let g = self.content(q) as i128;
        if g == 0 { return Bx::of(q.constant() <= 0); }
        let c = q.constant();
        let c2 = div_ceil(c, g);
        let mut t: Vec<(Mono, i128)> = Vec::with_capacity(q.t.len());
        if c2 != 0 { t.push((ONE, c2)); }
        for x in &q.t { if x.0 != ONE { t.push((x.0, x.1 / g)); } }
        let lead = t.iter().find(|x| x.0 != ONE).unwrap().1;
        if lead > 0 {
            let p = self.poly(Poly { t, shift: 0 });
            let (l, h) = self.interval(p);
            if h <= 0.0 { return TRUE; }
            if l > 0.0 { return FALSE; }
            self.node(Bn::LeI(p))
        } else {
            // N <= 0  <=>  not (-N + 1 <= 0)
            let mut t2: Vec<(Mono, i128)> = t.iter().map(|x| (x.0, -x.1)).collect();
            if t2[0].0 == ONE { t2[0].1 += 1; if t2[0].1 == 0 { t2.remove(0); } } else { t2.insert(0, (ONE, 1)); }
            let p = self.poly(Poly { t: t2, shift: 0 });
            let (l, h) = self.interval(p);
            if h <= 0.0 { return FALSE; }
            if l > 0.0 { return TRUE; }
            self.node(Bn::LeI(p)).not()
        }
    }
    fn eq_grid(&mut self, q: &Poly) -> Bx {
        let g = self.content(q) as i128;
        let c = q.constant();
        if g == 0 { return Bx::of(c == 0); }
        if c % g != 0 { return FALSE; }
        let mut t: Vec<(Mono, i128)> = q.t.iter().map(|x| (x.0, x.1 / g)).collect();
        if t.iter().find(|x| x.0 != ONE).unwrap().1 < 0 { for x in t.iter_mut() { x.1 = -x.1; } }
        let p = self.poly(Poly { t, shift: 0 });
        let (l, h) = self.interval(p);
        if l > 0.0 || h < 0.0 { return FALSE; }
        self.node(Bn::EqI(p))
    }
    /// The units (as powers of two) the integral part of a value can be split at, finest first.
    fn units(&self, q: &Poly) -> Vec<u32> {
        let mut v: Vec<u32> = q.t.iter().filter(|(m, _)| *m != ONE && m.iter().all(|a| *a == 0 || self.atoms[*a as usize].integral)).map(|x| x.1.trailing_zeros()).collect();
        v.sort();
        v.dedup();
        v
    }
    /// Split into (part on the grid of the unit 2^tz, remainder below a unit, unit).
    fn split(&mut self, q: &Poly, tz: u32) -> Option<(Poly, P)> {
        let unit = 1i128 << tz;
        // nearest multiple
        let near = |c: i128| { let f = c.div_euclid(unit); let r = c.rem_euclid(unit); (if r > unit / 2 { f + 1 } else { f }) * unit };
        let mut grid: Vec<(Mono, i128)> = Vec::new();
        let mut rest: Vec<(Mono, i128)> = Vec::new();
        for (m, c) in &q.t {
            let g = if m.iter().all(|a| *a == 0 || self.atoms[*a as usize].integral) { near(*c) } else { 0 };
            if g != 0 { grid.push((*m, g)); }
            if *c != g { rest.push((*m, *c - g)); }
        }
        if grid.iter().all(|x| x.0 == ONE) { return None; }
        let rest = self.poly(Poly { t: rest, shift: q.shift });
        let (sl, sh) = self.interval(rest);
        let unit = 2f64.powi(tz as i32 - q.shift as i32);
        if sl > -unit && sh < unit { Some((Poly { t: grid, shift: q.shift }, rest)) } else { None }
    }
    /// p <= 0 (strict: p < 0)
    pub fn cmp0(&mut self, p: P, strict: bool) -> Bx {
        let (l, h) = self.interval(p);
        if strict { if h < 0.0 { return TRUE; } if l >= 0.0 { return FALSE; } }
        else { if h <= 0.0 { return TRUE; } if l > 0.0 { return FALSE; } }
        let q = self.get(p);
        if q.is_const() { let c = q.constant(); return Bx::of(if strict { c < 0 } else { c <= 0 }); }
        let on_grid = self.on_grid(p);
        for tz in self.units(&q).into_iter().skip(on_grid as usize) {
            if let Some((g, sp)) = self.split(&q, tz) {
                let (sl, sh) = self.interval(sp);
                // g + s < 0
                let lt = { let mut a = g.clone(); self.bump(&mut a, 1i128 << tz); self.le_grid(&a) };
                let le = self.le_grid(&g);
                let zero_case = if strict { if sh < 0.0 { Some(true) } else if sl >= 0.0 { Some(false) } else { None } }
                    else { if sh <= 0.0 { Some(true) } else if sl > 0.0 { Some(false) } else { None } };
                match zero_case {
                    Some(true) => return le,
                    Some(false) => return lt,
                    None if on_grid => break,
                    None => {
                        let sn = self.cmp_real(sp, strict);
                        // lt or (le and sn)
                        let a = self.and(&[le, sn]);
                        return self.or(&[lt, a]);
                    }
                };
            }
        }
        if on_grid {
            let mut q2 = (*q).clone();
            if strict { self.bump(&mut q2, 1); }
            return self.le_grid(&q2);
        }
        self.cmp_real(p, strict)
    }
    fn bump(&self, q: &mut Poly, d: i128) {
        if !q.t.is_empty() && q.t[0].0 == ONE { q.t[0].1 += d; if q.t[0].1 == 0 { q.t.remove(0); } } else { q.t.insert(0, (ONE, d)); }
    }
    fn cmp_real(&mut self, p: P, strict: bool) -> Bx {
        let (l, h) = self.interval(p);
        if strict { if h < 0.0 { return TRUE; } if l >= 0.0 { return FALSE; } }
        else { if h <= 0.0 { return TRUE; } if l > 0.0 { return FALSE; } }
        let q = self.get(p);
        let g = q.t.iter().fold(0u128, |g, x| gcd(g, x.1.unsigned_abs())) as i128;
        let lead = q.t.iter().find(|x| x.0 != ONE).unwrap().1;
        let s = if lead < 0 { -g } else { g };
        let t = q.t.iter().map(|x| (x.0, x.1 / s)).collect();
        let n = self.poly(Poly { t, shift: 0 });
        if lead > 0 { if strict { self.node(Bn::LtR(n)) } else { self.node(Bn::LeR(n)) } }
        // p < 0 <=> -p > 0 <=> not(-p <= 0)
        else if strict { self.node(Bn::LeR(n)).not() } else { self.node(Bn::LtR(n)).not() }
    }
    pub fn eq0(&mut self, p: P) -> Bx {
        let (l, h) = self.interval(p);
        if l > 0.0 || h < 0.0 { return FALSE; }
        let q = self.get(p);
        if q.is_const() { return Bx::of(q.constant() == 0); }
        if self.on_grid(p) { return self.eq_grid(&q); }
        for tz in self.units(&q) {
            if let Some((g, sp)) = self.split(&q, tz) {
                let (sl, sh) = self.interval(sp);
                if sl > 0.0 || sh < 0.0 { return FALSE; }
                let a = self.eq_grid(&g);
                let b = self.eq_real(sp);
                return self.and(&[a, b]);
            }
        }
        self.eq_real(p)
    }
    fn eq_real(&mut self, p: P) -> Bx {
        let q = self.get(p);
        if q.is_const() { return Bx::of(q.constant() == 0); }
        let g = q.t.iter().fold(0u128, |g, x| gcd(g, x.1.unsigned_abs())) as i128;
        let lead = q.t.iter().find(|x| x.0 != ONE).unwrap().1;
        let s = if lead < 0 { -g } else { g };
        let t = q.t.iter().map(|x| (x.0, x.1 / s)).collect();
        let n = self.poly(Poly { t, shift: 0 });
        self.node(Bn::EqR(n))
    }
    pub fn and(&mut self, v: &[Bx]) -> Bx {
        let mut o: Vec<Bx> = Vec::new();
        for b in v {
            if *b == FALSE { return FALSE; }
            if *b == TRUE { continue; }
            if !b.neg() { if let Bn::And(x) = &self.bn[b.idx()] { o.extend(x.iter().copied()); continue; } }
            o.push(*b);
        }
        o.sort();
        o.dedup();
        for w in o.windows(2) { if w[0].not() == w[1] { return FALSE; } }
        match o.len() { 0 => TRUE, 1 => o[0], _ => self.node(Bn::And(o)) }
    }
    pub fn or(&mut self, v: &[Bx]) -> Bx { let n: Vec<Bx> = v.iter().map(|b| b.not()).collect(); self.and(&n).not() }
    pub fn iff(&mut self, a: Bx, b: Bx) -> Bx {
        if let Some(x) = a.konst() { return if x { b } else { b.not() }; }
        if let Some(x) = b.konst() { return if x { a } else { a.not() }; }
        if a == b { return TRUE; }
        if a == b.not() { return FALSE; }
        let neg = a.neg() ^ b.neg();
        let (x, y) = (Bx(a.0 & !1), Bx(b.0 & !1));
        let (x, y) = if x < y { (x, y) } else { (y, x) };
        let r = self.node(Bn::Iff(x, y));
        if neg { r.not() } else { r }
    }
    pub fn bite(&mut self, c: Bx, a: Bx, b: Bx) -> Bx {
        if let Some(x) = c.konst() { return if x { a } else { b }; }
        if a == b { return a; }
        if a == TRUE { return self.or(&[c, b]); }
        if a == FALSE { return self.and(&[c.not(), b]); }
        if b == TRUE { return self.or(&[c.not(), a]); }
        if b == FALSE { return self.and(&[c, a]); }
        if a == b.not() { return self.iff(c, a); }
        if c.neg() { return self.bite(c.not(), b, a); }
        self.node(Bn::Ite(c, a, b))
    }
    pub fn bnode(&self, b: Bx) -> &Bn { &self.bn[b.idx()] }
    fn zpair(&mut self, i: usize) -> (Ast, Ast) {
        if let Some(x) = self.zb[i] { return x; }
        let z = self.z.clone();
        let zero = z.num("0", z.real);
        let n = self.bn[i].clone();
        let r = match n {
            Bn::True => (z.tru, z.fals),
            Bn::LeI(p) => { let t = self.znum(p); (z.le(t, zero), z.le(z.num("1", z.real), t)) }
            Bn::EqI(p) => { let t = self.znum(p); (z.eq(t, zero), z.or(&[z.le(t, z.num("-1", z.real)), z.le(z.num("1", z.real), t)])) }
            Bn::LeR(p) => { let t = self.znum(p); (z.le(t, zero), z.lt(zero, t)) }
            Bn::LtR(p) => { let t = self.znum(p); (z.lt(t, zero), z.le(zero, t)) }
            Bn::EqR(p) => { let t = self.znum(p); (z.eq(t, zero), z.or(&[z.lt(t, zero), z.lt(zero, t)])) }
            Bn::And(v) => { let a: Vec<Ast> = v.iter().map(|b| self.zb(*b)).collect(); let o: Vec<Ast> = v.iter().map(|b| self.zb(b.not())).collect(); (z.and(&a), z.or(&o)) }
            Bn::Iff(a, b) => {
                let (ap, an, bp, bn) = (self.zb(a), self.zb(a.not()), self.zb(b), self.zb(b.not()));
                (z.or(&[z.and(&[ap, bp]), z.and(&[an, bn])]), z.or(&[z.and(&[ap, bn]), z.and(&[an, bp])]))
            }
            Bn::Ite(c, a, b) => {
                let (cp, cn, ap, an, bp, bn) = (self.zb(c), self.zb(c.not()), self.zb(a), self.zb(a.not()), self.zb(b), self.zb(b.not()));
                (z.or(&[z.and(&[cp, ap]), z.and(&[cn, bp])]), z.or(&[z.and(&[cp, an]), z.and(&[cn, bn])]))
            }
            Bn::Raw(a) => (a as Ast, z.not(a as Ast)),
        };
        self.zb[i] = Some(r);
        r
    }
    pub fn zb(&mut self, b: Bx) -> Ast { let p = self.zpair(b.idx()); if b.neg() { p.1 } else { p.0 } }
    /// Atoms (transitively through definitions) a Boolean mentions.
    pub fn batoms(&mut self, b: Bx) -> Rc<Vec<u32>> {
        let i = b.idx();
        if let Some(x) = &self.batoms[i] { return x.clone(); }
        let mut v: Vec<u32> = Vec::new();
        match self.bn[i].clone() {
            Bn::True => {}
            Bn::LeI(p) | Bn::EqI(p) | Bn::LeR(p) | Bn::LtR(p) | Bn::EqR(p) => v = self.atoms_of(p),
            Bn::And(x) => for b in x { v.extend(self.batoms(b).iter()); },
            Bn::Iff(a, b) => for b in [a, b] { v.extend(self.batoms(b).iter()); },
            Bn::Ite(c, a, b) => for b in [c, a, b] { v.extend(self.batoms(b).iter()); },
            Bn::Raw(a) => v = self.raw_atoms.get(&a).cloned().unwrap_or_default(),
        }
        let v = self.close(v);
        let r = Rc::new(v);
        self.batoms[i] = Some(r.clone());
        r
    }
    pub fn close(&self, v: Vec<u32>) -> Vec<u32> {
        let mut seen = std::collections::BTreeSet::new();
        let mut w = v;
        while let Some(a) = w.pop() { if seen.insert(a) { w.extend(self.atoms[a as usize].deps.iter().copied()); } }
        seen.into_iter().collect()
    }
    /// f64 value `if c { a } else { b }`
    pub fn ite(&mut self, c: Bx, a: P, b: P) -> P {
        if let Some(x) = c.konst() { return if x { a } else { b }; }
        if a == b { return a; }
        if c.neg() { return self.ite(c.not(), b, a); }
        // ite(c, a, b) = b + ite(c, a - b, 0)
        if let Some(r) = self.memo.get(&(200 + c.0, a, b)) { return *r; }
        let (pa, pb) = (self.get(a), self.get(b));
        let grid = self.on_grid(a) && self.on_grid(b);
        let shift = if grid { pa.shift.max(pb.shift) } else { 0 };
        let (la, ha) = self.interval(a);
        let (lb, hb) = self.interval(b);
        let (mut lo, mut hi) = (la.min(lb), ha.max(hb));
        // max(0, x) / min shapes: c is "a < b" etc. tighten
        let d = self.padd(a, b, true);
        let lt = self.cmp0(d, true);
        let le = self.cmp0(d, false);
        if c == lt || c == le { lo = la.min(lb); hi = ha.min(hb); }
        if c == lt.not() || c == le.not() { lo = la.max(lb); hi = ha.max(hb); }
        let k = 2f64.powi(shift as i32);
        let z = self.z.clone();
        let zc = self.zb(c);
        let zero = z.num("0", z.real);
        let _ = zero;
        let (za, zbb) = (self.zval(a), self.zval(b));
        let mut t = z.ite(zc, za, zbb);
        if shift > 0 { let p2 = self.pow2(shift); t = z.mul(&[p2, t]); }
        let mut deps = self.atoms_of(a);
        deps.extend(self.atoms_of(b));
        deps.extend(self.batoms(c).iter());
        let n = self.name("ite");
        let v = z.var(&n, z.real);
        let at = self.new_atom(Atom { z: v, int_sort: false, integral: grid, lo: lo * k, hi: hi * k, axioms: vec![z.eq(v, t)], late: vec![], deps, input: false, error: false });
        let r = self.atom_poly(at, shift);
        self.known_float(r);
        self.memo.insert((200 + c.0, a, b), r);
        r
    }
    /// Generic memoised unary/binary function atom.
    pub fn func(&mut self, tag: u32, a: P, b: P, mk: impl FnOnce(&mut Terms) -> P) -> P {
        if let Some(r) = self.memo.get(&(tag, a, b)) { return *r; }
        let r = mk(self);
        self.memo.insert((tag, a, b), r);
        r
    }
    /// Fresh atom with interval and axioms.
    pub fn defined(&mut self, name: &str, integral: bool, lo: f64, hi: f64, deps: Vec<u32>, ax: impl FnOnce(&mut Terms, Ast) -> Vec<Ast>) -> P {
        let a = self.fresh_real(name, lo, hi, false);
        let v = self.atoms[a as usize].z;
        let x = ax(self, v);
        let at = &mut self.atoms[a as usize];
        at.axioms.extend(x);
        at.deps = deps;
        at.integral = integral;
        self.atom_poly(a, 0)
    }
    /// evaluate under a model
    pub fn eval(&mut self, m: &Model, b: Bx) -> Option<bool> { let a = self.zb(b); m.boolean(a) }
    pub fn bshow(&self, b: Bx) -> String {
        let p = match self.bn[b.idx()] { Bn::LeI(p) => format!("{} <= 0", self.show(p)), Bn::EqI(p) => format!("{} = 0", self.show(p)), Bn::LeR(p) | Bn::LtR(p) | Bn::EqR(p) => format!("real {}", self.show(p)), _ => "formula".to_string() };
        if b.neg() { format!("not {}", p) } else { p }
    }
    pub fn show(&self, p: P) -> String {
        let q = &self.polys[p as usize];
        let mut s = String::new();
        for (m, c) in &q.t {
            s += &format!("{}{}", if *c >= 0 { "+" } else { "" }, c);
            for a in m { if *a != 0 { s += &format!("*{}", self.z.show(self.atoms[*a as usize].z)); } }
        }
        format!("({})/2^{}", s, q.shift)
    }
}
impl Terms {
    pub fn find(&self, p: &Poly) -> Option<P> { self.ids.get(p).copied() }
}
