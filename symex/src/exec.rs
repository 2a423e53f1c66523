//! The symbolic executor.
use crate::ir::*;
use crate::mem::*;
use crate::term::*;
use crate::z3::*;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::rc::Rc;
use std::time::Instant;

pub enum Ctl { End, Assume, Viol(String, String), Abort(String) }
pub type R<T> = Result<T, Ctl>;
pub fn abort<T>(s: impl Into<String>) -> R<T> { Err(Ctl::Abort(s.into())) }
impl From<MemErr> for Ctl {
    fn from(e: MemErr) -> Ctl { if e.0.starts_with("engine:") { Ctl::Abort(e.0) } else { Ctl::Viol("memory".into(), e.0) } }
}

pub type Bf = fn(&mut Eng, &mut State, &[V], &Ty) -> R<V>;
#[derive(Clone, Copy)]
pub enum Target { Func(u32), Builtin(Bf), Format(Bf, u32), Intr(u32, Bf2), NoReturn(u32), Unknown }
pub type Bf2 = fn(&mut Eng, &mut State, u32, &[V], &[(Ty, Op)], &Ty) -> R<V>;

pub struct CFunc { pub f: Func, pub k: Vec<V>, pub calls: Vec<(Target, String)> }

#[derive(Clone)]
pub struct Frame { pub f: &'static CFunc, pub regs: Vec<V>, pub blk: u32, pub ip: u32, pub ret: Option<u32>, pub normal: Option<u32>, pub mark: usize }

#[derive(Clone)]
pub enum InVal { Atom(u32, u32), Int(i64), Fp(Ast) }
#[derive(Clone)]
pub struct Input { pub name: Rc<str>, pub float: bool, pub v: InVal }

pub struct Mdl { pub m: Model, pub atoms: HashSet<u32> }

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Frame>,
    pub mem: Mem,
    pub path: Vec<Bx>,
    pub known: Rc<HashMap<u32, bool>>,
    pub bounds: Rc<HashMap<P, (i128, i128)>>,
    pub model: Option<Rc<Mdl>>,
    pub inputs: Vec<Input>,
    pub obs: Vec<(Rc<str>, V)>,
    pub pending: Vec<(Rc<str>, Bx)>,
    pub flags: Rc<BTreeMap<String, i64>>,
    pub instrs: u64,
    pub look: u64,
    pub clock: V,
    pub vfs: Rc<crate::vfs::Vfs>,
    pub forks: u32,
}

pub struct Violation { pub kind: String, pub name: String, pub trace: Vec<String>, pub inputs: Vec<String>, pub relaxed: bool }
pub struct Sample { pub inputs: Vec<String>, pub obs: Vec<String> }

#[derive(Default)]
pub struct Stats {
    pub paths: u64, pub ended: u64, pub assumed_away: u64, pub instrs: u64, pub max_path: u64, pub queries: u64, pub solver_s: f64,
    pub unsat: u64, pub sat: u64, pub unknown: u64, pub checks: u64, pub trivially: u64, pub forks: u64, pub check_queries: u64,
}

struct Solv { s: Solver, stack: Vec<Bx>, levels: Vec<Vec<u32>>, asserted: HashSet<u32> }

pub struct Eng {
    pub m: Module,
    funcs: Vec<Option<&'static CFunc>>,
    pub z: Rc<Z3>,
    pub t: Terms,
    solv: Solv,
    pub work: std::collections::VecDeque<State>,
    pub gaddr: Vec<u64>,
    pub params: BTreeMap<String, i64>,
    pub used_params: BTreeMap<String, i64>,
    pub st: Stats,
    pub violations: Vec<Violation>,
    pub vio_seen: HashMap<(String, String), u32>,
    pub samples: Vec<Sample>,
    pub max_samples: usize,
    pub sample_every: u64,
    pub reached: BTreeMap<String, u64>,
    pub aborts: Vec<String>,
    pub start: Instant,
    pub deadline: f64,
    pub max_instr: u64,
    pub max_paths: u64,
    pub timeout_ms: u32,
    sampling: bool,
    sample_fails: u32,
    pub exec_count: HashMap<u32, u64>,
    pub frontier: bool,
    pub trace: bool,
    pub max_viol: u32,
    pub extern_used: std::collections::BTreeSet<String>,
    pub fork_sites: HashMap<String, u64>,
    pub profile: bool,
    inputs: HashMap<(String, usize, i64, i64, bool), u32>,
    /// full targets of relative lookup table entries
    pub rel: std::cell::RefCell<HashMap<u64, u64>>,
    /// words read from single symbolic bytes
    composed: HashMap<P, Vec<V>>,
}

fn w_of(t: &Ty) -> u32 { match t { Ty::Int(w) => *w, Ty::Ptr => 64, Ty::F64 => 64, Ty::F32 => 32, _ => 64 } }
fn m64(v: u64, w: u32) -> u64 { if w >= 64 { v } else { v & ((1 << w) - 1) } }
fn s64(v: u64, w: u32) -> i64 { if w >= 64 { v as i64 } else if w == 0 { 0 } else { ((v << (64 - w)) as i64) >> (64 - w) } }

impl Eng {
    pub fn new(m: Module) -> Eng {
        let z = Rc::new(Z3::new());
        let t = Terms::new(z.clone());
        let s = z.solver(false, 10_000);
        let n = m.funcs.len();
        Eng {
            m, funcs: vec![None; n], t, solv: Solv { s, stack: vec![], levels: vec![], asserted: HashSet::new() }, z, work: Default::default(), gaddr: vec![],
            params: BTreeMap::new(), used_params: BTreeMap::new(), st: Stats::default(), violations: vec![], vio_seen: HashMap::new(), samples: vec![], max_samples: 20, sample_every: 1,
            reached: BTreeMap::new(), aborts: vec![], start: Instant::now(), deadline: 1e9, max_instr: 200_000_000, max_paths: u64::MAX, timeout_ms: 10_000, sampling: false, sample_fails: 0,
            exec_count: HashMap::new(), frontier: false, trace: false, max_viol: 3, extern_used: Default::default(), fork_sites: HashMap::new(), profile: false, inputs: HashMap::new(), rel: Default::default(), composed: HashMap::new(),
        }
    }
    pub fn initial(&mut self, entry: &str) -> State {
        let mut mem = Mem::new();
        for g in 0..self.m.globals.len() {
            let sz = self.m.globals[g].ty.size();
            let a = mem.alloc(sz.max(if self.m.globals[g].init.is_some() { 0 } else { 64 }), 0);
            self.gaddr.push(a);
        }
        let text = self.m.text.clone();
        for g in 0..self.m.globals.len() {
            if let Some((st, en)) = self.m.globals[g].init {
                let mut l = Lex::new(&text, st, en);
                let ty = self.m.globals[g].ty.clone();
                let c = self.m.parse_cst(&mut l, &ty);
                self.init_global(&mut mem, self.gaddr[g], &ty, &c);
            }
            if self.m.globals[g].constant { mem.seal(self.gaddr[g]); }
        }
        let mut s = State {
            frames: vec![], mem, path: vec![], known: Rc::new(HashMap::new()), bounds: Rc::new(HashMap::new()), model: None, inputs: vec![], obs: vec![], pending: vec![],
            flags: Rc::new(BTreeMap::new()), instrs: 0, look: 1_500_000, clock: V::I(1_000_000), vfs: Rc::new(Default::default()), forks: 0,
        };
        let id = *self.m.func_by_name.get(entry).unwrap_or_else(|| panic!("no entry {}", entry));
        self.push_frame(&mut s, id, vec![], None, None);
        s
    }
    fn init_global(&self, mem: &mut Mem, a: u64, ty: &Ty, c: &Cst) {
        match c {
            Cst::Zero | Cst::Undef | Cst::Null => {}
            Cst::Bytes(b) => mem.write_bytes(a, b).map_err(|e| e.0).unwrap(),
            Cst::Agg(v) => for (i, (t, x)) in v.iter().enumerate() { let (o, _) = ty.field_offset(i); self.init_global(mem, a + o, t, x); },
            _ => {
                if let Cst::Cast(op, b, _) = c {
                    if let (true, Cst::Bin(sub, x, _)) = (op == "trunc", &b.1) {
                        if sub == "sub" { if let V::I(t) = self.cst(&x.0, &x.1) { self.rel.borrow_mut().insert(a, t); } }
                    }
                }
                let v = self.cst(ty, c);
                let n = ty.size();
                match v {
                    V::I(x) => mem.store(a, n, x as u128),
                    V::W(x) => mem.store(a, n, *x),
                    V::F(x) => mem.store(a, 8, x.to_bits() as u128),
                    V::F32(x) => mem.store(a, 4, x.to_bits() as u128),
                    _ => panic!("global init {:?}", c),
                }.map_err(|e| e.0).unwrap()
            }
        }
    }
    pub fn cst(&self, ty: &Ty, c: &Cst) -> V {
        match c {
            Cst::Int(n) => { let w = w_of(ty); if w > 64 { V::W(Rc::new(mask(*n, w))) } else { V::I(mask(*n, w) as u64) } }
            Cst::F64(x) => V::F(*x),
            Cst::F32(x) => V::F32(*x),
            Cst::Null => V::I(0),
            Cst::Undef => self.zero(ty),
            Cst::Zero => self.zero(ty),
            Cst::Global(g) => {
                let g = self.m.aliases.get(g).unwrap_or(g);
                if let Some(f) = self.m.func_by_name.get(g) { V::I(FN | ((*f as u64) << 4)) } else if let Some(i) = self.m.global_by_name.get(g) { V::I(self.gaddr[*i as usize]) } else { V::I(0) }
            }
            Cst::Agg(v) => V::Agg(Rc::new(v.iter().map(|(t, x)| self.cst(t, x)).collect())),
            Cst::Bytes(b) => V::Agg(Rc::new(b.iter().map(|x| V::I(*x as u64)).collect())),
            Cst::Splat(b) => { let n = match ty { Ty::Vec(n, _) => *n, _ => 1 }; let v = self.cst(&b.0, &b.1); V::Agg(Rc::new(vec![v; n as usize])) }
            Cst::Gep(t, v) => {
                let mut a = match self.cst(&v[0].0, &v[0].1) { V::I(x) => x, _ => panic!() };
                let mut cur = t.clone();
                for (k, (it, ic)) in v[1..].iter().enumerate() {
                    let i = match self.cst(it, ic) { V::I(x) => s64(x, w_of(it)), _ => panic!() };
                    if k == 0 { a = a.wrapping_add((i * cur.size() as i64) as u64); }
                    else { match &cur { Ty::Struct(..) => { let (o, t2) = cur.field_offset(i as usize); a += o; cur = t2; } _ => { let (_, t2) = cur.field_offset(0); a = a.wrapping_add((i * t2.size() as i64) as u64); cur = t2; } } }
                }
                V::I(a)
            }
            Cst::Cast(op, b, to) => { let v = self.cst(&b.0, &b.1); match (op.as_str(), &v) { ("trunc", V::I(x)) => V::I(m64(*x, w_of(to))), _ => v } }
            Cst::Bin(op, a, b) => match (self.cst(&a.0, &a.1), self.cst(&b.0, &b.1)) {
                (V::I(x), V::I(y)) => { let r = match op.as_str() { "sub" => x.wrapping_sub(y), "add" => x.wrapping_add(y), "xor" => x ^ y, _ => x.wrapping_mul(y) }; V::I(m64(r, w_of(ty))) }
                _ => panic!(),
            },
        }
    }
    pub fn zero(&self, ty: &Ty) -> V {
        match ty {
            Ty::Int(w) if *w > 64 => V::W(Rc::new(0)),
            Ty::F64 => V::F(0.0),
            Ty::F32 => V::F32(0.0),
            Ty::Arr(n, t) | Ty::Vec(n, t) => V::Agg(Rc::new(vec![self.zero(t); *n as usize])),
            Ty::Struct(f, _) => V::Agg(Rc::new(f.iter().map(|t| self.zero(t)).collect())),
            _ => V::I(0),
        }
    }
    pub fn func(&mut self, id: u32) -> &'static CFunc {
        if let Some(f) = self.funcs[id as usize] { return f; }
        let f = self.m.parse_func(id);
        let k = f.consts.iter().map(|(t, c)| self.cst(t, c)).collect();
        let nsites = f.blocks.iter().flat_map(|b| b.ins.iter()).filter_map(|i| if let Ins::Call { site, .. } = i { Some(*site) } else { None }).max().unwrap_or(0);
        let mut calls = vec![(Target::Unknown, String::new()); nsites as usize + 1];
        for b in &f.blocks {
            for i in &b.ins {
                if let Ins::Call { callee, site, .. } = i {
                    calls[*site as usize] = match callee { Callee::Direct(n) => (self.resolve(n), n.clone()), Callee::Indirect(_) => (Target::Unknown, "indirect".into()), Callee::Asm(s) => (Target::Unknown, format!("asm {}", s)) };
                }
            }
        }
        let c: &'static CFunc = Box::leak(Box::new(CFunc { f, k, calls }));
        self.funcs[id as usize] = Some(c);
        c
    }
    pub fn resolve(&mut self, n: &str) -> Target {
        if let Some(b) = crate::builtin::lookup(n) { 
            self.extern_used.insert(n.to_string());
            if let Target::Builtin(f) = b {
                if n.contains("3fmt6format12format_inner") {
                    if let Some(id) = self.m.func_by_name.get(n) { if self.m.funcs[*id as usize].text.is_some() { return Target::Format(f, *id); } }
                }
            }
            return b;
        }
        match self.m.func_by_name.get(n) {
            Some(id) => {
                let info = &self.m.funcs[*id as usize];
                if info.noreturn { Target::NoReturn(*id) } else if info.text.is_some() { Target::Func(*id) } else { Target::Unknown }
            }
            None => Target::Unknown,
        }
    }
    pub fn push_frame(&mut self, s: &mut State, id: u32, args: Vec<V>, ret: Option<u32>, normal: Option<u32>) {
        let f = self.func(id);
        *self.exec_count.entry(id).or_insert(0) += 1;
        let mut regs = vec![V::Undef; f.f.nregs];
        for (i, a) in args.into_iter().enumerate() { if i < f.f.params.len() { regs[f.f.params[i].0 as usize] = a; } }
        let mark = s.mem.stack_mark();
        s.frames.push(Frame { f, regs, blk: 0, ip: 0, ret, normal, mark });
    }
    pub fn trace_of(&self, s: &State) -> Vec<String> { s.frames.iter().rev().take(14).map(|f| f.f.f.name.clone()).collect() }

    // ------------------------------------------------------------ solver
    fn sync(&mut self, path: &[Bx]) {
        let mut k = 0;
        while k < path.len() && k < self.solv.stack.len() && path[k] == self.solv.stack[k] { k += 1; }
        let n = self.solv.stack.len() - k;
        if n > 0 {
            self.solv.s.pop(n as u32);
            for _ in 0..n { for a in self.solv.levels.pop().unwrap() { self.solv.asserted.remove(&a); } self.solv.stack.pop(); }
        }
        for b in &path[k..] { self.push_lit(*b); }
    }
    fn push_lit(&mut self, b: Bx) {
        self.solv.s.push();
        let at = self.t.batoms(b);
        let mut new = Vec::new();
        for a in at.iter() {
            if self.solv.asserted.insert(*a) {
                new.push(*a);
                for x in &self.t.atoms[*a as usize].axioms { self.solv.s.assert(*x); }
            }
        }
        let z = self.t.zb(b);
        self.solv.s.assert(z);
        self.solv.levels.push(new);
        self.solv.stack.push(b);
    }
    fn raw_check(&mut self) -> Res {
        let t0 = Instant::now();
        let r = self.solv.s.check();
        let dt = t0.elapsed().as_secs_f64();
        self.st.solver_s += dt;
        self.st.queries += 1;
        match r { Res::Sat => self.st.sat += 1, Res::Unsat => self.st.unsat += 1, Res::Unknown => self.st.unknown += 1 }
        if self.trace && dt > 1.0 { eprintln!("slow query {:.2}s {:?} ({} lits)", dt, r, self.solv.stack.len()); }
        r
    }
    /// Feasibility of path && b.
    fn feasible(&mut self, path: &[Bx], b: Bx) -> (Res, Option<Rc<Mdl>>) {
        self.sync(path);
        self.push_lit(b);
        let r = self.raw_check();
        let m = if r == Res::Sat { Some(Rc::new(Mdl { m: self.solv.s.model(), atoms: self.solv.asserted.clone() })) } else { None };
        (r, m)
    }
    /// A model of the path that covers the given atoms.
    fn model_for(&mut self, path: &[Bx], atoms: Vec<u32>) -> Option<Rc<Mdl>> {
        self.sync(path);
        self.solv.s.push();
        let at = self.t.close(atoms);
        let mut cover = self.solv.asserted.clone();
        for a in at { if cover.insert(a) { for x in &self.t.atoms[a as usize].axioms { self.solv.s.assert(*x); } } }
        let r = self.raw_check();
        let m = if r == Res::Sat { Some(Rc::new(Mdl { m: self.solv.s.model(), atoms: cover })) } else { None };
        self.solv.s.pop(1);
        m
    }
    fn bound_lookup(&self, s: &State, b: Bx) -> Option<bool> {
        let (p, eq) = match self.t.bnode(b) { Bn::LeI(p) => (*p, false), Bn::EqI(p) => (*p, true), _ => return None };
        let q = self.t.get(p);
        let (l, c) = crate::exec::split_lin(&q);
        let lp = self.lin_id(&l)?;
        let (lo, hi) = *s.bounds.get(&lp)?;
        let r = if eq { if lo > -c || hi < -c { Some(false) } else if lo == hi && lo == -c { Some(true) } else { None } }
            else if hi <= -c { Some(true) } else if lo > -c { Some(false) } else { None };
        r.map(|x| x ^ b.neg())
    }
    fn lin_id(&self, l: &Poly) -> Option<P> { self.t.find(l) }
    fn learn(&mut self, s: &mut State, b: Bx, val: bool) {
        Rc::make_mut(&mut s.known).insert(b.idx() as u32, val ^ b.neg());
        let v = val ^ b.neg();
        let (p, eq) = match self.t.bnode(b) { Bn::LeI(p) => (*p, false), Bn::EqI(p) => (*p, true), _ => return };
        let q = self.t.get(p);
        let (l, c) = split_lin(&q);
        let lp = self.t.poly(l);
        let e = Rc::make_mut(&mut s.bounds).entry(lp).or_insert((i128::MIN, i128::MAX));
        if eq { if v { *e = (-c, -c); } else { if e.0 == -c { e.0 += 1; } if e.1 == -c { e.1 -= 1; } } }
        else if v { e.1 = e.1.min(-c); } else { e.0 = e.0.max(1 - c); }
    }
    pub fn lookup(&mut self, s: &State, b: Bx) -> Option<bool> {
        if let Some(x) = b.konst() { return Some(x); }
        if let Some(x) = s.known.get(&(b.idx() as u32)) { return Some(*x ^ b.neg()); }
        if let Some(x) = self.bound_lookup(s, b) { return Some(x); }
        match self.t.bnode(b).clone() {
            Bn::And(v) => {
                let mut all = true;
                for x in v { match self.lookup(s, x) { Some(false) => return Some(b.neg()), Some(true) => {} None => all = false } }
                if all { Some(!b.neg()) } else { None }
            }
            Bn::Iff(x, y) => match (self.lookup(s, x), self.lookup(s, y)) { (Some(p), Some(q)) => Some((p == q) ^ b.neg()), _ => None },
            Bn::Ite(c, x, y) => match self.lookup(s, c) { Some(true) => self.lookup(s, x).map(|r| r ^ b.neg()), Some(false) => self.lookup(s, y).map(|r| r ^ b.neg()), None => None },
            _ => None,
        }
    }
    fn model_eval(&mut self, s: &State, b: Bx) -> Option<bool> {
        let m = s.model.clone()?;
        let at = self.t.batoms(b);
        for a in at.iter() {
            if !m.atoms.contains(a) {
                for x in &self.t.atoms[*a as usize].axioms { if m.m.boolean(*x) != Some(true) { return None; } }
            }
        }
        self.t.eval(&m.m, b)
    }
    /// Truth value of `b` on this path; forks when both are possible.
    pub fn decide(&mut self, s: &mut State, b: Bx) -> R<bool> {
        if let Some(x) = self.lookup(s, b) { return Ok(x); }
        // split conjunctions so that literals stay simple
        match self.t.bnode(b).clone() {
            Bn::And(v) => {
                for x in v { if !self.decide(s, x)? { return Ok(b.neg()); } }
                return Ok(!b.neg());
            }
            Bn::Iff(x, y) => { let p = self.decide(s, x)?; let q = self.decide(s, y)?; return Ok((p == q) ^ b.neg()); }
            Bn::Ite(c, x, y) => { let c = self.decide(s, c)?; let r = if c { self.decide(s, x)? } else { self.decide(s, y)? }; return Ok(r ^ b.neg()); }
            _ => {}
        }
        let hint = self.model_eval(s, b);
        let (mut t_ok, mut t_m) = (true, None);
        let (mut f_ok, mut f_m) = (true, None);
        let path = std::mem::take(&mut s.path);
        if hint == Some(true) { t_m = s.model.clone(); } else { let (r, m) = self.feasible(&path, b); t_ok = r != Res::Unsat; t_m = m; }
        if hint == Some(false) { f_m = s.model.clone(); } else if !t_ok && hint.is_none() && s.model.is_some() { f_ok = true; f_m = None; }
        else { let (r, m) = self.feasible(&path, b.not()); f_ok = r != Res::Unsat; f_m = m; }
        s.path = path;
        match (t_ok, f_ok) {
            (true, false) => { self.learn(s, b, true); if t_m.is_some() { s.model = t_m; } Ok(true) }
            (false, true) => { self.learn(s, b, false); if f_m.is_some() { s.model = f_m; } Ok(false) }
            (false, false) => Err(Ctl::Assume),
            (true, true) => {
                self.flush(s)?;
                self.st.forks += 1;
                s.forks += 1;
                if self.profile { let k = format!("{} :: {}", self.trace_of(s).into_iter().take(2).collect::<Vec<_>>().join(" < "), { let f = s.frames.last().unwrap(); format!("blk {} ip {} {}", f.blk, f.ip, self.t.bshow(b)) }); *self.fork_sites.entry(k).or_insert(0) += 1; }
                let mut o = s.clone();
                self.learn(&mut o, b, false);
                o.path.push(b.not());
                o.model = f_m;
                self.work.push_back(o);
                self.learn(s, b, true);
                s.path.push(b);
                s.model = t_m;
                Ok(true)
            }
        }
    }
    /// Restrict the path to `b`.
    pub fn assume(&mut self, s: &mut State, b: Bx) -> R<()> {
        match self.lookup(s, b) { Some(true) => return Ok(()), Some(false) => { self.flush(s)?; return Err(Ctl::Assume); } None => {} }
        self.flush(s)?;
        if self.model_eval(s, b) == Some(true) { self.learn(s, b, true); s.path.push(b); return Ok(()); }
        let path = std::mem::take(&mut s.path);
        let (r, m) = self.feasible(&path, b);
        s.path = path;
        if r == Res::Unsat { return Err(Ctl::Assume); }
        self.learn(s, b, true);
        s.path.push(b);
        s.model = m;
        Ok(())
    }
    pub fn check(&mut self, s: &mut State, b: Bx, name: Rc<str>) -> R<()> {
        self.st.checks += 1;
        match self.lookup(s, b) {
            Some(true) => { self.st.trivially += 1; Ok(()) }
            Some(false) => { self.flush(s)?; Err(Ctl::Viol("check".into(), name.to_string())) }
            None => { s.pending.push((name, b)); Ok(()) }
        }
    }
    /// Decide the pending checks of the path: path && !(c1 && c2 ...) must be unsatisfiable.
    pub fn flush(&mut self, s: &mut State) -> R<()> {
        if s.pending.is_empty() { return Ok(()); }
        let p = std::mem::take(&mut s.pending);
        let all: Vec<Bx> = p.iter().map(|x| x.1).collect();
        let c = self.t.and(&all);
        let mut bad = None;
        if self.model_eval(s, c) == Some(false) { bad = Some(()); } else {
            let path = s.path.clone();
            let (r, _) = self.feasible(&path, c.not());
            self.st.check_queries += 1;
            match r { Res::Unsat => {} Res::Sat => bad = Some(()), Res::Unknown => bad = Some(()) }
        }
        if bad.is_some() {
            // which one, and with integral inputs?
            for (n, b) in &p {
                match self.solve_inputs(s, Some(b.not())) {
                    Solved::Unsat => {}
                    Solved::Model(inp, relaxed) => { self.record(s, "check".into(), n.to_string(), inp, relaxed); }
                    Solved::Unknown => { self.aborts.push(format!("solver gave up on check '{}'", n)); }
                }
            }
        }
        // later code may rely on the checked facts
        for (_, b) in p {
            if bad.is_none() { self.learn(s, b, true); }
            else if self.lookup(s, b).is_none() {
                let path = s.path.clone();
                if self.feasible(&path, b).0 == Res::Unsat { return Err(Ctl::Assume); }
                self.learn(s, b, true);
                s.path.push(b);
                s.model = None;
            }
        }
        Ok(())
    }
    /// An assignment of integral inputs satisfying the path (and `b`).
    pub fn solve_inputs(&mut self, s: &State, b: Option<Bx>) -> Solved {
        let path = s.path.clone();
        self.sync(&path);
        let base = self.solv.stack.len();
        if let Some(b) = b { self.push_lit(b); }
        // inputs of the path, their axioms and integrality
        self.solv.s.push();
        let mut need: Vec<u32> = s.inputs.iter().filter_map(|i| if let InVal::Atom(a, _) = i.v { Some(a) } else { None }).collect();
        need.extend(self.solv.asserted.iter().copied());
        for (_, v) in &s.obs { if let V::R(p) | V::S(p) = v { need.extend(self.t.atoms_of(*p)); } }
        let need = self.t.close(need);
        let mut ints = Vec::new();
        let mut errs = Vec::new();
        for a in need {
            let at = &self.t.atoms[a as usize];
            if !self.solv.asserted.contains(&a) { for x in &at.axioms { self.solv.s.assert(*x); } }
            for x in &at.late { self.solv.s.assert(*x); }
            if at.integral && !at.int_sort { ints.push(self.z.is_int(at.z)); }
            if at.error { errs.push(self.z.eq(at.z, self.z.num("0", self.z.real))); }
        }
        let mut res = Solved::Unknown;
        // 1: no rounding errors, integral; 2: integral
        for round in 0..2 {
            if round == 0 && errs.is_empty() { continue; }
            self.solv.s.push();
            for x in &ints { self.solv.s.assert(*x); }
            if round == 0 { for x in &errs { self.solv.s.assert(*x); } }
            let r = self.raw_check();
            let mut done = false;
            match r {
                Res::Sat => { let m = self.solv.s.model(); res = Solved::Model(self.inputs_of(s, &m), false); done = true; }
                Res::Unsat => { if round == 1 { res = Solved::Unsat; } }
                Res::Unknown => {}
            }
            self.solv.s.pop(1);
            if done { break; }
        }
        if self.sampling { } else if let Solved::Unknown = res {
            // last resort: a relaxed model, inputs rounded
            if self.raw_check() == Res::Sat { let m = self.solv.s.model(); res = Solved::Model(self.inputs_of(s, &m), true); }
        }
        self.solv.s.pop(1);
        if self.solv.stack.len() > base {
            self.solv.s.pop(1);
            for a in self.solv.levels.pop().unwrap() { self.solv.asserted.remove(&a); }
            self.solv.stack.pop();
        }
        res
    }
    fn inputs_of(&mut self, s: &State, m: &Model) -> (Vec<String>, Vec<String>) {
        let mut v = Vec::new();
        for i in &s.inputs {
            let val = match &i.v {
                InVal::Int(n) => format!("{}", n),
                InVal::Atom(a, shift) => {
                    let at = &self.t.atoms[*a as usize];
                    let k = m.eval(at.z).map(|x| parse_num(&self.z.numeral(x))).unwrap_or(0.0);
                    if *shift == u32::MAX { v.push(format!("[{:?},\"f\",{}]", &*i.name, k.to_bits())); continue; }
                    let k = k.round();
                    if i.float { format!("{}", (k * 2f64.powi(-(*shift as i32))).to_bits()) } else { format!("{}", k as i64) }
                }
                InVal::Fp(a) => { let b = m.eval(self.z.fp_bits(*a)); let t = b.map(|x| self.z.numeral(self.z.simplify(x))).unwrap_or("0".into()); t }
            };
            v.push(format!("[{:?},{:?},{}]", &*i.name, if i.float { "f" } else { "i" }, val));
        }
        let mut o = Vec::new();
        for (n, x) in &s.obs {
            let val = match x {
                V::I(k) => format!("{}", *k as i64),
                V::F(f) => fjson(*f),
                V::R(p) | V::S(p) => { let zv = self.t.zval(*p); let e = m.eval(zv).map(|x| parse_num(&self.z.numeral(x))).unwrap_or(f64::NAN); fjson(e) }
                V::B(b) => { let r = self.t.eval(m, *b); format!("{}", r.unwrap_or(false) as i32) }
                _ => "null".into(),
            };
            o.push(format!("[{:?},{}]", &**n, val));
        }
        (v, o)
    }
    fn record(&mut self, s: &State, kind: String, name: String, inp: (Vec<String>, Vec<String>), relaxed: bool) {
        let c = self.vio_seen.entry((kind.clone(), name.clone())).or_insert(0);
        *c += 1;
        if *c > self.max_viol { return; }
        if std::env::var_os("SYMEX_DEBUG").is_some() { eprintln!("{} {} obs {:?}", kind, name, inp.1); }
        let trace = self.trace_of(s);
        self.violations.push(Violation { kind, name, trace, inputs: inp.0, relaxed });
    }
    pub fn too_many(&self) -> bool { self.vio_seen.values().any(|c| *c >= 8) || self.violations.len() >= 12 }

    // ------------------------------------------------------------ main loop
    pub fn run_state(&mut self, mut s: State) {
        let mut tick = 0u32;
        loop {
            tick += 1;
            if tick & 0xffff == 0 && self.start.elapsed().as_secs_f64() > self.deadline { self.aborts.push("deadline".into()); return; }
            let forks = self.st.forks;
            match self.step(&mut s) {
                Ok(()) => {
                    if self.frontier && self.st.forks != forks { self.work.push_back(s); return; }
                    if s.instrs > s.look { s.look *= 2; if s.forks > 0 && self.hopeless(&s) { self.finish(s, Ctl::Assume); return; } }
                    if s.instrs > self.max_instr { self.finish(s, Ctl::Viol("steps".into(), format!("more than {} instructions on one path", self.max_instr))); return; }
                }
                Err(c) => { self.finish(s, c); return; }
            }
        }
    }
    /// A long path: does it exist at all with integral inputs and roundings?
    fn hopeless(&mut self, s: &State) -> bool {
        self.sampling = true;
        self.solv.s.set_timeout(&self.z, 1000);
        let r = matches!(self.solve_inputs(s, None), Solved::Unsat);
        self.solv.s.set_timeout(&self.z, self.timeout_ms);
        self.sampling = false;
        r
    }
    fn finish(&mut self, mut s: State, c: Ctl) {
        self.st.paths += 1;
        self.st.instrs += s.instrs;
        self.st.max_path = self.st.max_path.max(s.instrs);
        match c {
            Ctl::End => {
                if let Err(c) = self.flush(&mut s) { if let Ctl::Viol(k, n) = c { self.violate(&s, k, n); } return; }
                self.st.ended += 1;
                let n = self.st.ended;
                if self.samples.len() < self.max_samples && (n % self.sample_every == 0 || n < 3) {
                    if self.st.ended > 3 * self.sample_every * self.samples.len() as u64 { self.sample_every = (self.sample_every * 2).min(1 << 20); }
                    if self.sample_fails < 3 {
                        self.sampling = true;
                        self.solv.s.set_timeout(&self.z, 1000);
                        match self.solve_inputs(&s, None) {
                            Solved::Model(i, false) => self.samples.push(Sample { inputs: i.0, obs: i.1 }),
                            _ => self.sample_fails += 1,
                        }
                        self.solv.s.set_timeout(&self.z, self.timeout_ms);
                        self.sampling = false;
                    }
                }
            }
            Ctl::Assume => { self.st.assumed_away += 1; }
            Ctl::Viol(k, n) => {
                if let Err(Ctl::Abort(a)) = self.flush(&mut s) { self.aborts.push(a); }
                self.violate(&s, k, n);
            }
            Ctl::Abort(a) => { let a = format!("{} in {:?}", a, self.trace_of(&s).into_iter().take(4).collect::<Vec<_>>()); self.aborts.push(a); }
        }
    }
    fn violate(&mut self, s: &State, k: String, n: String) {
        if self.vio_seen.get(&(k.clone(), n.clone())).map_or(false, |c| *c >= self.max_viol) { *self.vio_seen.get_mut(&(k, n)).unwrap() += 1; return; }
        match self.solve_inputs(s, None) {
            Solved::Unsat => {}
            Solved::Model(i, rel) => self.record(s, k, n, i, rel),
            Solved::Unknown => self.aborts.push(format!("solver gave up on {} {}", k, n)),
        }
    }

    // ------------------------------------------------------------ operands
    #[inline]
    fn op<'a>(&self, s: &'a State, o: &Op) -> V {
        let fr = s.frames.last().unwrap();
        match o { Op::Reg(r) => fr.regs[*r as usize].clone(), Op::K(k) => fr.f.k[*k as usize].clone() }
    }
    #[inline]
    fn set(&self, s: &mut State, d: u32, v: V) { s.frames.last_mut().unwrap().regs[d as usize] = v; }
    #[inline]
    fn next(&self, s: &mut State) { s.frames.last_mut().unwrap().ip += 1; }

    pub fn conc(&mut self, s: &mut State, v: &V) -> R<u64> {
        match v {
            V::I(x) => Ok(*x),
            V::B(b) => Ok(self.decide(s, *b)? as u64),
            V::S(p) => {
                let p = *p;
                if let Some((c, 0)) = self.t.as_const(p) { return Ok(c as u64); }
                loop {
                    // a feasible value
                    let mut cand = None;
                    if let Some(m) = s.model.clone() {
                        let zv = self.t.zval(p);
                        if self.t.atoms_of(p).iter().all(|a| m.atoms.contains(a)) { cand = m.m.eval(zv).map(|x| parse_num(&self.z.numeral(x)).floor()); }
                    }
                    let c = match cand { Some(c) => c, None => {
                        let path = s.path.clone();
                        let at = self.t.atoms_of(p);
                        match self.model_for(&path, at) {
                            Some(m) => { let zv = self.t.zval(p); let v = m.m.eval(zv).map(|x| parse_num(&self.z.numeral(x)).floor()).unwrap(); s.model = Some(m); v }
                            None => return Err(Ctl::Assume),
                        }
                    } };
                    let kc = self.t.int_const(c as i128);
                    let d = self.t.padd(p, kc, true);
                    let e = self.t.eq0(d);
                    if e == FALSE { return abort("concretise"); }
                    if self.decide(s, e)? { return Ok(c as i64 as u64); }
                }
            }
            V::Undef => Ok(0),
            V::F(f) => Ok(f.to_bits()),
            V::F32(f) => Ok(f.to_bits() as u64),
            V::W(w) => Ok(**w as u64),
            _ => abort(format!("concrete value needed, got {:?}", v)),
        }
    }
    /// Single precision is concrete: one branch per single nearest to a value of `p`.
    fn f32_of(&mut self, s: &mut State, p: P) -> R<V> {
        if let Some(f) = self.t.as_f64(p) { return Ok(V::F32(f as f32)); }
        loop {
            let mut cand = None;
            if let Some(m) = s.model.clone() {
                let zv = self.t.zval(p);
                if self.t.atoms_of(p).iter().all(|a| m.atoms.contains(a)) { cand = m.m.eval(zv).map(|x| parse_num(&self.z.numeral(x))); }
            }
            let c = match cand { Some(c) => c, None => {
                let path = s.path.clone();
                let at = self.t.atoms_of(p);
                match self.model_for(&path, at) {
                    Some(m) => { let zv = self.t.zval(p); let v = m.m.eval(zv).map(|x| parse_num(&self.z.numeral(x))).unwrap(); s.model = Some(m); v }
                    None => return Err(Ctl::Assume),
                }
            } };
            let f = c as f32;
            if !f.is_finite() { return abort("single precision overflow"); }
            let mid = |x: f32, y: f32| (x as f64 + y as f64) / 2.0;
            let (lo, hi) = if f == 0.0 { (0.0, 0.0) } else {
                let (a, b) = (f32::from_bits(f.to_bits() - 1), f32::from_bits(f.to_bits() + 1));
                let (x, y) = (mid(f, a), mid(f, b));
                if x < y { (x, y) } else { (y, x) }
            };
            let (Some(kl), Some(kh)) = (self.t.f64_const(lo), self.t.f64_const(hi)) else { return abort("single precision"); };
            let a = self.t.padd(kl, p, true);
            let a = self.t.cmp0(a, false);
            let b = self.t.padd(p, kh, true);
            let b = self.t.cmp0(b, false);
            if self.decide(s, a)? && self.decide(s, b)? { return Ok(V::F32(f)); }
        }
    }
    pub fn wide(&mut self, s: &mut State, v: &V) -> R<u128> {
        match v { V::W(w) => Ok(**w), _ => Ok(self.conc(s, v)? as u128) }
    }
    pub fn bool_of(&mut self, s: &mut State, v: &V) -> R<Bx> {
        match v {
            V::I(x) => Ok(Bx::of(*x & 1 == 1)),
            V::B(b) => Ok(*b),
            V::Undef => Ok(FALSE),
            V::S(p) => { let b = self.t.eq0(*p); Ok(b.not()) }
            _ => { let x = self.conc(s, v)?; Ok(Bx::of(x & 1 == 1)) }
        }
    }
    /// integer polynomial of a value (constants signed)
    fn ipoly(&mut self, v: &V, w: u32) -> R<P> {
        match v {
            V::I(x) => Ok(self.t.int_const(s64(*x, w) as i128)),
            V::S(p) => Ok(*p),
            V::B(b) => { let one = self.t.int_const(1); let z = self.t.int_const(0); Ok(self.t.ite(*b, one, z)) }
            V::Undef => Ok(self.t.int_const(0)),
            V::W(x) => Ok(self.t.int_const(sext(**x, w))),
            _ => abort(format!("integer expected, got {:?}", v)),
        }
    }
    /// the same as an unsigned value
    fn upoly(&mut self, s: &mut State, v: &V, w: u32) -> R<P> {
        match v {
            V::I(x) => Ok(self.t.int_const(*x as i128)),
            _ => {
                let p = self.ipoly(v, w)?;
                if self.t.interval(p).0 >= 0.0 { return Ok(p); }
                let neg = self.t.cmp0(p, true);
                if self.decide(s, neg)? { let k = self.t.int_const(1i128 << w); Ok(self.t.padd(p, k, false)) } else { Ok(p) }
            }
        }
    }
    fn spoly(&mut self, s: &mut State, v: &V, w: u32) -> R<P> {
        let p = self.ipoly(v, w)?;
        if self.t.interval(p).1 < 2f64.powi(w as i32 - 1) { return Ok(p); }
        let k = self.t.int_const(1i128 << (w - 1));
        let d = self.t.padd(k, p, true);
        let big = self.t.cmp0(d, false);
        if self.decide(s, big)? { let k = self.t.int_const(1i128 << w); Ok(self.t.padd(p, k, true)) } else { Ok(p) }
    }
    fn norm(&mut self, s: &mut State, p: P, w: u32) -> R<V> {
        if let Some((c, 0)) = self.t.as_const(p) { return Ok(if w > 64 { V::W(Rc::new(mask(c as u128, w))) } else { V::I(m64(c as u64, w)) }); }
        let (l, h) = self.t.interval(p);
        let top = 2f64.powi(w as i32);
        if l < -top / 2.0 {
            let k = self.t.int_const(1i128 << (w - 1));
            let d = self.t.padd(p, k, false);
            let b = self.t.cmp0(d, true);
            if self.decide(s, b)? { let k = self.t.int_const(1i128 << w); let q = self.t.padd(p, k, false); return Ok(V::S(q)); }
        }
        if h >= top {
            let k = self.t.int_const(1i128 << w);
            let d = self.t.padd(k, p, true);
            let b = self.t.cmp0(d, false);
            if self.decide(s, b)? { let q = self.t.padd(p, k, true); return Ok(V::S(q)); }
        }
        Ok(V::S(p))
    }
    fn fpoly(&mut self, s: &mut State, v: &V) -> R<P> {
        match v {
            V::F(x) => {
                if let Some(p) = self.t.f64_const(*x) { return Ok(p); }
                if !x.is_finite() { return abort("non-finite constant in symbolic float arithmetic"); }
                let x = *x;
                let key = x.to_bits();
                Ok(self.t.func(90, key as u32, (key >> 32) as u32, |t| { let a = t.fresh_real("k", x, x, false); let p = t.atom_poly(a, 0); t.known_float(p); p }))
            }
            V::R(p) => Ok(*p),
            V::I(x) => { let f = V::F(f64::from_bits(*x)); self.fpoly(s, &f) }
            V::Undef => Ok(self.t.int_const(0)),
            _ => abort(format!("float expected, got {:?}", v)),
        }
    }
    fn fval(&mut self, p: P) -> V { if let Some(f) = self.t.as_f64(p) { V::F(f) } else { V::R(p) } }

    pub fn fcmp(&mut self, s: &mut State, p: Fp, a: &V, b: &V) -> R<V> {
        if let (V::F(x), V::F(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let un = x.is_nan() || y.is_nan();
            let r = match p {
                Fp::False => false, Fp::True => true, Fp::Ord => !un, Fp::Uno => un,
                Fp::Oeq => x == y, Fp::Ogt => x > y, Fp::Oge => x >= y, Fp::Olt => x < y, Fp::Ole => x <= y, Fp::One => !un && x != y,
                Fp::Ueq => un || x == y, Fp::Ugt => un || x > y, Fp::Uge => un || x >= y, Fp::Ult => un || x < y, Fp::Ule => un || x <= y, Fp::Une => x != y || un,
            };
            return Ok(V::I(r as u64));
        }
        if let (V::F32(x), V::F32(y)) = (a, b) { return self.fcmp(s, p, &V::F(*x as f64), &V::F(*y as f64)); }
        if matches!(a, V::FP(_)) || matches!(b, V::FP(_)) { return self.fcmp_fp(p, a, b); }
        // constants that are not finite
        for (k, x) in [(0, a), (1, b)] {
            if let V::F(c) = x {
                if c.is_nan() { let r = matches!(p, Fp::Uno | Fp::Ueq | Fp::Ugt | Fp::Uge | Fp::Ult | Fp::Ule | Fp::Une | Fp::True); return Ok(V::I(r as u64)); }
                if c.is_infinite() {
                    // symbolic values are finite
                    let (x, y) = if k == 0 { (*c, 0.0) } else { (0.0, *c) };
                    return self.fcmp(s, p, &V::F(x), &V::F(y));
                }
            }
        }
        let (x, y) = (self.fpoly(s, a)?, self.fpoly(s, b)?);
        let d = self.t.padd(x, y, true);
        if s.flags.get("exact_rounding").copied().unwrap_or(0) == 1 { if let Some(r) = self.cmp_rounded(p, x, y, d) { return Ok(bv(r)); } }
        let r = match p {
            Fp::False | Fp::Uno => FALSE,
            Fp::True | Fp::Ord => TRUE,
            Fp::Oeq | Fp::Ueq => self.t.eq0(d),
            Fp::One | Fp::Une => self.t.eq0(d).not(),
            Fp::Olt | Fp::Ult => self.t.cmp0(d, true),
            Fp::Ole | Fp::Ule => self.t.cmp0(d, false),
            Fp::Ogt | Fp::Ugt => self.t.cmp0(d, false).not(),
            Fp::Oge | Fp::Uge => self.t.cmp0(d, true).not(),
        };
        Ok(bv(r))
    }
    /// Comparison of a rounding result with another float, using that rounding is monotone and keeps floats.
    fn cmp_rounded(&mut self, p: Fp, x: P, y: P, d: P) -> Option<Bx> {
        let ex = |e: &mut Self, r: P| -> Option<P> {
            if let Some((n, q)) = e.t.exact_of.get(&r).copied() { if e.t.as_const(q) == Some((1, 0)) { return Some(n); } }
            let m = e.t.pneg(r);
            if let Some((n, q)) = e.t.exact_of.get(&m).copied() { if e.t.as_const(q) == Some((1, 0)) { return Some(e.t.pneg(n)); } }
            None
        };
        let (a, b) = (ex(self, x), ex(self, y));
        if a.is_none() && b.is_none() { return None; }
        let (l, h) = self.t.interval(d);
        if l > 0.0 || h < 0.0 || l == 0.0 && h == 0.0 { return None; }
        let mut atoms = self.t.atoms_of(d);
        // x < y implies every mixture of rounded and exact values is ordered the same way
        let mut lt = Vec::new();
        let mut gt = Vec::new();
        let z = self.z.clone();
        let zero = z.num("0", z.real);
        let xs: Vec<P> = std::iter::once(x).chain(a).collect();
        let ys: Vec<P> = std::iter::once(y).chain(b).collect();
        for u in &xs {
            for w in &ys {
                let f = self.t.padd(*u, *w, true);
                atoms.extend(self.t.atoms_of(f));
                let v = self.t.zval(f);
                lt.push(z.lt(v, zero));
                gt.push(z.lt(zero, v));
            }
        }
        atoms.sort_unstable();
        atoms.dedup();
        let (l, g) = (lt[0], gt[0]);
        let mut ax = vec![z.or(&[z.not(l), z.and(&lt)]), z.or(&[z.not(g), z.and(&gt)])];
        let (lt, gt) = (l, g);
        // the same against the negated bound (absolute values)
        if let Some(a) = a {
            let (r, f) = (self.t.padd(x, y, false), self.t.padd(a, y, false));
            let (r, f) = (self.t.zval(r), self.t.zval(f));
            ax.push(z.or(&[z.not(z.lt(r, zero)), z.lt(f, zero)]));
            ax.push(z.or(&[z.not(z.lt(zero, r)), z.lt(zero, f)]));
        }
        let fact = self.t.fresh_real("rounding", 0.0, 0.0, false);
        self.t.atoms[fact as usize].axioms = ax;
        self.t.atoms[fact as usize].deps = atoms.clone();
        atoms.push(fact);
        let r = match p {
            Fp::Olt | Fp::Ult => lt,
            Fp::Ogt | Fp::Ugt => gt,
            Fp::Ole | Fp::Ule => z.not(gt),
            Fp::Oge | Fp::Uge => z.not(lt),
            Fp::Oeq | Fp::Ueq => z.and(&[z.not(lt), z.not(gt)]),
            Fp::One | Fp::Une => z.or(&[lt, gt]),
            _ => return None,
        };
        Some(self.t.raw(r, atoms))
    }
    fn fpast(&self, v: &V) -> R<Ast> {
        match v { V::F(x) => Ok(self.z.fp_num(*x)), V::FP(a) => Ok(*a), _ => abort("mixing IEEE and real floats") }
    }
    fn fcmp_fp(&mut self, p: Fp, a: &V, b: &V) -> R<V> {
        let (x, y) = (self.fpast(a)?, self.fpast(b)?);
        let z = self.z.clone();
        let un = z.or(&[z.fp_nan(x), z.fp_nan(y)]);
        let r = match p {
            Fp::False => z.fals, Fp::True => z.tru, Fp::Ord => z.not(un), Fp::Uno => un,
            Fp::Oeq => z.fp_eq(x, y), Fp::Ogt => z.fp_lt(y, x), Fp::Oge => z.fp_le(y, x), Fp::Olt => z.fp_lt(x, y), Fp::Ole => z.fp_le(x, y),
            Fp::One => z.and(&[z.not(un), z.not(z.fp_eq(x, y))]),
            Fp::Ueq => z.or(&[un, z.fp_eq(x, y)]), Fp::Ugt => z.not(z.fp_le(x, y)), Fp::Uge => z.not(z.fp_lt(x, y)), Fp::Ult => z.not(z.fp_le(y, x)), Fp::Ule => z.not(z.fp_lt(y, x)), Fp::Une => z.not(z.fp_eq(x, y)),
        };
        let r = z.simplify(r);
        if r == z.tru { return Ok(V::I(1)); }
        if r == z.fals { return Ok(V::I(0)); }
        Ok(V::B(self.t.raw(r, vec![])))
    }
    pub fn fbin(&mut self, s: &mut State, op: Bin, a: &V, b: &V) -> R<V> {
        if let (V::F(x), V::F(y)) = (a, b) {
            return Ok(V::F(match op { Bin::FAdd => x + y, Bin::FSub => x - y, Bin::FMul => x * y, Bin::FDiv => x / y, _ => x % y }));
        }
        if let (V::F32(x), V::F32(y)) = (a, b) {
            return Ok(V::F32(match op { Bin::FAdd => x + y, Bin::FSub => x - y, Bin::FMul => x * y, Bin::FDiv => x / y, _ => x % y }));
        }
        if matches!(a, V::FP(_)) || matches!(b, V::FP(_)) {
            let (x, y) = (self.fpast(a)?, self.fpast(b)?);
            return Ok(V::FP(match op { Bin::FAdd => self.z.fp_add(x, y), Bin::FSub => self.z.fp_sub(x, y), Bin::FMul => self.z.fp_mul(x, y), Bin::FDiv => self.z.fp_div(x, y), _ => return abort("frem") }));
        }
        for (k, x) in [(0, a), (1, b)] {
            if let V::F(c) = x {
                if c.is_nan() { return Ok(V::F(f64::NAN)); }
                if c.is_infinite() {
                    match op {
                        Bin::FAdd => return Ok(V::F(*c)),
                        Bin::FSub => return Ok(V::F(if k == 0 { *c } else { -*c })),
                        _ => {
                            let o = if k == 0 { b } else { a };
                            let p = self.fpoly(s, o)?;
                            let neg = self.t.cmp0(p, true);
                            let pos = self.t.cmp0(p, false).not();
                            let r = if self.decide(s, neg)? { -1.0 } else if self.decide(s, pos)? { 1.0 } else { 0.0 };
                            return Ok(V::F(match op { Bin::FMul => r * c, _ => if k == 0 { c / r } else { r / c } }));
                        }
                    }
                }
            }
        }
        let (x, y) = (self.fpoly(s, a)?, self.fpoly(s, b)?);
        match op {
            Bin::FAdd | Bin::FSub => {
                let e = self.t.padd(x, y, op == Bin::FSub);
                let r = self.t.round(e);
                if op == Bin::FAdd && self.t.nonneg.contains(&x) && (self.t.nonneg.contains(&y) || self.t.interval(y).0 >= 0.0)
                    || op == Bin::FAdd && self.t.nonneg.contains(&y) && self.t.interval(x).0 >= 0.0 { self.t.nonneg.insert(r); }
                Ok(self.fval(r))
            }
            Bin::FMul => {
                let e = self.t.pmul(x, y);
                let r = self.t.round(e);
                if x == y { self.t.nonneg.insert(r); }
                Ok(self.fval(r))
            }
            Bin::FDiv => self.fdiv(s, x, y),
            _ => self.frem(x, y),
        }
    }
    /// Remainder by a constant: x - c * trunc(x / c), which is exact.
    fn frem(&mut self, x: P, y: P) -> R<V> {
        let Some(c) = self.t.as_f64(y).map(f64::abs).filter(|c| *c > 0.0) else { return abort("frem by a symbolic value") };
        let (l, h) = self.t.interval(x);
        if !(l.is_finite() && h.is_finite()) { return abort("frem of an unbounded value") }
        let k = self.t.func(40, x, y, |t| {
            let deps = t.atoms_of(x);
            let zx = t.zval(x);
            let zc = t.zf64(c);
            let z = t.z.clone();
            t.defined("rem", true, (l / c).trunc() - 1.0, (h / c).trunc() + 1.0, deps, |_, v| {
                let (zero, one, m1) = (z.num("0", z.real), z.num("1", z.real), z.num("-1", z.real));
                let up = z.mul(&[zc, z.add(&[v, one])]);
                let at = z.mul(&[zc, v]);
                let down = z.mul(&[zc, z.add(&[v, m1])]);
                vec![z.is_int(v), z.or(&[z.and(&[z.le(zero, zx), z.le(at, zx), z.lt(zx, up)]), z.and(&[z.lt(zx, zero), z.lt(down, zx), z.le(zx, at)])])]
            })
        });
        let c = self.t.f64_const(c).unwrap();
        let m = self.t.pmul(k, c);
        let r = self.t.padd(x, m, true);
        self.t.known_float(r);
        Ok(self.fval(r))
    }
    fn fdiv(&mut self, s: &mut State, x: P, y: P) -> R<V> {
        if let Some((c, sh)) = self.t.as_const(y) {
            if c == 0 { return self.div_zero(s, x); }
            if c.unsigned_abs().is_power_of_two() {
                // division by +-2^k
                let k = c.unsigned_abs().trailing_zeros();
                let num = if c < 0 { -(1i128 << sh) } else { 1i128 << sh };
                let inv = self.t.dy(num, k);
                let e = self.t.pmul(x, inv);
                let r = self.t.round(e);
                return Ok(self.fval(r));
            }
        } else {
            let z = self.t.eq0(y);
            if self.decide(s, z)? { return self.div_zero(s, x); }
        }
        if let Some((0, _)) = self.t.as_const(x) { return Ok(V::F(0.0)); }
        // x / x == 1
        if x == y { return Ok(V::F(1.0)); }
        let (lx, hx) = self.t.interval(x);
        let (ly, hy) = self.t.interval(y);
        let r = self.t.func(1, x, y, |t| {
            let (mut lo, mut hi) = (-1e290, 1e290);
            if ly > 0.0 || hy < 0.0 {
                let c = [lx / ly, lx / hy, hx / ly, hx / hy];
                lo = c.iter().fold(f64::INFINITY, |a, b| a.min(*b));
                hi = c.iter().fold(f64::NEG_INFINITY, |a, b| a.max(*b));
                lo -= lo.abs() * 1e-15 ; hi += hi.abs() * 1e-15;
            } else if lx >= 0.0 && ly >= 0.0 { lo = 0.0; }
            let mut deps = t.atoms_of(x);
            deps.extend(t.atoms_of(y));
            let (zx, zy) = (t.zval(x), t.zval(y));
            let zz = t.z.clone();
            let p = t.defined("div", false, lo, hi, deps, |t, v| {
                let d = t.zf64(2f64.powi(-52));
                let zero = zz.num("0", zz.real);
                let m1 = zz.num("-1", zz.real);
                let prod = zz.mul(&[v, zy]);
                let ax = zz.mul(&[d, zx]);
                let nax = zz.mul(&[m1, d, zx]);
                let diff = zz.add(&[prod, zz.mul(&[m1, zx])]);
                // |v*y - x| <= 2^-52 |x|
                let pos = zz.and(&[zz.le(zero, zx), zz.le(diff, ax), zz.le(nax, diff)]);
                let neg = zz.and(&[zz.le(zx, zero), zz.le(diff, nax), zz.le(ax, diff)]);
                vec![zz.or(&[pos, neg])]
            });
            t.known_float(p);
            if t.as_const(y).map_or(false, |(c, _)| c > 0) { t.exact_of.insert(p, (x, y)); }
            p
        });
        Ok(self.fval(r))
    }
    fn div_zero(&mut self, s: &mut State, x: P) -> R<V> {
        let neg = self.t.cmp0(x, true);
        let pos = self.t.cmp0(x, false).not();
        Ok(V::F(if self.decide(s, neg)? { f64::NEG_INFINITY } else if self.decide(s, pos)? { f64::INFINITY } else { f64::NAN }))
    }
    pub fn fselect(&mut self, s: &mut State, c: Bx, a: &V, b: &V) -> R<V> {
        match self.lookup(s, c) { Some(true) => return Ok(a.clone()), Some(false) => return Ok(b.clone()), None => {} }
        if let (V::F(x), V::F(y)) = (a, b) { if x.to_bits() == y.to_bits() { return Ok(a.clone()); } }
        let special = |v: &V| match v { V::F(x) => dyadic(*x).is_none(), V::FP(_) => true, V::R(_) => false, _ => true };
        if special(a) || special(b) {
            if let (V::FP(_) | V::F(_), V::FP(_) | V::F(_)) = (a, b) { if matches!(a, V::FP(_)) || matches!(b, V::FP(_)) { let zc = self.t.zb(c); return Ok(V::FP(self.z.ite(zc, self.fpast(a)?, self.fpast(b)?))); } }
            return Ok(if self.decide(s, c)? { a.clone() } else { b.clone() });
        }
        if s.flags.get("fork_select").copied().unwrap_or(0) == 1 { return Ok(if self.decide(s, c)? { a.clone() } else { b.clone() }); }
        let (x, y) = (self.fpoly(s, a)?, self.fpoly(s, b)?);
        let r = self.t.ite(c, x, y);
        Ok(self.fval(r))
    }
    pub fn fminmax(&mut self, s: &mut State, max: bool, a: &V, b: &V) -> R<V> {
        if let (V::F(x), V::F(y)) = (a, b) { return Ok(V::F(if max { x.max(*y) } else { x.min(*y) })); }
        for (x, o) in [(a, b), (b, a)] { if let V::F(c) = x { if c.is_nan() { return Ok(o.clone()); } if c.is_infinite() { return Ok(if max == (*c > 0.0) { x.clone() } else { o.clone() }); } } }
        if matches!(a, V::FP(_)) || matches!(b, V::FP(_)) { return abort("IEEE min/max"); }
        let c = match self.fcmp(s, Fp::Olt, a, b)? { V::I(x) => Bx::of(x == 1), V::B(b) => b, _ => unreachable!() };
        if max { self.fselect(s, c, b, a) } else { self.fselect(s, c, a, b) }
    }
    /// integral function of a float: 0 floor, 1 ceil, 2 trunc, 3 round half away
    pub fn fround(&mut self, s: &mut State, kind: u32, a: &V) -> R<V> {
        if let V::F(x) = a { return Ok(V::F(match kind { 0 => x.floor(), 1 => x.ceil(), 2 => x.trunc(), 3 => x.round(), _ => x.round_ties_even() })); }
        if let V::FP(x) = a { if kind == 3 { return Ok(V::FP(self.z.fp_round_away(*x))); } return abort("IEEE rounding"); }
        let p = self.fpoly(s, a)?;
        if self.t.on_grid(p) && self.t.get(p).shift == 0 { return Ok(V::R(p)); }
        if kind > 3 { return abort("round ties even"); }
        let (l, h) = self.t.interval(p);
        let r = self.t.func(10 + kind, p, 0, |t| {
            let f = |x: f64| match kind { 0 => x.floor(), 1 => x.ceil(), 2 => x.trunc(), _ => x.round() };
            let mut deps = t.atoms_of(p);
            let zx = t.zval(p);
            let z = t.z.clone();
            let ex: Vec<(Ast, Ast)> = t.exact_chain(p).into_iter().map(|(n, d)| { deps.extend(t.atoms_of(n)); (t.zval(n), t.zval(d)) }).collect();
            let q = t.defined("rnd", true, f(l), f(h), deps, |t, v| {
                let one = z.num("1", z.real);
                let zero = z.num("0", z.real);
                let half = t.zf64(0.5);
                let m1 = z.num("-1", z.real);
                let floor = |x: Ast| z.and(&[z.le(v, x), z.lt(x, z.add(&[v, one]))]);
                let ceil = |x: Ast| z.and(&[z.le(x, v), z.lt(z.add(&[v, m1]), x)]);
                let mh = z.mul(&[m1, half]);
                let nn = z.le(zero, zx);
                let ng = z.lt(zx, zero);
                let b = match kind {
                    0 => floor(zx),
                    1 => ceil(zx),
                    2 => z.or(&[z.and(&[nn, floor(zx)]), z.and(&[ng, ceil(zx)])]),
                    _ => z.or(&[z.and(&[nn, floor(z.add(&[zx, half]))]), z.and(&[ng, ceil(z.add(&[zx, mh]))])]),
                };
                let mut ax = vec![b, z.is_int(v)];
                // rounding is monotone and fixes integers and halves: the exact value lies on the same side
                for (n, d) in ex {
                    let below = |o: Ast| z.lt(n, z.mul(&[d, z.add(&[v, o])]));
                    let above = |o: Ast| z.lt(z.mul(&[d, z.add(&[v, o])]), n);
                    ax.push(match kind {
                        0 => below(one),
                        1 => above(m1),
                        2 => z.and(&[z.or(&[ng, below(one)]), z.or(&[nn, above(m1)])]),
                        _ => z.and(&[z.or(&[ng, below(half)]), z.or(&[nn, above(mh)])]),
                    });
                }
                ax
            });
            q
        });
        Ok(self.fval(r))
    }
    fn f2i(&mut self, s: &mut State, a: &V, w: u32, signed: bool) -> R<V> {
        if let V::F(x) = a {
            return Ok(V::I(if signed { let lim = s64(1 << (w.min(63) - 1), 64); let v = *x as i64; if w >= 64 { v as u64 } else { m64(v.clamp(-lim, lim - 1) as u64, w) } } else { let v = *x as u64; if w >= 64 { v } else { v.min((1 << w) - 1) } }));
        }
        let t = self.fround(s, 2, a)?;
        match t {
            V::F(_) => self.f2i(s, &t, w, signed),
            V::R(p) => {
                let (lo, hi) = if signed { (-(1i128 << (w - 1)), (1i128 << (w - 1)) - 1) } else { (0, (1i128 << w) - 1) };
                let (l, h) = self.t.interval(p);
                if l < lo as f64 { let k = self.t.int_const(lo); let d = self.t.padd(p, k, true); let b = self.t.cmp0(d, true); if self.decide(s, b)? { return Ok(V::I(m64(lo as u64, w))); } }
                if h > hi as f64 { let k = self.t.int_const(hi); let d = self.t.padd(k, p, true); let b = self.t.cmp0(d, true); if self.decide(s, b)? { return Ok(V::I(m64(hi as u64, w))); } }
                Ok(V::S(p))
            }
            _ => abort("f2i"),
        }
    }

    fn lanes(&mut self, s: &mut State, n: usize, a: &V, b: &V, mut f: impl FnMut(&mut Eng, &mut State, &V, &V) -> R<V>) -> R<V> {
        let (x, y) = match (a, b) { (V::Agg(x), V::Agg(y)) => (x.clone(), y.clone()), _ => return abort("vector operands") };
        let mut o = Vec::with_capacity(n);
        for i in 0..n { o.push(f(self, s, &x[i], &y[i])?); }
        Ok(V::Agg(Rc::new(o)))
    }
    pub fn ibin(&mut self, s: &mut State, op: Bin, w: u32, a: &V, b: &V) -> R<V> {
        if let (V::I(x), V::I(y)) = (a, b) {
            let (x, y) = (*x, *y);
            if w > 64 { return self.wbin(op, w, x as u128, y as u128); }
            let r = match op {
                Bin::Add => x.wrapping_add(y), Bin::Sub => x.wrapping_sub(y), Bin::Mul => x.wrapping_mul(y),
                Bin::UDiv => { if y == 0 { return Err(Ctl::Viol("arith".into(), "division by zero".into())); } x / y }
                Bin::URem => { if y == 0 { return Err(Ctl::Viol("arith".into(), "division by zero".into())); } x % y }
                Bin::SDiv => { if y == 0 { return Err(Ctl::Viol("arith".into(), "division by zero".into())); } s64(x, w).wrapping_div(s64(y, w)) as u64 }
                Bin::SRem => { if y == 0 { return Err(Ctl::Viol("arith".into(), "division by zero".into())); } s64(x, w).wrapping_rem(s64(y, w)) as u64 }
                Bin::Shl => if y >= w as u64 { 0 } else { x << y },
                Bin::LShr => if y >= w as u64 { 0 } else { x >> y },
                Bin::AShr => if y >= w as u64 { 0 } else { (s64(x, w) >> y) as u64 },
                Bin::And => x & y, Bin::Or => x | y, Bin::Xor => x ^ y,
                _ => unreachable!(),
            };
            return Ok(V::I(m64(r, w)));
        }
        if matches!(a, V::W(_)) || matches!(b, V::W(_)) {
            // small numbers in wide types stay symbolic
            let narrow = matches!(op, Bin::Add | Bin::Sub) || op == Bin::Mul && w > 64;
            if !(narrow && self.small(a, w) && self.small(b, w)) { let (x, y) = (self.wide(s, a)?, self.wide(s, b)?); return self.wbin(op, w, x, y); }
        }
        // Booleans
        if matches!(op, Bin::And | Bin::Or | Bin::Xor) {
            let is_b = |v: &V| matches!(v, V::B(_)) || matches!(v, V::I(0) | V::I(1)) || matches!(v, V::Undef);
            if is_b(a) && is_b(b) {
                let (x, y) = (self.bool_of(s, a)?, self.bool_of(s, b)?);
                return Ok(bv(match op { Bin::And => self.t.and(&[x, y]), Bin::Or => self.t.or(&[x, y]), _ => self.t.iff(x, y).not() }));
            }
            if op == Bin::And {
                for (x, o) in [(a, b), (b, a)] {
                    if let V::B(_) = x { if let V::I(k) = o { return Ok(if k & 1 == 1 { x.clone() } else { V::I(0) }); } }
                    if let V::I(0) = o { return Ok(V::I(0)); }
                    if let V::I(k) = o { if *k == m64(u64::MAX, w) { return Ok(x.clone()); } }
                }
            } else {
                for (x, o) in [(a, b), (b, a)] { if let V::I(0) = o { return Ok(x.clone()); } }
                if op == Bin::Xor && a_eq(a, b) { return Ok(V::I(0)); }
            }
        }
        match op {
            Bin::Add | Bin::Sub => {
                // byte-level Boolean difference etc.
                let (x, y) = (self.ipoly(a, w)?, self.ipoly(b, w)?);
                let r = self.t.padd(x, y, op == Bin::Sub);
                self.norm(s, r, w)
            }
            Bin::Mul => {
                let (x, y) = (self.ipoly(a, w)?, self.ipoly(b, w)?);
                let r = self.t.pmul(x, y);
                self.norm(s, r, w)
            }
            Bin::Shl => {
                let k = self.conc(s, b)?;
                let x = self.ipoly(a, w)?;
                let f = self.t.int_const(1i128 << k);
                let r = self.t.pmul(x, f);
                self.norm(s, r, w)
            }
            Bin::LShr | Bin::UDiv | Bin::URem => {
                let x = self.upoly(s, a, w)?;
                let y = self.conc(s, b)?;
                let d = if op == Bin::LShr { 1u128 << y } else { y as u128 };
                if d == 0 { return Err(Ctl::Viol("arith".into(), "division by zero".into())); }
                let q = self.idiv(x, d as i128);
                if op == Bin::URem { let dk = self.t.int_const(d as i128); let m = self.t.pmul(q, dk); let r = self.t.padd(x, m, true); return Ok(V::S(r)); }
                Ok(V::S(q))
            }
            Bin::And => {
                for (x, o) in [(a, b), (b, a)] {
                    if let (V::S(p), V::I(k)) = (x, o) {
                        // bytewise where the word was read from single bytes
                        if let Some(by) = self.composed.get(p).cloned() {
                            let mut r = self.t.int_const(0);
                            for (i, y) in by.iter().enumerate() {
                                let v = self.ibin(s, Bin::And, 8, y, &V::I(k >> (8 * i) & 255))?;
                                let q = self.ipoly(&v, 8)?;
                                let f = self.t.int_const(1i128 << (8 * i));
                                let q = self.t.pmul(q, f);
                                r = self.t.padd(r, q, false);
                            }
                            return self.norm(s, r, w);
                        }
                        let (l, h) = self.t.interval(*p);
                        if *k != 0 && l >= 0.0 && h < (1u128 << k.trailing_zeros()) as f64 { return Ok(V::I(0)); }
                    }
                }
                for (x, o) in [(a, b), (b, a)] {
                    if let V::I(k) = o {
                        if (k + 1).is_power_of_two() {
                            let p = self.upoly(s, x, w)?;
                            if self.t.interval(p).1 <= *k as f64 { return Ok(V::S(p)); }
                            let q = self.idiv(p, *k as i128 + 1);
                            let dk = self.t.int_const(*k as i128 + 1);
                            let m = self.t.pmul(q, dk);
                            let r = self.t.padd(p, m, true);
                            return Ok(V::S(r));
                        }
                    }
                }
                // remove the runs of cleared bits
                for (x, o) in [(a, b), (b, a)] {
                    let V::I(k) = o else { continue };
                    let clear = m64(!*k, w);
                    let runs = (clear & !(clear << 1)).count_ones();
                    if runs > 2 || w > 64 { continue; }
                    let p = self.upoly(s, x, w)?;
                    let (mut r, mut bits) = (p, clear);
                    while bits != 0 {
                        let lo = bits.trailing_zeros();
                        let len = (!(bits >> lo)).trailing_zeros().min(w - lo);
                        let (q, top) = (self.idiv(p, 1i128 << lo), self.idiv(p, 1i128 << (lo + len)));
                        let f = self.t.int_const(1i128 << len);
                        let top = self.t.pmul(top, f);
                        let m = self.t.padd(q, top, true);
                        let f = self.t.int_const(1i128 << lo);
                        let m = self.t.pmul(m, f);
                        r = self.t.padd(r, m, true);
                        bits = if lo + len >= 64 { 0 } else { bits >> (lo + len) << (lo + len) };
                    }
                    return self.norm(s, r, w);
                }
                let (x, y) = (self.conc(s, a)?, self.conc(s, b)?);
                Ok(V::I(m64(x & y, w)))
            }
            // string comparison by words: a difference that is zero exactly for equal words
            Bin::Xor if w >= 16 && [(a, b), (b, a)].iter().any(|v| matches!(v, (V::S(p), V::I(k)) if self.composed.contains_key(p) || *k < 256 && { let (l, h) = self.t.interval(*p); l >= 0.0 && h < 256.0 })) => {
                let (p, k) = match (a, b) { (V::S(p), V::I(k)) | (V::I(k), V::S(p)) => (*p, *k), _ => unreachable!() };
                let by = self.composed.get(&p).cloned().unwrap_or_else(|| vec![V::S(p)]);
                // a byte that is never the wanted one?
                let mut never = false;
                for (i, y) in by.iter().enumerate() {
                    let q = self.ipoly(y, 8)?;
                    let (l, h) = self.t.interval(q);
                    let c = (k >> (8 * i) & 255) as f64;
                    never |= c < l || c > h;
                }
                let kp = self.t.int_const(k as i128);
                let hi = if w >= 64 { u64::MAX as f64 } else { ((1u64 << w) - 1) as f64 };
                let r = self.t.func(22, p, kp, |t| {
                    let d = t.padd(p, kp, true);
                    let deps = t.atoms_of(p);
                    let (zd, z) = (t.zval(d), t.z.clone());
                    t.defined("xor", true, if never { 1.0 } else { 0.0 }, hi, deps, |_, v| {
                        let zero = z.num("0", z.real);
                        let (a, b) = (z.eq(v, zero), z.eq(zd, zero));
                        vec![z.eq(a, b), z.is_int(v)]
                    })
                });
                self.t.diffs.insert(r);
                Ok(V::S(r))
            }
            Bin::Or if [(a, b), (b, a)].iter().any(|v| matches!(v, (V::S(p), o) if self.t.diffs.contains(p) && match o { V::S(q) => self.t.diffs.contains(q), V::I(_) => true, _ => false })) => {
                if matches!(a, V::I(k) if *k != 0) { return Ok(a.clone()); }
                if matches!(b, V::I(k) if *k != 0) { return Ok(b.clone()); }
                let (p, q) = (self.ipoly(a, w)?, self.ipoly(b, w)?);
                let ((pl, ph), (ql, qh)) = (self.t.interval(p), self.t.interval(q));
                let r = self.t.func(23, p, q, |t| {
                    let mut deps = t.atoms_of(p);
                    deps.extend(t.atoms_of(q));
                    let (zp, zq, z) = (t.zval(p), t.zval(q), t.z.clone());
                    t.defined("or", true, pl.max(ql), ph + qh, deps, |_, v| vec![z.le(zp, v), z.le(zq, v), z.le(v, z.add(&[zp, zq])), z.is_int(v)])
                });
                self.t.diffs.insert(r);
                Ok(V::S(r))
            }
            Bin::Or if w == 64 && [a, b].iter().any(|v| matches!(v, V::S(p) if self.composed.contains_key(p))) => {
                // bytewise; two symbolic bytes give a byte within their common bit width
                let split = |c: &HashMap<P, Vec<V>>, v: &V| -> Option<Vec<V>> { match v { V::I(k) => Some((0..8).map(|i| V::I(k >> (8 * i) & 255)).collect()), V::S(p) => c.get(p).filter(|y| y.len() == 8).cloned(), _ => None } };
                let (Some(x), Some(y)) = (split(&self.composed, a), split(&self.composed, b)) else { return abort("bitwise or of symbolic words") };
                let mut r = self.t.int_const(0);
                let mut by = Vec::new();
                for i in 0..8 {
                    let v = match (&x[i], &y[i]) {
                        (V::I(p), V::I(q)) => V::I(p | q),
                        (V::I(0), v) | (v, V::I(0)) => v.clone(),
                        (p, q) => {
                            let (p, q) = (self.ipoly(p, 8)?, self.ipoly(q, 8)?);
                            let ((pl, ph), (ql, qh)) = (self.t.interval(p), self.t.interval(q));
                            let hi = ((ph.max(qh) as u64 + 1).next_power_of_two() - 1) as f64;
                            V::S(self.t.func(21, p, q, |t| {
                                let mut deps = t.atoms_of(p);
                                deps.extend(t.atoms_of(q));
                                let (zp, zq, z) = (t.zval(p), t.zval(q), t.z.clone());
                                t.defined("or", true, pl.max(ql), hi, deps, |_, v| vec![z.le(zp, v), z.le(zq, v), z.le(v, z.add(&[zp, zq])), z.is_int(v)])
                            }))
                        }
                    };
                    let q = self.ipoly(&v, 8)?;
                    let f = self.t.int_const(1i128 << (8 * i));
                    let q = self.t.pmul(q, f);
                    r = self.t.padd(r, q, false);
                    by.push(v);
                }
                self.composed.insert(r, by);
                self.norm(s, r, w)
            }
            Bin::Xor if matches!(b, V::I(k) if *k == m64(u64::MAX, w)) => {
                let x = self.ipoly(a, w)?;
                let m1 = self.t.int_const(-1);
                let r = self.t.padd(m1, x, true);
                self.norm(s, r, w)
            }
            _ => {
                let (x, y) = (self.conc(s, a)?, self.conc(s, b)?);
                self.ibin(s, op, w, &V::I(m64(x, w)), &V::I(m64(y, w)))
            }
        }
    }
    /// floor division of a non-negative integer polynomial
    fn idiv(&mut self, x: P, d: i128) -> P {
        if d == 1 { return x; }
        if let Some((c, 0)) = self.t.as_const(x) { return self.t.int_const(c.div_euclid(d)); }
        let (l, h) = self.t.interval(x);
        if l >= 0.0 && h < d as f64 { return self.t.int_const(0); }
        if l >= 0.0 && h < 9e15 && (l as i128) / d == (h as i128) / d { return self.t.int_const(l as i128 / d); }
        let dp = self.t.int_const(d);
        self.t.func(20, x, dp, |t| {
            let deps = t.atoms_of(x);
            let zx = t.zval(x);
            let z = t.z.clone();
            t.defined("idiv", true, (l / d as f64).floor(), (h / d as f64).floor(), deps, |_, v| {
                let zd = z.num(&d.to_string(), z.real);
                let m = z.mul(&[v, zd]);
                vec![z.le(m, zx), z.lt(zx, z.add(&[m, zd])), z.is_int(v)]
            })
        })
    }
    fn wbin(&mut self, op: Bin, w: u32, x: u128, y: u128) -> R<V> {
        let sx = |v: u128| sext(v, w);
        let r = match op {
            Bin::Add => x.wrapping_add(y), Bin::Sub => x.wrapping_sub(y), Bin::Mul => x.wrapping_mul(y),
            Bin::UDiv | Bin::URem | Bin::SDiv | Bin::SRem if y == 0 => return Err(Ctl::Viol("arith".into(), "division by zero".into())),
            Bin::UDiv => x / y, Bin::URem => x % y, Bin::SDiv => sx(x).wrapping_div(sx(y)) as u128, Bin::SRem => sx(x).wrapping_rem(sx(y)) as u128,
            Bin::Shl => if y >= w as u128 { 0 } else { x << y }, Bin::LShr => if y >= w as u128 { 0 } else { x >> y }, Bin::AShr => if y >= w as u128 { 0 } else { (sx(x) >> y) as u128 },
            Bin::And => x & y, Bin::Or => x | y, Bin::Xor => x ^ y,
            _ => unreachable!(),
        };
        Ok(V::W(Rc::new(mask(r, w))))
    }
    pub fn icmp(&mut self, s: &mut State, p: Ip, w: u32, a: &V, b: &V) -> R<V> {
        if let (V::I(x), V::I(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let (sx, sy) = (s64(x, w), s64(y, w));
            let r = match p { Ip::Eq => x == y, Ip::Ne => x != y, Ip::Ugt => x > y, Ip::Uge => x >= y, Ip::Ult => x < y, Ip::Ule => x <= y, Ip::Sgt => sx > sy, Ip::Sge => sx >= sy, Ip::Slt => sx < sy, Ip::Sle => sx <= sy };
            return Ok(V::I(r as u64));
        }
        if (matches!(a, V::W(_)) || matches!(b, V::W(_))) && !(self.small(a, w) && self.small(b, w) && (matches!(a, V::S(_)) || matches!(b, V::S(_)))) {
            let (x, y) = (self.wide(s, a)?, self.wide(s, b)?);
            let (sx, sy) = (sext(x, w), sext(y, w));
            let r = match p { Ip::Eq => x == y, Ip::Ne => x != y, Ip::Ugt => x > y, Ip::Uge => x >= y, Ip::Ult => x < y, Ip::Ule => x <= y, Ip::Sgt => sx > sy, Ip::Sge => sx >= sy, Ip::Slt => sx < sy, Ip::Sle => sx <= sy };
            return Ok(V::I(r as u64));
        }
        // float bits compared as integers: only equality of the same opaque value or sign test
        if let V::R(q) = a {
            if let (Ip::Slt, V::I(0)) = (p, b) { return Ok(bv(self.t.cmp0(*q, true))); }
            if let (Ip::Sgt, V::I(x)) = (p, b) { if s64(*x, w) == -1 { return Ok(bv(self.t.cmp0(*q, true).not())); } }
            if matches!(p, Ip::Eq | Ip::Ne) { let e = self.fcmp(s, Fp::Oeq, a, &match b { V::I(x) => V::F(f64::from_bits(*x)), o => o.clone() })?; return if p == Ip::Eq { Ok(e) } else { self.ibin(s, Bin::Xor, 1, &e, &V::I(1)) }; }
            return abort(format!("integer comparison {:?} of symbolic float bits with {:?}", p, b));
        }
        if let (V::B(x), V::B(y)) = (a, b) { if matches!(p, Ip::Eq | Ip::Ne) { let e = self.t.iff(*x, *y); return Ok(bv(if p == Ip::Eq { e } else { e.not() })); } }
        if let (V::B(x), V::I(k)) = (a, b) {
            let at = |v: u64| -> bool { let (x, y) = (v, *k); let (sx, sy) = (s64(x, w), s64(y, w)); match p { Ip::Eq => x == y, Ip::Ne => x != y, Ip::Ugt => x > y, Ip::Uge => x >= y, Ip::Ult => x < y, Ip::Ule => x <= y, Ip::Sgt => sx > sy, Ip::Sge => sx >= sy, Ip::Slt => sx < sy, Ip::Sle => sx <= sy } };
            return Ok(bv(match (at(1), at(0)) { (true, true) => TRUE, (false, false) => FALSE, (true, false) => *x, (false, true) => x.not() }));
        }
        let signed = matches!(p, Ip::Sgt | Ip::Sge | Ip::Slt | Ip::Sle);
        let eq = matches!(p, Ip::Eq | Ip::Ne);
        let (x, y) = if signed { (self.spoly(s, a, w)?, self.spoly(s, b, w)?) } else if eq { (self.ipoly(a, w)?, self.ipoly(b, w)?) } else { (self.upoly(s, a, w)?, self.upoly(s, b, w)?) };
        let (x, y) = if eq {
            // same representation needed
            let (ix, iy) = (self.t.interval(x), self.t.interval(y));
            if (ix.0 < 0.0 && iy.1 >= 2f64.powi(w as i32 - 1)) || (iy.0 < 0.0 && ix.1 >= 2f64.powi(w as i32 - 1)) { (self.upoly(s, a, w)?, self.upoly(s, b, w)?) } else { (x, y) }
        } else { (x, y) };
        let d = self.t.padd(x, y, true);
        let r = match p {
            Ip::Eq => self.t.eq0(d), Ip::Ne => self.t.eq0(d).not(),
            Ip::Ult | Ip::Slt => self.t.cmp0(d, true), Ip::Ule | Ip::Sle => self.t.cmp0(d, false),
            Ip::Ugt | Ip::Sgt => self.t.cmp0(d, false).not(), Ip::Uge | Ip::Sge => self.t.cmp0(d, true).not(),
        };
        Ok(bv(r))
    }
    /// An integer far from the limits of a type of more than 64 bits.
    pub fn small(&self, v: &V, w: u32) -> bool {
        match v {
            V::W(x) => sext(**x, w).unsigned_abs() < 1 << 60,
            V::S(p) => { let (l, h) = self.t.interval(*p); l > -(2f64.powi(60)) && h < 2f64.powi(60) }
            V::I(_) => true,
            _ => false,
        }
    }
    pub fn with_overflow(&mut self, s: &mut State, op: Bin, signed: bool, w: u32, a: &V, b: &V) -> R<V> {
        let (x, y);
        if signed { x = self.spoly(s, a, w)?; y = self.spoly(s, b, w)?; } else { x = self.upoly(s, a, w)?; y = self.upoly(s, b, w)?; }
        let r = match op { Bin::Add => self.t.padd(x, y, false), Bin::Sub => self.t.padd(x, y, true), _ => self.t.pmul(x, y) };
        let (lo, hi) = if signed { (-(1i128 << (w - 1)), (1i128 << (w - 1)) - 1) } else { (0, if w >= 127 { i128::MAX } else { (1i128 << w) - 1 }) };
        let lc = self.t.int_const(lo);
        let hc = self.t.int_const(hi);
        let d1 = self.t.padd(r, lc, true);
        let d2 = self.t.padd(hc, r, true);
        let o1 = self.t.cmp0(d1, true);
        let o2 = self.t.cmp0(d2, true);
        let o = self.t.or(&[o1, o2]);
        let v = match self.t.as_const(r) { Some((c, _)) => V::I(m64(c as u64, w)), None => V::S(r) };
        Ok(V::Agg(Rc::new(vec![v, bv(o)])))
    }
    fn cast(&mut self, s: &mut State, op: Cast, from: &Ty, a: &V, to: &Ty) -> R<V> {
        if let (Ty::Vec(n, ft), Ty::Vec(m, tt)) = (from, to) {
            if n == m && (op != Cast::Bitcast || ft.size() == tt.size()) {
                let x = match a { V::Agg(x) => x.clone(), _ => return abort("vector cast") };
                let mut o = Vec::new();
                for i in 0..*n as usize { o.push(self.cast(s, op, ft, &x[i], tt)?); }
                return Ok(V::Agg(Rc::new(o)));
            }
        }
        let wf = w_of(from);
        let wt = w_of(to);
        match op {
            Cast::Trunc => match a {
                V::I(x) => Ok(V::I(m64(*x, wt))),
                V::W(x) => Ok(if wt > 64 { V::W(Rc::new(mask(**x, wt))) } else { V::I(mask(**x, wt) as u64) }),
                V::B(b) => Ok(V::B(*b)),
                V::S(p) => {
                    let (l, h) = self.t.interval(*p);
                    if l >= -(2f64.powi(wt as i32 - 1)) && h < 2f64.powi(wt as i32) { if wt == 1 { return Ok(bv(self.t.eq0(*p).not())); } return Ok(V::S(*p)); }
                    let k = V::I(m64(u64::MAX, wt));
                    let r = self.ibin(s, Bin::And, wf, a, &k)?;
                    if wt == 1 { if let V::S(q) = r { return Ok(bv(self.t.eq0(q).not())); } }
                    Ok(r)
                }
                V::Undef => Ok(self.zero(to)),
                _ => abort(format!("trunc of {:?}", a)),
            },
            Cast::Zext => match a {
                V::I(x) => Ok(if wt > 64 { V::W(Rc::new(*x as u128)) } else { V::I(*x) }),
                V::W(_) | V::B(_) => Ok(a.clone()),
                V::S(_) => { let p = self.upoly(s, a, wf)?; Ok(V::S(p)) }
                V::Undef => Ok(self.zero(to)),
                _ => abort("zext"),
            },
            Cast::Sext => match a {
                V::I(x) => Ok(if wt > 64 { V::W(Rc::new(mask(s64(*x, wf) as i128 as u128, wt))) } else { V::I(m64(s64(*x, wf) as u64, wt)) }),
                V::W(x) => Ok(V::W(Rc::new(mask(sext(**x, wf) as u128, wt)))),
                V::B(b) => { if self.decide(s, *b)? { Ok(if wf == 1 { V::I(m64(u64::MAX, wt)) } else { V::I(1) }) } else { Ok(V::I(0)) } }
                V::S(_) => { let p = self.spoly(s, a, wf)?; Ok(V::S(p)) }
                V::Undef => Ok(self.zero(to)),
                _ => abort("sext"),
            },
            Cast::FpToUi | Cast::FpToSi => self.f2i(s, a, wt, op == Cast::FpToSi),
            Cast::UiToFp | Cast::SiToFp => match a {
                V::I(x) => { let v = if op == Cast::SiToFp { s64(*x, wf) as f64 } else { *x as f64 }; Ok(if *to == Ty::F32 { V::F32(if op == Cast::SiToFp { s64(*x, wf) as f32 } else { *x as f32 }) } else { V::F(v) }) }
                V::W(x) => Ok(V::F(if op == Cast::SiToFp { sext(**x, wf) as f64 } else { **x as f64 })),
                _ => {
                    let p = if op == Cast::SiToFp { self.spoly(s, a, wf)? } else { self.upoly(s, a, wf)? };
                    if *to == Ty::F32 { return self.f32_of(s, p); }
                    let r = self.t.round(p);
                    Ok(self.fval(r))
                }
            },
            Cast::FpTrunc => match a { V::F(x) => Ok(V::F32(*x as f32)), V::R(p) => self.f32_of(s, *p), _ => abort("fptrunc") },
            Cast::FpExt => match a { V::F32(x) => Ok(V::F(*x as f64)), _ => abort("fpext") },
            Cast::PtrToInt | Cast::IntToPtr => match a { V::I(x) => Ok(if wt > 64 { V::W(Rc::new(*x as u128)) } else { V::I(m64(*x, wt)) }), V::W(x) => Ok(V::I(**x as u64)), _ => Ok(a.clone()) },
            Cast::Bitcast => self.bitcast(s, from, a, to),
        }
    }
    fn bitcast(&mut self, s: &mut State, from: &Ty, a: &V, to: &Ty) -> R<V> {
        match (a, to) {
            (V::I(x), Ty::F64) => return Ok(V::F(f64::from_bits(*x))),
            (V::I(x), Ty::F32) => return Ok(V::F32(f32::from_bits(*x as u32))),
            (V::F(x), Ty::Int(_)) => return Ok(V::I(x.to_bits())),
            (V::F32(x), Ty::Int(_)) => return Ok(V::I(x.to_bits() as u64)),
            (V::R(_), Ty::Int(64)) | (V::R(_), Ty::F64) => return Ok(a.clone()),
            (V::FP(_), _) => return Ok(a.clone()),
            _ => {}
        }
        if !matches!(from, Ty::Vec(..)) && !matches!(to, Ty::Vec(..)) { return Ok(a.clone()); }
        // through bits
        let bits = self.to_bits(s, from, a)?;
        Ok(self.from_bits(to, bits))
    }
    fn to_bits(&mut self, s: &mut State, ty: &Ty, v: &V) -> R<u128> {
        match (ty, v) {
            (Ty::Vec(n, t), V::Agg(x)) => {
                let w = if let Ty::Int(w) = **t { w } else { t.size() as u32 * 8 };
                let mut r = 0u128;
                for i in 0..*n as usize { let b = self.to_bits(s, t, &x[i])?; r |= mask(b, w) << (w as usize * i); }
                Ok(r)
            }
            (_, V::F(x)) => Ok(x.to_bits() as u128),
            (_, V::F32(x)) => Ok(x.to_bits() as u128),
            _ => self.wide(s, v),
        }
    }
    fn from_bits(&self, ty: &Ty, b: u128) -> V {
        match ty {
            Ty::Vec(n, t) => {
                let w = if let Ty::Int(w) = **t { w } else { t.size() as u32 * 8 };
                V::Agg(Rc::new((0..*n as usize).map(|i| self.from_bits(t, mask(b >> (w as usize * i), w))).collect()))
            }
            Ty::F64 => V::F(f64::from_bits(b as u64)),
            Ty::F32 => V::F32(f32::from_bits(b as u32)),
            Ty::Int(w) if *w > 64 => V::W(Rc::new(mask(b, *w))),
            Ty::Int(w) => V::I(m64(b as u64, *w)),
            _ => V::I(b as u64),
        }
    }
    pub fn load(&mut self, s: &State, ty: &Ty, a: u64) -> R<V> {
        match ty {
            Ty::Struct(f, _) => { let mut o = Vec::new(); for i in 0..f.len() { let (off, t) = ty.field_offset(i); o.push(self.load(s, &t, a + off)?); } return Ok(V::Agg(Rc::new(o))); }
            Ty::Arr(n, t) => { let mut o = Vec::new(); for i in 0..*n { o.push(self.load(s, t, a + i * t.size())?); } return Ok(V::Agg(Rc::new(o))); }
            Ty::Vec(n, t) if !matches!(**t, Ty::Int(1)) => { let mut o = Vec::new(); for i in 0..*n { o.push(self.load(s, t, a + i * t.size())?); } return Ok(V::Agg(Rc::new(o))); }
            _ => {}
        }
        match s.mem.load(a, ty.size())? {
            Loaded::Bytes(b) => Ok(self.from_bits(ty, b)),
            Loaded::Cell(v) => Ok(v),
            Loaded::Partial => {
                if let Ty::Int(w) = ty {
                    if *w <= 64 && w % 8 == 0 {
                        // a word put together from single symbolic bytes
                        let mut p = self.t.int_const(0);
                        let mut by = Vec::new();
                        for i in 0..ty.size() {
                            let b = match s.mem.load(a + i, 1)? { Loaded::Bytes(b) => V::I(b as u64), Loaded::Cell(v) => v, Loaded::Partial => return abort("partial load of a wide symbolic value") };
                            let q = self.ipoly(&b, 8)?;
                            if self.t.interval(q).0 < 0.0 || self.t.interval(q).1 > 255.0 { return abort("load of symbolic bytes that may be negative"); }
                            let f = self.t.int_const(1i128 << (8 * i));
                            let q = self.t.pmul(q, f);
                            p = self.t.padd(p, q, false);
                            by.push(b);
                        }
                        self.composed.insert(p, by);
                        return Ok(V::S(p));
                    }
                }
                abort(format!("partial load of symbolic data ({} bytes)", ty.size()))
            }
        }
    }
    pub fn store(&mut self, s: &mut State, ty: &Ty, a: u64, v: &V) -> R<()> {
        match (ty, v) {
            (Ty::Struct(f, _), V::Agg(x)) => { for i in 0..f.len() { let (off, t) = ty.field_offset(i); self.store(s, &t, a + off, &x[i])?; } return Ok(()); }
            (Ty::Arr(n, t), V::Agg(x)) => { for i in 0..*n { self.store(s, t, a + i * t.size(), &x[i as usize])?; } return Ok(()); }
            (Ty::Vec(n, t), V::Agg(x)) if !matches!(**t, Ty::Int(1)) => { for i in 0..*n { self.store(s, t, a + i * t.size(), &x[i as usize])?; } return Ok(()); }
            _ => {}
        }
        let n = ty.size();
        match v {
            V::I(x) => s.mem.store(a, n, *x as u128)?,
            V::W(x) => s.mem.store(a, n, **x)?,
            V::F(x) => s.mem.store(a, n, x.to_bits() as u128)?,
            V::F32(x) => s.mem.store(a, n, x.to_bits() as u128)?,
            V::Undef => s.mem.store(a, n, 0)?,
            V::Agg(_) => { let b = self.to_bits(s, ty, v)?; s.mem.store(a, n, b)? }
            _ => s.mem.store_sym(a, n, v.clone())?,
        }
        Ok(())
    }
    fn branch(&mut self, s: &mut State, t: u32) {
        let fr = s.frames.last_mut().unwrap();
        let from = fr.blk;
        let blk = &fr.f.f.blocks[t as usize];
        if !blk.phis.is_empty() {
            if blk.phis.len() == 1 {
                let (d, _, inc) = &blk.phis[0];
                let o = match inc.iter().find(|x| x.1 == from) { Some(x) => &x.0, None => panic!("phi in {} block {} from {}: {:?}", fr.f.f.name, t, from, inc) };
                let v = match o { Op::Reg(r) => fr.regs[*r as usize].clone(), Op::K(k) => fr.f.k[*k as usize].clone() };
                fr.regs[*d as usize] = v;
            } else {
                let mut vs: Vec<(u32, V)> = Vec::with_capacity(blk.phis.len());
                for (d, _, inc) in &blk.phis {
                    let o = match inc.iter().find(|x| x.1 == from) { Some(x) => &x.0, None => panic!("phi in {} block {} from {}: {:?}", fr.f.f.name, t, from, inc) };
                    vs.push((*d, match o { Op::Reg(r) => fr.regs[*r as usize].clone(), Op::K(k) => fr.f.k[*k as usize].clone() }));
                }
                for (d, v) in vs { fr.regs[d as usize] = v; }
            }
        }
        fr.blk = t;
        fr.ip = 0;
    }
    /// Finish a call made from the current frame.
    fn returned(&mut self, s: &mut State, d: Option<u32>, normal: Option<u32>, v: V) {
        if let Some(d) = d { self.set(s, d, v); }
        match normal { Some(b) => self.branch(s, b), None => self.next(s) }
    }
    #[inline]
    fn step(&mut self, s: &mut State) -> R<()> {
        s.instrs += 1;
        let (f, blk, ip) = { let fr = s.frames.last().unwrap(); (fr.f, fr.blk, fr.ip) };
        let ins = &f.f.blocks[blk as usize].ins[ip as usize];
        match ins {
            Ins::Load { d, ty, p } => {
                let pv = self.op(s, p);
                let a = self.conc(s, &pv)?;
                let v = self.load(s, ty, a)?;
                self.set(s, *d, v);
            }
            Ins::Store { ty, v, p } => {
                let pv = self.op(s, p);
                let a = self.conc(s, &pv)?;
                let v = self.op(s, v);
                self.store(s, ty, a, &v)?;
            }
            Ins::Gep { d, p, off, idx, vec } => {
                if *vec { return abort("vector gep"); }
                let pv = self.op(s, p);
                let mut a = self.conc(s, &pv)?.wrapping_add(*off as u64);
                for (o, w, sc) in idx {
                    let iv = self.op(s, o);
                    let i = self.conc(s, &iv)?;
                    a = a.wrapping_add((s64(m64(i, *w), *w).wrapping_mul(*sc)) as u64);
                }
                self.set(s, *d, V::I(a));
            }
            Ins::Bin { d, op, ty, a, b } => {
                let (x, y) = (self.op(s, a), self.op(s, b));
                let fl = matches!(op, Bin::FAdd | Bin::FSub | Bin::FMul | Bin::FDiv | Bin::FRem);
                let r = match ty {
                    Ty::Vec(n, t) => { let w = w_of(t); let o = *op; self.lanes(s, *n as usize, &x, &y, |e, s, x, y| if fl { e.fbin(s, o, x, y) } else { e.ibin(s, o, w, x, y) })? }
                    _ => if fl { self.fbin(s, *op, &x, &y)? } else { self.ibin(s, *op, w_of(ty), &x, &y)? },
                };
                self.set(s, *d, r);
            }
            Ins::ICmp { d, p, ty, a, b } => {
                let (x, y) = (self.op(s, a), self.op(s, b));
                let r = match ty { Ty::Vec(n, t) => { let w = w_of(t); self.lanes(s, *n as usize, &x, &y, |e, s, x, y| e.icmp(s, *p, w, x, y))? } _ => self.icmp(s, *p, w_of(ty), &x, &y)? };
                self.set(s, *d, r);
            }
            Ins::FCmp { d, p, ty, a, b } => {
                let (x, y) = (self.op(s, a), self.op(s, b));
                let r = match ty { Ty::Vec(n, _) => self.lanes(s, *n as usize, &x, &y, |e, s, x, y| e.fcmp(s, *p, x, y))?, _ => self.fcmp(s, *p, &x, &y)? };
                self.set(s, *d, r);
            }
            Ins::Br { t } => { self.branch(s, *t); return Ok(()); }
            Ins::CondBr { c, t, f } => {
                let cv = self.op(s, c);
                let b = match cv { V::I(x) => x & 1 == 1, V::B(b) => self.decide(s, b)?, V::Undef => false, o => { let b = self.bool_of(s, &o)?; self.decide(s, b)? } };
                self.branch(s, if b { *t } else { *f });
                return Ok(());
            }
            Ins::Switch { ty, v, def, cases } => {
                let x = self.op(s, v);
                match x {
                    V::I(x) => { let t = cases.iter().find(|c| c.0 == x as u128).map(|c| c.1).unwrap_or(*def); self.branch(s, t); }
                    V::W(x) => { let t = cases.iter().find(|c| c.0 == *x).map(|c| c.1).unwrap_or(*def); self.branch(s, t); }
                    V::B(_) => { let k = self.conc(s, &x)?; let t = cases.iter().find(|c| c.0 == k as u128).map(|c| c.1).unwrap_or(*def); self.branch(s, t); }
                    _ => {
                        let w = w_of(ty);
                        let mut t = *def;
                        for (k, b) in cases {
                            let e = self.icmp(s, Ip::Eq, w, &x, &V::I(*k as u64))?;
                            let e = self.bool_of(s, &e)?;
                            if self.decide(s, e)? { t = *b; break; }
                        }
                        self.branch(s, t);
                    }
                }
                return Ok(());
            }
            Ins::Select { d, cty, c, ty, a, b } => {
                let cv = self.op(s, c);
                let (x, y) = (self.op(s, a), self.op(s, b));
                let r = match cty {
                    Ty::Vec(n, _) => {
                        let (cs, xs, ys) = match (&cv, &x, &y) { (V::Agg(c), V::Agg(x), V::Agg(y)) => (c.clone(), x.clone(), y.clone()), _ => return abort("vector select") };
                        let et = match ty { Ty::Vec(_, t) => (**t).clone(), _ => return abort("vector select") };
                        let mut o = Vec::new();
                        for i in 0..*n as usize { o.push(self.select(s, &et, &cs[i], &xs[i], &ys[i])?); }
                        V::Agg(Rc::new(o))
                    }
                    _ => self.select(s, ty, &cv, &x, &y)?,
                };
                self.set(s, *d, r);
            }
            Ins::Cast { d, op, from, a, to } => {
                let x = self.op(s, a);
                let r = self.cast(s, *op, from, &x, to)?;
                self.set(s, *d, r);
            }
            Ins::Call { d, ret, callee, args, normal, site } => return self.call(s, f, *d, ret, callee, args, *normal, *site),
            Ins::Ret { v } => {
                let r = match v { Some((_, o)) => self.op(s, o), None => V::Undef };
                let fr = s.frames.pop().unwrap();
                s.mem.pop_stack(fr.mark);
                if s.frames.is_empty() { return Err(Ctl::End); }
                self.returned(s, fr.ret, fr.normal, r);
                return Ok(());
            }
            Ins::Alloca { d, size } => { let a = s.mem.push_stack(*size); self.set(s, *d, V::I(a)); }
            Ins::FNeg { d, ty, a } => {
                let x = self.op(s, a);
                let r = match (&x, ty) {
                    (V::Agg(v), Ty::Vec(..)) => { let v = v.clone(); let mut o = Vec::new(); for e in v.iter() { o.push(self.fneg(s, e)?); } V::Agg(Rc::new(o)) }
                    _ => self.fneg(s, &x)?,
                };
                self.set(s, *d, r);
            }
            Ins::ExtractValue { d, a, path, .. } => {
                let mut v = self.op(s, a);
                for i in path { v = match v { V::Agg(x) => x[*i].clone(), V::Undef => V::Undef, o => return abort(format!("extractvalue of {:?}", o)) }; }
                self.set(s, *d, v);
            }
            Ins::InsertValue { d, aty, a, v, path, .. } => {
                let base = self.op(s, a);
                let base = if let V::Undef = base { self.zero(aty) } else { base };
                let val = self.op(s, v);
                fn ins(b: &V, path: &[usize], v: V) -> V {
                    if path.is_empty() { return v; }
                    if let V::Agg(x) = b { let mut y = (**x).clone(); y[path[0]] = ins(&x[path[0]], &path[1..], v); V::Agg(Rc::new(y)) } else { panic!("insertvalue") }
                }
                let r = ins(&base, path, val);
                self.set(s, *d, r);
            }
            Ins::ExtractElement { d, v, i, .. } => {
                let iv = self.op(s, i);
                let k = self.conc(s, &iv)? as usize;
                let r = match self.op(s, v) { V::Agg(x) => x[k].clone(), V::Undef => V::Undef, _ => return abort("extractelement") };
                self.set(s, *d, r);
            }
            Ins::InsertElement { d, ty, v, e, i } => {
                let iv = self.op(s, i);
                let k = self.conc(s, &iv)? as usize;
                let base = match self.op(s, v) { V::Undef => self.zero(ty), o => o };
                let e = self.op(s, e);
                let r = match base { V::Agg(x) => { let mut y = (*x).clone(); y[k] = e; V::Agg(Rc::new(y)) } _ => return abort("insertelement") };
                self.set(s, *d, r);
            }
            Ins::Shuffle { d, ty, a, b, mask, .. } => {
                let n = match ty { Ty::Vec(n, _) => *n as usize, _ => return abort("shuffle") };
                let (x, y, m) = (self.op(s, a), self.op(s, b), self.op(s, mask));
                let get = |v: &V, i: usize| match v { V::Agg(x) => x[i].clone(), _ => V::Undef };
                let m = match m { V::Agg(m) => m, _ => return abort("shuffle mask") };
                let o = m.iter().map(|k| match k { V::I(k) => { let k = *k as usize; if k < n { get(&x, k) } else { get(&y, k - n) } } _ => V::Undef }).collect();
                self.set(s, *d, V::Agg(Rc::new(o)));
            }
            Ins::Freeze { d, a } => { let v = self.op(s, a); self.set(s, *d, v); }
            Ins::CmpXchg { d, ty, p, cmp, new } => {
                let pv = self.op(s, p);
                let a = self.conc(s, &pv)?;
                let old = self.load(s, ty, a)?;
                let c = self.op(s, cmp);
                let e = self.icmp(s, Ip::Eq, w_of(ty), &old, &c)?;
                let e = self.bool_of(s, &e)?;
                let ok = self.decide(s, e)?;
                if ok { let n = self.op(s, new); self.store(s, ty, a, &n)?; }
                self.set(s, *d, V::Agg(Rc::new(vec![old, V::I(ok as u64)])));
            }
            Ins::AtomicRmw { d, op, ty, p, v } => {
                let pv = self.op(s, p);
                let a = self.conc(s, &pv)?;
                let old = self.load(s, ty, a)?;
                let x = self.op(s, v);
                let w = w_of(ty);
                let n = match op.as_str() {
                    "add" => self.ibin(s, Bin::Add, w, &old, &x)?, "sub" => self.ibin(s, Bin::Sub, w, &old, &x)?, "and" => self.ibin(s, Bin::And, w, &old, &x)?,
                    "or" => self.ibin(s, Bin::Or, w, &old, &x)?, "xor" => self.ibin(s, Bin::Xor, w, &old, &x)?, "xchg" => x,
                    o => return abort(format!("atomicrmw {}", o)),
                };
                self.store(s, ty, a, &n)?;
                self.set(s, *d, old);
            }
            Ins::Unreachable => return Err(Ctl::Viol("unreachable".into(), format!("unreachable code in {}", f.f.name))),
            Ins::Resume | Ins::LandingPad => return abort("unwinding"),
            Ins::Nop => {}
        }
        self.next(s);
        Ok(())
    }
    pub fn fneg(&mut self, s: &mut State, x: &V) -> R<V> {
        match x {
            V::F(x) => Ok(V::F(-x)),
            V::F32(x) => Ok(V::F32(-x)),
            V::FP(a) => Ok(V::FP(self.z.fp_neg(*a))),
            _ => { let p = self.fpoly(s, x)?; let r = self.t.pneg(p); Ok(self.fval(r)) }
        }
    }
    pub fn fabs(&mut self, s: &mut State, x: &V) -> R<V> {
        match x {
            V::F(x) => Ok(V::F(x.abs())),
            V::F32(x) => Ok(V::F32(x.abs())),
            V::FP(a) => Ok(V::FP(self.z.fp_abs(*a))),
            _ => {
                let p = self.fpoly(s, x)?;
                let exact = s.flags.get("exact_rounding").copied().unwrap_or(0) == 1;
                if exact {
                    let zero = self.t.int_const(0);
                    let b = match self.cmp_rounded(Fp::Olt, p, zero, p) { Some(b) => b, None => self.t.cmp0(p, true) };
                    return Ok(if self.decide(s, b)? { let n = self.t.pneg(p); self.fval(n) } else { self.fval(p) });
                }
                let neg = self.t.cmp0(p, true);
                let n = self.t.pneg(p);
                let (vn, vp) = (self.fval(n), self.fval(p));
                self.fselect(s, neg, &vn, &vp)
            }
        }
    }
    fn select(&mut self, s: &mut State, ty: &Ty, c: &V, a: &V, b: &V) -> R<V> {
        let c = match c { V::I(x) => return Ok(if x & 1 == 1 { a.clone() } else { b.clone() }), V::B(c) => *c, V::Undef => return Ok(b.clone()), o => self.bool_of(s, &o.clone())? };
        if let Some(x) = self.lookup(s, c) { return Ok(if x { a.clone() } else { b.clone() }); }
        match ty {
            Ty::F64 => self.fselect(s, c, a, b),
            Ty::Int(w) if *w <= 8 => {
                let is_b = |v: &V| matches!(v, V::B(_)) || matches!(v, V::I(0) | V::I(1));
                if is_b(a) && is_b(b) { let (x, y) = (self.bool_of(s, a)?, self.bool_of(s, b)?); return Ok(bv(self.t.bite(c, x, y))); }
                Ok(if self.decide(s, c)? { a.clone() } else { b.clone() })
            }
            Ty::Int(_) if matches!(a, V::R(_)) && matches!(b, V::R(_)) => self.fselect(s, c, a, b),
            _ => {
                if let (V::I(x), V::I(y)) = (a, b) { if x == y { return Ok(a.clone()); } }
                Ok(if self.decide(s, c)? { a.clone() } else { b.clone() })
            }
        }
    }
    #[allow(clippy::too_many_arguments)]
    fn call(&mut self, s: &mut State, f: &'static CFunc, d: Option<u32>, ret: &Ty, callee: &Callee, args: &[(Ty, Op)], normal: Option<u32>, site: u32) -> R<()> {
        let (mut target, ref name) = f.calls[site as usize];
        let vals: Vec<V> = args.iter().map(|(_, o)| self.op(s, o)).collect();
        if let Callee::Indirect(o) = callee {
            let pv = self.op(s, o);
            let a = self.conc(s, &pv)?;
            if a & FN == 0 { return Err(Ctl::Viol("memory".into(), format!("call of invalid function pointer {:#x}", a))); }
            let id = ((a & (FN - 1)) >> 4) as u32;
            let n = self.m.funcs[id as usize].name.clone();
            target = self.resolve(&n);
            if let Target::Unknown = target { return abort(format!("call of external {}", n)); }
        }
        match target {
            Target::Func(id) => {
                if s.frames.len() > 400 { return Err(Ctl::Viol("steps".into(), "call depth over 400".into())); }
                self.push_frame(s, id, vals, d, normal);
                Ok(())
            }
            // real formatting where it is the subject (2: while a file is open for writing)
            Target::Format(b, id) => {
                let real = match s.flags.get("format").copied().unwrap_or(0) { 0 => false, 2 => s.vfs.writing(), _ => true };
                if !real { let v = b(self, s, &vals, ret)?; self.returned(s, d, normal, v); return Ok(()); }
                self.push_frame(s, id, vals, d, normal);
                Ok(())
            }
            Target::Builtin(b) => { let v = b(self, s, &vals, ret)?; self.returned(s, d, normal, v); Ok(()) }
            Target::Intr(k, b) => { let v = b(self, s, k, &vals, args, ret)?; self.returned(s, d, normal, v); Ok(()) }
            Target::NoReturn(id) => {
                if s.flags.get("panic_ok").copied().unwrap_or(0) == 1 { return Err(Ctl::End); }
                let n = self.m.funcs[id as usize].name.clone();
                Err(Ctl::Viol("panic".into(), n))
            }
            Target::Unknown => {
                if let Callee::Asm(_) = callee { self.returned(s, d, normal, V::Undef); return Ok(()); }
                abort(format!("call of external {}", name))
            }
        }
    }
}
pub enum Solved { Unsat, Unknown, Model((Vec<String>, Vec<String>), bool) }
pub fn bv(b: Bx) -> V { match b.konst() { Some(x) => V::I(x as u64), None => V::B(b) } }
fn a_eq(a: &V, b: &V) -> bool { match (a, b) { (V::S(x), V::S(y)) => x == y, (V::B(x), V::B(y)) => x == y, (V::R(x), V::R(y)) => x == y, _ => false } }
pub fn split_lin(q: &Poly) -> (Poly, i128) {
    let c = q.constant();
    let t = q.t.iter().filter(|x| x.0 != ONE).cloned().collect();
    (Poly { t, shift: q.shift }, c)
}
pub fn parse_num(s: &str) -> f64 {
    let s = s.trim();
    if let Some(r) = s.strip_prefix("(- ") { return -parse_num(&r[..r.len() - 1]); }
    if let Some(r) = s.strip_prefix("(/ ") {
        let r = &r[..r.len() - 1];
        let mut it = r.split_whitespace();
        return parse_num(it.next().unwrap()) / parse_num(it.next().unwrap_or("1"));
    }
    if let Some((a, b)) = s.split_once('/') { return a.trim().parse::<f64>().unwrap_or(f64::NAN) / b.trim().parse::<f64>().unwrap_or(f64::NAN); }
    s.parse().unwrap_or(f64::NAN)
}
pub fn fjson(f: f64) -> String { if f.is_finite() { format!("{:?}", f) } else { format!("\"{}\"", f) } }
impl Eng {
    pub fn fpoly_pub(&mut self, s: &mut State, v: &V) -> R<P> { self.fpoly(s, v) }
    pub fn f2i_pub(&mut self, s: &mut State, a: &V, w: u32, signed: bool) -> R<V> { self.f2i(s, a, w, signed) }
    /// The k-th input of a name is the same variable on every path.
    pub fn input_atom(&mut self, s: &State, name: &str, lo: i64, hi: i64, real: bool) -> u32 {
        let k = s.inputs.iter().filter(|i| &*i.name == name).count();
        let key = (name.to_string(), k, lo, hi, real);
        if let Some(a) = self.inputs.get(&key) { return *a; }
        let a = self.t.input(&format!("{}{}", name, k), lo, hi, real);
        self.inputs.insert(key, a);
        a
    }
}
