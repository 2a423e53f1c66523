//! Parser for the textual LLVM IR of the linked module (function bodies are parsed on demand).
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    F32,
    F64,
    Ptr,
    Arr(u64, Rc<Ty>),
    Vec(u64, Rc<Ty>),
    Struct(Rc<Vec<Ty>>, bool),
    Other,
}

impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => match w {
                0..=8 => 1,
                9..=16 => 2,
                17..=32 => 4,
                33..=64 => 8,
                _ => 16,
            },
            Ty::F32 => 4,
            Ty::F64 | Ty::Ptr => 8,
            Ty::Arr(_, t) => t.align(),
            Ty::Vec(n, t) => (n * t.size()).next_power_of_two().max(1),
            Ty::Struct(f, packed) => if *packed { 1 } else { f.iter().map(|t| t.align()).max().unwrap_or(1) },
            _ => 1,
        }
    }
    /// Allocation size in bytes.
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(w) => match w {
                0..=8 => 1,
                9..=16 => 2,
                17..=32 => 4,
                33..=64 => 8,
                65..=128 => 16,
                w => ((*w as u64) + 7) / 8,
            },
            Ty::F32 => 4,
            Ty::F64 | Ty::Ptr => 8,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Vec(n, t) => match **t { Ty::Int(1) => (n + 7) / 8, _ => n * t.size() },
            Ty::Struct(f, packed) => {
                let mut o = 0u64;
                for t in f.iter() {
                    if !packed { o = align_up(o, t.align()); }
                    o += t.size();
                }
                if !packed { o = align_up(o, self.align()); }
                o
            }
            _ => 0,
        }
    }
    pub fn field_offset(&self, i: usize) -> (u64, Ty) {
        match self {
            Ty::Arr(_, t) | Ty::Vec(_, t) => (t.size() * i as u64, (**t).clone()),
            Ty::Struct(f, packed) => {
                let mut o = 0u64;
                for (k, t) in f.iter().enumerate() {
                    if !packed { o = align_up(o, t.align()); }
                    if k == i { return (o, t.clone()); }
                    o += t.size();
                }
                panic!("field index")
            }
            _ => panic!("field_offset of {:?}", self),
        }
    }
}
pub fn align_up(o: u64, a: u64) -> u64 { (o + a - 1) / a * a }

#[derive(Clone, Debug)]
pub enum Cst {
    Int(u128),
    F64(f64),
    F32(f32),
    Null,
    Undef,
    Zero,
    Global(String),
    Agg(Vec<(Ty, Cst)>),
    Bytes(Vec<u8>),
    Splat(Box<(Ty, Cst)>),
    Gep(Ty, Vec<(Ty, Cst)>),
    Cast(String, Box<(Ty, Cst)>, Ty),
    Bin(String, Box<(Ty, Cst)>, Box<(Ty, Cst)>),
}

#[derive(Clone, Debug)]
pub enum Op {
    Reg(u32),
    /// index into the function's constant table
    K(u32),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Bin { Add, Sub, Mul, UDiv, SDiv, URem, SRem, Shl, LShr, AShr, And, Or, Xor, FAdd, FSub, FMul, FDiv, FRem }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Ip { Eq, Ne, Ugt, Uge, Ult, Ule, Sgt, Sge, Slt, Sle }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Fp { False, Oeq, Ogt, Oge, Olt, Ole, One, Ord, Ueq, Ugt, Uge, Ult, Ule, Une, Uno, True }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cast { Trunc, Zext, Sext, FpToUi, FpToSi, UiToFp, SiToFp, FpTrunc, FpExt, PtrToInt, IntToPtr, Bitcast }

#[derive(Debug)]
pub enum Callee { Direct(String), Indirect(Op), Asm(String) }

#[derive(Debug)]
pub enum Ins {
    Alloca { d: u32, size: u64 },
    Load { d: u32, ty: Ty, p: Op },
    Store { ty: Ty, v: Op, p: Op },
    /// base pointer, constant byte offset, scaled indices (operand, width, scale)
    Gep { d: u32, p: Op, off: i64, idx: Vec<(Op, u32, i64)>, vec: bool },
    Bin { d: u32, op: Bin, ty: Ty, a: Op, b: Op },
    FNeg { d: u32, ty: Ty, a: Op },
    ICmp { d: u32, p: Ip, ty: Ty, a: Op, b: Op },
    FCmp { d: u32, p: Fp, ty: Ty, a: Op, b: Op },
    Cast { d: u32, op: Cast, from: Ty, a: Op, to: Ty },
    Select { d: u32, cty: Ty, c: Op, ty: Ty, a: Op, b: Op },
    Call { d: Option<u32>, ret: Ty, callee: Callee, args: Vec<(Ty, Op)>, normal: Option<u32>, site: u32 },
    Br { t: u32 },
    CondBr { c: Op, t: u32, f: u32 },
    Switch { ty: Ty, v: Op, def: u32, cases: Vec<(u128, u32)> },
    Ret { v: Option<(Ty, Op)> },
    Unreachable,
    Resume,
    ExtractValue { d: u32, a: Op, aty: Ty, path: Vec<usize> },
    InsertValue { d: u32, aty: Ty, a: Op, vty: Ty, v: Op, path: Vec<usize> },
    ExtractElement { d: u32, ty: Ty, v: Op, i: Op },
    InsertElement { d: u32, ty: Ty, v: Op, e: Op, i: Op },
    Shuffle { d: u32, ty: Ty, a: Op, b: Op, mty: Ty, mask: Op },
    Freeze { d: u32, a: Op },
    CmpXchg { d: u32, ty: Ty, p: Op, cmp: Op, new: Op },
    AtomicRmw { d: u32, op: String, ty: Ty, p: Op, v: Op },
    LandingPad,
    Nop,
}

#[derive(Debug)]
pub struct Block {
    pub phis: Vec<(u32, Ty, Vec<(Op, u32)>)>,
    pub ins: Vec<Ins>,
}

#[derive(Debug)]
pub struct Func {
    pub name: String,
    pub id: u32,
    pub params: Vec<(u32, Ty)>,
    pub ret: Ty,
    pub nregs: usize,
    pub blocks: Vec<Block>,
    pub block_names: Vec<String>,
    pub consts: Vec<(Ty, Cst)>,
}

pub struct FuncInfo {
    pub name: String,
    pub id: u32,
    /// byte range of the whole definition in the module text; None for declarations
    pub text: Option<(usize, usize)>,
    pub noreturn: bool,
}
pub struct GlobalInfo {
    pub name: String,
    pub ty: Ty,
    pub constant: bool,
    /// text of the initialiser (None: external)
    pub init: Option<(usize, usize)>,
}

pub struct Module {
    pub text: Rc<String>,
    pub types: HashMap<String, Ty>,
    pub funcs: Vec<FuncInfo>,
    pub func_by_name: HashMap<String, u32>,
    pub globals: Vec<GlobalInfo>,
    pub global_by_name: HashMap<String, u32>,
    pub aliases: HashMap<String, String>,
}

// ---------------------------------------------------------------- lexer
#[derive(Clone, Debug, PartialEq)]
pub enum Tok<'a> {
    Local(&'a str),
    Global(&'a str),
    Word(&'a str),
    Num(&'a str),
    Str(&'a str),
    Meta,
    Attr,
    P(u8),
    Nl,
    Eof,
}

pub struct Lex<'a> {
    s: &'a str,
    b: &'a [u8],
    pub i: usize,
    end: usize,
}

fn is_name(c: u8) -> bool { c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-' }

impl<'a> Lex<'a> {
    pub fn new(s: &'a str, start: usize, end: usize) -> Self { Lex { s, b: s.as_bytes(), i: start, end } }
    pub fn peek(&mut self) -> Tok<'a> {
        let save = self.i;
        let t = self.next();
        self.i = save;
        t
    }
    pub fn next(&mut self) -> Tok<'a> {
        loop {
            if self.i >= self.end { return Tok::Eof; }
            let c = self.b[self.i];
            match c {
                b' ' | b'\t' | b'\r' => self.i += 1,
                b'/' if self.i + 1 < self.end && self.b[self.i + 1] == b'*' => {
                    self.i += 2;
                    while self.i + 1 < self.end && !(self.b[self.i] == b'*' && self.b[self.i + 1] == b'/') { self.i += 1; }
                    self.i += 2;
                }
                b';' => { while self.i < self.end && self.b[self.i] != b'\n' { self.i += 1; } }
                b'\n' => { self.i += 1; return Tok::Nl; }
                b'%' | b'@' => {
                    self.i += 1;
                    let name = self.name();
                    return if c == b'%' { Tok::Local(name) } else { Tok::Global(name) };
                }
                b'!' => {
                    self.i += 1;
                    while self.i < self.end && is_name(self.b[self.i]) { self.i += 1; }
                    return Tok::Meta;
                }
                b'#' => {
                    self.i += 1;
                    while self.i < self.end && is_name(self.b[self.i]) { self.i += 1; }
                    return Tok::Attr;
                }
                b'"' => {
                    let st = self.i + 1;
                    self.i += 1;
                    while self.b[self.i] != b'"' { self.i += 1; }
                    let r = &self.s[st..self.i];
                    self.i += 1;
                    return Tok::Str(r);
                }
                b'c' if self.i + 1 < self.end && self.b[self.i + 1] == b'"' => {
                    self.i += 1;
                    continue;
                }
                b'.' if self.b[self.i..].starts_with(b"...") => { self.i += 3; return Tok::Word("..."); }
                b'0'..=b'9' | b'-' | b'+' => {
                    let st = self.i;
                    self.i += 1;
                    while self.i < self.end && (is_name(self.b[self.i]) || (self.b[self.i] == b'+' && matches!(self.b[self.i - 1], b'e' | b'E'))) { self.i += 1; }
                    return Tok::Num(&self.s[st..self.i]);
                }
                _ if c.is_ascii_alphabetic() || c == b'_' || c == b'$' || c == b'.' => {
                    let st = self.i;
                    while self.i < self.end && is_name(self.b[self.i]) { self.i += 1; }
                    return Tok::Word(&self.s[st..self.i]);
                }
                _ => { self.i += 1; return Tok::P(c); }
            }
        }
    }
    fn name(&mut self) -> &'a str {
        if self.b[self.i] == b'"' {
            let st = self.i + 1;
            self.i += 1;
            while self.b[self.i] != b'"' { self.i += 1; }
            let r = &self.s[st..self.i];
            self.i += 1;
            r
        } else {
            let st = self.i;
            while self.i < self.end && is_name(self.b[self.i]) { self.i += 1; }
            &self.s[st..self.i]
        }
    }
    pub fn skip_line(&mut self) {
        let mut depth = 0i32;
        loop {
            match self.next() {
                Tok::Nl if depth <= 0 => return,
                Tok::Eof => return,
                Tok::P(b'[') => depth += 1,
                Tok::P(b']') => depth -= 1,
                _ => {}
            }
        }
    }
    fn rest_of_line(&mut self) { loop { match self.next() { Tok::Nl | Tok::Eof => return, _ => {} } } }
    fn expect(&mut self, c: u8) {
        let save = self.i;
        let t = self.next();
        if t != Tok::P(c) { panic!("expected {:?} got {:?} near {}", c as char, t, &self.s[save.saturating_sub(80)..(save + 120).min(self.s.len())]); }
    }
    fn accept(&mut self, c: u8) -> bool {
        let save = self.i;
        if self.next() == Tok::P(c) { true } else { self.i = save; false }
    }
    fn accept_word(&mut self, w: &str) -> bool {
        let save = self.i;
        if self.next() == Tok::Word(w) { true } else { self.i = save; false }
    }
    /// skip a balanced "( ... )" whose '(' is next
    fn skip_parens(&mut self) {
        let mut d = 0;
        loop {
            match self.next() {
                Tok::P(b'(') => d += 1,
                Tok::P(b')') => { d -= 1; if d == 0 { return; } }
                Tok::Eof => panic!("eof in parens"),
                _ => {}
            }
        }
    }
    fn ctx(&self) -> String { let a = self.i.saturating_sub(200); self.s[a..(self.i + 200).min(self.s.len())].to_string() }
}

pub fn parse_bytes(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    let mut out = Vec::with_capacity(b.len());
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' {
            if b[i + 1] == b'\\' { out.push(b'\\'); i += 2; }
            else { out.push(u8::from_str_radix(&s[i + 1..i + 3], 16).unwrap()); i += 3; }
        } else { out.push(b[i]); i += 1; }
    }
    out
}

fn type_start(t: &Tok) -> bool {
    match t {
        Tok::P(b'[') | Tok::P(b'{') | Tok::P(b'<') => true,
        Tok::Word(w) => matches!(*w, "void" | "ptr" | "double" | "float" | "half" | "label" | "metadata" | "token" | "x86_fp80" | "fp128" | "bfloat")
            || (w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|c| c.is_ascii_digit())),
        _ => false,
    }
}

impl Module {
    pub fn parse_ty(&self, l: &mut Lex) -> Ty {
        match l.next() {
            Tok::Word(w) => match w {
                "void" => Ty::Void,
                "ptr" => {
                    if l.peek() == Tok::Word("addrspace") { l.next(); l.skip_parens(); }
                    Ty::Ptr
                }
                "double" => Ty::F64,
                "float" => Ty::F32,
                "label" | "metadata" | "token" | "half" | "x86_fp80" | "fp128" | "bfloat" => Ty::Other,
                _ if w.starts_with('i') => Ty::Int(w[1..].parse().unwrap_or_else(|_| panic!("type {} at {}", w, l.ctx()))),
                _ => panic!("type word {} at {}", w, l.ctx()),
            },
            Tok::Local(n) => self.types.get(n).cloned().unwrap_or(Ty::Other),
            Tok::P(b'[') => {
                let n = self.num(l);
                l.next();
                let t = self.parse_ty(l);
                l.expect(b']');
                Ty::Arr(n as u64, Rc::new(t))
            }
            Tok::P(b'<') => {
                if l.peek() == Tok::P(b'{') {
                    l.next();
                    let f = self.fields(l);
                    l.expect(b'>');
                    Ty::Struct(Rc::new(f), true)
                } else {
                    let n = self.num(l);
                    l.next();
                    let t = self.parse_ty(l);
                    l.expect(b'>');
                    Ty::Vec(n as u64, Rc::new(t))
                }
            }
            Tok::P(b'{') => Ty::Struct(Rc::new(self.fields(l)), false),
            t => panic!("type expected, got {:?} at {}", t, l.ctx()),
        }
    }
    fn fields(&self, l: &mut Lex) -> Vec<Ty> {
        let mut f = Vec::new();
        if l.accept(b'}') { return f; }
        loop {
            f.push(self.parse_ty(l));
            if l.accept(b'}') { return f; }
            l.expect(b',');
        }
    }
    fn num(&self, l: &mut Lex) -> i128 {
        match l.next() { Tok::Num(n) => n.parse().unwrap(), t => panic!("number expected {:?}", t) }
    }
    fn skip_param_attrs(&self, l: &mut Lex) {
        loop {
            let save = l.i;
            match l.next() {
                Tok::Word(w) => {
                    if w.starts_with("f0x") { l.i = save; return; }
                    match w {
                        "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "none" | "splat" | "c" | "asm"
                        | "getelementptr" | "inttoptr" | "ptrtoint" | "bitcast" | "sub" | "add" | "trunc" | "xor" | "mul" | "ptrtoaddr" => { l.i = save; return; }
                        _ => {}
                    }
                    if w == "align" { let s2 = l.i; match l.next() { Tok::Num(_) => {} , _ => { l.i = s2; } } }
                    if l.peek() == Tok::P(b'(') { l.skip_parens(); }
                }
                Tok::Attr => {}
                Tok::Str(_) => {
                    // string attribute "k"="v" in parameter position
                    if l.accept(b'=') { l.next(); } else { l.i = save; return; }
                }
                _ => { l.i = save; return; }
            }
        }
    }
    pub fn parse_cst(&self, l: &mut Lex, ty: &Ty) -> Cst {
        let save = l.i;
        match l.next() {
            Tok::Num(n) => match ty {
                Ty::F64 => Cst::F64(parse_f64(n)),
                Ty::F32 => Cst::F32(parse_f64(n) as f32),
                Ty::Other => Cst::Undef,
                _ => {
                    if let Ok(v) = n.parse::<i128>() { Cst::Int(v as u128) }
                    else if let Ok(v) = n.parse::<u128>() { Cst::Int(v) }
                    else { panic!("int literal {} for {:?} at {}", n, ty, l.ctx()) }
                }
            },
            Tok::Global(g) => Cst::Global(g.to_string()),
            Tok::Str(s) => Cst::Bytes(parse_bytes(s)),
            Tok::Meta => Cst::Undef,
            Tok::P(b'[') => { let v = self.cst_list(l, b']'); Cst::Agg(v) }
            Tok::P(b'{') => { let v = self.cst_list(l, b'}'); Cst::Agg(v) }
            Tok::P(b'<') => {
                if l.accept(b'{') {
                    let v = self.cst_list(l, b'}');
                    l.expect(b'>');
                    Cst::Agg(v)
                } else { let v = self.cst_list(l, b'>'); Cst::Agg(v) }
            }
            Tok::Word(w) => match w {
                w if w.starts_with("f0x") => match ty { Ty::F32 => Cst::F32(parse_f32(w)), _ => Cst::F64(parse_f64(w)) },
                "true" => Cst::Int(1),
                "false" => Cst::Int(0),
                "null" => Cst::Null,
                "undef" | "poison" | "none" => Cst::Undef,
                "zeroinitializer" => Cst::Zero,
                "splat" => {
                    l.expect(b'(');
                    let t = self.parse_ty(l);
                    let c = self.parse_cst(l, &t);
                    l.expect(b')');
                    Cst::Splat(Box::new((t, c)))
                }
                "getelementptr" => {
                    loop { match l.peek() { Tok::Word(w) if matches!(w, "inbounds" | "nuw" | "nusw") => { l.next(); } Tok::Word("inrange") => { l.next(); l.skip_parens(); } _ => break } }
                    l.expect(b'(');
                    let t = self.parse_ty(l);
                    l.expect(b',');
                    let v = self.cst_list(l, b')');
                    Cst::Gep(t, v)
                }
                "inttoptr" | "ptrtoint" | "bitcast" | "trunc" | "ptrtoaddr" => {
                    l.expect(b'(');
                    let t = self.parse_ty(l);
                    let c = self.parse_cst(l, &t);
                    assert!(l.accept_word("to"));
                    let to = self.parse_ty(l);
                    l.expect(b')');
                    Cst::Cast(w.to_string(), Box::new((t, c)), to)
                }
                "sub" | "add" | "xor" | "mul" => {
                    while let Tok::Word(_) = l.peek() { l.next(); }
                    l.expect(b'(');
                    let mut v = self.cst_list(l, b')');
                    let b = v.pop().unwrap();
                    let a = v.pop().unwrap();
                    Cst::Bin(w.to_string(), Box::new(a), Box::new(b))
                }
                _ => panic!("constant {:?} at {}", w, &l.s[save..(save + 100).min(l.s.len())]),
            },
            t => panic!("constant {:?} at {}", t, l.ctx()),
        }
    }
    fn cst_list(&self, l: &mut Lex, close: u8) -> Vec<(Ty, Cst)> {
        let mut v = Vec::new();
        if l.accept(close) { return v; }
        loop {
            let t = self.parse_ty(l);
            self.skip_param_attrs(l);
            let c = self.parse_cst(l, &t);
            v.push((t, c));
            if l.accept(close) { return v; }
            l.expect(b',');
        }
    }

    pub fn index(text: Rc<String>) -> Module {
        let mut m = Module {
            text: text.clone(), types: HashMap::new(), funcs: Vec::new(), func_by_name: HashMap::new(),
            globals: Vec::new(), global_by_name: HashMap::new(), aliases: HashMap::new(),
        };
        let s: &str = &text;
        let b = s.as_bytes();
        // attribute groups with noreturn
        let mut noreturn: HashMap<&str, bool> = HashMap::new();
        for line in s.lines() {
            if let Some(r) = line.strip_prefix("attributes #") {
                let n = r.split(' ').next().unwrap();
                noreturn.insert(n, line.contains(" noreturn"));
            }
        }
        // named types first
        let mut pending: Vec<(usize, usize)> = Vec::new();
        let mut pos = 0;
        while pos < b.len() {
            let eol = s[pos..].find('\n').map(|x| pos + x).unwrap_or(b.len());
            if b[pos] == b'%' { pending.push((pos, eol)); }
            pos = eol + 1;
        }
        for (st, en) in pending {
            let mut l = Lex::new(s, st, en);
            if let Tok::Local(n) = l.next() {
                l.next();
                if l.accept_word("type") {
                    if l.peek() == Tok::Word("opaque") { continue; }
                    let t = m.parse_ty(&mut l);
                    m.types.insert(n.to_string(), t);
                }
            }
        }
        let mut pos = 0;
        while pos < b.len() {
            let eol = s[pos..].find('\n').map(|x| pos + x).unwrap_or(b.len());
            let line = &s[pos..eol];
            let mut next = eol + 1;
            if line.starts_with("define ") || line.starts_with("declare ") {
                let def = line.starts_with("define ");
                let at = match line.find('@') { Some(a) => a, None => { pos = next; continue; } };
                let mut l = Lex::new(s, pos + at, eol);
                let name = match l.next() { Tok::Global(n) => n.to_string(), _ => panic!() };
                let nr = line.rsplit('#').next().map_or(false, |t| {
                    let n = t.split(|c: char| !c.is_ascii_digit()).next().unwrap_or("");
                    *noreturn.get(n).unwrap_or(&false)
                });
                let text = if def {
                    let end = s[pos..].find("\n}\n").map(|x| pos + x + 3).unwrap_or(b.len());
                    next = end;
                    Some((pos, end))
                } else { None };
                let id = m.funcs.len() as u32;
                m.func_by_name.insert(name.clone(), id);
                m.funcs.push(FuncInfo { name, id, text, noreturn: nr });
            } else if b[pos] == b'@' && pos < eol {
                let mut l = Lex::new(s, pos, eol);
                let name = match l.next() { Tok::Global(n) => n.to_string(), _ => panic!() };
                l.next(); // =
                let mut constant = false;
                let mut alias = false;
                let mut external = false;
                loop {
                    let save = l.i;
                    let t = l.next();
                    match t {
                        Tok::Word("global") => break,
                        Tok::Word("constant") => { constant = true; break; }
                        Tok::Word("alias") | Tok::Word("ifunc") => { alias = true; break; }
                        Tok::Word("external") | Tok::Word("extern_weak") => external = true,
                        Tok::Word(_) => { if l.peek() == Tok::P(b'(') { l.skip_parens(); } }
                        Tok::Eof | Tok::Nl => panic!("global {}", line),
                        _ => { let _ = save; }
                    }
                }
                if alias {
                    let _t = m.parse_ty(&mut l);
                    if l.peek() == Tok::P(b'(') { l.skip_parens(); }
                    l.next();
                    let _p = m.parse_ty(&mut l);
                    if let Tok::Global(t) = l.next() { m.aliases.insert(name, t.to_string()); }
                } else if !name.starts_with("llvm.") {
                    let ty = m.parse_ty(&mut l);
                    let init = if external { None } else { Some((l.i, eol)) };
                    let id = m.globals.len() as u32;
                    m.global_by_name.insert(name.clone(), id);
                    m.globals.push(GlobalInfo { name, ty, constant, init });
                }
            }
            pos = next;
        }
        m
    }

    pub fn parse_func(&self, id: u32) -> Func {
        let info = &self.funcs[id as usize];
        let (st, en) = info.text.expect("declaration has no body");
        let text = self.text.clone();
        let s: &str = &text;
        let mut l = Lex::new(s, st, en);
        let mut p = FnParser { m: self, regs: HashMap::new(), blocks: HashMap::new(), nblocks: 0, block_names: Vec::new(), site: 0, consts: Vec::new() };
        l.next(); // define
        // linkage/attrs until type
        loop {
            let t = l.peek();
            if type_start(&t) || matches!(t, Tok::Local(_)) { break; }
            l.next();
            if l.peek() == Tok::P(b'(') { l.skip_parens(); }
            if let Tok::Word("align") = t { l.next(); }
        }
        let ret = self.parse_ty(&mut l);
        loop { if let Tok::Global(_) = l.next() { break; } }
        l.expect(b'(');
        let mut params = Vec::new();
        // number an unnamed first block has
        let mut unnamed = 0;
        if !l.accept(b')') {
            loop {
                if l.accept_word("...") { l.expect(b')'); break; }
                let t = self.parse_ty(&mut l);
                self.skip_param_attrs(&mut l);
                let r = match l.peek() { Tok::Local(n) => { l.next(); if n.bytes().all(|c| c.is_ascii_digit()) { unnamed += 1; } p.reg(n) } _ => p.reg(&format!("$p{}", params.len())) };
                params.push((r, t));
                if l.accept(b')') { break; }
                l.expect(b',');
            }
        }
        loop { if l.next() == Tok::P(b'{') { break; } }
        // the first block may be unnamed
        let mut blocks: Vec<(u32, Block)> = Vec::new();
        let mut cur: Option<(u32, Block)> = None;
        loop {
            let save = l.i;
            match l.next() {
                Tok::Nl => continue,
                Tok::P(b'}') | Tok::Eof => break,
                t => {
                    // label?
                    let label = match &t {
                        Tok::Word(w) | Tok::Num(w) => if l.b[l.i] == b':' { Some(w.to_string()) } else { None },
                        Tok::Str(w) => if l.b[l.i] == b':' { Some(w.to_string()) } else { None },
                        _ => None,
                    };
                    if let Some(n) = label {
                        l.next();
                        if let Some(c) = cur.take() { blocks.push(c); }
                        let b = p.block(&n);
                        cur = Some((b, Block { phis: Vec::new(), ins: Vec::new() }));
                        continue;
                    }
                    l.i = save;
                    if cur.is_none() {
                        let b = p.block(&unnamed.to_string());
                        cur = Some((b, Block { phis: Vec::new(), ins: Vec::new() }));
                    }
                    let blk = &mut cur.as_mut().unwrap().1;
                    p.ins(&mut l, blk);
                }
            }
        }
        if let Some(c) = cur.take() { blocks.push(c); }
        let n = p.nblocks as usize;
        // order: entry block must be index of the first parsed; remap so that it is 0
        let first = blocks[0].0;
        let mut out: Vec<Option<Block>> = (0..n).map(|_| None).collect();
        for (i, b) in blocks { out[i as usize] = Some(b); }
        let mut blocks: Vec<Block> = out.into_iter().map(|b| b.unwrap_or(Block { phis: vec![], ins: vec![Ins::Unreachable] })).collect();
        let mut names = p.block_names;
        if first != 0 {
            // swap indices 0 and first
            let f = first;
            let map = |b: &mut u32| { if *b == 0 { *b = f } else if *b == f { *b = 0 } };
            for b in blocks.iter_mut() {
                for (_, _, inc) in b.phis.iter_mut() { for (_, x) in inc.iter_mut() { map(x); } }
                for i in b.ins.iter_mut() {
                    match i {
                        Ins::Br { t } => map(t),
                        Ins::CondBr { t, f, .. } => { map(t); map(f); }
                        Ins::Switch { def, cases, .. } => { map(def); for c in cases.iter_mut() { map(&mut c.1); } }
                        Ins::Call { normal: Some(n), .. } => map(n),
                        _ => {}
                    }
                }
            }
            blocks.swap(0, f as usize);
            names.swap(0, f as usize);
        }
        Func { name: info.name.clone(), id, params, ret, nregs: p.regs.len(), blocks, block_names: names, consts: p.consts }
    }
}

pub fn parse_f64(n: &str) -> f64 {
    if let Some(h) = n.strip_prefix("f0x") { return f64::from_bits(u64::from_str_radix(h, 16).unwrap()); }
    if let Some(h) = n.strip_prefix("0x") { return f64::from_bits(u64::from_str_radix(h, 16).unwrap()); }
    match n {
        "+inf" | "inf" => f64::INFINITY,
        "-inf" => f64::NEG_INFINITY,
        "+nan" | "nan" | "+qnan" | "qnan" => f64::NAN,
        "-nan" | "-qnan" => -f64::NAN,
        _ => n.parse().unwrap_or_else(|_| panic!("float {}", n)),
    }
}

struct FnParser<'m> {
    m: &'m Module,
    regs: HashMap<String, u32>,
    blocks: HashMap<String, u32>,
    block_names: Vec<String>,
    nblocks: u32,
    site: u32,
    consts: Vec<(Ty, Cst)>,
}

impl<'m> FnParser<'m> {
    fn reg(&mut self, n: &str) -> u32 {
        if let Some(r) = self.regs.get(n) { return *r; }
        let r = self.regs.len() as u32;
        self.regs.insert(n.to_string(), r);
        r
    }
    fn block(&mut self, n: &str) -> u32 {
        if let Some(r) = self.blocks.get(n) { return *r; }
        let r = self.nblocks;
        self.nblocks += 1;
        self.blocks.insert(n.to_string(), r);
        self.block_names.push(n.to_string());
        r
    }
    fn op(&mut self, l: &mut Lex, ty: &Ty) -> Op {
        match l.peek() {
            Tok::Local(n) => { l.next(); Op::Reg(self.reg(n)) }
            _ => {
                // floats such as f0x.. lex as words
                if let Tok::Word(w) = l.peek() {
                    if matches!(w, "asm") { return self.konst(ty, Cst::Undef); }
                }
                let c = self.m.parse_cst(l, ty);
                self.konst(ty, c)
            }
        }
    }
    fn konst(&mut self, ty: &Ty, c: Cst) -> Op {
        self.consts.push((ty.clone(), c));
        Op::K(self.consts.len() as u32 - 1)
    }
    fn cint(&self, o: &Op) -> Option<u128> {
        match o { Op::K(k) => match &self.consts[*k as usize].1 { Cst::Int(n) => Some(*n), Cst::Zero => Some(0), _ => None }, _ => None }
    }
    fn ty_op(&mut self, l: &mut Lex) -> (Ty, Op) {
        let t = self.m.parse_ty(l);
        self.m.skip_param_attrs(l);
        let o = self.op(l, &t);
        (t, o)
    }
    fn label(&mut self, l: &mut Lex) -> u32 {
        assert_eq!(l.next(), Tok::Word("label"));
        match l.next() { Tok::Local(n) => self.block(n), t => panic!("label {:?}", t) }
    }
    fn skip_words(&self, l: &mut Lex) {
        loop {
            let t = l.peek();
            if type_start(&t) { return; }
            match t { Tok::Word(_) => { l.next(); if l.peek() == Tok::P(b'(') { l.skip_parens(); } } _ => return }
        }
    }
    fn ins(&mut self, l: &mut Lex, blk: &mut Block) {
        let mut d: Option<u32> = None;
        let mut t = l.next();
        if let Tok::Local(n) = t {
            d = Some(self.reg(n));
            l.expect(b'=');
            t = l.next();
        }
        let mut w = match t { Tok::Word(w) => w, t => panic!("instruction {:?} at {}", t, l.ctx()) };
        if matches!(w, "tail" | "musttail" | "notail") { w = match l.next() { Tok::Word(w) => w, _ => panic!() }; }
        let m = self.m;
        let i = match w {
            "alloca" => {
                self.skip_words(l);
                let t = m.parse_ty(l);
                let mut size = t.size();
                if l.accept(b',') { if let Tok::Word(x) = l.peek() { if x.starts_with('i') { let (_, o) = self.ty_op(l); if let Some(n) = self.cint(&o) { size *= n as u64; } } } }
                Ins::Alloca { d: d.unwrap(), size }
            }
            "load" => {
                while matches!(l.peek(), Tok::Word("atomic") | Tok::Word("volatile")) { l.next(); }
                let ty = m.parse_ty(l);
                l.expect(b',');
                let (_, p) = self.ty_op(l);
                Ins::Load { d: d.unwrap(), ty, p }
            }
            "store" => {
                while matches!(l.peek(), Tok::Word("atomic") | Tok::Word("volatile")) { l.next(); }
                let (ty, v) = self.ty_op(l);
                l.expect(b',');
                let (_, p) = self.ty_op(l);
                Ins::Store { ty, v, p }
            }
            "getelementptr" => {
                loop { match l.peek() { Tok::Word(w) if matches!(w, "inbounds" | "nuw" | "nusw") => { l.next(); } _ => break } }
                let sty = m.parse_ty(l);
                l.expect(b',');
                let (pty, p) = self.ty_op(l);
                let mut off = 0i64;
                let mut idx = Vec::new();
                let mut cur = sty;
                let mut first = true;
                while l.accept(b',') {
                    if let Tok::Meta = l.peek() { break; }
                    let (it, io) = self.ty_op(l);
                    let w = match it { Ty::Int(w) => w, _ => 64 };
                    let c = self.cint(&io).map(|n| sext(n, w));
                    if first {
                        first = false;
                        match c { Some(n) => off += n as i64 * cur.size() as i64, None => idx.push((io, w, cur.size() as i64)) }
                    } else {
                        match &cur {
                            Ty::Struct(..) => { let (o, t) = cur.field_offset(c.expect("struct index") as usize); off += o as i64; cur = t; }
                            _ => {
                                let (_, t) = cur.field_offset(0);
                                match c { Some(n) => off += n as i64 * t.size() as i64, None => idx.push((io, w, t.size() as i64)) }
                                cur = t;
                            }
                        }
                    }
                }
                Ins::Gep { d: d.unwrap(), p, off, idx, vec: matches!(pty, Ty::Vec(..)) }
            }
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "shl" | "lshr" | "ashr" | "and" | "or" | "xor" | "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                let op = match w {
                    "add" => Bin::Add, "sub" => Bin::Sub, "mul" => Bin::Mul, "udiv" => Bin::UDiv, "sdiv" => Bin::SDiv, "urem" => Bin::URem, "srem" => Bin::SRem,
                    "shl" => Bin::Shl, "lshr" => Bin::LShr, "ashr" => Bin::AShr, "and" => Bin::And, "or" => Bin::Or, "xor" => Bin::Xor,
                    "fadd" => Bin::FAdd, "fsub" => Bin::FSub, "fmul" => Bin::FMul, "fdiv" => Bin::FDiv, _ => Bin::FRem,
                };
                self.skip_words(l);
                let (ty, a) = self.ty_op(l);
                l.expect(b',');
                let b = self.op(l, &ty);
                Ins::Bin { d: d.unwrap(), op, ty, a, b }
            }
            "fneg" => { self.skip_words(l); let (ty, a) = self.ty_op(l); Ins::FNeg { d: d.unwrap(), ty, a } }
            "icmp" => {
                l.accept_word("samesign");
                let p = match l.next() { Tok::Word(x) => match x { "eq" => Ip::Eq, "ne" => Ip::Ne, "ugt" => Ip::Ugt, "uge" => Ip::Uge, "ult" => Ip::Ult, "ule" => Ip::Ule, "sgt" => Ip::Sgt, "sge" => Ip::Sge, "slt" => Ip::Slt, "sle" => Ip::Sle, x => panic!("icmp {}", x) }, _ => panic!() };
                let (ty, a) = self.ty_op(l);
                l.expect(b',');
                let b = self.op(l, &ty);
                Ins::ICmp { d: d.unwrap(), p, ty, a, b }
            }
            "fcmp" => {
                let mut pw = "";
                loop {
                    let t = l.peek();
                    if type_start(&t) { break; }
                    if let Tok::Word(x) = l.next() { pw = x; }
                }
                let p = match pw { "false" => Fp::False, "oeq" => Fp::Oeq, "ogt" => Fp::Ogt, "oge" => Fp::Oge, "olt" => Fp::Olt, "ole" => Fp::Ole, "one" => Fp::One, "ord" => Fp::Ord, "ueq" => Fp::Ueq, "ugt" => Fp::Ugt, "uge" => Fp::Uge, "ult" => Fp::Ult, "ule" => Fp::Ule, "une" => Fp::Une, "uno" => Fp::Uno, "true" => Fp::True, x => panic!("fcmp {}", x) };
                let (ty, a) = self.ty_op(l);
                l.expect(b',');
                let b = self.op(l, &ty);
                Ins::FCmp { d: d.unwrap(), p, ty, a, b }
            }
            "trunc" | "zext" | "sext" | "fptoui" | "fptosi" | "uitofp" | "sitofp" | "fptrunc" | "fpext" | "ptrtoint" | "ptrtoaddr" | "inttoptr" | "bitcast" | "addrspacecast" => {
                let op = match w { "trunc" => Cast::Trunc, "zext" => Cast::Zext, "sext" => Cast::Sext, "fptoui" => Cast::FpToUi, "fptosi" => Cast::FpToSi, "uitofp" => Cast::UiToFp, "sitofp" => Cast::SiToFp, "fptrunc" => Cast::FpTrunc, "fpext" => Cast::FpExt, "ptrtoint" | "ptrtoaddr" => Cast::PtrToInt, "inttoptr" => Cast::IntToPtr, _ => Cast::Bitcast };
                self.skip_words(l);
                let (from, a) = self.ty_op(l);
                assert!(l.accept_word("to"), "cast {}", l.ctx());
                let to = m.parse_ty(l);
                Ins::Cast { d: d.unwrap(), op, from, a, to }
            }
            "select" => {
                self.skip_words(l);
                let (cty, c) = self.ty_op(l);
                l.expect(b',');
                let (ty, a) = self.ty_op(l);
                l.expect(b',');
                let (_, b) = self.ty_op(l);
                Ins::Select { d: d.unwrap(), cty, c, ty, a, b }
            }
            "phi" => {
                self.skip_words(l);
                let ty = m.parse_ty(l);
                let mut inc = Vec::new();
                loop {
                    l.expect(b'[');
                    let v = self.op(l, &ty);
                    l.expect(b',');
                    let b = match l.next() { Tok::Local(n) => self.block(n), t => panic!("phi {:?}", t) };
                    l.expect(b']');
                    inc.push((v, b));
                    if !l.accept(b',') { break; }
                    if l.peek() == Tok::Meta { break; }
                }
                blk.phis.push((d.unwrap(), ty, inc));
                l.rest_of_line();
                return;
            }
            "br" => {
                if l.peek() == Tok::Word("label") { let t = self.label(l); Ins::Br { t } }
                else {
                    let (_, c) = self.ty_op(l);
                    l.expect(b',');
                    let t = self.label(l);
                    l.expect(b',');
                    let f = self.label(l);
                    Ins::CondBr { c, t, f }
                }
            }
            "switch" => {
                let (ty, v) = self.ty_op(l);
                l.expect(b',');
                let def = self.label(l);
                l.expect(b'[');
                let mut cases = Vec::new();
                loop {
                    match l.peek() {
                        Tok::Nl => { l.next(); }
                        Tok::P(b']') => { l.next(); break; }
                        _ => {
                            let t = m.parse_ty(l);
                            let c = match m.parse_cst(l, &t) { Cst::Int(n) => n, c => panic!("case {:?}", c) };
                            let w = match t { Ty::Int(w) => w, _ => 64 };
                            l.expect(b',');
                            let b = self.label(l);
                            cases.push((mask(c, w), b));
                        }
                    }
                }
                Ins::Switch { ty, v, def, cases }
            }
            "ret" => {
                let t = m.parse_ty(l);
                if t == Ty::Void { Ins::Ret { v: None } } else { let o = self.op(l, &t); Ins::Ret { v: Some((t, o)) } }
            }
            "unreachable" => Ins::Unreachable,
            "resume" => Ins::Resume,
            "extractvalue" => {
                let (aty, a) = self.ty_op(l);
                let path = self.path(l);
                Ins::ExtractValue { d: d.unwrap(), a, aty, path }
            }
            "insertvalue" => {
                let (aty, a) = self.ty_op(l);
                l.expect(b',');
                let (vty, v) = self.ty_op(l);
                let path = self.path(l);
                Ins::InsertValue { d: d.unwrap(), aty, a, vty, v, path }
            }
            "extractelement" => {
                let (ty, v) = self.ty_op(l);
                l.expect(b',');
                let (_, i) = self.ty_op(l);
                Ins::ExtractElement { d: d.unwrap(), ty, v, i }
            }
            "insertelement" => {
                let (ty, v) = self.ty_op(l);
                l.expect(b',');
                let (_, e) = self.ty_op(l);
                l.expect(b',');
                let (_, i) = self.ty_op(l);
                Ins::InsertElement { d: d.unwrap(), ty, v, e, i }
            }
            "shufflevector" => {
                let (ty, a) = self.ty_op(l);
                l.expect(b',');
                let (_, b) = self.ty_op(l);
                l.expect(b',');
                let (mty, mask) = self.ty_op(l);
                Ins::Shuffle { d: d.unwrap(), ty, a, b, mty, mask }
            }
            "freeze" => { let (_, a) = self.ty_op(l); Ins::Freeze { d: d.unwrap(), a } }
            "fence" => Ins::Nop,
            "cmpxchg" => {
                while matches!(l.peek(), Tok::Word("weak") | Tok::Word("volatile")) { l.next(); }
                let (_, p) = self.ty_op(l);
                l.expect(b',');
                let (ty, cmp) = self.ty_op(l);
                l.expect(b',');
                let (_, new) = self.ty_op(l);
                Ins::CmpXchg { d: d.unwrap(), ty, p, cmp, new }
            }
            "atomicrmw" => {
                l.accept_word("volatile");
                let op = match l.next() { Tok::Word(x) => x.to_string(), _ => panic!() };
                let (_, p) = self.ty_op(l);
                l.expect(b',');
                let (ty, v) = self.ty_op(l);
                Ins::AtomicRmw { d: d.unwrap(), op, ty, p, v }
            }
            "landingpad" => {
                l.rest_of_line();
                loop {
                    let save = l.i;
                    match l.next() {
                        Tok::Word("cleanup") | Tok::Word("catch") | Tok::Word("filter") => l.rest_of_line(),
                        _ => { l.i = save; break; }
                    }
                }
                blk.ins.push(Ins::LandingPad);
                return;
            }
            "call" | "invoke" => {
                // flags, cc, return attributes
                loop {
                    let t = l.peek();
                    if type_start(&t) || matches!(t, Tok::Local(_)) { break; }
                    match l.next() {
                        Tok::Word("cc") => { l.next(); }
                        Tok::Word("align") => { l.next(); }
                        Tok::Word(_) => { if l.peek() == Tok::P(b'(') { l.skip_parens(); } }
                        Tok::Attr | Tok::Num(_) | Tok::Str(_) => {}
                        t => panic!("call {:?} at {}", t, l.ctx()),
                    }
                }
                let ret = m.parse_ty(l);
                if l.peek() == Tok::P(b'(') { l.skip_parens(); }
                let callee = match l.next() {
                    Tok::Global(g) => Callee::Direct(m.aliases.get(g).cloned().unwrap_or_else(|| g.to_string())),
                    Tok::Local(n) => { let r = self.reg(n); Callee::Indirect(Op::Reg(r)) }
                    Tok::Word("asm") => {
                        let mut txt = String::new();
                        loop { match l.peek() { Tok::P(b'(') => break, Tok::Str(x) => { l.next(); txt.push_str(x); txt.push('|'); } _ => { l.next(); } } }
                        Callee::Asm(txt)
                    }
                    t => panic!("callee {:?} at {}", t, l.ctx()),
                };
                l.expect(b'(');
                let mut args = Vec::new();
                let meta = matches!(&callee, Callee::Direct(g) if g.starts_with("llvm.experimental.noalias") || g.starts_with("llvm.dbg"));
                if meta {
                    l.rest_of_line();
                    return;
                }
                if !l.accept(b')') {
                    loop {
                        let t = m.parse_ty(l);
                        if t == Ty::Other { loop { match l.peek() { Tok::P(b',') | Tok::P(b')') => break, _ => { l.next(); } } } let o = self.konst(&t, Cst::Undef); args.push((t, o)); }
                        else { m.skip_param_attrs(l); let o = self.op(l, &t); args.push((t, o)); }
                        if l.accept(b')') { break; }
                        l.expect(b',');
                    }
                }
                let mut normal = None;
                if w == "invoke" {
                    loop { if l.next() == Tok::Word("to") { break; } }
                    normal = Some(self.label(l));
                    assert!(l.accept_word("unwind"));
                    let _ = self.label(l);
                }
                self.site += 1;
                Ins::Call { d, ret, callee, args, normal, site: self.site }
            }
            "va_arg" | "catchswitch" | "callbr" | "indirectbr" => panic!("unsupported instruction {}", w),
            _ => panic!("unknown instruction {:?} at {}", w, l.ctx()),
        };
        blk.ins.push(i);
        l.rest_of_line();
    }
    fn path(&mut self, l: &mut Lex) -> Vec<usize> {
        let mut p = Vec::new();
        while l.accept(b',') { match l.peek() { Tok::Num(n) => { p.push(n.parse().unwrap()); l.next(); } _ => break } }
        p
    }
}
pub fn parse_f32(w: &str) -> f32 {
    // f0x with 8 digits is the single pattern, with 16 the double pattern
    let h = &w[3..];
    if h.len() <= 8 { f32::from_bits(u32::from_str_radix(h, 16).unwrap()) } else { f64::from_bits(u64::from_str_radix(h, 16).unwrap()) as f32 }
}
pub fn sext(v: u128, w: u32) -> i128 {
    if w >= 128 { return v as i128; }
    let m = 1u128 << (w - 1);
    let v = v & ((1u128 << w) - 1);
    ((v ^ m) as i128) - (m as i128)
}
pub fn mask(v: u128, w: u32) -> u128 { if w >= 128 { v } else { v & ((1u128 << w) - 1) } }
