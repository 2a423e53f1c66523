//! Minimal binding to the z3 C API.
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};
pub type Ast = *mut c_void;
type Ctx = *mut c_void;
type P = *mut c_void;
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_global_param_set(k: *const c_char, v: *const c_char);
    fn Z3_mk_context(c: P) -> Ctx;
    fn Z3_set_error_handler(c: Ctx, h: extern "C" fn(Ctx, c_uint));
    fn Z3_get_error_msg(c: Ctx, e: c_uint) -> *const c_char;
    fn Z3_get_full_version() -> *const c_char;
    fn Z3_mk_int_sort(c: Ctx) -> P;
    fn Z3_mk_real_sort(c: Ctx) -> P;
    fn Z3_mk_bool_sort(c: Ctx) -> P;
    fn Z3_mk_fpa_sort_64(c: Ctx) -> P;
    fn Z3_mk_string_symbol(c: Ctx, s: *const c_char) -> P;
    fn Z3_mk_const(c: Ctx, s: P, ty: P) -> Ast;
    fn Z3_mk_numeral(c: Ctx, s: *const c_char, ty: P) -> Ast;
    fn Z3_mk_true(c: Ctx) -> Ast;
    fn Z3_mk_false(c: Ctx) -> Ast;
    fn Z3_mk_not(c: Ctx, a: Ast) -> Ast;
    fn Z3_mk_and(c: Ctx, n: c_uint, a: *const Ast) -> Ast;
    fn Z3_mk_or(c: Ctx, n: c_uint, a: *const Ast) -> Ast;
    fn Z3_mk_xor(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_ite(c: Ctx, a: Ast, b: Ast, d: Ast) -> Ast;
    fn Z3_mk_eq(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_le(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_lt(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_add(c: Ctx, n: c_uint, a: *const Ast) -> Ast;
    fn Z3_mk_mul(c: Ctx, n: c_uint, a: *const Ast) -> Ast;
    fn Z3_mk_div(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_mod(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_int2real(c: Ctx, a: Ast) -> Ast;
    fn Z3_mk_real2int(c: Ctx, a: Ast) -> Ast;
    fn Z3_mk_is_int(c: Ctx, a: Ast) -> Ast;
    fn Z3_mk_fpa_rne(c: Ctx) -> Ast;
    fn Z3_mk_fpa_numeral_double(c: Ctx, v: f64, ty: P) -> Ast;
    fn Z3_mk_fpa_add(c: Ctx, rm: Ast, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_fpa_sub(c: Ctx, rm: Ast, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_fpa_mul(c: Ctx, rm: Ast, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_fpa_div(c: Ctx, rm: Ast, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_fpa_abs(c: Ctx, a: Ast) -> Ast;
    fn Z3_mk_fpa_neg(c: Ctx, a: Ast) -> Ast;
    fn Z3_mk_fpa_lt(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_fpa_leq(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_fpa_eq(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_fpa_is_nan(c: Ctx, a: Ast) -> Ast;
    fn Z3_mk_fpa_to_ieee_bv(c: Ctx, a: Ast) -> Ast;
    fn Z3_mk_fpa_round_to_integral(c: Ctx, rm: Ast, a: Ast) -> Ast;
    fn Z3_mk_fpa_rna(c: Ctx) -> Ast;
    fn Z3_mk_fpa_sqrt(c: Ctx, rm: Ast, a: Ast) -> Ast;
    fn Z3_simplify(c: Ctx, a: Ast) -> Ast;
    fn Z3_mk_solver(c: Ctx) -> P;
    fn Z3_mk_simple_solver(c: Ctx) -> P;
    fn Z3_mk_params(c: Ctx) -> P;
    fn Z3_params_inc_ref(c: Ctx, p: P);
    fn Z3_params_set_uint(c: Ctx, p: P, s: P, v: c_uint);
    fn Z3_solver_inc_ref(c: Ctx, s: P);
    fn Z3_solver_dec_ref(c: Ctx, s: P);
    fn Z3_solver_set_params(c: Ctx, s: P, p: P);
    fn Z3_solver_push(c: Ctx, s: P);
    fn Z3_solver_pop(c: Ctx, s: P, n: c_uint);
    fn Z3_solver_assert(c: Ctx, s: P, a: Ast);
    fn Z3_solver_check(c: Ctx, s: P) -> c_int;
    fn Z3_solver_get_model(c: Ctx, s: P) -> P;
    fn Z3_solver_get_reason_unknown(c: Ctx, s: P) -> *const c_char;
    fn Z3_solver_to_string(c: Ctx, s: P) -> *const c_char;
    fn Z3_model_inc_ref(c: Ctx, m: P);
    fn Z3_model_dec_ref(c: Ctx, m: P);
    fn Z3_model_eval(c: Ctx, m: P, a: Ast, complete: bool, out: *mut Ast) -> bool;
    fn Z3_get_bool_value(c: Ctx, a: Ast) -> c_int;
    fn Z3_get_numeral_string(c: Ctx, a: Ast) -> *const c_char;
    fn Z3_get_numeral_decimal_string(c: Ctx, a: Ast, prec: c_uint) -> *const c_char;
    fn Z3_is_numeral_ast(c: Ctx, a: Ast) -> bool;
    fn Z3_ast_to_string(c: Ctx, a: Ast) -> *const c_char;
    fn Z3_get_ast_id(c: Ctx, a: Ast) -> c_uint;
}
extern "C" fn on_error(c: Ctx, e: c_uint) {
    let m = unsafe { CStr::from_ptr(Z3_get_error_msg(c, e)) };
    eprintln!("z3 error: {:?}", m);
    std::process::abort();
}
pub struct Z3 { pub c: Ctx, pub int: P, pub real: P, pub boolean: P, pub fp: P, pub rne: Ast, pub tru: Ast, pub fals: Ast }
pub struct Model { m: P, c: Ctx }
impl Drop for Model { fn drop(&mut self) { unsafe { Z3_model_dec_ref(self.c, self.m) } } }
pub struct Solver { pub s: P, c: Ctx }
impl Drop for Solver { fn drop(&mut self) { unsafe { Z3_solver_dec_ref(self.c, self.s) } } }
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Res { Sat, Unsat, Unknown }

fn cs(s: &str) -> CString { CString::new(s).unwrap() }
impl Z3 {
    pub fn new() -> Z3 {
        unsafe {
            for (k, v) in [("memory_max_size", "6000")] { Z3_global_param_set(cs(k).as_ptr(), cs(v).as_ptr()); }
            let cfg = Z3_mk_config();
            Z3_set_param_value(cfg, cs("model").as_ptr(), cs("true").as_ptr());
            let c = Z3_mk_context(cfg);
            Z3_set_error_handler(c, on_error);
            Z3 { c, int: Z3_mk_int_sort(c), real: Z3_mk_real_sort(c), boolean: Z3_mk_bool_sort(c), fp: Z3_mk_fpa_sort_64(c), rne: Z3_mk_fpa_rne(c), tru: Z3_mk_true(c), fals: Z3_mk_false(c) }
        }
    }
    pub fn version() -> String { unsafe { CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() } }
    pub fn var(&self, n: &str, sort: P) -> Ast { unsafe { Z3_mk_const(self.c, Z3_mk_string_symbol(self.c, cs(n).as_ptr()), sort) } }
    pub fn num(&self, s: &str, sort: P) -> Ast { unsafe { Z3_mk_numeral(self.c, cs(s).as_ptr(), sort) } }
    pub fn not(&self, a: Ast) -> Ast { unsafe { Z3_mk_not(self.c, a) } }
    pub fn and(&self, v: &[Ast]) -> Ast { unsafe { Z3_mk_and(self.c, v.len() as c_uint, v.as_ptr()) } }
    pub fn or(&self, v: &[Ast]) -> Ast { unsafe { Z3_mk_or(self.c, v.len() as c_uint, v.as_ptr()) } }
    pub fn xor(&self, a: Ast, b: Ast) -> Ast { unsafe { Z3_mk_xor(self.c, a, b) } }
    pub fn ite(&self, a: Ast, b: Ast, d: Ast) -> Ast { unsafe { Z3_mk_ite(self.c, a, b, d) } }
    pub fn eq(&self, a: Ast, b: Ast) -> Ast { unsafe { Z3_mk_eq(self.c, a, b) } }
    pub fn le(&self, a: Ast, b: Ast) -> Ast { unsafe { Z3_mk_le(self.c, a, b) } }
    pub fn lt(&self, a: Ast, b: Ast) -> Ast { unsafe { Z3_mk_lt(self.c, a, b) } }
    pub fn add(&self, v: &[Ast]) -> Ast { unsafe { Z3_mk_add(self.c, v.len() as c_uint, v.as_ptr()) } }
    pub fn mul(&self, v: &[Ast]) -> Ast { unsafe { Z3_mk_mul(self.c, v.len() as c_uint, v.as_ptr()) } }
    pub fn div(&self, a: Ast, b: Ast) -> Ast { unsafe { Z3_mk_div(self.c, a, b) } }
    pub fn modulo(&self, a: Ast, b: Ast) -> Ast { unsafe { Z3_mk_mod(self.c, a, b) } }
    pub fn to_real(&self, a: Ast) -> Ast { unsafe { Z3_mk_int2real(self.c, a) } }
    pub fn to_int(&self, a: Ast) -> Ast { unsafe { Z3_mk_real2int(self.c, a) } }
    pub fn is_int(&self, a: Ast) -> Ast { unsafe { Z3_mk_is_int(self.c, a) } }
    pub fn fp_num(&self, v: f64) -> Ast { unsafe { Z3_mk_fpa_numeral_double(self.c, v, self.fp) } }
    pub fn fp_add(&self, a: Ast, b: Ast) -> Ast { unsafe { Z3_mk_fpa_add(self.c, self.rne, a, b) } }
    pub fn fp_sub(&self, a: Ast, b: Ast) -> Ast { unsafe { Z3_mk_fpa_sub(self.c, self.rne, a, b) } }
    pub fn fp_mul(&self, a: Ast, b: Ast) -> Ast { unsafe { Z3_mk_fpa_mul(self.c, self.rne, a, b) } }
    pub fn fp_div(&self, a: Ast, b: Ast) -> Ast { unsafe { Z3_mk_fpa_div(self.c, self.rne, a, b) } }
    pub fn fp_abs(&self, a: Ast) -> Ast { unsafe { Z3_mk_fpa_abs(self.c, a) } }
    pub fn fp_neg(&self, a: Ast) -> Ast { unsafe { Z3_mk_fpa_neg(self.c, a) } }
    pub fn fp_sqrt(&self, a: Ast) -> Ast { unsafe { Z3_mk_fpa_sqrt(self.c, self.rne, a) } }
    pub fn fp_round_away(&self, a: Ast) -> Ast { unsafe { Z3_mk_fpa_round_to_integral(self.c, Z3_mk_fpa_rna(self.c), a) } }
    pub fn fp_lt(&self, a: Ast, b: Ast) -> Ast { unsafe { Z3_mk_fpa_lt(self.c, a, b) } }
    pub fn fp_le(&self, a: Ast, b: Ast) -> Ast { unsafe { Z3_mk_fpa_leq(self.c, a, b) } }
    pub fn fp_eq(&self, a: Ast, b: Ast) -> Ast { unsafe { Z3_mk_fpa_eq(self.c, a, b) } }
    pub fn fp_nan(&self, a: Ast) -> Ast { unsafe { Z3_mk_fpa_is_nan(self.c, a) } }
    pub fn fp_bits(&self, a: Ast) -> Ast { unsafe { Z3_mk_fpa_to_ieee_bv(self.c, a) } }
    pub fn simplify(&self, a: Ast) -> Ast { unsafe { Z3_simplify(self.c, a) } }
    pub fn show(&self, a: Ast) -> String { unsafe { CStr::from_ptr(Z3_ast_to_string(self.c, a)).to_string_lossy().into_owned() } }
    pub fn id(&self, a: Ast) -> u32 { unsafe { Z3_get_ast_id(self.c, a) } }
    pub fn solver(&self, simple: bool, timeout_ms: u32) -> Solver {
        unsafe {
            let s = if simple { Z3_mk_simple_solver(self.c) } else { Z3_mk_solver(self.c) };
            Z3_solver_inc_ref(self.c, s);
            let r = Solver { s, c: self.c };
            r.set_timeout(self, timeout_ms);
            r
        }
    }
    pub fn numeral(&self, a: Ast) -> String { unsafe { if Z3_is_numeral_ast(self.c, a) { CStr::from_ptr(Z3_get_numeral_string(self.c, a)).to_string_lossy().into_owned() } else { self.show(a) } } }
    #[allow(dead_code)]
    pub fn decimal(&self, a: Ast) -> String { unsafe { CStr::from_ptr(Z3_get_numeral_decimal_string(self.c, a, 12)).to_string_lossy().into_owned() } }
}
impl Solver {
    pub fn set_timeout(&self, z: &Z3, ms: u32) {
        unsafe {
            let p = Z3_mk_params(z.c);
            Z3_params_inc_ref(z.c, p);
            Z3_params_set_uint(z.c, p, Z3_mk_string_symbol(z.c, cs("timeout").as_ptr()), ms);
            Z3_solver_set_params(z.c, self.s, p);
        }
    }
    pub fn push(&self) { unsafe { Z3_solver_push(self.c, self.s) } }
    pub fn pop(&self, n: u32) { unsafe { Z3_solver_pop(self.c, self.s, n) } }
    pub fn assert(&self, a: Ast) { unsafe { Z3_solver_assert(self.c, self.s, a) } }
    pub fn check(&self) -> Res { match unsafe { Z3_solver_check(self.c, self.s) } { 1 => Res::Sat, -1 => Res::Unsat, _ => Res::Unknown } }
    pub fn model(&self) -> Model { unsafe { let m = Z3_solver_get_model(self.c, self.s); Z3_model_inc_ref(self.c, m); Model { m, c: self.c } } }
    pub fn reason(&self) -> String { unsafe { CStr::from_ptr(Z3_solver_get_reason_unknown(self.c, self.s)).to_string_lossy().into_owned() } }
    pub fn dump(&self) -> String { unsafe { CStr::from_ptr(Z3_solver_to_string(self.c, self.s)).to_string_lossy().into_owned() } }
}
impl Model {
    pub fn eval(&self, a: Ast) -> Option<Ast> { unsafe { let mut o = std::ptr::null_mut(); if Z3_model_eval(self.c, self.m, a, true, &mut o) { Some(o) } else { None } } }
    pub fn boolean(&self, a: Ast) -> Option<bool> { let v = self.eval(a)?; match unsafe { Z3_get_bool_value(self.c, v) } { 1 => Some(true), -1 => Some(false), _ => None } }
}
