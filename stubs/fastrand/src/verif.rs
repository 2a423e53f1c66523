//! Draw policy. `Real` = the original wyrand arithmetic; `Sym` = every draw is a nondeterministic
//! value the symbolic executor explores; `Fixed` = a constant.
use std::cell::Cell;
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Mode { Real, Sym, Fixed }
#[derive(Clone, Copy, Debug)]
pub struct Policy {
    pub ints: Mode,
    /// symbolic integer draws left (then `Fixed`)
    pub int_budget: u32,
    /// value of the next `Fixed` integer draw (taken modulo the range length; counts up)
    pub int_fixed: u64,
    /// only draws from at least this many values are symbolic
    pub int_min: u64,
    /// symbolic draws are among these (modulo the range length), if any
    pub int_values: &'static [u64],
    pub reals: Mode,
    pub real_budget: u32,
    /// symbolic reals are k * 2^-shift
    pub real_shift: u32,
    /// the least k
    pub real_lo: i64,
    /// value of a `Fixed` real draw
    pub real_fixed: f64,
    /// true: shuffle leaves the slice as it is; false: Fisher-Yates with draws per `ints`
    pub shuffle_identity: bool,
    /// draws beyond the budgets, and the first `int_skip` integer draws, are real ones
    pub then_real: bool,
    pub int_skip: u32,
    /// `Rng::new()` streams start here (then count up)
    pub entropy: u64,
}
impl Policy {
    pub const REAL: Policy = Policy { ints: Mode::Real, int_budget: 0, int_fixed: 0, int_min: 0, int_values: &[], reals: Mode::Real, real_budget: 0, real_shift: 10, real_lo: 0, real_fixed: 0.5, shuffle_identity: false, then_real: false, int_skip: 0, entropy: 0x4d595df4d0f33173 };
    pub const SYM: Policy = Policy { ints: Mode::Sym, int_budget: 1000, int_fixed: 0, int_min: 0, int_values: &[], reals: Mode::Sym, real_budget: 1000, real_shift: 10, real_lo: 0, real_fixed: 0.5, shuffle_identity: false, then_real: false, int_skip: 0, entropy: 0x4d595df4d0f33173 };
    pub const FIXED: Policy = Policy { ints: Mode::Fixed, int_budget: 0, int_fixed: 0, int_min: 0, int_values: &[], reals: Mode::Fixed, real_budget: 0, real_shift: 10, real_lo: 0, real_fixed: 0.5, shuffle_identity: true, then_real: false, int_skip: 0, entropy: 0x4d595df4d0f33173 };
}
thread_local! { static POLICY: Cell<Policy> = const { Cell::new(Policy::REAL) }; }
pub fn set(p: Policy) { POLICY.with(|c| c.set(p)); }
pub fn get() -> Policy { POLICY.with(|c| c.get()) }
pub fn entropy_seed() -> u64 { get().entropy }
pub fn draw_int(n: u64) -> Option<u64> {
    let mut p = get();
    match p.ints {
        Mode::Real => None,
        Mode::Sym if p.int_skip > 0 => { p.int_skip -= 1; set(p); None }
        Mode::Sym if p.int_budget > 0 && n <= (1 << 40) && n >= p.int_min => {
            if n == 1 { return Some(0); }
            p.int_budget -= 1;
            set(p);
            if !p.int_values.is_empty() { return Some(p.int_values[symapi::choice("rng.int", 0, p.int_values.len() as i64 - 1) as usize] % n); }
            Some(symapi::choice("rng.int", 0, n as i64 - 1) as u64)
        }
        Mode::Sym if p.then_real => None,
        _ => { let v = p.int_fixed % n; p.int_fixed = p.int_fixed.wrapping_add(1); set(p); Some(v) }
    }
}
pub fn draw_f64() -> Option<f64> {
    let mut p = get();
    match p.reals {
        Mode::Real => None,
        Mode::Sym if p.real_budget > 0 => {
            p.real_budget -= 1;
            set(p);
            Some(note(symapi::f64s("rng.f64", p.real_lo, (1i64 << p.real_shift) - 1, p.real_shift)))
        }
        Mode::Sym if p.then_real => None,
        _ => Some(note(p.real_fixed)),
    }
}
pub fn shuffle_identity() -> bool { get().shuffle_identity }
thread_local! { static LAST: Cell<f64> = const { Cell::new(0.0) }; }
/// The last real draw handed out.
pub fn last_real() -> f64 { LAST.with(|c| c.get()) }
fn note(v: f64) -> f64 { LAST.with(|c| c.set(v)); v }
