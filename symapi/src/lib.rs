//! Harness-side API of the symbolic executor. In the symbolic run the `__sym_*` functions are
//! intercepted by the engine; in the native replay they are provided by the replay binary, which
//! answers from a recorded assignment.
extern "C" {
    fn __sym_int(name: *const u8, len: usize, lo: i64, hi: i64) -> i64;
    fn __sym_choice(name: *const u8, len: usize, lo: i64, hi: i64) -> i64;
    fn __sym_f64(name: *const u8, len: usize, lo: i64, hi: i64, shift: u32) -> f64;
    fn __sym_f64_any(name: *const u8, len: usize) -> f64;
    fn __sym_f64_real(name: *const u8, len: usize, lo: f64, hi: f64) -> f64;
    fn __sym_assume(c: bool);
    fn __sym_check(c: bool, name: *const u8, len: usize);
    fn __sym_reach(name: *const u8, len: usize);
    fn __sym_obs_f64(name: *const u8, len: usize, v: f64);
    fn __sym_obs_int(name: *const u8, len: usize, v: i64);
    fn __sym_flag(name: *const u8, len: usize, v: i64);
    fn __sym_param(name: *const u8, len: usize, default: i64) -> i64;
}
/// A symbolic integer, any value in `lo..=hi`.
pub fn int(name: &str, lo: i64, hi: i64) -> i64 { unsafe { __sym_int(name.as_ptr(), name.len(), lo, hi) } }
/// A nondeterministic integer in `lo..=hi` on which the engine forks at once (one path per value).
pub fn choice(name: &str, lo: i64, hi: i64) -> i64 { unsafe { __sym_choice(name.as_ptr(), name.len(), lo, hi) } }
pub fn uchoice(name: &str, lo: usize, hi: usize) -> usize { choice(name, lo as i64, hi as i64) as usize }
pub fn flip(name: &str) -> bool { choice(name, 0, 1) == 1 }
/// A symbolic f64 `k * 2^-shift`, any integer `k` in `lo..=hi`.
pub fn f64s(name: &str, lo: i64, hi: i64, shift: u32) -> f64 { unsafe { __sym_f64(name.as_ptr(), name.len(), lo, hi, shift) } }
pub fn f64i(name: &str, lo: i64, hi: i64) -> f64 { f64s(name, lo, hi, 0) }
/// Any f64 bit pattern (IEEE-754 theory).
pub fn f64any(name: &str) -> f64 { unsafe { __sym_f64_any(name.as_ptr(), name.len()) } }
/// Any f64 in `lo..=hi` (as a real number with rounding).
pub fn f64r(name: &str, lo: f64, hi: f64) -> f64 { unsafe { __sym_f64_real(name.as_ptr(), name.len(), lo, hi) } }
pub fn assume(c: bool) { unsafe { __sym_assume(c) } }
pub fn check(c: bool, name: &str) { unsafe { __sym_check(c, name.as_ptr(), name.len()) } }
/// Reachability witness: the engine demands that every reach point listed for a harness is hit by a feasible path.
pub fn reach(name: &str) { unsafe { __sym_reach(name.as_ptr(), name.len()) } }
pub fn obs(name: &str, v: f64) { unsafe { __sym_obs_f64(name.as_ptr(), name.len(), v) } }
pub fn obsi(name: &str, v: i64) { unsafe { __sym_obs_int(name.as_ptr(), name.len(), v) } }
/// Engine option switched on by a harness (e.g. real formatting).
pub fn flag(name: &str, v: i64) { unsafe { __sym_flag(name.as_ptr(), name.len(), v) } }
/// Harness parameter set from the command line (bounds).
pub fn param(name: &str, default: i64) -> i64 { unsafe { __sym_param(name.as_ptr(), name.len(), default) } }
extern "C" { fn __sym_argv(n: usize, argv: *const *const u8); }
/// The program's arguments, the program's name first.
pub fn set_args(args: &[&[u8]]) {
    let mut v: Vec<*const u8> = Vec::with_capacity(args.len() + 1);
    for a in args {
        let mut b = a.to_vec();
        b.push(0);
        v.push(Box::leak(b.into_boxed_slice()).as_ptr());
    }
    v.push(std::ptr::null());
    unsafe { __sym_argv(args.len(), Box::leak(v.into_boxed_slice()).as_ptr()) }
}
