//! Native replay: `replay ENTRY INPUTS [k=v ...]` runs a harness on recorded inputs
//! (lines "name<TAB>kind<TAB>value"). Exit: 0 completed, 10 a check failed, 11 an assumption is
//! false, 12 the inputs do not fit the run, 101 panic.
use std::cell::{Cell, RefCell};
use std::collections::HashMap;

thread_local! {
    static INPUTS: RefCell<(Vec<(String, char, u64)>, usize)> = const { RefCell::new((Vec::new(), 0)) };
    static PARAMS: RefCell<HashMap<String, i64>> = RefCell::new(HashMap::new());
    static DRIFT: Cell<i64> = const { Cell::new(0) };
    static NANOS: Cell<i64> = const { Cell::new(0) };
    static CLOCK_STEP: Cell<i64> = const { Cell::new(0) };
    static VIRTUAL: Cell<bool> = const { Cell::new(false) };
    static CLOCK: Cell<i64> = const { Cell::new(1_000_000) };
    static PANIC_OK: Cell<bool> = const { Cell::new(false) };
}
unsafe fn name<'a>(p: *const u8, n: usize) -> &'a str { std::str::from_utf8_unchecked(std::slice::from_raw_parts(p, n)) }
fn quit(code: i32, msg: &str) -> ! {
    println!("{}", msg);
    std::process::exit(code)
}
fn next(n: &str, kind: char) -> u64 {
    let r = INPUTS.with(|i| {
        let mut i = i.borrow_mut();
        let k = i.1;
        i.1 += 1;
        i.0.get(k).cloned()
    });
    match r {
        Some((m, c, v)) if m == n && c == kind => v,
        Some((m, c, _)) => quit(12, &format!("INPUT-MISMATCH wants {} {} has {} {}", n, kind, m, c)),
        None => quit(12, &format!("INPUTS-EXHAUSTED at {}", n)),
    }
}
fn ranged(n: &str, lo: i64, hi: i64) -> i64 {
    let v = next(n, 'i') as i64;
    if v < lo || v > hi { quit(12, &format!("INPUT-RANGE {} = {} not in {}..={}", n, v, lo, hi)); }
    v
}
#[no_mangle]
unsafe extern "C" fn __sym_int(p: *const u8, n: usize, lo: i64, hi: i64) -> i64 { ranged(name(p, n), lo, hi) }
#[no_mangle]
unsafe extern "C" fn __sym_choice(p: *const u8, n: usize, lo: i64, hi: i64) -> i64 { ranged(name(p, n), lo, hi) }
#[no_mangle]
unsafe extern "C" fn __sym_f64(p: *const u8, n: usize, lo: i64, hi: i64, shift: u32) -> f64 {
    let v = f64::from_bits(next(name(p, n), 'f'));
    let k = v * 2f64.powi(shift as i32);
    if k != k.trunc() || k < lo as f64 || k > hi as f64 { quit(12, &format!("INPUT-RANGE {} = {}", name(p, n), v)); }
    v
}
#[no_mangle]
unsafe extern "C" fn __sym_f64_any(p: *const u8, n: usize) -> f64 { f64::from_bits(next(name(p, n), 'f')) }
#[no_mangle]
unsafe extern "C" fn __sym_f64_real(p: *const u8, n: usize, lo: f64, hi: f64) -> f64 {
    let v = f64::from_bits(next(name(p, n), 'f'));
    if !(v >= lo && v <= hi) { quit(12, &format!("INPUT-RANGE {} = {}", name(p, n), v)); }
    v
}
#[no_mangle]
extern "C" fn __sym_assume(c: bool) { if !c { quit(11, "ASSUME-FALSE"); } }
#[no_mangle]
unsafe extern "C" fn __sym_check(c: bool, p: *const u8, n: usize) { if !c { quit(10, &format!("CHECK-FAILED {}", name(p, n))); } }
#[no_mangle]
extern "C" fn __sym_reach(_: *const u8, _: usize) {}
#[no_mangle]
unsafe extern "C" fn __sym_obs_f64(p: *const u8, n: usize, v: f64) { println!("OBS\t{}\t{:?}", name(p, n), v); }
#[no_mangle]
unsafe extern "C" fn __sym_obs_int(p: *const u8, n: usize, v: i64) { println!("OBS\t{}\t{}", name(p, n), v); }
#[no_mangle]
unsafe extern "C" fn __sym_flag(p: *const u8, n: usize, v: i64) {
    match name(p, n) { "clock" => { CLOCK_STEP.with(|c| c.set(v)); VIRTUAL.with(|x| x.set(true)); }
        "nanos" => NANOS.with(|c| c.set(v)),
        "drift" => DRIFT.with(|c| c.set(v)),
        "tick" => { CLOCK.with(|c| c.set(c.get() + v)); VIRTUAL.with(|x| x.set(true)); }
        "panic_ok" => PANIC_OK.with(|c| c.set(v != 0)), _ => {} }
}
#[no_mangle]
unsafe extern "C" fn __sym_param(p: *const u8, n: usize, d: i64) -> i64 { PARAMS.with(|m| *m.borrow().get(name(p, n)).unwrap_or(&d)) }

static ARGV: std::sync::atomic::AtomicPtr<*const u8> = std::sync::atomic::AtomicPtr::new(std::ptr::null_mut());
static ARGC: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
#[used]
#[link_section = ".init_array.00098"]
static ARGS: extern "C" fn(i32, *mut *const u8, *const *const u8) = {
    extern "C" fn init(n: i32, v: *mut *const u8, _: *const *const u8) {
        ARGC.store(n as usize, std::sync::atomic::Ordering::Relaxed);
        ARGV.store(v, std::sync::atomic::Ordering::Relaxed);
    }
    init
};
/// The standard library reads the original argument vector: overwrite it.
#[no_mangle]
unsafe extern "C" fn __sym_argv(n: usize, v: *const *const u8) {
    let a = ARGV.load(std::sync::atomic::Ordering::Relaxed);
    if n > ARGC.load(std::sync::atomic::Ordering::Relaxed) { quit(12, "too few padding arguments"); }
    for i in 0..=n { *a.add(i) = *v.add(i); }
}

extern "C" { fn syscall(n: i64, ...) -> i64; }
/// The same clock the symbolic run sees.
#[no_mangle]
unsafe extern "C" fn clock_gettime(clk: i32, ts: *mut [i64; 2]) -> i32 {
    let step = CLOCK_STEP.with(|c| c.get());
    if !VIRTUAL.with(|x| x.get()) { return syscall(228, clk as i64, ts) as i32; }
    let d = if step > 0 { next("clock", 'i') as i64 } else { 0 } + DRIFT.with(|c| c.get());
    let c = CLOCK.with(|c| { c.set(c.get() + d); c.get() });
    *ts = [c, NANOS.with(|c| c.get())];
    0
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let text = std::fs::read_to_string(&a[2]).expect("inputs");
    let v = text.lines().filter(|l| !l.is_empty()).map(|l| {
        let mut p = l.split('\t');
        let n = p.next().unwrap().to_string();
        let k = p.next().unwrap().chars().next().unwrap();
        let x = p.next().unwrap();
        (n, k, x.parse::<u64>().unwrap_or_else(|_| x.parse::<i64>().expect("value") as u64))
    }).collect();
    INPUTS.with(|i| i.borrow_mut().0 = v);
    for kv in &a[3..] {
        let (k, x) = kv.split_once('=').unwrap();
        PARAMS.with(|p| p.borrow_mut().insert(k.to_string(), x.parse().unwrap()));
    }
    let f = harness::entries().into_iter().find(|e| e.0 == a[1]).expect("entry").1;
    let r = std::panic::catch_unwind(f);
    if r.is_err() { if PANIC_OK.with(|p| p.get()) { quit(0, "PANIC-ALLOWED"); } quit(101, "PANIC"); }
    println!("COMPLETED");
}
