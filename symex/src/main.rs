//! symex: symbolic execution of LLVM IR with z3.
//! usage: symex MODULE.ll ENTRY OUT_PREFIX [--jobs N] [--deadline S] [--param k=v] ...
mod builtin;
mod exec;
mod ir;
mod mem;
mod term;
mod vfs;
mod z3;
use exec::*;
use std::rc::Rc;
extern "C" {
    fn fork() -> i32;
    fn waitpid(p: i32, st: *mut i32, o: i32) -> i32;
    fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    fn _exit(c: i32) -> !;
}
fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o += "\\\"", '\\' => o += "\\\\", '\n' => o += "\\n", c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32), c => o.push(c) } }
    o + "\""
}
fn dump(e: &Eng, path: &str, left: usize) {
    let l = |v: &[String]| format!("[{}]", v.join(","));
    let vi: Vec<String> = e.violations.iter().map(|v| format!("{{\"kind\":{},\"name\":{},\"relaxed\":{},\"trace\":{},\"inputs\":{}}}", js(&v.kind), js(&v.name), v.relaxed, l(&v.trace.iter().map(|x| js(x)).collect::<Vec<_>>()), l(&v.inputs))).collect();
    let sa: Vec<String> = e.samples.iter().map(|v| format!("{{\"inputs\":{},\"obs\":{}}}", l(&v.inputs), l(&v.obs))).collect();
    let re: Vec<String> = e.reached.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect();
    let fu: Vec<String> = e.exec_count.iter().map(|(k, v)| format!("{}:{}", js(&e.m.funcs[*k as usize].name), v)).collect();
    let pa: Vec<String> = e.used_params.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect();
    let fs: Vec<String> = { let mut v: Vec<_> = e.fork_sites.iter().collect(); v.sort_by_key(|x| std::cmp::Reverse(*x.1)); v.into_iter().take(20).map(|(k, v)| format!("{}:{}", js(k), v)).collect() };
    let s = &e.st;
    let o = format!("{{\"paths\":{},\"ended\":{},\"assumed_away\":{},\"instrs\":{},\"max_path\":{},\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"solver_s\":{:.3},\"checks\":{},\"checks_folded\":{},\"check_queries\":{},\"forks\":{},\"roundings\":{},\"left\":{},\"wall\":{:.2},\"reached\":{{{}}},\"params\":{{{}}},\"functions\":{{{}}},\"fork_sites\":{{{}}},\"aborts\":{},\"violations\":[{}],\"samples\":[{}]}}",
        s.paths, s.ended, s.assumed_away, s.instrs, s.max_path, s.queries, s.sat, s.unsat, s.unknown, s.solver_s, s.checks, s.trivially, s.check_queries, s.forks, e.t.n_round, left, e.start.elapsed().as_secs_f64(),
        re.join(","), pa.join(","), fu.join(","), fs.join(","), l(&e.aborts.iter().take(50).map(|x| js(x)).collect::<Vec<_>>()), vi.join(","), sa.join(","));
    std::fs::write(path, o).unwrap();
}
/// Seconds the search goes on after its first counterexample.
const GRACE: f64 = 20.0;
fn explore(e: &mut Eng, stop: Option<&std::sync::atomic::AtomicUsize>) -> usize {
    while let Some(s) = e.work.pop_back() {
        if !e.violations.is_empty() && e.deadline > e.start.elapsed().as_secs_f64() + GRACE { e.deadline = e.start.elapsed().as_secs_f64() + GRACE; }
        if stop.map_or(false, |x| x.load(std::sync::atomic::Ordering::SeqCst) != 0) { return e.work.len() + 1; }
        if e.start.elapsed().as_secs_f64() > e.deadline { e.aborts.push("deadline".into()); return e.work.len() + 1; }
        if e.st.paths >= e.max_paths || e.too_many() || e.aborts.len() > 20 { return e.work.len() + 1; }
        e.run_state(s);
    }
    0
}
fn main() {
    // a deep recursion in term conversion should not end the process
    std::thread::Builder::new().stack_size(1 << 29).spawn(run).unwrap().join().unwrap();
}
fn run() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() == 2 && a[1] == "--version" { println!("{}", z3::Z3::version()); return; }
    let text = Rc::new(std::fs::read_to_string(&a[1]).unwrap());
    let m = ir::Module::index(text);
    let mut e = Eng::new(m);
    let mut jobs = 1usize;
    let mut i = 4;
    let mut front = 0usize;
    let mut max_instr = 0u64;
    while i < a.len() {
        let v = a.get(i + 1).cloned().unwrap_or_default();
        match a[i].as_str() {
            "--jobs" => jobs = v.parse().unwrap(),
            "--deadline" => e.deadline = v.parse().unwrap(),
            "--param" => { let (k, x) = v.split_once('=').unwrap(); e.params.insert(k.into(), x.parse().unwrap()); }
            "--max-instr" => max_instr = v.parse().unwrap(),
            "--max-paths" => e.max_paths = v.parse().unwrap(),
            "--samples" => e.max_samples = v.parse().unwrap(),
            "--front" => front = v.parse().unwrap(),
            "--trace" => { e.trace = true; i -= 1; }
            "--profile" => { e.profile = true; i -= 1; }
            o => panic!("option {}", o),
        }
        i += 2;
    }
    if max_instr > 0 { e.max_instr = max_instr; }
    let s = e.initial(&a[2]);
    e.work.push_back(s);
    if jobs > 1 {
        let want = if front > 0 { front } else { jobs * 40 };
        e.frontier = true;
        while e.work.len() < want {
            let s = match e.work.pop_front() { Some(s) => s, None => break };
            if e.start.elapsed().as_secs_f64() > e.deadline || e.too_many() || e.aborts.len() > 20 { e.work.push_back(s); break; }
            e.run_state(s);
        }
        e.frontier = false;
    }
    if jobs == 1 || e.work.is_empty() || e.too_many() {
        let left = explore(&mut e, None);
        dump(&e, &format!("{}.0.json", a[3]), left);
        return;
    }
    dump(&e, &format!("{}.0.json", a[3]), 0);
    let shared = unsafe { mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0) } as *const std::sync::atomic::AtomicUsize;
    let counter = unsafe { &*shared };
    let stop = unsafe { &*shared.add(1) };
    // reset what the parent has already reported
    let todo: Vec<State> = std::mem::take(&mut e.work).into_iter().collect();
    e.st = Stats::default();
    e.violations.clear();
    e.samples.clear();
    e.max_samples = (e.max_samples / jobs).max(2);
    e.reached.clear();
    e.aborts.clear();
    e.exec_count.clear();
    e.fork_sites.clear();
    e.t.n_round = 0;
    let mut kids = Vec::new();
    for w in 0..jobs {
        let p = unsafe { fork() };
        if p == 0 {
            let mut left = 0;
            loop {
                let k = counter.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                if k >= todo.len() { break; }
                if stop.load(std::sync::atomic::Ordering::SeqCst) != 0 { left += 1; continue; }
                e.work.push_back(todo[k].clone());
                left += explore(&mut e, Some(stop));
                e.work.clear();
                if left > 0 { stop.store(1, std::sync::atomic::Ordering::SeqCst); }
            }
            dump(&e, &format!("{}.{}.json", a[3], w + 1), left);
            unsafe { _exit(0) }
        }
        kids.push(p);
    }
    let mut bad = false;
    for p in kids { let mut st = 0; unsafe { waitpid(p, &mut st, 0) }; if st != 0 { bad = true; } }
    if bad { eprintln!("a worker died"); unsafe { _exit(3) } }
    unsafe { _exit(0) }
}
