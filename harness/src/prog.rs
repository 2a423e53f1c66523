//! The program itself, from its files and arguments to the solution file (C29).
use crate::common::*;
use crate::entries;
use crate::files::{digits, number};
use fastrand::verif::{Mode, Policy};
entries!(h_program);

/// `src/main.rs` as it is.
mod program {
    include!("/repo/src/main.rs");
    pub fn run() { main() }
}

/// The numbers of a line, and whether there is nothing but numbers and spaces in it.
fn numbers(line: &[u8]) -> (Vec<usize>, bool) {
    let (mut v, mut inside, mut clean) = (Vec::new(), false, true);
    for &b in line {
        if b >= b'0' && b <= b'9' {
            if !inside { v.push(0); }
            inside = true;
            let k = v.len() - 1;
            v[k] = v[k] * 10 + (b - b'0') as usize;
        } else { clean &= b == b' '; inside = false; }
    }
    (v, clean)
}

#[no_mangle]
pub extern "Rust" fn h_program() {
    flag("clock", -1);
    let n = param("n", 3) as usize;
    let explicit = param("explicit", 1) == 1;
    // the instance
    let mut t: Vec<u8> = Vec::new();
    t.extend_from_slice(b"NAME : X\nTYPE : CVRP\nDIMENSION : ");
    t.extend_from_slice(&number(n as u64 + 1));
    t.extend_from_slice(if explicit { b"\nEDGE_WEIGHT_TYPE : EXPLICIT\nEDGE_WEIGHT_FORMAT : LOWER_ROW" } else { b"\nEDGE_WEIGHT_TYPE : EUC_2D" });
    t.extend_from_slice(b"\nCAPACITY : ");
    let cap = choice("capacity", param("cap0", 2), param("cap1", 3)) as f64;
    t.extend_from_slice(&number(cap as u64));
    t.push(b'\n');
    let dim = n + 1;
    let mut dist = vec![vec![0.0f64; dim]; dim];
    let mut coords: Vec<(f64, f64)> = Vec::new();
    t.extend_from_slice(b"NODE_COORD_SECTION\n");
    for i in 0..dim {
        let (x, y) = (COORDS[i].0 + 60.0, COORDS[i].1 + 60.0);
        t.extend_from_slice(&number(i as u64 + 1));
        t.push(b' ');
        let x = if !explicit && param("mask", 1) >> i & 1 == 1 { let v = choice("coordinate", 0, 3) as f64 * 7.0; t.extend_from_slice(&number(v as u64)); v } else { t.extend_from_slice(&number(x as u64)); x };
        t.push(b' ');
        t.extend_from_slice(&number(y as u64));
        t.push(b'\n');
        coords.push((x, y));
    }
    let mut demand = vec![0.0];
    t.extend_from_slice(b"DEMAND_SECTION\n1 0\n");
    for i in 1..dim {
        let q = if i as i64 <= param("heavy", 0) { choice("demand", 1, 2) } else { 1 };
        demand.push(q as f64);
        t.extend_from_slice(&number(i as u64 + 1));
        t.push(b' ');
        t.extend_from_slice(&number(q as u64));
        t.push(b'\n');
    }
    if explicit {
        t.extend_from_slice(b"EDGE_WEIGHT_SECTION\n");
        let mut p = 0;
        for i in 1..dim {
            for j in 0..i {
                let v = if param("mask", 1) >> p & 1 == 1 { digits(&mut t, 2) as f64 } else {
                    let v = ((COORDS[i].0 - COORDS[j].0).powi(2) + (COORDS[i].1 - COORDS[j].1).powi(2)).sqrt().round();
                    t.extend_from_slice(&number(v as u64));
                    v
                };
                t.push(if j + 1 == i { b'\n' } else { b' ' });
                dist[i][j] = v;
                dist[j][i] = v;
                p += 1;
            }
        }
    }
    t.extend_from_slice(b"DEPOT_SECTION\n1\n-1\nEOF\n");
    std::fs::write("x.vrp", &t).unwrap();

    // the settings
    let timed = choice("ends by", 0, param("ends", 1)) == 1;
    let large = param("decompose", 0) == 1;
    let in_file = flip("output in the file");
    let out_arg = flip("output on the command line");
    let mut c: Vec<u8> = Vec::new();
    let mut set = |k: &[u8], v: &[u8]| { c.extend_from_slice(k); c.extend_from_slice(b": "); c.extend_from_slice(v); c.push(b'\n'); };
    set(b"deterministic", b"true");
    set(b"seed", &number(choice("seed", 1, param("seeds", 1)) as u64));
    set(b"initial_individuals", b"2");
    set(b"min_population_size", b"2");
    set(b"population_lambda", b"2");
    set(b"num_elites", b"1");
    set(b"rr_gamma", b"0.5");
    set(b"local_search_granularity", b"3");
    set(b"penalty_update_interval", b"1");
    // what the file says about rounding, and what the command line says, if anything
    let (file_rounds, says) = if explicit { (false, 0) } else { (flip("file rounds"), choice("rounding given", 0, 2)) };
    let rounded = match says { 0 => file_rounds, 1 => true, _ => false };
    set(b"round_distances", if file_rounds { b"true" } else { b"false" });
    set(b"instance_path", b"not_there.vrp");
    if large { set(b"decompose_limit", b"1"); set(b"decomposed_problem_min_size", b"2"); }
    if !timed { set(b"max_iterations", &number(param("iterations", 2) as u64)); set(b"time_limit", b"1000000"); }
    set(b"solution_path", if in_file { b"file.sol" } else { b"~" });
    std::fs::write("config.yml", &c).unwrap();
    let seconds = number(param("seconds", 9) as u64);
    let mut words: Vec<&[u8]> = vec![b"hybridcvrp", b"x.vrp"];
    if out_arg { words.push(b"-o"); words.push(b"given.sol"); }
    if timed { words.push(b"-t"); words.push(&seconds); }
    if says > 0 { words.push(b"-r"); words.push(if says == 1 { b"true" } else { b"false" }); }
    set_args(&words);

    // the run: the first draws arbitrary, then those of the generator
    fastrand::verif::set(Policy { ints: Mode::Sym, int_skip: param("skip", 0) as u32, int_budget: param("draws", 0) as u32, then_real: true, reals: if param("reals", 0) > 0 { Mode::Sym } else { Mode::Real }, real_budget: param("reals", 0) as u32, ..Policy::REAL });
    flag("format", 2);
    if timed { flag("drift", param("drift", 1)); flag("nanos", 0); }
    program::run();
    flag("drift", 0);
    flag("format", 0);

    // the file
    let (path, other) = if out_arg { ("given.sol", "file.sol") } else { ("file.sol", "given.sol") };
    check(std::fs::read(other).is_err(), "no other file is written");
    let got = std::fs::read(path);
    if !out_arg && !in_file { check(got.is_err(), "no file is written"); reach("no file"); reach("end"); return; }
    check(got.is_ok(), "the solution file is written");
    let got = got.unwrap();
    if got.is_empty() {
        // nothing feasible was found before the end
        check(timed, "a solution is found");
        reach("end");
        return;
    }
    let mut routes: Vec<Vec<usize>> = Vec::new();
    let mut cost = None;
    for line in got.split(|b| *b == b'\n') {
        if line.is_empty() { continue; }
        if line.starts_with(b"Route #") {
            check(cost.is_none(), "the cost is last");
            let k = line.iter().position(|b| *b == b':');
            check(k.is_some(), "form of a route");
            let (num, ok) = numbers(&line[7..k.unwrap()]);
            check(ok && num.len() == 1 && num[0] == routes.len() + 1, "the routes are numbered");
            let (r, ok) = numbers(&line[k.unwrap() + 1..]);
            check(ok && !r.is_empty(), "a route lists its customers");
            routes.push(r);
        } else {
            check(line.starts_with(b"Cost ") && cost.is_none(), "the cost comes once");
            let (v, ok) = numbers(&line[5..]);
            check(ok && v.len() == 1, "form of the cost");
            cost = Some(v[0]);
        }
    }
    let mut seen = vec![false; dim];
    for r in &routes { for &x in r { check(x >= 1 && x < dim && !seen[x], "every customer once"); seen[x] = true; } }
    check((1..dim).all(|i| seen[i]), "every customer is visited");
    let mut sum = 0.0;
    for r in &routes {
        let mut load = 0.0;
        let mut last = 0;
        for &x in r.iter().chain([0usize].iter()) {
            let (a, b) = (coords[last], coords[x]);
            sum += if explicit { dist[last][x] } else { let (u, v) = (a.0 - b.0, a.1 - b.1); let d = (u * u + v * v).sqrt(); if rounded { d.round() } else { d } };
            load += demand[x];
            last = x;
        }
        check(load <= cap, "no vehicle is overloaded");
    }
    check(cost.is_some(), "the cost is stated");
    check((cost.unwrap() as f64 - sum).abs() <= 0.5 + 1e-6, "the cost is that of the routes");
    reach("solution");
    if routes.len() > 1 { reach("several routes"); }
    if timed { reach("timed"); }
    if rounded && !file_rounds { reach("rounded"); }
    reach("end");
}
