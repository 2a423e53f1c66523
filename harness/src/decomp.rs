use crate::common::*;
use crate::entries;
use crate::ga::reported;
use crate::moves::{is_partition, penalized};
use fastrand::verif::{Mode, Policy};
use hybridcvrp::solver::genetic::{DecomposedGeneticAlgorithm, Decomposition, Individual};
use hybridcvrp::solver::improvement::RuinRecreate;
use hybridcvrp::solver::{Context, Metaheuristic, Solver};

entries!(h_decompose, h_decompose_twice, h_dga, h_dga_twice);

/// A global solution of six or seven customers.
fn global(i: usize, n: usize) -> Vec<Vec<usize>> {
    let mut r = match i {
        0 => vec![vec![1, 6], vec![2], vec![3, 4, 5]],
        1 => vec![vec![5, 1], vec![4, 2], vec![6, 3]],
        2 => vec![vec![6, 5, 4, 3, 2, 1]],
        3 => vec![vec![1], vec![2], vec![3], vec![4], vec![5, 6]],
        _ => vec![vec![3, 1], vec![2, 4, 6, 5]],
    };
    for c in 7..=n { r[0].push(c); }
    r
}

/// One extraction, a change of the subsolution and its return.
#[no_mangle]
pub extern "Rust" fn h_decompose() {
    flag("clock", -1);
    let n = param("n", 6) as usize;
    let v = param("vehicles", 6) as usize;
    let run = param("run", 0) == 1;
    let mut ctx = base_ctx(n, |c| {
        c.initial_individuals = 1;
        c.min_population_size = 2;
        c.rr_gamma = 1.0;
        c.log_interval = 1_000_000;
        c.time_limit = 1_000_000;
        c.max_iterations_without_improvement = 1000;
    });
    ctx.config.borrow_mut().decomposed_problem_min_size = uchoice("size", 2, param("size", 5) as usize) as u64;
    ctx.config.borrow_mut().num_vehicles = v as u64;
    ctx.config.borrow_mut().penalty_capacity = 7.0;
    ctx.problem.vehicle.cap = [2.0, 3.0][uchoice("cap", 0, 1)];
    for i in 1..=n { ctx.problem.nodes[i].demand = [1.0, 0.75, 1.25][i % 3]; }
    sym_distances_partial(&mut ctx, param("mask", 0x300), 1000);
    let mut routes = global(choice("global", 0, param("globals", 4)) as usize, n);
    routes.resize(v, Vec::new());
    let mut sol = individual(&ctx, routes);
    sol.sort_routes(&ctx);
    sol.evaluate(&ctx);
    let before = sol.phenotype.clone();
    let cost = sol.penalized_cost();
    let pen = ctx.config.borrow().penalty_capacity;
    let min = ctx.config.borrow().decomposed_problem_min_size as usize;

    fastrand::verif::set(Policy { ints: Mode::Sym, int_budget: 1, int_fixed: 1, ..Policy::FIXED });
    let mut d = Decomposition::new(&mut sol, &ctx);
    fastrand::verif::set(Policy { int_fixed: 1, ..Policy::FIXED });

    // what was taken
    let m = d.mapping.len() - 1;
    check(d.mapping[0] == 0, "the depot stays the depot");
    check((1..=m).all(|i| d.mapping[i] >= 1 && d.mapping[i] <= n && (1..i).all(|j| d.mapping[i] != d.mapping[j])), "distinct customers");
    check(m >= min.min(n), "the subproblem has the demanded size");
    let taken: Vec<Vec<usize>> = d.solution.phenotype.iter().filter(|r| !r.is_empty()).map(|r| r.iter().map(|&c| d.mapping[c]).collect()).collect();
    check(is_partition(m, &d.solution.phenotype), "the subsolution visits every customer of the subproblem");
    check(d.solution.genotype == d.solution.phenotype.concat(), "tour of the subsolution");
    for r in &taken { check(before.contains(r), "whole routes are taken"); }
    let rest: Vec<Vec<usize>> = d.global.phenotype.iter().filter(|r| !r.is_empty()).cloned().collect();
    for r in &rest { check(before.contains(r), "whole routes remain"); }
    check(taken.len() + rest.len() == before.iter().filter(|r| !r.is_empty()).count(), "no route is lost");
    check(d.ctx.problem.dim() == m + 1 && d.ctx.problem.vehicle.cap == ctx.problem.vehicle.cap, "size and capacity of the subproblem");
    for i in 0..=m {
        let (a, b) = (&d.ctx.problem.nodes[i], &ctx.problem.nodes[d.mapping[i]]);
        check(a.demand == b.demand && a.coord.lng == b.coord.lng && a.coord.lat == b.coord.lat, "nodes of the subproblem");
        for j in 0..=m { check(d.ctx.matrix_provider.distance.get(i, j) == ctx.matrix_provider.distance.get(d.mapping[i], d.mapping[j]), "distances of the subproblem"); }
    }
    let near = |a: f64, b: f64| (a - b).abs() <= 1e-6;
    let sub = d.solution.penalized_cost();
    let feasible = d.solution.is_feasible();
    check(near(sub, penalized(&ctx, pen, &taken)), "cost of the subsolution");
    check(near(d.global.penalized_cost(), cost) || near(d.global.penalized_cost(), penalized(&ctx, pen, &rest)), "cost of the rest");

    // a different subsolution
    if run {
        flag("drift", param("drift", 1));
        {
            // the clock ends the search after a while
            let mut c = d.ctx.config.borrow_mut();
            c.time_limit = d.ctx.elapsed_as_secs() + param("time", 30) as u64;
        }
        fastrand::verif::set(Policy { ints: Mode::Sym, int_budget: param("draws", 0) as u32, int_fixed: 1, reals: Mode::Fixed, ..Policy::FIXED });
        d.run();
        fastrand::verif::set(Policy { int_fixed: 1, ..Policy::FIXED });
        flag("drift", 0);
        check(is_partition(m, &d.solution.phenotype), "the improved subsolution is complete");
        check(d.solution.penalized_cost() <= sub + 1.1e-6 || !feasible && d.solution.is_feasible(), "the subsolution does not get worse");
        reach("run");
    } else {
        let phenotype: Vec<Vec<usize>> = match choice("change", 0, 3) {
            0 => d.solution.phenotype.clone(),
            1 => vec![(1..=m).rev().collect()],
            2 => { reach("more routes"); (1..=m).map(|c| vec![c]).collect() }
            _ => { let k = 1 + m / 2; vec![(1..k).collect(), vec![], (k..=m).collect(), vec![], vec![]] }
        };
        // as many routes as there are vehicles
        assume(rest.len() + phenotype.iter().filter(|r| !r.is_empty()).count() <= v);
        let mut s = Individual::new(phenotype.concat(), 3);
        s.phenotype = phenotype;
        s.evaluate(&d.ctx);
        d.solution = s;
    }
    let after = d.solution.penalized_cost();
    let put: Vec<Vec<usize>> = d.solution.phenotype.iter().filter(|r| !r.is_empty()).map(|r| r.iter().map(|&c| d.mapping[c]).collect()).collect();
    d.finish(&ctx);

    check(is_partition(n, &sol.phenotype), "the global solution is complete");
    check(sol.genotype == sol.phenotype.concat(), "tour of the global solution");
    for r in put.iter().chain(rest.iter()) { check(sol.phenotype.contains(r), "routes of the global solution"); }
    check(near(sol.penalized_cost(), penalized(&ctx, pen, &sol.phenotype)), "cost of the global solution");
    check(near(sol.penalized_cost() - cost, after - sub), "the cost changes by the change of the subsolution");
    check(sol.phenotype.len() == v, "one route per vehicle");
    // the next search can load it
    let mut rr = RuinRecreate::new(&ctx);
    rr.load(&ctx, &mut sol);
    rr.get_best_solution(&mut sol);
    check(is_partition(n, &sol.phenotype), "the loaded solution is complete");
    let again = Decomposition::new(&mut sol, &ctx);
    again.finish(&ctx);
    check(is_partition(n, &sol.phenotype), "complete after another round");
    reach("end");
}

/// The same decomposition under different operating-system randomness.
#[no_mangle]
pub extern "Rust" fn h_decompose_twice() {
    flag("clock", -1);
    let n = param("n", 7) as usize;
    let seed = [1, 0, 42, u64::MAX][uchoice("seed", 0, param("seeds", 3) as usize)];
    let size = uchoice("size", 2, param("size", 5) as usize) as u64;
    let which = choice("global", 0, param("globals", 4)) as usize;
    let rounds = param("rounds", 2);
    let mut near: Vec<f64> = Vec::new();
    let mut traces: Vec<Vec<Vec<Vec<usize>>>> = Vec::new();
    for run in 0..2u64 {
        getrandom::set_entropy(if run == 0 { 12345 } else { 987654321 });
        fastrand::verif::set(Policy { ints: Mode::Real, reals: Mode::Real, shuffle_identity: false, entropy: if run == 0 { 5 } else { 77 }, ..Policy::FIXED });
        let mut ctx = base_ctx(n, |c| { c.seed = seed; c.log_interval = 1_000_000; c.decomposed_problem_min_size = size; c.num_vehicles = 7; });
        ctx.problem.vehicle.cap = 3.0;
        let dim = n + 1;
        let mut m: hybridcvrp::models::Matrix<f64> = hybridcvrp::models::Matrix::new(dim, dim);
        for i in 0..dim {
            m.set(i, i, 0.0);
            for j in i + 1..dim {
                let (a, b) = (COORDS[i % 9], COORDS[j % 9]);
                let d = if i > 0 && j == i + 1 && i <= param("sym", 2) as usize {
                    if run == 0 { near.push(f64i("d", 1, 100)); }
                    near[i - 1]
                } else { ((a.0 - b.0).powi(2) + (a.1 - b.1).powi(2)).sqrt().round() };
                m.set(i, j, d);
                m.set(j, i, d);
            }
        }
        let locations = ctx.problem.nodes.iter().map(|n| n.coord).collect();
        ctx.matrix_provider.distance = hybridcvrp::models::DistanceMatrix::new(locations, m, true, false, None);
        let mut routes = global(which, n);
        routes.resize(7, Vec::new());
        let mut sol = individual(&ctx, routes);
        let mut trace = Vec::new();
        for _ in 0..rounds {
            let d = Decomposition::new(&mut sol, &ctx);
            trace.push(vec![d.mapping.clone()]);
            trace.push(d.solution.phenotype.clone());
            trace.push(d.global.phenotype.clone());
            // the draws of the search on the part
            let (sub, mut order): (&Context, Vec<usize>) = (&d.ctx, (0..n).collect());
            sub.random.shuffle(&mut order);
            trace.push(vec![order, vec![sub.random.range_usize(0, 1000)]]);
            d.finish(&ctx);
            trace.push(sol.phenotype.clone());
        }
        traces.push(trace);
    }
    check(traces[0] == traces[1], "the same decomposition");
    if traces[0][1].iter().filter(|r| !r.is_empty()).count() > 1 { reach("several routes"); }
    reach("end");
}

/// Two decomposed searches under different operating-system randomness.
#[no_mangle]
pub extern "Rust" fn h_dga_twice() {
    flag("clock", -1);
    let n = param("n", 4) as usize;
    let seed = [1, 0, 42, u64::MAX][uchoice("seed", 0, param("seeds", 1) as usize)];
    let size = uchoice("size", 2, param("size", 3) as usize) as u64;
    let d = f64i("d", 1, 100);
    let mut traces: Vec<Vec<Vec<Vec<usize>>>> = Vec::new();
    for run in 0..2u64 {
        getrandom::set_entropy(if run == 0 { 12345 } else { 987654321 });
        fastrand::verif::set(Policy { ints: Mode::Real, reals: Mode::Real, shuffle_identity: false, entropy: if run == 0 { 5 } else { 77 }, ..Policy::FIXED });
        let mut ctx = base_ctx(n, |c| {
            c.seed = seed;
            c.initial_individuals = 1;
            c.min_population_size = 2;
            c.population_lambda = 2;
            c.rr_gamma = 0.5;
            c.log_interval = 1_000_000;
            c.decomposed_problem_min_size = size;
            c.max_iterations = Some(param("limit", 2) as u64);
        });
        ctx.problem.vehicle.cap = param("cap", 2) as f64;
        let dim = n + 1;
        let mut m: hybridcvrp::models::Matrix<f64> = hybridcvrp::models::Matrix::new(dim, dim);
        for i in 0..dim {
            m.set(i, i, 0.0);
            for j in i + 1..dim {
                let (a, b) = (COORDS[i % 9], COORDS[j % 9]);
                let v = if (i, j) == (1, 2) { d } else { ((a.0 - b.0).powi(2) + (a.1 - b.1).powi(2)).sqrt().round() };
                m.set(i, j, v);
                m.set(j, i, v);
            }
        }
        let locations = ctx.problem.nodes.iter().map(|n| n.coord).collect();
        ctx.matrix_provider.distance = hybridcvrp::models::DistanceMatrix::new(locations, m, true, false, None);
        let mut dga = DecomposedGeneticAlgorithm::new(&ctx);
        let mut trace = Vec::new();
        while !dga.terminated() {
            dga.iterate(&ctx);
            trace.push(dga.global_solution().phenotype.clone());
            // the draws made so far
            trace.push(vec![vec![ctx.random.range_usize(0, 1000)]]);
        }
        if let Some(e) = ctx.search_history.borrow().last_entry() { trace.push(e.solution.routes.clone()); }
        traces.push(trace);
    }
    check(traces[0] == traces[1], "the same decomposed search");
    reach("end");
}

/// The decomposed search from its first step to its last.
#[no_mangle]
pub extern "Rust" fn h_dga() {
    flag("clock", -1);
    let n = param("n", 4) as usize;
    let limit = uchoice("limit", param("limit0", 0) as usize, param("limit1", 2) as usize) as u64;
    let size = uchoice("size", 2, param("size", 3) as usize) as u64;
    let timed = param("timed", 0) > 0 && flip("timed");
    let seconds = if timed { uchoice("seconds", param("timed", 0) as usize, param("timed1", 30) as usize) as u64 } else { 1_000_000 };
    let mut ctx = base_ctx(n, |c| {
        c.time_limit = seconds;
        c.initial_individuals = 1;
        c.min_population_size = 2;
        c.population_lambda = 2;
        c.num_elites = 1;
        c.rr_gamma = 0.5;
        c.rr_probability = 0.5;
        c.log_interval = 1_000_000;
        c.penalty_update_interval = 1;
        c.decomposed_problem_min_size = size;
        c.max_iterations = Some(limit);
        c.max_iterations_without_improvement = 1000;
    });
    ctx.problem.vehicle.cap = param("cap", 2) as f64;
    if param("vehicles", 0) > 0 { ctx.config.borrow_mut().num_vehicles = param("vehicles", 0) as u64; }
    ctx.config.borrow_mut().penalty_capacity = 7.0;
    for i in 1..=n { if param("heavy", 0) >> i & 1 == 1 { ctx.problem.nodes[i].demand = [1.0, 1.5][uchoice("demand", 0, 1)]; } }
    sym_distances_partial(&mut ctx, param("mask", 1), 100);
    fastrand::verif::set(Policy { int_fixed: 1, ..Policy::FIXED });
    let boxed = Box::new(ctx);
    let dga = DecomposedGeneticAlgorithm::new(&boxed);
    let mut s = Solver::new(*boxed, dga);
    let vehicles = s.ctx.config.borrow().num_vehicles;
    let overload = |ctx: &Context, r: &Vec<Vec<usize>>| r.iter().map(|x| pos(route_load(ctx, x) - ctx.problem.vehicle.cap)).sum::<f64>();
    let mut last: Option<(f64, f64)> = None;
    let mut costs: Vec<f64> = Vec::new();
    for step in 0..limit + 3 {
        let sym = step as i64 >= param("symbolic", 0);
        fastrand::verif::set(Policy {
            ints: if sym { Mode::Sym } else { Mode::Fixed }, int_skip: param("skip", 0) as u32, int_budget: param("ints", 1) as u32, reals: if sym { Mode::Sym } else { Mode::Fixed }, real_budget: param("reals", 0) as u32,
            int_fixed: 1 + step, shuffle_identity: false, ..Policy::FIXED
        });
        let done = *s.ctx.iteration.borrow();
        check(!s.metaheuristic.terminated(), "stops once the limit is reached");
        let before = s.ctx.elapsed_as_secs();
        if timed { flag("drift", 1); }
        s.metaheuristic.iterate(&s.ctx);
        flag("drift", 0);
        let after = s.ctx.elapsed_as_secs();
        if done >= limit || before >= seconds { check(s.metaheuristic.terminated(), "stops once a limit is reached"); }
        if done < limit && after < seconds { check(!s.metaheuristic.terminated(), "does not stop before"); }
        if after >= seconds && done < limit { reach("time is up"); }
        let pen = s.ctx.config.borrow().penalty_capacity;
        check((pen - 7.0).abs() < 1e-9, "the penalty is that of the start");
        check(s.ctx.config.borrow().num_vehicles == vehicles && s.ctx.config.borrow().max_iterations == Some(limit), "the settings of the whole are kept");
        // the records
        {
            let h = s.ctx.search_history.borrow();
            check(h.entries().len() >= costs.len(), "records are kept");
            for (i, e) in h.entries().iter().enumerate() {
                if i < costs.len() { check(e.solution.cost == costs[i], "records do not change"); } else {
                    if i > 0 { check(e.solution.cost < costs[i - 1], "every record improves"); }
                    costs.push(e.solution.cost);
                }
            }
            if !costs.is_empty() { check(h.best_cost == costs[costs.len() - 1], "the best cost is the last record's"); }
        }
        reported(&s.ctx, n);
        if s.metaheuristic.terminated() {
            reach("stopped");
            break;
        }
        // the global solution
        let g = s.metaheuristic.global_solution();
        check(is_partition(n, &g.phenotype), "the global solution visits every customer exactly once");
        check(g.genotype == g.phenotype.concat(), "tour of the global solution");
        check((g.penalized_cost() - penalized(&s.ctx, pen, &g.phenotype)).abs() < 1e-5, "cost of the global solution");
        let over = overload(&s.ctx, &g.phenotype);
        if let Some((c, o)) = last {
            check(g.penalized_cost() <= c + 1e-5 || over < o, "the global solution does not get worse");
            if g.penalized_cost() < c - 1e-5 { reach("improved"); }
        }
        if over <= 1e-6 {
            check(!costs.is_empty() && costs[costs.len() - 1] <= g.penalized_cost() + 1e-5, "the global solution is recorded");
            reach("feasible");
        } else { reach("infeasible"); }
        last = Some((g.penalized_cost(), over));
    }
    check(s.metaheuristic.terminated(), "the search ends");
    reach("end");
}
