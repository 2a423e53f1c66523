use crate::common::*;
use crate::entries;
use crate::moves::{is_partition, penalized};
use fastrand::verif::{Mode, Policy};
use hybridcvrp::solver::genetic::{GeneticAlgorithm, Individual};
use hybridcvrp::solver::Metaheuristic;
use hybridcvrp::solver::improvement::*;
use hybridcvrp::solver::Context;

entries!(h_rr_step, h_recreate, h_rr_search, h_rr_states, h_rr_elite, h_rr_elite_lengths);

fn routes_of(s: &RuinRecreateSolution) -> Vec<Vec<usize>> { s.routes.iter().map(|r| r.nodes.clone()).collect() }

/// Bookkeeping of a complete solution.
fn consistent(ctx: &Context, s: &RuinRecreateSolution) {
    let cap = ctx.problem.vehicle.cap;
    check(s.unassigned.is_empty(), "no customer unassigned");
    check(s.ruined_routes.is_empty(), "no route marked as ruined");
    let routes = routes_of(s);
    check(is_partition(ctx.problem.dim() - 1, &routes), "every customer exactly once");
    for (i, r) in s.routes.iter().enumerate() {
        check((r.distance - route_distance(ctx, &r.nodes)).abs() < 1e-6, "route distance");
        check((r.overload - (route_load(ctx, &r.nodes) - cap)).abs() < 1e-6, "route overload");
        for (j, &c) in r.nodes.iter().enumerate() {
            check(s.locations[c].route_index == i && s.locations[c].node_index == j, "customer location");
        }
    }
    let pen = ctx.config.borrow().penalty_capacity;
    check((s.cost - penalized(ctx, pen, &routes)).abs() < 1e-6, "solution cost");
}

fn setup(n: usize, k: usize) -> Context {
    let ctx = base_ctx(n, |c| {
        c.average_ruin_cardinality = param("cavg", 10) as usize;
        c.max_ruin_string_length = param("lmax", 10) as usize;
    });
    ctx.config.borrow_mut().num_vehicles = k as u64;
    ctx.config.borrow_mut().penalty_capacity = param("penalty", 100) as f64;
    ctx
}
fn symbolic(ctx: &mut Context, n: usize) {
    ctx.problem.vehicle.cap = param("cap", 2) as f64;
    sym_distances_partial(ctx, param("mask", 0xffff), 1000);
    if param("symq", 0) == 1 { sym_demands(ctx, 1, 3); }
    else if param("fixq", 0) == 1 { for i in 1..=n { ctx.problem.nodes[i].demand = [1.0, 3.0, 2.0, 5.0, 4.0][i - 1]; } }
}

/// One ruin and one recreate step with arbitrary draws.
#[no_mangle]
pub extern "Rust" fn h_rr_step() {
    let n = param("n", 3) as usize;
    let k = param("k", 2) as usize;
    let mut ctx = setup(n, k);
    let routes = choose_routes(n, k);
    symbolic(&mut ctx, n);
    let mut ind = individual(&ctx, routes);
    let mut rr = RuinRecreate::new(&ctx);
    rr.load(&ctx, &mut ind);
    let mut s = rr.solution.clone();
    consistent(&ctx, &s);
    for step in 0..param("steps", 1) {
        fastrand::verif::set(Policy { ints: Mode::Sym, int_budget: param("ints", 3) as u32, reals: Mode::Sym, real_budget: param("reals", 3) as u32, real_fixed: [0.6, 0.3][step as usize % 2], shuffle_identity: true, int_fixed: step as u64, ..Policy::FIXED });
        let before = routes_of(&s);
        rr.ruin.run(&ctx, &mut s);
        // what is left plus the removed customers is the old solution
        check(!s.unassigned.is_empty() && !s.ruined_routes.is_empty(), "something was removed");
        if s.unassigned.len() >= 2 { reach("several removed"); }
        for (i, r) in s.routes.iter().enumerate() {
            let left: Vec<usize> = before[i].iter().copied().filter(|c| !s.unassigned.contains(c)).collect();
            check(r.nodes == left, "a ruined route keeps its other customers in order");
            check(left.len() == before[i].len() || s.ruined_routes.contains(&i), "ruined routes are marked");
        }
        let p = fastrand::verif::get();
        fastrand::verif::set(Policy { ints: Mode::Sym, int_budget: param("rints", 1) as u32, shuffle_identity: param("rints", 1) < 2, ..p });
        rr.recreate.run(&ctx, &mut s);
        consistent(&ctx, &s);
    }
    obs("cost", s.cost);
    reach("end");
}

/// Insertion of one removed customer.
#[no_mangle]
pub extern "Rust" fn h_recreate() {
    let n = param("n", 3) as usize;
    let k = param("k", 2) as usize;
    let mut ctx = setup(n, k);
    let routes = choose_routes(n, k);
    let gone = uchoice("removed", 1, n);
    symbolic(&mut ctx, n);
    let pen = ctx.config.borrow().penalty_capacity;
    let mut ind = individual(&ctx, routes);
    let mut rr = RuinRecreate::new(&ctx);
    rr.load(&ctx, &mut ind);
    let mut s = rr.solution.clone();
    let l = s.locations[gone].clone();
    let x = s.routes[l.route_index].remove(l.node_index, &ctx);
    check(x == gone, "the customer at its location is removed");
    s.unassigned.push(gone);
    s.ruined_routes.insert(l.route_index);
    let extra = uchoice("other ruined", 0, k);
    if extra < k { s.ruined_routes.insert(extra); }
    let ruined: Vec<usize> = (0..k).filter(|r| s.ruined_routes.contains(r)).collect();
    let before = routes_of(&s);
    fastrand::verif::set(Policy { ints: Mode::Sym, int_budget: 1, ..Policy::FIXED });
    rr.recreate.run(&ctx, &mut s);
    consistent(&ctx, &s);
    let after = routes_of(&s);
    let to = (0..k).find(|&r| after[r].contains(&gone)).unwrap();
    for r in 0..k {
        let left: Vec<usize> = after[r].iter().copied().filter(|c| *c != gone).collect();
        check(left == before[r], "the other customers stay");
    }
    let q = ctx.problem.nodes[gone].demand;
    let over = |r: usize| route_load(&ctx, &before[r]) + q - ctx.problem.vehicle.cap;
    let dist = |r: usize| route_distance(&ctx, &before[r]);
    let added = route_distance(&ctx, &after[to]) - dist(to);
    let fits: Vec<usize> = ruined.iter().copied().filter(|&r| over(r) <= 0.0).collect();
    if !fits.is_empty() {
        reach("fits");
        check(fits.contains(&to), "a ruined route that can take it");
    } else {
        reach("does not fit");
    }
    for r in if fits.is_empty() { (0..k).collect() } else { fits.clone() } {
        for i in 0..=before[r].len() {
            let mut with = before[r].clone();
            with.insert(i, gone);
            let x = route_distance(&ctx, &with) - dist(r);
            if fits.is_empty() {
                check(added + pen * pos(over(to)) < x + pen * pos(over(r)) + 1e-5, "the cheapest place with its overload");
            } else {
                check(added < x + 1e-5, "the cheapest place");
            }
        }
    }
    reach("end");
}

/// The search as a whole, real operators.
#[no_mangle]
pub extern "Rust" fn h_rr_search() {
    let n = param("n", 3) as usize;
    let k = param("k", 2) as usize;
    let iterations = param("iterations", 2) as usize;
    let mut ctx = setup(n, k);
    ctx.config.borrow_mut().rr_gamma = iterations as f64 / n as f64;
    let routes = choose_routes(n, k);
    symbolic(&mut ctx, n);
    let pen = ctx.config.borrow().penalty_capacity;
    let mut rr = RuinRecreate::new(&ctx);
    for round in 0..param("rounds", 1) {
        let mut ind = individual(&ctx, routes.clone());
        let old = penalized(&ctx, pen, &routes);
        fastrand::verif::set(Policy { ints: Mode::Sym, int_budget: param("ints", 1) as u32, reals: Mode::Sym, real_budget: param("reals", 3) as u32, int_fixed: 2, ..Policy::FIXED });
        rr.load(&ctx, &mut ind);
        check((rr.best_cost() - old).abs() < 1e-6, "the loaded solution is the first best");
        while !rr.complete() { rr.search(); }
        let best = rr.best_cost();
        rr.get_best_solution(&mut ind);
        check(is_partition(n, &ind.phenotype) && ind.phenotype.len() == k, "every customer exactly once");
        check(ind.genotype == ind.phenotype.concat(), "tour and routes agree");
        check((ind.penalized_cost() - penalized(&ctx, pen, &ind.phenotype)).abs() < 1e-6, "true cost");
        check((ind.penalized_cost() - best).abs() < 1e-6, "the reported best cost");
        check(best < old + 1e-5, "not worse than the loaded solution");
        if best < old - 1.0 { reach("improved"); }
        consistent(&ctx, &rr.solution);
        consistent(&ctx, &rr.current_solution);
        check(best < rr.solution.cost + 1e-5, "not worse than the working solution");
        if round == 1 { reach("second round"); }
        obs("best", best);
    }
    reach("end");
}

/// Stand-in operators: the candidate of every iteration is one of a few complete solutions.
struct Keep;
impl Ruin for Keep { fn run(&self, _: &Context, _: &mut RuinRecreateSolution) {} }
struct Pick;
thread_local! {
    static SEEN: std::cell::RefCell<(Vec<Vec<Vec<usize>>>, Vec<Vec<Vec<usize>>>)> = const { std::cell::RefCell::new((Vec::new(), Vec::new())) };
}
fn menu(i: usize) -> Vec<Vec<usize>> {
    match i { 0 => vec![vec![1, 2, 3], vec![]], 1 => vec![vec![2, 1, 3], vec![]], 2 => vec![vec![3], vec![1, 2]], _ => vec![vec![], vec![1, 3, 2]] }
}
impl Recreate for Pick {
    fn run(&self, ctx: &Context, s: &mut RuinRecreateSolution) {
        let start = routes_of(s);
        let next = menu(uchoice("candidate", 0, 3));
        for (i, r) in next.iter().enumerate() {
            s.routes[i].nodes = r.clone();
            s.routes[i].distance = route_distance(ctx, r);
            s.routes[i].overload = route_load(ctx, r) - ctx.problem.vehicle.cap;
        }
        s.evaluate(ctx, [0usize, 1].iter());
        SEEN.with(|v| { let mut v = v.borrow_mut(); v.0.push(start); v.1.push(next); });
    }
}

/// Which of the copies is which after any sequence of acceptances and rejections.
#[no_mangle]
pub extern "Rust" fn h_rr_states() {
    let n = 3;
    let iterations = param("iterations", 3) as usize;
    let mut ctx = setup(n, 2);
    symbolic(&mut ctx, n);
    let pen = ctx.config.borrow().penalty_capacity;
    let mut rr = RuinRecreate::new(&ctx);
    rr.ruin = Box::new(Keep);
    rr.recreate = Box::new(Pick);
    let cost = |r: &Vec<Vec<usize>>| penalized(&ctx, pen, r);
    for round in 0..param("rounds", 1) {
        SEEN.with(|v| { let mut v = v.borrow_mut(); v.0.clear(); v.1.clear(); });
        let temp = [0.001, 50.0][uchoice("temperature", 0, 1)];
        rr.set_acceptance(IterationSchedule::new(temp, iterations).into());
        let first = menu(if round == 0 { 0 } else { 2 });
        let mut ind = individual(&ctx, first.clone());
        fastrand::verif::set(Policy { reals: Mode::Sym, real_budget: iterations as u32, real_lo: 1, ..Policy::FIXED });
        rr.load(&ctx, &mut ind);
        while !rr.complete() { rr.search(); }
        let (starts, candidates) = SEEN.with(|v| v.borrow().clone());
        check(candidates.len() == iterations, "as many candidates as iterations");
        // the working solution: the last accepted one
        let mut working = first.clone();
        let mut best = cost(&first);
        for i in 0..iterations {
            check(starts[i] == working, "each iteration starts from the working solution");
            let after = if i + 1 < iterations { starts[i + 1].clone() } else { routes_of(&rr.solution) };
            check(after == candidates[i] || after == working, "the candidate or the old solution is kept");
            let (c, w) = (cost(&candidates[i]), cost(&working));
            if c < w - 2e-6 { check(after == candidates[i], "a cheaper candidate is accepted"); reach("improvement"); }
            if after == candidates[i] && c < best - 1e-9 { best = c; }
            if after != candidates[i] { reach("rejected"); }
            if after == candidates[i] && c > w + 1.0 { reach("dearer accepted"); check(temp > 1.0, "nothing dearer is accepted when cold"); }
            working = after;
        }
        check(rr.best_cost() < best + 1e-5, "the best cost is the least accepted");
        check(rr.best_cost() > best - 1e-5, "the best cost is the cost of an accepted solution");
        rr.get_best_solution(&mut ind);
        check((ind.penalized_cost() - best).abs() < 1e-5, "the best solution has the best cost");
        check(is_partition(n, &ind.phenotype), "every customer exactly once");
        let mut cur: Individual = ind.clone();
        rr.get_solution(&mut cur);
        check(cur.phenotype.iter().all(|r| working.contains(r)) && is_partition(n, &cur.phenotype), "the solution is the last accepted");
        consistent(&ctx, &rr.solution);
        consistent(&ctx, rr.best_solution.as_ref().unwrap());
    }
    reach("end");
}

/// Stand-in operator of the elite education: keeps the solution up to some iteration, then offers any.
struct Late { from: usize }
thread_local! { static COUNT: std::cell::Cell<usize> = const { std::cell::Cell::new(0) }; }
impl Recreate for Late {
    fn run(&self, ctx: &Context, s: &mut RuinRecreateSolution) {
        let i = COUNT.with(|c| { c.set(c.get() + 1); c.get() });
        if i < self.from { s.evaluate(ctx, [0usize, 1].iter()); return; }
        if i == self.from { fastrand::verif::set(Policy { reals: Mode::Sym, real_budget: 8, real_lo: 1, ..Policy::FIXED }); }
        Pick.run(ctx, s);
    }
}

/// The elite education adapts the penalty once in a thousand iterations, and all it holds with it.
#[no_mangle]
pub extern "Rust" fn h_rr_elite() {
    let n = 3;
    let before = param("before", 2) as usize;
    let iterations = 1000 + param("after", 1) as usize;
    let mut ctx = setup(n, 2);
    {
        let mut c = ctx.config.borrow_mut();
        c.elite_education_time_based = false;
        c.elite_education_gamma = iterations as f64 / n as f64;
        c.elite_education_start_temp = [0.001, 50.0][uchoice("temperature", 0, 1)];
        c.penalty_inc_multiplier = 2.0;
        c.penalty_dec_multiplier = 0.5;
    }
    symbolic(&mut ctx, n);
    let old = ctx.config.borrow().penalty_capacity;
    let mut rr = RuinRecreate::new(&ctx);
    rr.ruin = Box::new(Keep);
    rr.recreate = Box::new(Late { from: 1000 - before });
    rr.setup_elite_education(&ctx);
    let first = menu(choice("first", 0, 1) as usize * 2);
    let mut ind = individual(&ctx, first.clone());
    fastrand::verif::set(Policy { reals: Mode::Fixed, ..Policy::FIXED });
    COUNT.with(|c| c.set(0));
    SEEN.with(|v| { let mut v = v.borrow_mut(); v.0.clear(); v.1.clear(); });
    rr.load(&ctx, &mut ind);
    rr.search();
    check(COUNT.with(|c| c.get()) == 1000 && !rr.complete(), "a thousand iterations before the search lets others take over");
    let (starts, _) = SEEN.with(|v| v.borrow().clone());
    // the working solution the thousandth iteration starts from
    let working = &starts[before];
    let feasible = working.iter().all(|r| route_load(&ctx, r) <= ctx.problem.vehicle.cap);
    let pen = ctx.config.borrow().penalty_capacity;
    check(pen == old * if feasible { 0.5 } else { 2.0 }, "the penalty follows the working solution");
    reach(if feasible { "lowered" } else { "raised" });
    consistent(&ctx, &rr.solution);
    consistent(&ctx, &rr.current_solution);
    consistent(&ctx, rr.best_solution.as_ref().unwrap());
    check((rr.best_cost() - rr.best_solution.as_ref().unwrap().cost).abs() == 0.0, "the best cost is that of the best solution");
    while !rr.complete() { rr.search(); }
    check(COUNT.with(|c| c.get()) == iterations, "as many candidates as iterations");
    check(ctx.config.borrow().penalty_capacity == pen, "the penalty is kept in between");
    consistent(&ctx, &rr.solution);
    consistent(&ctx, rr.best_solution.as_ref().unwrap());
    rr.get_best_solution(&mut ind);
    check((ind.penalized_cost() - penalized(&ctx, pen, &ind.phenotype)).abs() < 1e-6, "true cost");
    check((ind.penalized_cost() - rr.best_cost()).abs() < 1e-6, "the reported best cost");
    // the mutation search that follows keeps the penalty
    rr.setup_mutation(&ctx);
    check(!rr.update_penalty, "the penalty is adapted by the elite education only");
    reach("end");
}

/// Stand-in operator that counts how often it is called.
struct Count;
impl Recreate for Count {
    fn run(&self, ctx: &Context, s: &mut RuinRecreateSolution) {
        COUNT.with(|c| c.set(c.get() + 1));
        s.evaluate(ctx, [0usize, 1].iter());
    }
}

/// How long the elite education and the mutations after it take, driven by the genetic algorithm.
#[no_mangle]
pub extern "Rust" fn h_rr_elite_lengths() {
    let n = 3;
    flag("clock", -1);
    let elite = [0.5, 1.0, 2.5][uchoice("elite iterations", 0, 2)];
    let mutation = [0.5, 1.0, 4.0][uchoice("mutation iterations", 0, 2)];
    let timed = flip("timed");
    let mut ctx = setup(n, 2);
    let fraction = [0.0078125, 0.015625][uchoice("fraction", 0, 1)];
    {
        let mut c = ctx.config.borrow_mut();
        c.elite_education = true;
        c.elite_education_problem_size_limit = 1;
        c.elite_education_gamma = elite;
        c.elite_education_time_based = false;
        c.elite_education_time_fraction = fraction;
        c.time_limit = 100;
        c.max_iterations = None;
        c.rr_probability = 0.0;
        c.rr_gamma = mutation;
        c.log_interval = 1_000_000;
    }
    symbolic(&mut ctx, n);
    fastrand::verif::set(Policy { reals: Mode::Fixed, int_fixed: 1, ..Policy::FIXED });
    let mut ga = GeneticAlgorithm::new(&ctx);
    ga.rr.ruin = Box::new(Keep);
    ga.rr.recreate = Box::new(Count);
    COUNT.with(|c| c.set(0));
    ga.iterate(&ctx);
    check(COUNT.with(|c| c.get()) == 0 && ga.rr.update_penalty, "the elite education begins");
    ga.iterate(&ctx);
    check(COUNT.with(|c| c.get()) == (elite * n as f64).round() as usize, "the iterations of the elite education");
    ga.iterate(&ctx);
    check(ga.population.feasible.size() + ga.population.infeasible.size() == 1, "its result joins the population");
    check(!ga.rr.update_penalty, "the mutations that follow keep the penalty");
    let mut ind = individual(&ctx, menu(0));
    ga.rr.load(&ctx, &mut ind);
    COUNT.with(|c| c.set(0));
    while !ga.rr.complete() { ga.rr.search(); }
    check(COUNT.with(|c| c.get()) == (mutation * n as f64).round() as usize, "the iterations of a mutation");
    if timed {
        ctx.config.borrow_mut().elite_education_time_based = true;
        ga.rr.setup_elite_education(&ctx);
        ga.rr.load(&ctx, &mut ind);
        let mut elapsed = 0.0;
        for _ in 0..2 {
            let dt = int("dt", 0, 3);
            flag("tick", dt);
            elapsed += dt as f64;
            if flip("half") { flag("nanos", 500_000_000); elapsed = elapsed.trunc() + 0.5; }
            for _ in 0..100 { ga.rr.acceptance.update(); }
            let done = elapsed >= 100.0 * fraction;
            check(ga.rr.complete() == done, "the elite education takes its share of the time limit");
            if done { reach("time up"); return; }
        }
    }
    reach("end");
}
