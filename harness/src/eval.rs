use crate::common::*;
use crate::entries;

entries!(h_eval, h_eval_again);

/// Evaluation of an arbitrary solution.
#[no_mangle]
pub extern "Rust" fn h_eval() {
    let n = param("n", 3) as usize;
    let k = param("k", 3) as usize;
    let mut ctx = base_ctx(n, |c| c.num_vehicles = k as u64);
    sym_distances(&mut ctx, 1000, 0, false);
    let shift = param("shift", 0) as u32;
    for i in 1..=n { ctx.problem.nodes[i].demand = f64s("q", 0, 20 << shift, shift); }
    ctx.problem.vehicle.cap = f64s("cap", 1, 40 << shift, shift);
    let pen = f64i("pen", 0, 100);
    ctx.config.borrow_mut().penalty_capacity = pen;
    let routes = choose_routes(n, k);
    let ind = individual(&ctx, routes.clone());
    let mut total = 0.0;
    let (mut fits, mut exceeds) = (true, false);
    for (r, route) in routes.iter().enumerate() {
        let d = route_distance(&ctx, route);
        let over = route_load(&ctx, route) - ctx.problem.vehicle.cap;
        check(ind.evaluation.routes[r].distance == d, "route distance");
        check(ind.evaluation.routes[r].overload == over, "route overload");
        if over > 1e-6 * 0.99 { fits = false; }
        if over > 1e-6 * 1.01 { exceeds = true; reach("overloaded"); } else if over > 0.0 { reach("within tolerance"); }
        total += d + pen * pos(over);
    }
    check((ind.penalized_cost() - total).abs() < 1e-6, "total cost");
    if fits { check(ind.is_feasible(), "feasible"); }
    if exceeds { check(!ind.is_feasible(), "not feasible"); }
    obs("cost", ind.penalized_cost());
    reach("end");
}

/// The recorded neighbours, whatever was evaluated before.
#[no_mangle]
pub extern "Rust" fn h_eval_again() {
    let n = param("n", 4) as usize;
    let k = param("k", 3) as usize;
    let mut ctx = base_ctx(n, |c| c.num_vehicles = k as u64);
    sym_distances_partial(&mut ctx, param("mask", 0x3), 1000);
    ctx.problem.vehicle.cap = f64i("cap", 1, 6);
    let mut ind = individual(&ctx, choose_routes(n, k));
    // a second solution, other routes, perhaps more or fewer of them
    let first = ind.phenotype.clone();
    let mut routes = choose_routes(n, k);
    if flip("reversed") { for r in routes.iter_mut() { r.reverse(); } }
    match choice("routes", 0, 2) { 0 => routes.insert(0, Vec::new()), 1 => routes.retain(|r| !r.is_empty()), _ => () }
    ind.phenotype = routes.clone();
    ind.evaluate(&ctx);
    let mut total = 0.0;
    let mut feasible = true;
    for (r, route) in routes.iter().enumerate() {
        let d = route_distance(&ctx, route);
        let over = route_load(&ctx, route) - ctx.problem.vehicle.cap;
        check(ind.evaluation.routes[r].distance == d, "route distance");
        check(ind.evaluation.routes[r].overload == over, "route overload");
        if over > 0.0 { feasible = false; }
        total += d + ctx.config.borrow().penalty_capacity * pos(over);
        for (i, &c) in route.iter().enumerate() {
            check(ind.evaluation.predecessors[c] == if i == 0 { 0 } else { route[i - 1] }, "predecessor");
            check(ind.evaluation.successors[c] == if i + 1 == route.len() { 0 } else { route[i + 1] }, "successor");
        }
    }
    check((ind.penalized_cost() - total).abs() < 1e-6, "total cost");
    check(ind.is_feasible() == feasible, "feasible");
    if first.iter().filter(|r| r.len() == 1).count() < routes.iter().filter(|r| r.len() == 1).count() { reach("shorter routes"); }
    reach("end");
}
