use crate::common::*;
use crate::entries;
use crate::moves::{is_partition, ls_routes, make, no_better, penalized};
use fastrand::verif::{Mode, Policy};
use hybridcvrp::solver::genetic::Individual;
use hybridcvrp::solver::improvement::*;
use hybridcvrp::solver::Context;

entries!(h_ls, h_ls_rounding);

/// Move families switched on: bit i of `on` = move i of `make`, bit 9 = SWAP*.
fn enable(ctx: &Context, on: i64) {
    let mut c = ctx.config.borrow_mut();
    let b = |i: i64| on >> i & 1 == 1;
    c.relocate_single = b(0);
    c.relocate_double = b(1);
    c.relocate_double_reverse = b(2);
    c.swap_one_with_one = b(3);
    c.swap_two_with_one = b(4);
    c.swap_two_with_two = b(5);
    c.two_opt_intra_reverse = b(6);
    c.two_opt_inter_reverse = b(7);
    c.two_opt_inter = b(8);
    c.swap_star = b(9);
}

fn same(a: &Individual, b: &Individual) -> bool { a.phenotype == b.phenotype && a.genotype == b.genotype }

/// A run of the local search: complete, no worse, a local optimum of the enabled neighbour moves, and
/// independent of an earlier use of the object.
#[no_mangle]
pub extern "Rust" fn h_ls() {
    let n = param("n", 3) as usize;
    let k = param("k", 3) as usize;
    let on = match choice("enabled", param("e0", 0), param("e1", 0)) {
        0 => 0x3ff,
        1 => 0x1ff,
        2 => 0x001,
        3 => 0x1f8,
        4 => 0x207,
        6 => 0x004,
        7 => 0x002,
        8 => 0x100,
        9 => 0x084,
        _ => 0x200,
    };
    let pen = param("pen", 100) as f64;
    let granularity = param("gran", n as i64 - 1);
    let mut ctx = base_ctx(n, |c| c.local_search_granularity = granularity as u64);
    ctx.config.borrow_mut().num_vehicles = k as u64;
    ctx.config.borrow_mut().penalty_capacity = 7.0;
    enable(&ctx, on);
    ctx.problem.vehicle.cap = param("cap", 2) as f64;
    let mult = pen / 7.0;
    let draws = param("draws", 0) as u32;
    let policy = Policy { ints: Mode::Sym, int_budget: draws, shuffle_identity: param("shuffle", 0) == 0, int_fixed: 1, ..Policy::FIXED };

    // an object that has already been used on another solution and penalty, and a new one
    let mut used = LocalSearch::new(&ctx, 1.0);
    fastrand::verif::set(Policy { int_fixed: 1, ..Policy::FIXED });
    let warm = param("warm", 1) == 1;
    if warm {
        let mut r = vec![Vec::new(); k];
        for i in 1..=n { r[i % k.min(2)].push(n + 1 - i); }
        let mut other = individual(&ctx, r);
        used.run(&ctx, &mut other, param("warmmult", 30) as f64);
    }
    let mut routes = choose_routes(n, k);
    // routes that cross each other
    if param("mix", 0) == 1 {
        for c in routes.iter_mut().flatten() { *c = [0, 1, 3, 2, 4, 5, 6][*c]; }
    }
    sym_distances_partial(&mut ctx, param("mask", 0xffff), 1000);
    if param("symq", 0) == 1 { sym_demands(&mut ctx, 1, 3); }
    let start = individual(&ctx, routes.clone());
    let old = penalized(&ctx, pen, &routes);
    fastrand::verif::set(policy);
    let mut ind = start.clone();
    if warm { used.run(&ctx, &mut ind, mult); } else { used = LocalSearch::new(&ctx, 1.0); fastrand::verif::set(policy); used.run(&ctx, &mut ind, mult); }

    check(ind.phenotype.len() == k, "as many routes as before");
    check(is_partition(n, &ind.phenotype), "every customer exactly once");
    check(ind.genotype == ind.phenotype.concat(), "the tour is the concatenation of the routes");
    let new = penalized(&ctx, pen, &ind.phenotype);
    check(new < old + 1e-5, "not worse than before");
    if new < old - 1e-3 { reach("improved"); }
    check((ind.penalized_cost() - penalized(&ctx, 7.0, &ind.phenotype)).abs() < 1e-5, "truthful evaluation");

    // the state of the search object is that solution, and no neighbour move improves it
    unsafe {
        let held = ls_routes(&used, &ctx);
        check((used.penalty_capacity - pen).abs() < 1e-6, "the penalty of this search");
        check(is_partition(n, &held) && held.iter().all(|r| ind.phenotype.contains(r)), "the search holds the same routes");
        for m in 0..9 {
            if on >> m & 1 == 0 { continue; }
            let mv = make(m);
            for u in 1..=n {
                for &v in nearest(&ctx, u, granularity as usize).iter() {
                    let (p, q) = (&mut used.nodes[u] as *mut LinkNode, &mut used.nodes[v] as *mut LinkNode);
                    let delta = mv.delta(&used, p, q);
                    check(delta > -1.1e-6, "no improving neighbour move is left");
                    let before = (*q).predecessor;
                    if (*before).is_depot() && matches!(m, 0 | 1 | 2 | 7 | 8) {
                        let delta = mv.delta(&used, p, before);
                        check(delta > -1.1e-6, "no improving move to the front of a route is left");
                    }
                }
            }
            // routes not in use are tried from the second pass on, and there is one after any improvement
            if new < old - 1e-3 && matches!(m, 0 | 1 | 2 | 8) {
                if let Some(r) = (0..k).find(|r| used.routes[*r].is_empty()) {
                    let depot = used.routes[r].start_depot;
                    for u in 1..=n {
                        let p = &mut used.nodes[u] as *mut LinkNode;
                        let delta = mv.delta(&used, p, depot);
                        check(delta > -1.1e-6, "no improving move into an unused route is left");
                    }
                    reach("unused route");
                }
            }
        }
    }
    // SWAP* has nothing left to do between routes that overlap
    if on >> 9 & 1 == 1 {
        let used_routes: Vec<&Vec<usize>> = ind.phenotype.iter().filter(|r| !r.is_empty()).collect();
        for (i, a) in used_routes.iter().enumerate() { for b in &used_routes[i + 1..] {
            if !sector(&ctx, a).overlaps(&sector(&ctx, b)) { continue; }
            let two = [a.to_vec(), b.to_vec()];
            let cost = penalized(&ctx, pen, &two);
            no_better(&ctx, pen, &two, cost, cost);
            reach("overlap");
        } }
    }
    obs("cost", new);
    if warm && draws == 0 {
        fastrand::verif::set(policy);
        let mut fresh = LocalSearch::new(&ctx, 1.0);
        fastrand::verif::set(policy);
        let mut again = start.clone();
        fresh.run(&ctx, &mut again, mult);
        check(same(&ind, &again), "an earlier run does not matter");
    }
    reach("end");
}

fn sector(ctx: &Context, route: &[usize]) -> hybridcvrp::models::CircleSector {
    let mut s = hybridcvrp::models::CircleSector::new();
    for &c in route { s.extend(ctx.problem.get_angle(c)); }
    s
}

/// The neighbours the search is to look at.
fn nearest(ctx: &Context, u: usize, granularity: usize) -> Vec<usize> {
    let mut c = ctx.matrix_provider.correlation.clone();
    let m = granularity.min(ctx.problem.dim() - 2);
    c.top_slice_mut(u, m).to_vec()
}

/// Overload in tenths, and the distance, of the routes held by the search. Exact: distances are integers.
unsafe fn exact(ls: &LocalSearch, ctx: &Context) -> (i64, f64) {
    let tenths = |x: f64| (x * 10.0).round() as i64;
    let (mut over, mut dist) = (0, 0.0);
    for r in ls.routes.iter() {
        let mut load = 0;
        let mut node = r.start_depot;
        loop {
            let next = (*node).successor;
            if next.is_null() { break; }
            dist += ctx.matrix_provider.distance.get((*node).number, (*next).number);
            load += tenths(ctx.problem.nodes[(*next).number].demand);
            node = next;
        }
        over += (load - tenths(ctx.problem.vehicle.cap)).max(0);
    }
    (over, dist)
}
fn improved(a: (i64, f64), b: (i64, f64)) -> bool { b.0 < a.0 || b.0 == a.0 && b.1 < a.1 }

/// A move that looks at what it does.
struct Watched(Box<dyn Move>);
impl Move for Watched {
    fn move_name(&self) -> &'static str { self.0.move_name() }
    unsafe fn delta(&self, ls: &LocalSearch, u: *mut LinkNode, v: *mut LinkNode) -> f64 { self.0.delta(ls, u, v) }
    unsafe fn perform(&self, ls: &mut LocalSearch, u: *mut LinkNode, v: *mut LinkNode) {
        let before = exact(ls, ls.ctx);
        self.0.perform(ls, u, v);
        check(improved(before, exact(ls, ls.ctx)), "every move made is an improvement, whatever the rounding");
        reach("moved");
    }
}

/// Costs so high that their rounding errors exceed the tolerance of the comparisons: no move is made because of
/// the errors, so that the search ends.
#[no_mangle]
pub extern "Rust" fn h_ls_rounding() {
    let n = param("n", 3) as usize;
    let k = param("k", 2) as usize;
    let mut ctx = base_ctx(n, |c| c.swap_star = false);
    ctx.config.borrow_mut().num_vehicles = k as u64;
    enable(&ctx, param("on", 0x1ff));
    let pen = [52_500_000.3, 33_333_333.1, 7.7][uchoice("pen", 0, param("pens", 1) as usize)];
    ctx.config.borrow_mut().penalty_capacity = pen;
    ctx.problem.vehicle.cap = param("cap", 61) as f64 * 1.1;
    for i in 1..=n { ctx.problem.nodes[i].demand = [100.1, 120.7, 99.9, 130.3][if param("equal", 0) == 1 { 0 } else { i % 4 }]; }
    sym_distances_partial(&mut ctx, param("mask", 0x3f), 1000);
    let routes = choose_routes(n, k);
    let mut ind = individual(&ctx, routes);
    let mut ls = LocalSearch::new(&ctx, 1.0);
    fastrand::verif::set(Policy { int_fixed: 1, ..Policy::FIXED });
    let watch = |m: Vec<Box<dyn Move>>| m.into_iter().map(|m| Box::new(Watched(m)) as Box<dyn Move>).collect::<Vec<_>>();
    ls.moves.neighbor = watch(std::mem::take(&mut ls.moves.neighbor));
    ls.moves.depot = watch(std::mem::take(&mut ls.moves.depot));
    ls.moves.empty_route = watch(std::mem::take(&mut ls.moves.empty_route));
    ls.run(&ctx, &mut ind, 1.0);
    check(is_partition(n, &ind.phenotype), "every customer exactly once");
    if param("exchange", 0) == 1 { unsafe {
        for i in 0..k { for j in i + 1..k {
            let (p, q) = (&mut ls.routes[i] as *mut LinkRoute, &mut ls.routes[j] as *mut LinkRoute);
            if (*p).is_empty() || (*q).is_empty() { continue; }
            let before = exact(&ls, &ctx);
            if SwapStar::run(&mut ls, p, q) {
                check(improved(before, exact(&ls, &ctx)), "every exchange made is an improvement, whatever the rounding");
                reach("exchanged");
            } else { reach("nothing to exchange"); }
        } }
    } }
    reach("end");
}
