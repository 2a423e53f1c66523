use crate::common::*;
use crate::entries;
use hybridcvrp::solver::genetic::{Individual, Split};

entries!(h_split);

/// The genotype order: number `perm` of a few fixed orders.
fn order(n: usize, perm: i64) -> Vec<usize> {
    let id: Vec<usize> = (1..=n).collect();
    match perm {
        0 => id,
        1 => id.into_iter().rev().collect(),
        2 => (0..n).map(|i| (i + 1) % n + 1).collect(),
        _ => {
            let mut v = id;
            v.swap(0, 1);
            v.swap(n - 1, n / 2);
            v
        }
    }
}

/// Split of a giant tour: cheapest cut into consecutive segments (at most `vehicles` of them).
#[no_mangle]
pub extern "Rust" fn h_split() {
    let n = param("n", 4) as usize;
    let linear = param("linear", 1) == 1;
    let perm = choice("perm", param("p0", 3), param("p1", 3));
    let tour = order(n, perm);
    let limit = choice("limit", param("lim0", 1), param("lim1", n as i64)) as u64;
    let mut ctx = base_ctx(n, |c| c.linear_split = linear);
    ctx.config.borrow_mut().num_vehicles = param("fleet", n as i64 + 1) as u64;
    let cap = param("cap", 10) as f64;
    ctx.problem.vehicle.cap = cap;
    // the penalty changes between uses of the splitter
    ctx.config.borrow_mut().penalty_capacity = 7.0;
    let mut split = Split::new(&ctx);
    if param("warm", 1) == 1 {
        // earlier use of the same splitter, with and without a binding limit
        for q in [param("warmq", 9) as f64, 1.0] {
            for i in 1..=n { ctx.problem.nodes[i].demand = q; }
            let mut other = Individual::new((1..=n).rev().collect(), 0);
            split.run(&ctx, &mut other, param("warmlimit", 1) as u64);
        }
    }
    ctx.config.borrow_mut().penalty_capacity = [0.5, 100.0][uchoice("pen", 0, 1)];
    sym_distances(&mut ctx, 1000, 0, true);
    if param("symq", 1) == 1 {
        sym_demands(&mut ctx, 1, param("qmax", 10));
    } else {
        for i in 1..=n { ctx.problem.nodes[i].demand = if param("big", 0) == 1 { [6.0, 10.0, 6.0, 10.0, 6.0, 10.0] } else { [4.0, 7.0, 3.0, 6.0, 5.0, 2.0] }[i - 1]; }
    }
    let pen = ctx.config.borrow().penalty_capacity;
    let mut ind = Individual::new(tour.clone(), 0);
    split.run(&ctx, &mut ind, limit);

    // the routes are consecutive segments of the tour
    check(ind.phenotype.len() == ctx.config.borrow().num_vehicles as usize, "one route per vehicle of the fleet");
    let mut segs: Vec<Vec<usize>> = ind.phenotype.iter().filter(|r| !r.is_empty()).cloned().collect();
    check(segs.iter().flatten().count() == n, "every customer once");
    let at = |c: usize| tour.iter().position(|x| *x == c).unwrap();
    for r in &segs {
        for w in r.windows(2) { check(at(w[0]) + 1 == at(w[1]), "a route is a segment of the tour"); }
    }
    segs.sort_by_key(|r| at(r[0]));
    check(segs.concat() == tour, "the segments are the tour");
    check(ind.genotype == ind.phenotype.concat(), "the new giant tour is the concatenation of the routes");

    // number of routes
    let total = tour.iter().fold(0.0, |a, &c| a + ctx.problem.nodes[c].demand);
    // smallest v with v * cap >= total
    let mut lower = 0;
    while (lower as f64) * cap < total { lower += 1; }
    let max = (limit as usize).max(lower);
    check(segs.len() <= max, "no more routes than allowed");
    if segs.len() == limit as usize { reach("limit met"); }
    if lower > limit as usize { reach("limit below the lower bound"); }

    // cost
    let seg_cost = |a: usize, b: usize| {
        let r = &tour[a..b];
        let load = route_load(&ctx, r);
        (route_distance(&ctx, r) + pen * pos(load - cap), load)
    };
    let cost = ind.penalized_cost();
    let mut own = 0.0;
    for r in &segs { own = own + route_distance(&ctx, r) + pen * pos(route_load(&ctx, r) - cap); }
    check((own - cost).abs() < 1e-4, "the cost is that of the routes");
    // the quadratic split only considers loads up to 1.5 capacities, if that leaves any cut
    let mut possible = linear;
    for pass in 0..2 {
    if pass == 1 && !possible { reach("no cut within the load factor"); }
    for cuts in 0..1usize << (n - 1) {
        if cuts.count_ones() as usize + 1 > max { continue; }
        let (mut sum, mut a, mut ok) = (0.0, 0, true);
        for b in 1..=n {
            if b == n || cuts >> (b - 1) & 1 == 1 {
                let (c, l) = seg_cost(a, b);
                if (pass == 0 || possible) && !linear && l > 1.5 * cap { ok = false; break; }
                sum += c;
                a = b;
            }
        }
        if pass == 0 { possible |= ok; }
        else if ok { check(cost < sum + 1e-4, "no cheaper cut"); }
    }
    }
    obs("cost", cost);
    reach("end");
}
