use crate::common::*;
use crate::entries;
use hybridcvrp::solver::improvement::*;
use hybridcvrp::solver::Context;

entries!(h_move, h_swap_star, h_swap_star_three);

/// The routes held by the local search, read forward; checks links and bookkeeping.
pub unsafe fn ls_routes(ls: &LocalSearch, ctx: &Context) -> Vec<Vec<usize>> {
    let mut out = Vec::new();
    for r in 0..ls.routes.len() {
        let route = &ls.routes[r];
        let start = route.start_depot;
        check((*start).is_depot() && (*start).predecessor.is_null(), "start depot");
        let mut nodes = Vec::new();
        let (mut prev, mut node) = (start, (*start).successor);
        let (mut dist, mut load) = (0.0, 0.0);
        let mut steps = 0;
        while !node.is_null() && !(*node).is_depot() {
            steps += 1;
            check(steps <= ctx.problem.dim(), "route is acyclic");
            if steps > ctx.problem.dim() { break; }
            check((*node).predecessor == prev, "predecessor link");
            check((*node).route as *const LinkRoute == route as *const LinkRoute, "route of customer");
            dist += ctx.matrix_provider.distance.get((*prev).number, (*node).number);
            load += ctx.problem.nodes[(*node).number].demand;
            check((*node).position == nodes.len() + 1, "position");
            check(((*node).cum_distance - dist).abs() < 1e-6, "cumulative distance");
            check(((*node).cum_load - load).abs() < 1e-6, "cumulative load");
            nodes.push((*node).number);
            prev = node;
            node = (*node).successor;
        }
        check(!node.is_null() && node == route.end_depot, "route ends at its own depot");
        check(!node.is_null() && (*node).predecessor == prev && (*node).successor.is_null(), "end depot links");
        dist += ctx.matrix_provider.distance.get((*prev).number, 0);
        check((route.distance - dist).abs() < 1e-6, "route distance");
        check((route.load - load).abs() < 1e-6, "route load");
        check((route.overload - (load - ctx.problem.vehicle.cap)).abs() < 1e-6, "route overload");
        check((route.cost - (dist + ls.penalty_capacity * pos(load - ctx.problem.vehicle.cap))).abs() < 1e-6, "route cost");
        check(route.num_customers == nodes.len(), "route customer count");
        check(ls.empty_routes.contains(&r) == nodes.is_empty(), "empty route set");
        out.push(nodes);
    }
    out
}
pub fn is_partition(n: usize, routes: &[Vec<usize>]) -> bool {
    let mut seen = vec![0; n + 1];
    let mut count = 0;
    for r in routes {
        for &c in r {
            if c == 0 || c > n { return false; }
            seen[c] += 1;
            count += 1;
        }
    }
    count == n && seen[1..].iter().all(|&x| x == 1)
}
pub fn penalized(ctx: &Context, pen: f64, routes: &[Vec<usize>]) -> f64 {
    routes.iter().map(|r| route_distance(ctx, r) + pen * pos(route_load(ctx, r) - ctx.problem.vehicle.cap)).sum()
}

pub fn make(k: i64) -> Box<dyn Move> {
    match k {
        0 => Box::new(RelocateSingle),
        1 => Box::new(RelocateDouble),
        2 => Box::new(RelocateDoubleReverse),
        3 => Box::new(SwapOneWithOne),
        4 => Box::new(SwapTwoWithOne),
        5 => Box::new(SwapTwoWithTwo),
        6 => Box::new(TwoOptIntraReverse),
        7 => Box::new(TwoOptInterReverse),
        _ => Box::new(TwoOptInter),
    }
}

/// One move, any solution shape over n customers and k routes, any pair of nodes, any distances,
/// demands, capacity: the promised delta is the real change of the penalised cost, and the solution
/// stays a partition with consistent bookkeeping.
#[no_mangle]
pub extern "Rust" fn h_move() {
    let n = param("n", 4) as usize;
    let k = param("k", 2) as usize;
    let m = choice("move", param("m0", 0), param("m1", 8));
    let routes = choose_routes(n, k);
    let u = uchoice("u", 1, n);
    let depot_ok = matches!(m, 0 | 1 | 2 | 7 | 8);
    let v = uchoice("v", 1, if depot_ok { n + k } else { n });
    assume(u != v);
    let mut ctx = base_ctx(n, |_| {});
    ctx.config.borrow_mut().num_vehicles = k as u64;
    sym_distances(&mut ctx, 1000, 0, true);
    sym_demands(&mut ctx, 1, 20);
    ctx.problem.vehicle.cap = f64i("cap", 20, 40);
    let pen = [0.5, 100.0][uchoice("pen", 0, 1)];
    ctx.config.borrow_mut().penalty_capacity = pen;
    let ind = individual(&ctx, routes.clone());
    let mut ls = LocalSearch::new(&ctx, 1.0);
    ls.load_individual(&ind);
    unsafe {
        let before = ls_routes(&ls, &ctx);
        check(before == routes, "loaded routes");
        let mv = make(m);
        let up = &mut ls.nodes[u] as *mut LinkNode;
        let vp = if v <= n { &mut ls.nodes[v] as *mut LinkNode } else { &mut ls.start_depots[v - n - 1] as *mut LinkNode };
        let delta = mv.delta(&ls, up, vp);
        if delta < -0.000001 {
            reach("improving");
            let old = penalized(&ctx, pen, &routes);
            ls.move_count += 1;
            mv.perform(&mut ls, up, vp);
            let after = ls_routes(&ls, &ctx);
            check(is_partition(n, &after), "every customer exactly once");
            check((penalized(&ctx, pen, &after) - old - delta).abs() < 1e-6, "delta is the real change");
            obs("delta", delta);
        }
    }
    reach("end");
}

/// SWAP* between two routes (`runs` = 2: the second run meets the cached insertion positions).
#[no_mangle]
pub extern "Rust" fn h_swap_star() {
    let a = param("a", 2) as usize;
    let b = param("b", 1) as usize;
    let runs = param("runs", 1);
    let n = a + b;
    let mut ctx = base_ctx(n, |_| {});
    ctx.config.borrow_mut().num_vehicles = 2;
    sym_distances_partial(&mut ctx, param("mask", 0xffff), 1000);
    if param("symq", 1) == 1 {
        sym_demands(&mut ctx, 1, 20);
        ctx.problem.vehicle.cap = f64i("cap", 20, 40);
    } else {
        ctx.problem.vehicle.cap = param("cap", 2) as f64;
    }
    let pen = param("pen", 100) as f64;
    ctx.config.borrow_mut().penalty_capacity = pen;
    let routes = vec![(1..=a).collect::<Vec<usize>>(), (a + 1..=n).collect()];
    let ind = individual(&ctx, routes.clone());
    let mut ls = LocalSearch::new(&ctx, 1.0);
    ls.load_individual(&ind);
    let mut cur = routes;
    unsafe {
        for _ in 0..runs {
            let old = penalized(&ctx, pen, &cur);
            let (p, q) = (&mut ls.routes[0] as *mut LinkRoute, &mut ls.routes[1] as *mut LinkRoute);
            let improved = SwapStar::run(&mut ls, p, q);
            let after = ls_routes(&ls, &ctx);
            check(is_partition(n, &after), "every customer exactly once");
            if improved {
                reach("improved");
                check(penalized(&ctx, pen, &after) < old - 0.5e-6, "an applied SWAP* improves");
            } else {
                check(after == cur, "a rejected SWAP* changes nothing");
            }
            // rejected: nothing improves; applied: nothing would have been better
            if param("complete", 1) == 1 { no_better(&ctx, pen, &cur, old, penalized(&ctx, pen, &after)); }
            cur = after;
            if cur.iter().any(|r| r.is_empty()) { break; }
        }
    }
    reach("end");
}

/// SWAP* between pairs of three routes, in any order: what an earlier exchange left behind in any of them does not
/// disturb a later one.
#[no_mangle]
pub extern "Rust" fn h_swap_star_three() {
    let sizes = [param("a", 2) as usize, param("b", 1) as usize, param("c", 1) as usize];
    let n: usize = sizes.iter().sum();
    let mut ctx = base_ctx(n, |_| {});
    ctx.config.borrow_mut().num_vehicles = 3;
    sym_distances_partial(&mut ctx, param("mask", 7), 1000);
    if param("symq", 0) == 1 { sym_demands(&mut ctx, 1, 3); }
    ctx.problem.vehicle.cap = param("cap", 2) as f64;
    let pen = param("pen", 100) as f64;
    ctx.config.borrow_mut().penalty_capacity = pen;
    let mut cur = Vec::new();
    let mut next = 1;
    for s in sizes { cur.push((next..next + s).collect::<Vec<usize>>()); next += s; }
    let ind = individual(&ctx, cur.clone());
    let mut ls = LocalSearch::new(&ctx, 1.0);
    ls.load_individual(&ind);
    unsafe {
        for turn in 0..param("runs", 3) {
            let (i, j) = [(0, 1), (0, 2), (1, 2)][uchoice("pair", 0, 2)];
            if cur[i].is_empty() || cur[j].is_empty() { break; }
            let two = [cur[i].clone(), cur[j].clone()];
            let old = penalized(&ctx, pen, &two);
            let (p, q) = (&mut ls.routes[i] as *mut LinkRoute, &mut ls.routes[j] as *mut LinkRoute);
            let improved = SwapStar::run(&mut ls, p, q);
            let after = ls_routes(&ls, &ctx);
            check(is_partition(n, &after), "every customer exactly once");
            check(after[3 - i - j] == cur[3 - i - j], "the third route stays");
            let new = penalized(&ctx, pen, &[after[i].clone(), after[j].clone()]);
            if improved {
                if turn > 0 { reach("improved later"); }
                check(new < old - 0.5e-6, "an applied SWAP* improves");
            } else {
                check(after == cur, "a rejected SWAP* changes nothing");
            }
            no_better(&ctx, pen, &two, old, new);
            cur = after;
        }
    }
    reach("end");
}

fn cheapest_insertion(ctx: &Context, route: &[usize], c: usize) -> f64 {
    let d = &ctx.matrix_provider.distance;
    let mut best = f64::INFINITY;
    for i in 0..=route.len() {
        let a = if i == 0 { 0 } else { route[i - 1] };
        let b = if i == route.len() { 0 } else { route[i] };
        let x = d.get(a, c) + d.get(c, b) - d.get(a, b);
        best = best.min(x);
    }
    best
}
fn without(route: &[usize], c: usize) -> Vec<usize> { route.iter().copied().filter(|x| *x != c).collect() }

/// No relocation between the two routes improves, and no exchange that passes SWAP*'s own filter.
pub fn no_better(ctx: &Context, pen: f64, cur: &[Vec<usize>], old: f64, new: f64) {
    let cap = ctx.problem.vehicle.cap;
    let cost = |d: f64, l: f64| d + pen * pos(l - cap);
    let (r1, r2) = (&cur[0], &cur[1]);
    let (d1, d2, l1, l2) = (route_distance(ctx, r1), route_distance(ctx, r2), route_load(ctx, r1), route_load(ctx, r2));
    for &u in r1 {
        let q = ctx.problem.nodes[u].demand;
        let x = cost(route_distance(ctx, &without(r1, u)), l1 - q) + cost(d2 + cheapest_insertion(ctx, r2, u), l2 + q);
        check(x > new - 1e-5, "no improving relocation is left");
    }
    for &v in r2 {
        let q = ctx.problem.nodes[v].demand;
        let x = cost(route_distance(ctx, &without(r2, v)), l2 - q) + cost(d1 + cheapest_insertion(ctx, r1, v), l1 + q);
        check(x > new - 1e-5, "no improving relocation is left");
    }
    for &u in r1 {
        for &v in r2 {
            let (qu, qv) = (ctx.problem.nodes[u].demand, ctx.problem.nodes[v].demand);
            let (w1, w2) = (without(r1, u), without(r2, v));
            let (e1, e2) = (route_distance(ctx, &w1), route_distance(ctx, &w2));
            let bound = cost(e1, l1 - qu + qv) + cost(e2, l2 - qv + qu);
            let x = bound + cheapest_insertion(ctx, &w1, v) + cheapest_insertion(ctx, &w2, u);
            check(bound > old - 1e-9 || x > new - 1e-5, "no improving exchange is left");
        }
    }
}
