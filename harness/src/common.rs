use hybridcvrp::config::Config;
use hybridcvrp::models::{Coordinate, DistanceMatrix, Matrix, Node, ProblemBuilder, Vehicle};
use hybridcvrp::solver::genetic::Individual;
use hybridcvrp::solver::Context;
use hybridcvrp::utils::ProblemParser;
use instant::Instant;
pub use symapi::*;

pub const COORDS: [(f64, f64); 9] = [
    (0.0, 0.0), (30.0, 5.0), (10.0, 40.0), (-35.0, 20.0), (-20.0, -25.0), (15.0, -45.0), (50.0, -10.0), (-60.0, 7.0), (5.0, 70.0),
];

/// A concrete context with `n` customers (unit demands), explicit matrix from COORDS.
pub fn base_ctx(n: usize, set: impl FnOnce(&mut Config)) -> Context {
    let nodes: Vec<Node> = (0..=n)
        .map(|i| Node { id: i + 1, coord: Coordinate { lng: COORDS[i % 9].0 + (i / 9) as f64, lat: COORDS[i % 9].1 }, demand: if i == 0 { 0.0 } else { 1.0 } })
        .collect();
    let problem = ProblemBuilder::new(nodes, Vehicle { id: 0, cap: 2.0 }).build();
    let mut config = Config::default();
    config.deterministic = true;
    config.seed = 1;
    config.time_limit = 1_000_000;
    config.local_search_granularity = if n > 1 { n as u64 - 1 } else { 1 };
    set(&mut config);
    let mut parser = ProblemParser::new();
    parser.problem = Some(problem);
    Context::new(parser, config, Instant::now())
}

/// Replace the distances by symbolic ones `k * 2^-shift`, `0 <= k <= hi`, zero diagonal.
pub fn sym_distances(ctx: &mut Context, hi: i64, shift: u32, symmetric: bool) {
    let dim = ctx.problem.dim();
    let mut m: Matrix<f64> = Matrix::new(dim, dim);
    for i in 0..dim {
        for j in 0..dim {
            if i == j {
                m.set(i, j, 0.0);
            } else if i < j || !symmetric {
                let d = f64s("d", 0, hi, shift);
                m.set(i, j, d);
                if symmetric {
                    m.set(j, i, d);
                }
            }
        }
    }
    let locations = ctx.problem.nodes.iter().map(|n| n.coord).collect();
    ctx.matrix_provider.distance = DistanceMatrix::new(locations, m, true, false, None);
}

/// Symmetric distances: pair number p (in row order) symbolic if bit p of `mask` is set, else the
/// rounded Euclidean distance of COORDS.
pub fn sym_distances_partial(ctx: &mut Context, mask: i64, hi: i64) {
    let dim = ctx.problem.dim();
    let mut m: Matrix<f64> = Matrix::new(dim, dim);
    let mut p = 0;
    for i in 0..dim {
        m.set(i, i, 0.0);
        for j in i + 1..dim {
            let (a, b) = (COORDS[i], COORDS[j]);
            let d = if mask >> p & 1 == 1 { f64i("d", 0, hi) } else { ((a.0 - b.0).powi(2) + (a.1 - b.1).powi(2)).sqrt().round() };
            m.set(i, j, d);
            m.set(j, i, d);
            p += 1;
        }
    }
    let locations = ctx.problem.nodes.iter().map(|n| n.coord).collect();
    ctx.matrix_provider.distance = DistanceMatrix::new(locations, m, true, false, None);
}

pub fn sym_demands(ctx: &mut Context, lo: i64, hi: i64) {
    for i in 1..ctx.problem.dim() {
        ctx.problem.nodes[i].demand = f64i("q", lo, hi);
    }
}

/// Every ordered set of `k` routes (some empty) over customers 1..=n in the order given by `perm`:
/// the route sizes are chosen.
pub fn choose_routes(n: usize, k: usize) -> Vec<Vec<usize>> {
    let mut routes = Vec::with_capacity(k);
    let mut next = 1;
    for r in 0..k {
        let left = n + 1 - next;
        let size = if r + 1 == k { left } else { uchoice("route.size", 0, left) };
        routes.push((next..next + size).collect::<Vec<usize>>());
        next += size;
    }
    routes
}

pub fn individual(ctx: &Context, routes: Vec<Vec<usize>>) -> Individual {
    let mut ind = Individual::new(routes.iter().flatten().copied().collect(), 0);
    ind.phenotype = routes;
    ind.evaluate(ctx);
    ind
}

pub fn pos(x: f64) -> f64 { if x > 0.0 { x } else { 0.0 } }

/// Independent re-computation of a route's distance.
pub fn route_distance(ctx: &Context, route: &[usize]) -> f64 {
    let d = &ctx.matrix_provider.distance;
    let mut sum = 0.0;
    let mut last = 0;
    for &c in route {
        sum += d.get(last, c);
        last = c;
    }
    sum + d.get(last, 0)
}
pub fn route_load(ctx: &Context, route: &[usize]) -> f64 {
    route.iter().fold(0.0, |a, &c| a + ctx.problem.nodes[c].demand)
}
