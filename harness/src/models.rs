use crate::common::*;
use crate::entries;
use hybridcvrp::models::*;
use hybridcvrp::utils::FloatCompare;

entries!(h_distance, h_neighbours, h_sector, h_angle, h_float, h_broken_pairs, h_context, h_sort_routes);

fn coords(n: usize, hi: i64) -> Vec<Coordinate> {
    (0..n).map(|_| Coordinate { lng: f64s("x", -hi, hi, 2), lat: f64s("y", -hi, hi, 2) }).collect()
}
fn euclid(a: &Coordinate, b: &Coordinate) -> f64 {
    let (x, y) = (a.lng - b.lng, a.lat - b.lat);
    (x * x + y * y).sqrt()
}
fn rounds_to(r: f64, x: f64) -> bool { r == r.trunc() && (r - x).abs() <= 0.5 + 1e-9 }

fn row_check(m: &DistanceMatrix) {
    let n = m.size();
    for i in 0..n {
        let v = m.get_vec(i, 0, n);
        check(v.len() == n, "a row has an entry per node");
        for j in 0..n { check(v[j] == m.get(i, j), "a row holds the distances"); }
    }
}
/// Largest distance between different nodes as the matrix gives them.
fn largest(m: &DistanceMatrix) -> f64 {
    let mut max = 0.0;
    for i in 0..m.size() { for j in 0..i { if m.get(i, j) > max { max = m.get(i, j); } } }
    max
}
fn max_check(m: &DistanceMatrix) {
    let max = largest(m);
    match m.max() { Some(x) => check((x - max).abs() <= 2e-6, "largest distance"), None => check(false, "the largest distance of a full matrix is known") }
}

/// Distances from coordinates or an explicit matrix; subproblems.
#[no_mangle]
pub extern "Rust" fn h_distance() {
    flag("sqrt_late", 1);
    let n = param("n", 3) as usize;
    let rounded = flip("rounded");
    let explicit = param("explicit", 0) == 1;
    let locations = coords(n, if explicit { 0 } else { param("hi", 4000) });
    let full = flip("precompute");
    let m = if explicit {
        let rows: Vec<Vec<f64>> = (1..n).map(|i| (0..i).map(|_| f64s("d", 0, 8000, 3)).collect()).collect();
        let m = DistanceMatrixBuilder::new().locations(locations).rounded(rounded).precompute(full).input(rows.clone()).build();
        for i in 0..n {
            check(m.get(i, i) == 0.0, "no distance to itself");
            for j in 0..i {
                let want = rows[i - 1][j];
                for d in [m.get(i, j), m.get(j, i)] { check(if rounded { rounds_to(d, want) } else { d == want }, "the stated distance in both directions"); }
            }
        }
        max_check(&m);
        reach("explicit");
        m
    } else {
        let m = DistanceMatrixBuilder::new().locations(locations.clone()).rounded(rounded).precompute(full).build();
        for i in 0..n {
            check(m.get(i, i) == 0.0, "no distance to itself");
            for j in 0..i {
                let want = euclid(&locations[i], &locations[j]);
                let d = m.get(i, j);
                check(if rounded { rounds_to(d, want) } else { (d - want).abs() <= 1e-9 }, "Euclidean distance");
                check(d == m.get(j, i), "symmetric");
            }
        }
        if full { max_check(&m); reach("precomputed"); } else { reach("lazy"); }
        m
    };
    check(m.size() == n, "a location per node");
    row_check(&m);
    if param("sub", 1) == 1 {
        // a subproblem: the depot and two other nodes in either order
        let a = uchoice("a", 1, n - 1);
        let b = uchoice("b", 1, n - 1);
        if a != b {
            let map = [0, a, b];
            let s = m.from_mapping(&map);
            check(s.size() == 3, "size of the subproblem");
            for i in 0..3 { for j in 0..3 { check(s.get(i, j) == m.get(map[i], map[j]), "a subproblem sees the distances of its nodes"); } }
            if let Some(x) = s.max() { check((x - largest(&s)).abs() <= 2e-6, "largest distance of the subproblem"); }
            row_check(&s);
            reach("subproblem");
        }
    }
    reach("end");
}

/// Neighbour lists of a symbolic distance matrix.
#[no_mangle]
pub extern "Rust" fn h_neighbours() {
    let n = param("n", 5) as usize;
    let symbolic = param("mask", -1);
    let mut m: Matrix<f64> = Matrix::new(n, n);
    let mut p = 0;
    for i in 0..n {
        m.set(i, i, 0.0);
        for j in i + 1..n {
            let d = if p < 60 && symbolic >> p & 1 == 1 { f64s("d", param("lo", 0) * 4, param("hi", 9) * 4, 2) } else { ((i * 37 + j * 101) % 211) as f64 };
            m.set(i, j, d);
            m.set(j, i, d);
            p += 1;
        }
    }
    let lazy = param("lazy", 0) == 1;
    let locations: Vec<Coordinate> = (0..n).map(|i| {
        if !lazy { return Coordinate { lng: 0.0, lat: 0.0 }; }
        let at = if i > 0 && i < 4 || i == n - 1 { uchoice("lng", 0, 6) * 3 } else { i * 2 };
        Coordinate { lng: at as f64, lat: (i % 2) as f64 }
    }).collect();
    let dm = if lazy { DistanceMatrix::new(locations, Matrix::new(0, 0), false, flip("rounded"), None) } else { DistanceMatrix::new(locations, m, true, false, None) };
    let c = CorrelationMatrix::new(&dm);
    let width = if n - 2 < 200 { n - 2 } else { 200 };
    for i in 0..n {
        if param("row", -1) >= 0 && i as i64 != param("row", -1) { continue; }
        let list = c.get(i);
        check(list.len() == width, "length of the list");
        let mut seen = vec![false; n];
        for (k, &j) in list.iter().enumerate() {
            check(j > 0 && j < n && j != i, "another customer");
            check(!seen[j], "no customer twice");
            seen[j] = true;
            if k > 0 { check(dm.get(i, list[k - 1]) <= dm.get(i, j), "ordered by distance"); }
        }
        let last = dm.get(i, list[width - 1]);
        for j in 1..n {
            if j != i && !seen[j] { check(dm.get(i, j) >= last, "no nearer customer left out"); reach("left out"); }
        }
        for number in 0..=width.min(3) { check(c.top_slice(i, number) == &list[..number], "top of the list"); }
    }
    reach("end");
}

fn within(s: &CircleSector, x: i32) -> bool {
    if s.start <= s.end { s.start <= x && x <= s.end } else { x >= s.start || x <= s.end }
}
fn build(m: usize, reuse: bool) -> (CircleSector, Vec<i32>) {
    let mut s = CircleSector::new();
    if reuse { s.extend(int("old", 0, 65535) as i32); s.reset(); }
    let mut v: Vec<i32> = Vec::new();
    for _ in 0..m {
        let a = int("angle", 0, 65535) as i32;
        v.push(a);
        let (b, e) = (s.start, s.end);
        s.extend(a);
        for &x in &v { check(within(&s, x), "every angle added is enclosed"); }
        check(s.start >= 0 && s.start < 65536 && s.end >= 0 && s.end < 65536, "bounds are angles");
        if v.len() > 1 {
            // a sector only grows, and only to the angle added
            check((s.start == b && s.end == e) || (s.start == b && s.end == a) || (s.start == a && s.end == e), "extended to the angle");
            let before = CircleSector { start: b, end: e, ..CircleSector::new() };
            if within(&before, a) { check(s.start == b && s.end == e, "unchanged by an enclosed angle"); reach("enclosed already"); }
        }
        check(v.len() > 1 || (s.start == a && s.end == a), "a sector of one angle");
    }
    (s, v)
}
#[no_mangle]
pub extern "Rust" fn h_sector() {
    let (s, _) = build(param("a", 3) as usize, param("reuse", 1) == 1);
    let x = int("x", 0, 65535) as i32;
    check(s.is_enclosed(x) == within(&s, x), "enclosed exactly within the bounds");
    let mb = param("b", 2) as usize;
    if mb > 0 {
        let (t, _) = build(mb, false);
        let o = s.overlaps(&t);
        check(o == t.overlaps(&s), "overlap is symmetric");
        if within(&s, x) && within(&t, x) { check(o, "a common angle means overlap"); reach("overlap"); }
        // two arcs meet exactly when one holds the other's start
        if o { check(within(&s, t.start) || within(&t, s.start), "overlap means a common angle"); } else { reach("apart"); }
    }
    reach("end");
}

/// Polar angle of a customer around the depot.
#[no_mangle]
pub extern "Rust" fn h_angle() {
    let mut c = coords(2, if param("near", 0) == 1 { 0 } else { param("hi", 4000) });
    if param("near", 0) == 1 {
        // close to the axes, on either side of the depot, everything known
        let far = [1000.0, -1000.0, 250.0, 0.0][uchoice("far", 0, 3)];
        let off = uchoice("off", 0, 16) as f64 - 8.0;
        let off = off / 64.0;
        c[0] = [Coordinate { lng: 0.0, lat: 0.0 }, Coordinate { lng: 512.0, lat: -64.0 }][uchoice("depot", 0, 1)].clone();
        let (x, y) = if flip("upright") { (off, far) } else { (far, off) };
        c[1] = Coordinate { lng: c[0].lng + x, lat: c[0].lat + y };
    }
    let node = |i: usize| Node { id: i + 1, coord: c[i], demand: 1.0 };
    let p = ProblemBuilder::new(vec![node(0), node(1)], Vehicle { id: 0, cap: 2.0 }).build();
    let a = p.get_angle(1);
    check(a >= 0 && a < 65536, "angle range");
    let (x, y) = (c[1].lng - c[0].lng, c[1].lat - c[0].lat);
    let exact = y.atan2(x) / std::f64::consts::PI * 32768.0;
    let d = a as f64 - exact;
    check(d.abs() <= 0.501 || (d - 65536.0).abs() <= 0.501, "the polar angle");
    reach("end");
}

/// Comparisons with tolerance, over all doubles.
#[no_mangle]
pub extern "Rust" fn h_float() {
    flag("exact_rounding", 1);
    let real = param("real", 1) == 1;
    let mag = if param("part", 0) < 2 { 1e300 } else { 1e6 };
    let (a, b) = if real { (f64r("a", -mag, mag), f64r("b", -mag, mag)) } else if param("real", 1) == 2 {
        // around the tolerance: multiples of 2^-72, which is the unit in the last place of 1e-6
        let m = 4722366482869645;
        (f64s("a", m - 8, m + 8, 72) * [1.0, -1.0][uchoice("sign", 0, 1)], f64s("b", -8, 8, 72))
    } else { (f64any("a"), f64any("b")) };
    let (lt, gt, eq) = (a.approx_lt(b), a.approx_gt(b), a.approx_eq(b));
    let (lte, gte) = (a.approx_lte(b), a.approx_gte(b));
    match param("part", 0) {
        0 => {
            check(!(lt && gt), "less excludes greater");
            check(!(lt && gte), "less excludes greater or equal");
            check(!(gt && lte), "greater excludes less or equal");
            check(eq == b.approx_eq(a), "equality is symmetric");
            check(!lt || lte, "less implies less or equal");
            check(!gt || gte, "greater implies greater or equal");
            check(!eq || (lte && gte), "equal implies both");
        }
        1 => {
            check(!lt || a < b, "clearly less is less");
            check(!gt || a > b, "clearly greater is greater");
            check(!(a < b) || lte, "less is less or equal");
            check(!(a > b) || gte, "greater is greater or equal");
            if a.is_finite() { check(a.approx_eq(a) && a.approx_lte(a) && a.approx_gte(a), "a finite number equals itself"); }
            if a.is_nan() || b.is_nan() { check(!lt && !gt && !eq && !lte && !gte, "nothing holds for NaN"); reach("nan"); }
        }
        2 => {
            // tolerance for costs: up to a million in size
            let d = a - b;
            if d > 1.001e-6 { check(gt && !eq && gte && !lte && !lt, "greater by more than the tolerance"); reach("greater"); }
            if d < -1.001e-6 { check(lt && !eq && lte && !gte && !gt, "less by more than the tolerance"); reach("less"); }
        }
        _ => {
            let d = a - b;
            if d.abs() < 0.999e-6 { check(eq && lte && gte && !lt && !gt, "equal within the tolerance"); reach("equal"); }
        }
    }
    // comparing with a reference is the same
    check(lt == a.approx_lt(&b) && eq == a.approx_eq(&b), "references");
    reach("end");
}

/// Neighbour lists of a solution as unknowns: any set of routes over the customers.
fn any_solution(n: usize) -> (Vec<usize>, Vec<usize>) {
    let mut succ = vec![0usize; n + 1];
    let mut pred = vec![0usize; n + 1];
    let mut rank = vec![0i64; n + 1];
    for i in 1..=n {
        succ[i] = int("succ", 0, n as i64) as usize;
        pred[i] = int("pred", 0, n as i64) as usize;
        rank[i] = int("rank", 0, n as i64);
    }
    let mut ok = true;
    for i in 1..=n {
        ok &= succ[i] != i;
        for j in 1..=n {
            if i != j {
                ok &= (succ[i] == j) == (pred[j] == i);
                ok &= (succ[i] != j) | (rank[i] < rank[j]);
            }
        }
        ok &= pred[i] != i;
    }
    assume(ok);
    (succ, pred)
}
/// Broken-pairs distance between any two solutions.
#[no_mangle]
pub extern "Rust" fn h_broken_pairs() {
    use hybridcvrp::solver::genetic::Individual;
    let n = param("n", 4) as usize;
    let make = |s: &(Vec<usize>, Vec<usize>)| {
        let mut i = Individual::new((1..=n).collect(), 0);
        i.evaluation.successors = s.0.clone();
        i.evaluation.predecessors = s.1.clone();
        i
    };
    let sa = any_solution(n);
    let sb = any_solution(n);
    let (a, b) = (make(&sa), make(&sb));
    let d = a.calculate_broken_pairs_distance(&b);
    let mut want = 0i64;
    for i in 1..=n {
        want += ((sa.0[i] != sb.0[i]) & (sa.0[i] != sb.1[i])) as i64;
        want += ((sa.1[i] == 0) & (sb.1[i] != 0) & (sb.0[i] != 0)) as i64;
    }
    check(d == want, "broken pairs of the definition");
    check(d >= 0 && d <= 2 * n as i64, "at most two per customer");
    if param("same", 1) == 1 {
        check(a.calculate_broken_pairs_distance(&a) == 0, "no distance to itself");
        let r = make(&(sa.1.clone(), sa.0.clone()));
        check(a.calculate_broken_pairs_distance(&r) == 0, "no distance to the reversed routes");
    }
    reach("end");
}

/// Fleet size and penalty of a new context.
#[no_mangle]
pub extern "Rust" fn h_context() {
    use hybridcvrp::config::Config;
    use hybridcvrp::solver::Context;
    use hybridcvrp::utils::ProblemParser;
    let n = param("n", 3) as usize;
    let symcap = param("symcap", 0) == 1;
    let cap = if symcap { f64i("cap", 1, 1000) } else { [1.0, 0.75, 3.0, 10.0, 64.0, 250.5][uchoice("cap", 0, 5)] };
    // the largest demand
    let most = if symcap { 40.0 } else { [1.0, 4.0, 10.0, 300.0][uchoice("most", 0, 3)] };
    let first = uchoice("first", 1, n);
    let nodes: Vec<Node> = (0..=n).map(|i| Node { id: i + 1, coord: Coordinate { lng: COORDS[i].0, lat: COORDS[i].1 }, demand: if i == 0 { 0.0 } else { if i == first { most } else if symcap { 15.0 } else { f64i("q", 1, most as i64) } } }).collect();
    let demand: Vec<f64> = nodes.iter().map(|n| n.demand).collect();
    let mut parser = ProblemParser::new();
    parser.problem = Some(ProblemBuilder::new(nodes, Vehicle { id: 0, cap }).build());
    let explicit = flip("explicit");
    let lazy = !explicit && flip("lazy");
    let mut largest = 0.0;
    if explicit {
        let rows: Vec<Vec<f64>> = (1..=n).map(|i| (0..i).map(|j| if i == 1 || (i == 2 && j == 0) { f64i("d", 0, 100_000_000) } else { 3.0 }).collect()).collect();
        for r in &rows { for &d in r { if d > largest { largest = d; } } }
        parser.matrix = Some(rows);
    } else {
        for i in 0..=n { for j in 0..i {
            let d = ((COORDS[i].0 - COORDS[j].0).powi(2) + (COORDS[i].1 - COORDS[j].1).powi(2)).sqrt().round();
            if d > largest { largest = d; }
        } }
    }
    let mut config = Config::default();
    config.deterministic = true;
    config.round_distances = true;
    config.precompute_distance_size_limit = if lazy { 0 } else { 1000 };
    let ctx = Context::new(parser, config, instant::Instant::now());
    let total: f64 = demand.iter().sum();
    let lb = ctx.vehicle_lower_bound();
    let l = lb as f64;
    check(l * cap >= total - 1e-6 && (l - 1.0) * cap < total + if symcap { 1e-6 } else { 0.0 }, "least number of vehicles");
    let fleet = ctx.config.borrow().num_vehicles;
    // ceil(1.2 lb + 2) in integers
    check(fleet * 5 >= 6 * lb + 10 && (fleet - 1) * 5 < 6 * lb + 10, "fleet size");
    check(fleet as f64 * cap >= total, "the fleet can carry everything");
    let pen = ctx.config.borrow().penalty_capacity;
    obs("pen", pen);
    obs("largest", largest);
    if lazy {
        check(pen == 100.0, "penalty when the largest distance is unknown");
        reach("lazy");
    } else {
        let known = match ctx.matrix_provider.distance.max() { Some(m) => (m - largest).abs() <= 2e-6, None => false };
        check(known, "largest distance is known");
        if largest >= 10_000.0 * most { check((pen - 10_000.0).abs() <= 1e-5, "penalty at its upper limit"); reach("upper limit"); }
        else if largest <= 0.0001 * most { check((pen - 0.0001).abs() <= 1e-9, "penalty at its lower limit"); reach("lower limit"); }
        else { check((pen * most - largest).abs() <= 1e-5, "penalty is largest distance over largest demand"); reach("penalty"); }
        check(pen > 0.0, "penalty is positive");
    }
    reach("end");
}

/// Ordering routes by angle.
#[no_mangle]
pub extern "Rust" fn h_sort_routes() {
    let n = param("n", 3) as usize;
    let k = param("k", 3) as usize;
    let mut ctx = base_ctx(n, |_| ());
    let routes = choose_routes(n, k);
    for r in &routes { assume(r.len() != 3); }
    if param("near", 0) == 1 {
        // routes whose angles differ by little, everything known
        let table = [[1000.0, 1.0], [1000.0, 2.0], [1000.0, 1.5], [-1000.0, 1.0], [-1000.0, -1.0], [900.0, -0.5], [3.0, 1000.0], [3.125, 1000.0]];
        ctx.problem.nodes[0].coord = Coordinate { lng: 0.0, lat: 0.0 };
        for i in 1..=n {
            let [x, y] = table[uchoice("place", 0, 7)];
            ctx.problem.nodes[i].coord = Coordinate { lng: x, lat: y };
        }
    }
    for i in 0..=n {
        if param("near", 0) == 0 && param("mask", -1) >> i & 1 == 1 {
            ctx.problem.nodes[i].coord = Coordinate { lng: f64i("x", -1000, 1000), lat: f64i("y", -1000, 1000) };
        }
    }
    let mut ind = individual(&ctx, routes.clone());
    // a giant tour in any order
    ind.genotype.reverse();
    ind.sort_routes(&ctx);
    let mut used = vec![false; k];
    check(ind.phenotype.len() == k, "the number of routes stays");
    let mut angles: Vec<Option<f64>> = Vec::new();
    for r in &ind.phenotype {
        let from = (0..k).find(|&i| !used[i] && routes[i] == *r);
        match from { Some(i) => used[i] = true, None => check(false, "every route is one of the old routes") }
        if r.is_empty() { angles.push(None); continue; }
        let (mut x, mut y) = (0.0, 0.0);
        for &c in r { x += ctx.problem.nodes[c].coord.lng; y += ctx.problem.nodes[c].coord.lat; }
        let len = r.len() as f64;
        angles.push(Some((y / len - ctx.problem.nodes[0].coord.lat).atan2(x / len - ctx.problem.nodes[0].coord.lng)));
    }
    for w in angles.windows(2) {
        match (w[0], w[1]) { (Some(a), Some(b)) => check(a <= b, "ascending angles"), (None, Some(_)) => check(false, "empty routes last"), _ => {} }
    }
    let flat: Vec<usize> = ind.phenotype.iter().flatten().copied().collect();
    check(ind.genotype == flat, "the giant tour is the concatenation");
    reach("end");
}
