use crate::common::*;
use crate::entries;
use crate::moves::{is_partition, penalized};
use fastrand::verif::{Mode, Policy};
use hybridcvrp::solver::genetic::*;
use hybridcvrp::solver::{Context, Metaheuristic, Solver};

entries!(h_crossover, h_crossover_big, h_population, h_population_add, h_selection, h_penalty, h_penalty_interval, h_records, h_records_restart, h_terminate, h_restart, h_ga, h_tiny, h_determinism, h_penalty_restart, h_sub_limit);

/// A context for `n` customers and `v` vehicles with every search method switched off.
fn quiet(n: usize, v: u64, cap: f64) -> Context {
    let mut ctx = base_ctx(n, |c| {
        c.ls_enabled = false;
        c.rr_mutation = false;
        c.elite_education = false;
        c.repair_probability = 0.0;
        c.initial_individuals = 0;
        c.penalty_update_interval = 1000;
        c.log_interval = 1_000_000;
    });
    ctx.problem.vehicle.cap = cap;
    ctx.config.borrow_mut().num_vehicles = v;
    ctx.config.borrow_mut().penalty_capacity = 10.0;
    ctx
}
/// The i-th permutation of `1..=n`.
fn permutation(n: usize, mut i: usize) -> Vec<usize> {
    let mut left: Vec<usize> = (1..=n).collect();
    let mut out = Vec::with_capacity(n);
    for k in (1..=n).rev() {
        let mut f = 1;
        for j in 1..k { f *= j; }
        out.push(left.remove(i / f));
        i %= f;
    }
    out
}
fn factorial(n: usize) -> usize { (1..=n).product() }

/// Is `child` an order crossover of `p` and `q` for some section? (The longest section from a
/// start is enough: a common gene after the section is also the first of the rest.)
fn is_ox(child: &[usize], p: &[usize], q: &[usize]) -> bool {
    let n = p.len();
    for start in 0..n {
        let mut taken = vec![false; n + 1];
        let mut len = 0;
        while len < n && child[(start + len) % n] == p[(start + len) % n] {
            taken[p[(start + len) % n]] = true;
            len += 1;
        }
        if len == 0 { continue; }
        let mut at = len;
        let mut ok = true;
        for &c in q {
            if taken[c] { continue; }
            if child[(start + at) % n] != c { ok = false; break; }
            at += 1;
        }
        if ok { return true; }
    }
    false
}

/// Crossover within an iteration of the genetic algorithm.
#[no_mangle]
pub extern "Rust" fn h_crossover() {
    let n = param("n", 4) as usize;
    let ctx = quiet(n, n as u64, n as f64);
    fastrand::verif::set(Policy::FIXED);
    let mut ga = GeneticAlgorithm::new(&ctx);
    ga.iterate(&ctx);
    ga.iterate(&ctx);
    let second = permutation(n, uchoice("second", 1, factorial(n) - 1));
    let mut tours = vec![(1..=n).collect::<Vec<usize>>(), second];
    if param("parents", 2) == 3 { tours.push((1..=n).rev().collect()); }
    for (i, t) in tours.iter().enumerate() {
        // one or two routes
        let mut routes = vec![t.clone()];
        if i == 1 { let r = routes[0].split_off(1); routes.push(r); }
        routes.resize(n, Vec::new());
        ga.add_individual(&ctx, individual(&ctx, routes));
    }
    let before: Vec<(u64, Vec<usize>, Vec<Vec<usize>>)> = ga.population.feasible.population.iter().map(|i| (i.number, i.genotype.clone(), i.phenotype.clone())).collect();
    // reversed copies are clones and do not enter
    if before.len() < 2 { return; }
    fastrand::verif::set(Policy { ints: Mode::Sym, int_budget: param("draws", 8) as u32, ..Policy::FIXED });
    ga.iterate(&ctx);
    fastrand::verif::set(Policy::FIXED);
    let child = &ga.child.genotype;
    let mut sorted = child.clone();
    sorted.sort();
    check(sorted == (1..=n).collect::<Vec<usize>>(), "every customer exactly once");
    check(before.iter().any(|p| before.iter().any(|q| is_ox(child, &p.1, &q.1))), "a section of one parent completed in the order of the other");
    check(is_partition(n, &ga.child.phenotype) && ga.child.phenotype.concat() == *child, "routes and tour of the child agree");
    for b in &before {
        check(ga.population.feasible.population.iter().any(|i| i.number == b.0 && i.genotype == b.1 && i.phenotype == b.2), "the parents are unchanged");
    }
    if before.iter().all(|b| b.1 != *child) { reach("new child"); }
    reach("end");
}

/// Crossover of many customers: fixed parents, sections from a list of bounds.
#[no_mangle]
pub extern "Rust" fn h_crossover_big() {
    let n = param("n", 70) as usize;
    let ctx = quiet(n, 4, n as f64);
    fastrand::verif::set(Policy::FIXED);
    let mut ga = GeneticAlgorithm::new(&ctx);
    ga.iterate(&ctx);
    ga.iterate(&ctx);
    // every multiplier without a common factor permutes the customers
    let tours: Vec<Vec<usize>> = [1, 3, 11].iter().map(|f| (0..n).map(|i| (i * f + f) % n + 1).collect()).collect();
    // parents of one route: the child gets one route too, and its order is that of the crossover
    for t in &tours {
        ga.add_individual(&ctx, individual(&ctx, vec![t.clone(), vec![], vec![], vec![]]));
    }
    let before: Vec<Vec<usize>> = ga.population.feasible.population.iter().map(|i| i.genotype.clone()).collect();
    check(before.len() == 3, "three parents");
    fastrand::verif::set(Policy { ints: Mode::Sym, int_budget: 3, int_min: n as u64, int_values: &[0, 1, 7, 31, 32, 33, 63, 64, 65, 66, 69, 127, 128, 129], int_fixed: param("draw", 1) as u64, ..Policy::FIXED });
    ga.iterate(&ctx);
    fastrand::verif::set(Policy::FIXED);
    let child = &ga.child.genotype;
    let mut seen = vec![false; n + 1];
    for &c in child { check(c >= 1 && c <= n && !seen[c], "every customer exactly once"); seen[c] = true; }
    check(child.len() == n, "every customer exactly once");
    check(before.iter().any(|p| before.iter().any(|q| is_ox(child, p, q))), "a section of one parent completed in the order of the other");
    if before.iter().all(|b| b != child) { reach("new child"); }
    reach("end");
}

struct Member { number: u64, cost: f64, colour: [i64; 2] }
fn distance(a: &Member, b: &Member) -> i64 { (a.colour[0] != b.colour[0]) as i64 + (a.colour[1] != b.colour[1]) as i64 }

/// Bookkeeping of a subpopulation against the members it should have.
fn table(p: &SubPopulation, members: &[Member]) {
    let m = p.population.len();
    check(m == members.len(), "number of members");
    for w in p.population.windows(2) { check(w[0].penalized_cost() < w[1].penalized_cost() + 1.1e-6, "ordered by cost"); }
    for i in &p.population {
        let me = members.iter().find(|x| x.number == i.number);
        check(me.is_some(), "a member that was added");
        let me = me.unwrap();
        check(i.penalized_cost() == me.cost, "cost of a member");
        let empty = Vec::new();
        let t = p.diversity.get(&i.number).unwrap_or(&empty);
        check(t.len() + 1 == m, "a distance to every other member");
        for w in t.windows(2) { check(w[0].distance <= w[1].distance, "distances in ascending order"); }
        for o in members {
            if o.number == me.number { continue; }
            let mut found = 0;
            for d in t { if d.to_number == o.number { found += 1; check(d.distance == distance(me, o), "distance of the table"); } }
            check(found == 1, "exactly one distance to every other member");
        }
    }
    let mut with = 0;
    for k in p.diversity.keys() { if members.iter().any(|x| x.number == *k) { with += 1; } else { check(false, "no distances of removed members"); } }
    check(with == m || m <= 1, "distances of all members");
}
/// Average distance to the nearest `num` members.
fn contribution(me: &Member, members: &[Member], num: usize) -> f64 {
    let mut d: Vec<i64> = members.iter().filter(|o| o.number != me.number).map(|o| distance(me, o)).collect();
    d.sort();
    d.truncate(num);
    d.iter().sum::<i64>() as f64 / d.len() as f64
}
/// The recorded fitness: cost rank plus weighted diversity rank.
fn fitness(p: &SubPopulation, members: &[Member], elites: usize, close: usize) {
    let m = p.population.len();
    if m < 2 { return; }
    let of = |i: usize| members.iter().find(|x| x.number == p.population[i].number).unwrap();
    let top = (m - 1) as f64;
    if m <= elites {
        for i in 0..m { check((p.population[i].fitness - i as f64 / top).abs() < 1e-9, "fitness is the cost rank"); }
        return;
    }
    let weight = 1.0 - elites as f64 / m as f64;
    let mut rank = vec![0usize; m];
    for i in 0..m {
        let r = (p.population[i].fitness - i as f64 / top) / weight * top;
        check(r > -1e-6 && (r - r.round()).abs() < 1e-6 && r < top + 1e-6, "fitness is the cost rank plus the weighted diversity rank");
        rank[i] = r.round() as usize;
    }
    for i in 0..m {
        for j in 0..m {
            if i == j { continue; }
            check(rank[i] != rank[j], "diversity ranks differ");
            if rank[i] < rank[j] { check(contribution(of(i), members, close) >= contribution(of(j), members, close), "the more diverse member ranks first"); }
        }
    }
}

/// Additions to a subpopulation and its natural selection.
#[no_mangle]
pub extern "Rust" fn h_population() {
    let adds = param("adds", 4) as usize;
    let (min, lambda) = (param("min", 2), param("lambda", 2));
    let elites = param("elites", 1) as usize;
    let close = param("close", 2) as usize;
    let ctx = quiet(3, 3, 3.0);
    {
        let mut c = ctx.config.borrow_mut();
        c.min_population_size = min as u64;
        c.population_lambda = lambda as u64;
        c.num_elites = elites as u64;
        c.num_diversity_closest = close as u64;
    }
    let mut p = SubPopulation::new(&ctx);
    // the same without a limit
    ctx.config.borrow_mut().population_lambda = 1000;
    let mut q = SubPopulation::new(&ctx);
    let mut members: Vec<Member> = Vec::new();
    let symcost = param("symcost", 1) == 1;
    for number in 0..adds as u64 {
        let cost = if symcost { f64i("cost", 0, 9) } else { [30.0, 10.0, 40.0, 20.0, 50.0, 15.0, 35.0, 5.0][number as usize] };
        // only the first additions differ in both places
        let colour = [int("colour", 0, param("colours", 2)), if param("both", 1) == 1 { int("colour", 0, 1) } else { 0 }];
        let mut ind = Individual::new(vec![1, 2], number);
        ind.evaluation.penalized_cost = cost;
        ind.evaluation.feasible = true;
        ind.evaluation.successors = vec![0, 10 + colour[0] as usize, 20 + colour[1] as usize];
        ind.evaluation.predecessors = vec![0, 30, 40];
        let me = Member { number, cost, colour };
        let clone = members.iter().any(|o| distance(o, &me) == 0);
        p.add_individual(&ctx, ind.clone());
        q.add_individual(&ctx, ind);
        if clone { reach("clone"); } else { members.push(me); }
        table(&q, &members);
        if param("fit", 1) == 1 { fitness(&q, &members, elites, close); }
        if members.len() as i64 >= min + lambda {
            reach("selection");
            while members.len() as i64 > min {
                // what may be removed: the worst, never the first
                let first = q.population[0].number;
                let old: Vec<(u64, f64)> = q.population.iter().map(|i| (i.number, i.fitness)).collect();
                q.natural_selection(&ctx);
                check(q.population.len() + 1 == old.len(), "one member is removed");
                check(q.population[0].number == first, "the cheapest member stays");
                let gone = *old.iter().find(|o| q.population.iter().all(|i| i.number != o.0)).unwrap();
                for o in &old[1..] { check(o.1 <= gone.1 + 1e-12, "the member of worst fitness is removed"); }
                members.retain(|x| x.number != gone.0);
                table(&q, &members);
                if param("fit", 1) == 1 { fitness(&q, &members, elites, close); }
            }
        }
        table(&p, &members);
        for i in 0..members.len() { check(p.population[i].number == q.population[i].number, "selection on reaching the limit"); }
        check((p.population.len() as i64) < min + lambda, "the limit is kept");
    }
    reach("end");
}

/// Which member natural selection removes: clones first, then the worst fitness, never the cheapest.
#[no_mangle]
pub extern "Rust" fn h_selection() {
    let m = param("members", 4) as usize;
    let ctx = quiet(3, 3, 3.0);
    let mut p = SubPopulation::new(&ctx);
    for number in 0..m {
        let mut ind = Individual::new(vec![1, 2], number as u64);
        ind.evaluation.penalized_cost = 10.0 * number as f64;
        ind.evaluation.feasible = true;
        ind.evaluation.successors = vec![0, 10 + number, 20];
        ind.evaluation.predecessors = vec![0, 30, 40];
        p.add_individual(&ctx, ind);
    }
    check(p.population.len() == m, "members");
    let mut clone = vec![false; m];
    let mut fit = vec![0.0; m];
    for i in 0..m {
        clone[i] = flip("clone");
        if clone[i] { p.diversity.get_mut(&(i as u64)).unwrap()[0].distance = 0; }
        fit[i] = f64s("fitness", 0, 2000, 10);
        p.population[i].fitness = fit[i];
    }
    p.natural_selection(&ctx);
    let left: Vec<usize> = p.population.iter().map(|x| x.number as usize).collect();
    check(left.len() + 1 == m && left[0] == 0, "one member is removed and the cheapest stays");
    let gone = (0..m).find(|i| !left.contains(i)).unwrap();
    let clones = (1..m).any(|i| clone[i]);
    if clones { check(clone[gone], "clones are removed first"); reach("clone"); }
    for i in 1..m {
        if clone[i] || !clones { check(fit[i] <= fit[gone], "the worst of them is removed"); }
    }
    check(!p.diversity.contains_key(&(gone as u64)), "no distances of removed members");
    for i in left { check(p.diversity[&(i as u64)].iter().all(|d| d.to_number != gone as u64) && p.diversity[&(i as u64)].len() + 2 == m, "no distances to removed members"); }
    reach("end");
}

/// Gives a population its recent history of a hundred solutions, and no members.
fn feed(ctx: &Context, p: &mut Population, n: usize, feasible: &dyn Fn(usize) -> bool) {
    for k in 0..100 {
        let mut ind = Individual::new((1..=n).collect(), 0);
        ind.evaluation.penalized_cost = k as f64;
        ind.evaluation.feasible = feasible(k);
        ind.evaluation.successors = vec![0; n + 1];
        ind.evaluation.predecessors = vec![0; n + 1];
        p.add_individual(ctx, ind, true);
        p.feasible = SubPopulation::new(ctx);
        p.infeasible = SubPopulation::new(ctx);
    }
}

/// Natural selection among members with clones.
#[no_mangle]
pub extern "Rust" fn h_population_add() {
    let n = 2;
    let ctx = quiet(n, 2, 1.0);
    {
        let mut c = ctx.config.borrow_mut();
        c.min_population_size = 2;
        c.population_lambda = 5;
    }
    let mut p = Population::new(&ctx);
    let adds = param("adds", 4) as usize;
    let mut sent: Vec<(u64, bool)> = Vec::new();
    let (mut f, mut i) = (0, 0);
    let history: Vec<bool> = (0..100).map(|k| k % 3 == 0).collect();
    feed(&ctx, &mut p, n, &|k| history[k]);
    let first = p.total_individuals_count;
    let mut expect = history.clone();
    for a in 0..adds {
        let feasible = flip("feasible");
        let record = flip("record");
        let mut ind = Individual::new(vec![1, 2], 77);
        ind.evaluation.penalized_cost = f64i("cost", 0, 9);
        ind.evaluation.feasible = feasible;
        ind.evaluation.successors = vec![0, 10 + a, 20];
        ind.evaluation.predecessors = vec![0, 30, 40];
        p.add_individual(&ctx, ind, record);
        sent.push((first + a as u64, feasible));
        if feasible { f += 1; } else { i += 1; }
        if record { expect.remove(0); expect.push(feasible); }
        check(p.feasible.size() == f && p.infeasible.size() == i, "every member is in its subpopulation");
        for x in &p.feasible.population { check(x.is_feasible() && sent.contains(&(x.number, true)), "feasible members"); }
        for x in &p.infeasible.population { check(!x.is_feasible() && sent.contains(&(x.number, false)), "infeasible members"); }
        check(p.history_fraction() == expect.iter().filter(|x| **x).count() as f64 / 100.0, "share of feasible ones among the recent solutions");
        check(p.size() == a + 1, "size");
    }
    reach("end");
}

/// One penalty update within an iteration.
#[no_mangle]
pub extern "Rust" fn h_penalty() {
    let n = 4;
    let mut ctx = quiet(n, 4, 2.0);
    sym_distances_partial(&mut ctx, param("mask", 3), 1000);
    let recent = if param("all", 0) == 1 { choice("recent", 0, 99) } else { [0, 3, 41, 99][uchoice("recent", 0, 3)] };
    // symbolic penalty or symbolic factors
    let symp = param("symp", 1) == 1;
    let old = if symp { f64s("penalty", 0, 1 << 35, 10) } else { [0.0001, 0.00015, 1.5, 100.0, 9_000_000.0, 1e7][uchoice("penalty", 0, 5)] };
    assume(old > 0.0);
    let (up, down) = if symp { (1.25, 0.75) } else { (1.0 + f64s("up", 0, 1024, 9), f64s("down", 0, 512, 9)) };
    let target = f64s("target", 0, 64, 6);
    let mut ga = GeneticAlgorithm::new(&ctx);
    ga.iterate(&ctx);
    ga.iterate(&ctx);
    // the draws fix the child: it is feasible or not, its record replaces the oldest
    feed(&ctx, &mut ga.population, n, &|i| i >= 1 && (i as i64) <= recent);
    {
        let mut c = ctx.config.borrow_mut();
        c.penalty_update_interval = 5;
        c.penalty_inc_multiplier = up;
        c.penalty_dec_multiplier = down;
        c.feasibility_proportion_target = target;
        // every member counts, however few are kept
        c.min_population_size = 1;
        c.num_elites = 1;
        c.num_diversity_closest = 1;
    }
    for r in [vec![vec![1, 2, 3], vec![4]], vec![vec![1], vec![4, 2, 3]], vec![vec![1, 2, 3, 4]]] {
        let mut r = r;
        r.resize(4, Vec::new());
        ga.add_individual(&ctx, individual(&ctx, r));
    }
    check(ga.population.infeasible.size() == 3, "three infeasible members");
    ctx.config.borrow_mut().penalty_capacity = old;
    fastrand::verif::set(Policy { int_fixed: param("draw", 1) as u64, ..Policy::FIXED });
    ga.iterate(&ctx);
    let share = (recent + ga.child.is_feasible() as i64) as f64 / 100.0;
    let new = ctx.config.borrow().penalty_capacity;
    let clamp = |x: f64| if x < 0.0001 { 0.0001 } else if x > 1e7 { 1e7 } else { x };
    let near = |a: f64, b: f64| (a - b).abs() <= 1e-7 + 1e-9 * b;
    if share < target - 0.05 - 1e-9 { check(near(new, clamp(old * up)), "raised when too few are feasible"); reach("raised"); }
    else if share > target + 0.05 + 1e-9 { check(near(new, clamp(old * down)), "lowered when too many are feasible"); reach("lowered"); }
    else if share > target - 0.05 + 1e-9 && share < target + 0.05 - 1e-9 { check(near(new, clamp(old)), "kept when near the target"); reach("kept"); }
    check(new >= 0.0001 && new <= 1e7, "within its limits");
    let mut last = 0.0;
    for i in &ga.population.infeasible.population {
        let want = penalized(&ctx, new, &i.phenotype);
        check((i.penalized_cost() - want).abs() <= 1e-5 + 1e-9 * want, "cost under the new penalty");
        check(i.penalized_cost() >= last - 1.1e-6, "infeasible members ordered by cost");
        last = i.penalized_cost();
    }
    reach("end");
}

/// When the penalty is updated.
#[no_mangle]
pub extern "Rust" fn h_penalty_interval() {
    let n = 3;
    let ctx = quiet(n, 3, 3.0);
    let interval = uchoice("interval", 1, 4);
    let target_low = flip("low");
    {
        let mut c = ctx.config.borrow_mut();
        c.penalty_update_interval = interval as u64;
        c.penalty_inc_multiplier = 2.0;
        c.penalty_dec_multiplier = 0.5;
        c.feasibility_proportion_target = if target_low { 0.0 } else { 5.0 };
        c.max_iterations_without_improvement = 1000;
    }
    fastrand::verif::set(Policy { int_fixed: 1, ..Policy::FIXED });
    let mut ga = GeneticAlgorithm::new(&ctx);
    ga.iterate(&ctx);
    ga.iterate(&ctx);
    ga.add_individual(&ctx, individual(&ctx, vec![vec![1, 2, 3], vec![], vec![]]));
    ga.add_individual(&ctx, individual(&ctx, vec![vec![2], vec![1], vec![3]]));
    let mut want = ctx.config.borrow().penalty_capacity;
    for i in 0..param("iterations", 6) as usize {
        ga.iterate(&ctx);
        if i % interval == 0 { want *= if target_low { 0.5 } else { 2.0 }; }
        check(ctx.config.borrow().penalty_capacity == want, "one update per interval");
    }
    reach("end");
}

/// Penalty updates after a restart: one at once at most, then one per interval.
#[no_mangle]
pub extern "Rust" fn h_penalty_restart() {
    let n = 3;
    let ctx = quiet(n, 3, 3.0);
    let interval = uchoice("interval", 1, 4);
    let patience = uchoice("patience", 0, 3);
    let lower = flip("low");
    {
        let mut c = ctx.config.borrow_mut();
        c.penalty_update_interval = interval as u64;
        c.penalty_inc_multiplier = 2.0;
        c.penalty_dec_multiplier = 0.5;
        c.feasibility_proportion_target = if lower { -1.0 } else { 5.0 };
        c.max_iterations_without_improvement = patience as u64;
        c.penalty_capacity = 64.0;
    }
    fastrand::verif::set(Policy { int_fixed: 1, ..Policy::FIXED });
    let mut ga = GeneticAlgorithm::new(&ctx);
    let (mut cycles, mut updates) = (0, 0);
    for _ in 0..param("steps", 24) {
        if ga.population.feasible.size() + ga.population.infeasible.size() == 0 {
            ga.add_individual(&ctx, individual(&ctx, vec![vec![1, 2, 3], vec![], vec![]]));
            ga.add_individual(&ctx, individual(&ctx, vec![vec![2], vec![1], vec![3]]));
        }
        let (before, pen) = (ga.iterations, ctx.config.borrow().penalty_capacity);
        ga.iterate(&ctx);
        if ga.iterations > before { cycles += 1; }
        let now = ctx.config.borrow().penalty_capacity;
        if now != pen {
            updates += 1;
            check(now == pen * if lower { 0.5 } else { 2.0 }, "an update by the factor");
        }
        check(updates <= 1 + (cycles + interval - 1) / interval && updates >= cycles / interval, "one update per interval");
        // the population is new: a restart
        if ga.iterations > before && ga.population.feasible.size() + ga.population.infeasible.size() == 0 {
            reach("restarted");
            cycles = 0;
            updates = 0;
        }
    }
    reach("end");
}

/// The search of a subproblem is bound by the time limit of the whole.
#[no_mangle]
pub extern "Rust" fn h_sub_limit() {
    flag("clock", -1);
    let ctx = quiet(4, 3, 3.0);
    ctx.config.borrow_mut().time_limit = int("time limit", 1, 1000) as u64;
    ctx.config.borrow_mut().max_iterations = None;
    flag("tick", int("before", 0, 1000));
    let sub = ctx.from_mapping(&[0, 3, 1, 2]);
    check(sub.elapsed_as_secs() == ctx.elapsed_as_secs(), "the time counts from the start of the whole search");
    check(sub.terminate() == ctx.terminate(), "the same time limit");
    flag("tick", int("after", 0, 1000));
    check(sub.terminate() == ctx.terminate(), "the same time limit");
    check(sub.config.borrow().time_limit == ctx.config.borrow().time_limit, "the same time limit");
    if sub.terminate() {
        reach("over");
        let mut ga = GeneticAlgorithm::new(&sub);
        ga.iterate(&sub);
        check(ga.terminated(), "the search of the subproblem stops at the time limit");
    }
    reach("end");
}

/// Records of the best solution, offered by both searches.
#[no_mangle]
pub extern "Rust" fn h_records() {
    use hybridcvrp::solver::improvement::{Recreate, Ruin, RuinRecreateSolution};
    struct Keep;
    impl Ruin for Keep { fn run(&self, _: &Context, _: &mut RuinRecreateSolution) {} }
    struct Pick;
    fn menu(i: usize) -> Vec<Vec<usize>> {
        match i { 0 => vec![vec![1, 2], vec![3]], 1 => vec![vec![2], vec![1, 3]], 2 => vec![vec![1, 2, 3], vec![]], _ => vec![vec![2, 3], vec![1]] }
    }
    impl Recreate for Pick {
        fn run(&self, ctx: &Context, s: &mut RuinRecreateSolution) {
            for (i, r) in menu(uchoice("candidate", 0, param("menu", 3) as usize)).iter().enumerate() {
                s.routes[i].nodes = r.clone();
                s.routes[i].distance = route_distance(ctx, r);
                s.routes[i].overload = route_load(ctx, r) - ctx.problem.vehicle.cap;
            }
            s.evaluate(ctx, [0usize, 1].iter());
        }
    }
    let n = 3;
    let mut ctx = quiet(n, 2, 2.0);
    sym_distances_partial(&mut ctx, param("mask", 0x3f), 1000);
    let pen = ctx.config.borrow().penalty_capacity;
    let mut ga = GeneticAlgorithm::new(&ctx);
    ga.rr.ruin = Box::new(Keep);
    ga.rr.recreate = Box::new(Pick);
    ga.rr.set_acceptance(hybridcvrp::solver::improvement::IterationSchedule::new(10_000.0, param("rr", 1) as usize).into());
    let most = param("menu", 3) as usize;
    let mut best = f64::INFINITY;
    let mut count = 0;
    for _ in 0..param("rounds", 3) {
        let child = individual(&ctx, menu(uchoice("child", 0, most)));
        let own = penalized(&ctx, pen, &child.phenotype);
        let feasible = child.phenotype.iter().all(|r| r.len() <= 2);
        ga.child = child;
        // as `educate` does
        let rr = flip("ruin and recreate");
        if rr {
            let mut c = ga.child.clone();
            ga.rr.load(&ctx, &mut c);
            while !ga.rr.complete() { ga.rr.search(); }
            ga.rr.get_best_solution(&mut c);
            ga.child = c;
            reach("ruin and recreate");
        }
        ga.update_best(&ctx);
        let h = ctx.search_history.borrow();
        let entries = h.entries();
        check(entries.len() >= count, "records are kept");
        for e in &entries[count..] {
            check(e.solution.cost < best, "a record is cheaper than the one before");
            best = e.solution.cost;
        }
        count = entries.len();
        if let Some(e) = h.last_entry() {
            let r = &e.solution.routes;
            check(is_partition(n, r), "a record visits every customer exactly once");
            check(r.iter().all(|x| x.len() <= 2), "a record is feasible");
            check((e.solution.cost - penalized(&ctx, pen, r)).abs() < 1e-6, "a record carries its true cost");
            check(h.best_cost == e.solution.cost, "the best cost is the cost of the last record");
            match &ga.best_solution { Some(b) => check((b.penalized_cost() - e.solution.cost).abs() < 1.1e-6 && is_partition(n, &b.phenotype), "the last record is the best solution reported"), None => check(false, "a best solution is reported") }
        }
        let offered = if ga.child.is_feasible() { ga.child.penalized_cost() } else { f64::INFINITY };
        check(best <= offered + 1.1e-6, "a cheaper feasible solution is recorded");
        // ruin and recreate may trade a feasible solution for a cheaper infeasible one without comparing it
        if feasible && !rr { check(best <= own + 1.1e-6, "a feasible child is recorded if it is cheaper"); }
    }
    if count > 1 { reach("improved"); }
    reach("end");
}

struct Count { left: u64, seen: u64 }
impl Metaheuristic for Count {
    fn iterate(&mut self, ctx: &Context) { self.seen += 1; if ctx.terminate() { self.left = 0; } }
    fn terminated(&self) -> bool { self.left == 0 }
}

/// Limits on time and iterations.
#[no_mangle]
pub extern "Rust" fn h_terminate() {
    flag("clock", -1);
    let ctx = quiet(3, 3, 3.0);
    {
        let mut c = ctx.config.borrow_mut();
        c.time_limit = int("time limit", 0, 1000) as u64;
        c.max_iterations = if flip("limited") { Some(int("limit", 0, 6) as u64) } else { None };
        c.max_iterations_without_improvement = 1000;
    }
    let limit = ctx.config.borrow().time_limit;
    let most = ctx.config.borrow().max_iterations;
    fastrand::verif::set(Policy { int_fixed: 1, ..Policy::FIXED });
    let mut ga = GeneticAlgorithm::new(&ctx);
    ga.add_individual(&ctx, individual(&ctx, vec![vec![1, 2, 3], vec![], vec![]]));
    ga.add_individual(&ctx, individual(&ctx, vec![vec![2], vec![1], vec![3]]));
    flag("clock", param("step", 3000));
    // the clock has moved on by a part of a second
    flag("nanos", [0, 400_000_000, 600_000_000, 999_999_999][uchoice("nanos", 0, 3)]);
    let mut steps = 0u64;
    for _ in 0..param("steps", 6) {
        let before = ctx.elapsed_as_secs();
        let done = *ctx.iteration.borrow();
        ga.iterate(&ctx);
        let after = ctx.elapsed_as_secs();
        steps += 1;
        let reached = |t: u64| t >= limit || match most { Some(m) => done >= m, None => false };
        if reached(before) { check(ga.terminated(), "stops once a limit is reached"); }
        if !reached(after) { check(!ga.terminated(), "does not stop before"); }
        check(*ctx.iteration.borrow() == done + if ga.terminated() { 0 } else { (steps > 2) as u64 }, "iterations are counted");
        if ga.terminated() {
            reach("stopped");
            let (child, size, iterations) = (ga.child.genotype.clone(), ga.population.size(), ga.iterations);
            ga.iterate(&ctx);
            check(ga.terminated() && ga.child.genotype == child && ga.population.size() == size && ga.iterations == iterations && *ctx.iteration.borrow() == done, "once stopped nothing changes");
            break;
        }
    }
    flag("clock", -1);
    // the driver loop stops with the search
    struct Steps { left: u64, seen: u64 }
    impl Metaheuristic for Steps {
        fn iterate(&mut self, _: &Context) { self.seen += 1; self.left -= 1; }
        fn terminated(&self) -> bool { self.left == 0 }
    }
    let steps = uchoice("steps", 0, 4) as u64;
    let mut s = Solver::new(quiet(3, 3, 3.0), Steps { left: steps, seen: 0 });
    s.run();
    check(s.metaheuristic.seen == steps, "the driver runs until the search has stopped");
    let fresh = quiet(3, 3, 3.0);
    let stop = uchoice("stop", 0, 3) as u64;
    fresh.config.borrow_mut().time_limit = 0;
    let mut s = Solver::new(fresh, Count { left: stop, seen: 0 });
    s.run();
    check(s.metaheuristic.seen == (stop > 0) as u64, "the driver runs until the search has stopped");
    reach("end");
}

/// Records of the best solution across restarts.
#[no_mangle]
pub extern "Rust" fn h_records_restart() {
    let n = 3;
    let mut ctx = quiet(n, 3, 2.0);
    sym_distances_partial(&mut ctx, param("mask", 0x3), 1000);
    ctx.config.borrow_mut().max_iterations_without_improvement = uchoice("patience", 0, 1) as u64;
    ctx.config.borrow_mut().initial_individuals = 2;
    let pen = ctx.config.borrow().penalty_capacity;
    fastrand::verif::set(Policy { int_fixed: 1, ..Policy::FIXED });
    let mut ga = GeneticAlgorithm::new(&ctx);
    let mut best = f64::INFINITY;
    let mut count = 0;
    let mut size = 0;
    for i in 0..param("steps", 10) {
        fastrand::verif::set(Policy { ints: Mode::Sym, int_budget: param("draws", 1) as u32, int_fixed: i as u64, shuffle_identity: false, ..Policy::FIXED });
        ga.iterate(&ctx);
        let h = ctx.search_history.borrow();
        let entries = h.entries();
        check(entries.len() >= count, "records are kept");
        for e in &entries[count..] {
            check(e.solution.cost < best, "a record is cheaper than the one before");
            best = e.solution.cost;
        }
        count = entries.len();
        if let Some(e) = h.last_entry() {
            let r = &e.solution.routes;
            check(is_partition(n, r) && r.iter().all(|x| x.len() <= 2), "a record is complete and feasible");
            check((e.solution.cost - penalized(&ctx, pen, r)).abs() < 1e-6, "a record carries its true cost");
            match &ga.best_solution { Some(b) => check((b.penalized_cost() - e.solution.cost).abs() < 1.1e-6 && is_partition(n, &b.phenotype), "the last record is the best solution reported"), None => check(false, "a best solution is reported") }
        }
        for m in &ga.population.feasible.population { check(best <= m.penalized_cost() + 1.1e-6, "no member is cheaper than the best record"); }
        if ga.population.size() == 0 && size > 0 { reach("restarted"); if count > 0 { reach("restarted with a record"); } }
        size = ga.population.size();
    }
    reach("end");
}

/// Restart after too long without improvement.
#[no_mangle]
pub extern "Rust" fn h_restart() {
    let ctx = quiet(3, 3, 3.0);
    let patience = uchoice("patience", 0, 3) as u64;
    ctx.config.borrow_mut().max_iterations_without_improvement = patience;
    ctx.config.borrow_mut().initial_individuals = 2;
    fastrand::verif::set(Policy { int_fixed: 1, ..Policy::FIXED });
    let mut ga = GeneticAlgorithm::new(&ctx);
    let mut last = 0;
    let mut iterations = 0;
    for _ in 0..param("steps", 14) {
        let (size, current, restarts, it) = (ga.population.size(), ga.best_iteration, ctx.search_history.borrow().messages.len(), ga.iterations);
        let best = ctx.search_history.borrow().best_cost;
        let records = ctx.search_history.borrow().entries().len();
        fastrand::verif::set(Policy { ints: Mode::Sym, int_budget: param("draws", 0) as u32, int_fixed: 1, ..Policy::FIXED });
        ga.iterate(&ctx);
        check(ctx.search_history.borrow().best_cost <= best && ctx.search_history.borrow().entries().len() >= records, "the best solution is kept");
        check(ga.best_solution.is_some() == (ctx.search_history.borrow().entries().len() > 0), "the best solution is kept");
        if ga.iterations > it {
            // a cycle step: it restarts exactly when it is due
            iterations += 1;
            let due = it - ga.best_iteration.min(it) > patience;
            let restarted = ga.population.size() == 0;
            if restarted {
                reach("restarted");
                check(ga.num_initialized == 0 && ga.best_iteration == it, "a restart begins anew");
                check(it - current > patience, "no restart before its time");
                last = it;
            } else {
                check(!due, "restarts when it is due");
                check(ga.population.size() >= 1, "members");
            }
        }
        let _ = (size, restarts, last);
    }
    if iterations > 0 { reach("cycles"); }
    reach("end");
}

/// Every individual of the population is complete and truthful.
fn sound(ctx: &Context, ga: &GeneticAlgorithm, n: usize) {
    let pen = ctx.config.borrow().penalty_capacity;
    for i in ga.population.feasible.population.iter().chain(ga.population.infeasible.population.iter()) {
        check(is_partition(n, &i.phenotype) && i.genotype == i.phenotype.concat(), "members visit every customer exactly once");
        check(i.is_feasible() == i.phenotype.iter().all(|r| route_load(ctx, r) <= ctx.problem.vehicle.cap + 1e-6), "feasibility of a member");
        let want = penalized(ctx, pen, &i.phenotype);
        check((i.penalized_cost() - want).abs() < 1e-5, "members carry their true cost");
    }
    for i in &ga.population.feasible.population { check(i.is_feasible(), "feasible members"); }
    for i in &ga.population.infeasible.population { check(!i.is_feasible(), "infeasible members"); }
    reported(ctx, n);
}
pub fn reported(ctx: &Context, n: usize) {
    let h = ctx.search_history.borrow();
    if let Some(e) = h.last_entry() {
        let r = &e.solution.routes;
        check(is_partition(n, r), "the reported solution visits every customer exactly once");
        check(r.iter().all(|x| route_load(ctx, x) <= ctx.problem.vehicle.cap + 1e-6), "the reported solution respects the capacity");
        let d: f64 = r.iter().map(|x| route_distance(ctx, x)).sum();
        check((e.solution.cost - d).abs() < 1e-5, "the reported cost is the total distance");
        reach("reported");
    }
}

/// The whole genetic algorithm on a small instance, symbolic distances.
#[no_mangle]
pub extern "Rust" fn h_ga() {
    let n = param("n", 3) as usize;
    let mut ctx = base_ctx(n, |c| {
        c.initial_individuals = 2;
        c.min_population_size = 2;
        c.population_lambda = 2;
        c.num_elites = 1;
        c.log_interval = 1_000_000;
        c.rr_gamma = 0.5;
        c.rr_probability = param("rrp", 100) as f64 / 100.0;
        c.penalty_update_interval = 1;
        c.elite_education = param("elite", 0) == 1;
        c.elite_education_problem_size_limit = 1;
        c.elite_education_gamma = 0.4;
        c.elite_education_time_based = false;
        c.max_iterations_without_improvement = 3;
    });
    ctx.problem.vehicle.cap = param("cap", 2) as f64;
    if param("vehicles", 0) > 0 { ctx.config.borrow_mut().num_vehicles = param("vehicles", 0) as u64; }
    ctx.config.borrow_mut().penalty_capacity = 7.0;
    sym_distances_partial(&mut ctx, param("mask", 7), 100);
    fastrand::verif::set(Policy { int_fixed: 1, shuffle_identity: true, ..Policy::FIXED });
    // as the program does: the algorithm is built before the context moves to its final place
    let boxed = Box::new(ctx);
    let ga = GeneticAlgorithm::new(&boxed);
    let mut solver = Solver::new(*boxed, ga);
    let symbolic = param("symbolic", 3);
    for step in 0..param("steps", 6) {
        let on = step >= symbolic;
        fastrand::verif::set(Policy {
            ints: if on { Mode::Sym } else { Mode::Fixed }, int_budget: param("ints", 2) as u32, reals: if on { Mode::Sym } else { Mode::Fixed }, real_budget: param("reals", 1) as u32,
            int_fixed: 1 + step as u64, shuffle_identity: false, ..Policy::FIXED
        });
        solver.metaheuristic.iterate(&solver.ctx);
        sound(&solver.ctx, &solver.metaheuristic, n);
    }
    if solver.metaheuristic.iterations > 0 { reach("cycles"); }
    reach("end");
}

/// Tiny and degenerate instances under the default settings.
#[no_mangle]
pub extern "Rust" fn h_tiny() {
    use hybridcvrp::config::Config;
    use hybridcvrp::models::*;
    use hybridcvrp::utils::ProblemParser;
    let n = uchoice("customers", param("n0", 2) as usize, param("n1", 3) as usize);
    let kind = choice("kind", param("k0", 0), param("k1", 2));
    let nodes: Vec<Node> = (0..=n)
        .map(|i| {
            let c = match kind { 0 => COORDS[i], 1 => (3.0, 4.0), _ => (10.0 * i as f64, 0.0) };
            Node { id: i + 1, coord: Coordinate { lng: c.0, lat: c.1 }, demand: if i == 0 { 0.0 } else { 1.0 } }
        })
        .collect();
    let cap = [1.0, 2.0, 100.0][uchoice("capacity", 0, 2)];
    let mut parser = ProblemParser::new();
    parser.problem = Some(ProblemBuilder::new(nodes, Vehicle { id: 0, cap }).build());
    let mut config = Config::default();
    config.deterministic = true;
    config.time_limit = 1_000_000;
    if param("init", 3) > 0 { config.initial_individuals = param("init", 3) as u64; }
    config.rr_gamma = if param("gamma", 0) > 0 { param("gamma", 0) as f64 } else { config.rr_gamma };
    fastrand::verif::set(Policy { ints: Mode::Real, reals: Mode::Real, shuffle_identity: false, ..Policy::FIXED });
    let boxed = Box::new(Context::new(parser, config, instant::Instant::now()));
    let ga = GeneticAlgorithm::new(&boxed);
    let mut solver = Solver::new(*boxed, ga);
    for step in 0..param("steps", 8) {
        if param("draws", 0) > 0 && step >= 1 {
            fastrand::verif::set(Policy { ints: Mode::Sym, int_budget: param("draws", 0) as u32, reals: Mode::Fixed, int_fixed: 1 + step as u64, shuffle_identity: false, ..Policy::FIXED });
        }
        solver.metaheuristic.iterate(&solver.ctx);
        reported(&solver.ctx, n);
    }
    if solver.metaheuristic.iterations > 0 { reach("cycles"); }
    reach("end");
}

/// Two runs with the same seed under different operating-system randomness.
#[no_mangle]
pub extern "Rust" fn h_determinism() {
    let n = param("n", 4) as usize;
    let seed = [1, 0, 42, u64::MAX][uchoice("seed", 0, param("seeds", 3) as usize)];
    let mut traces: Vec<Vec<Vec<Vec<usize>>>> = Vec::new();
    let mut costs: Vec<Vec<f64>> = Vec::new();
    let mask = param("mask", 3);
    let mut ds: Vec<f64> = Vec::new();
    for run in 0..2u64 {
        getrandom::set_entropy(if run == 0 { 12345 } else { 987654321 });
        fastrand::verif::set(Policy { ints: Mode::Real, reals: Mode::Real, shuffle_identity: false, entropy: if run == 0 { 5 } else { 77 }, ..Policy::FIXED });
        let mut ctx = base_ctx(n, |c| {
            c.seed = seed;
            c.initial_individuals = 2;
            c.min_population_size = 3;
            c.population_lambda = 2;
            c.log_interval = 1_000_000;
            c.rr_probability = 1.0;
            c.rr_gamma = param("gamma", 2) as f64;
        });
        ctx.problem.vehicle.cap = param("cap", 2) as f64;
        // the same distances in both runs
        let dim = n + 1;
        let mut m: hybridcvrp::models::Matrix<f64> = hybridcvrp::models::Matrix::new(dim, dim);
        let mut p = 0;
        let mut q = 0;
        for i in 0..dim {
            m.set(i, i, 0.0);
            for j in i + 1..dim {
                let (a, b) = (COORDS[i], COORDS[j]);
                let d = if mask >> p & 1 == 1 {
                    if run == 0 { ds.push(f64i("d", 1, 100)); }
                    q += 1;
                    ds[q - 1]
                } else if param("ties", 0) == 1 { 10.0 } else { ((a.0 - b.0).powi(2) + (a.1 - b.1).powi(2)).sqrt().round() };
                m.set(i, j, d);
                m.set(j, i, d);
                p += 1;
            }
        }
        let locations = ctx.problem.nodes.iter().map(|n| n.coord).collect();
        ctx.matrix_provider.distance = hybridcvrp::models::DistanceMatrix::new(locations, m, true, false, None);
        let mut ga = GeneticAlgorithm::new(&ctx);
        let mut trace = Vec::new();
        let mut cost = Vec::new();
        for _ in 0..param("steps", 5) {
            ga.iterate(&ctx);
            trace.push(ga.child.phenotype.clone());
            cost.push(ga.child.penalized_cost());
        }
        for i in ga.population.feasible.population.iter().chain(ga.population.infeasible.population.iter()) { trace.push(i.phenotype.clone()); cost.push(i.penalized_cost()); }
        if let Some(e) = ctx.search_history.borrow().last_entry() { trace.push(e.solution.routes.clone()); cost.push(e.solution.cost); }
        traces.push(trace);
        costs.push(cost);
    }
    check(traces[0].len() == traces[1].len(), "the same number of members");
    for i in 0..traces[0].len() {
        check(traces[0][i] == traces[1][i], "the same solutions");
        check(costs[0][i] == costs[1][i], "the same costs");
    }
    reach("end");
}
