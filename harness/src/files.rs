//! Solution files, instance files, configuration layers (C15, C21, C22).
use crate::common::*;
use crate::entries;
use hybridcvrp::config::Config;
use hybridcvrp::models::Matrix;
use hybridcvrp::solver::Context;
use hybridcvrp::utils::{write_solution_file, ProblemParser};
entries!(h_solution_file, h_instance, h_config, h_args);

pub fn number(mut n: u64) -> Vec<u8> {
    let mut o = Vec::new();
    loop { o.push(b'0' + (n % 10) as u8); n /= 10; if n == 0 { break; } }
    o.reverse();
    o
}

/// C15: what is written is the last record, in the stated form.
#[no_mangle]
pub fn h_solution_file() {
    flag("clock", -1);
    let n = param("n", 3) as usize;
    let k = param("k", 3) as usize;
    let first = param("first", 0) as usize;
    let path = "written.sol";
    let old = choice("existing file", 0, 2);
    if old > 0 {
        let junk: Vec<u8> = vec![b'x'; if old == 1 { 3 } else { 400 }];
        std::fs::write(path, &junk).unwrap();
    }
    let configured = flip("configured");
    let mut ctx = base_ctx(n + first, |c| { c.solution_path = if configured { Some(path.to_string()) } else { None }; });
    // two symbolic distances in quarters, the other ones fixed
    let dim = ctx.problem.dim();
    let mut m: Matrix<f64> = Matrix::new(dim, dim);
    for i in 0..dim { for j in 0..dim { m.set(i, j, if i == j { 0.0 } else { param("d", 1) as f64 }); } }
    let d = f64s("d", 0, param("hi", 40), 2);
    m.set(0, first + 1, d);
    let e = f64s("d", 0, param("hi", 40), 2);
    m.set(first + n, 0, e);
    let locations = ctx.problem.nodes.iter().map(|n| n.coord).collect();
    ctx.matrix_provider.distance = hybridcvrp::models::DistanceMatrix::new(locations, m, true, false, None);
    let mut routes = choose_routes(n, k);
    for r in routes.iter_mut() { for c in r.iter_mut() { *c += first; } }
    if flip("reversed") { for r in routes.iter_mut() { r.reverse(); } }
    let earlier = flip("earlier record");
    let recorded = flip("recorded");
    if recorded {
        if earlier {
            let other = individual(&ctx, vec![(first + 1..first + n + 1).rev().collect(), vec![]]);
            ctx.search_history.borrow_mut().add(&ctx, &other);
        }
        let ind = individual(&ctx, routes.clone());
        ctx.search_history.borrow_mut().add(&ctx, &ind);
    }
    flag("format", 1);
    write_solution_file(&ctx);
    flag("format", 0);
    let got = std::fs::read(path);
    if !configured {
        match got {
            Err(_) => check(old == 0, "an unconfigured file is left alone"),
            Ok(b) => { check(old > 0 && b.len() == if old == 1 { 3 } else { 400 }, "an unconfigured file is left alone"); check(b.iter().all(|x| *x == b'x'), "an unconfigured file is left alone"); reach("untouched"); }
        }
        reach("end");
        return;
    }
    check(got.is_ok(), "the file exists");
    let got = got.unwrap();
    if !recorded { check(got.is_empty(), "nothing to write"); reach("end"); return; }
    let mut want: Vec<u8> = Vec::new();
    let mut number_of = 0;
    for r in routes.iter().filter(|r| !r.is_empty()) {
        number_of += 1;
        want.extend_from_slice(b"Route #");
        want.extend_from_slice(&number(number_of));
        want.push(b':');
        for c in r { want.push(b' '); want.extend_from_slice(&number(*c as u64)); }
        want.push(b'\n');
    }
    want.extend_from_slice(b"Cost ");
    let w = want.len();
    check(got.len() > w + 1, "the file is complete");
    check(got[..w] == want[..], "the routes are listed");
    check(got[got.len() - 1] == b'\n', "the last line ends");
    let mut c: u64 = 0;
    for x in &got[w..got.len() - 1] { check(*x >= b'0' && *x <= b'9', "the cost is a number"); c = c * 10 + (*x - b'0') as u64; }
    check(got.len() == w + 2 || got[w] != b'0', "no leading zero");
    let real = ctx.search_history.borrow().last_entry().unwrap().solution.cost;
    check((real - c as f64).abs() <= 0.5, "the cost is rounded to the nearest integer");
    reach("cost");
    reach("end");
}

/// Writes a number of symbolic digits in the given notation and returns its value.
fn numeral(out: &mut Vec<u8>, form: i64) -> f64 {
    // integer digits, fraction digits, negative
    if form == 7 {
        // scientific notation
        let (d, e) = (int("digit", b'0' as i64, b'9' as i64) as u8, int("digit", b'0' as i64, b'9' as i64) as u8);
        out.extend_from_slice(&[d, b'.', e]);
        out.extend_from_slice(b"e+02");
        return ((d - b'0') as u64 * 100 + (e - b'0') as u64 * 10) as f64;
    }
    let (a, b, neg) = match form { 0 => (1, 0, false), 1 => (2, 0, false), 2 => (3, 0, false), 3 => (2, 0, true), 4 => (2, 1, false), 5 => (1, 2, true), _ => (4, 0, false) };
    if neg { out.push(b'-'); }
    let mut m: u64 = 0;
    for i in 0..a + b {
        if i == a { out.push(b'.'); }
        let d = int("digit", b'0' as i64, b'9' as i64) as u8;
        out.push(d);
        m = m * 10 + (d - b'0') as u64;
    }
    let v = m as f64 / match b { 0 => 1.0, 1 => 10.0, _ => 100.0 };
    if neg { -v } else { v }
}
fn line(out: &mut Vec<u8>, parts: &[&[u8]], sep: &[u8], end: &[u8], lead: &[u8]) {
    out.extend_from_slice(lead);
    for (i, p) in parts.iter().enumerate() {
        if i > 0 { out.extend_from_slice(sep); }
        out.extend_from_slice(p);
    }
    out.extend_from_slice(end);
}

/// C21: every number of an instance file arrives where it belongs, whatever the layout.
#[no_mangle]
pub fn h_instance() {
    flag("clock", -1);
    let n = uchoice("dimension", param("n0", 2) as usize, param("n1", 3) as usize);
    let explicit = param("explicit", 0) == 1;
    let layout = choice("layout", 0, param("layouts", 6));
    // header separator, separator within the sections, line end, start of each line
    let sep: [u8; 2];
    let (hs, ss, end, lead): (&[u8], &[u8], &[u8], &[u8]) = match layout {
        0 => (b" : ", b" ", b"\n", b""),
        1 => (b": ", b"\t", b"\r\n", b""),
        2 => (b"\t:\t", b"   ", b" \n", b" "),
        3 => (b":", b"\t \t", b"\t\n", b"\t"),
        4 => (b" ", b" : ", b"\n", b""),
        5 => (b"  :", b" ", b"  \r\n", b"  "),
        _ => {
            // any separators
            let a = int("separator", 9, 58) as u8;
            assume(a == b' ' || a == b'\t' || a == b':');
            let b = int("separator", 9, 58) as u8;
            assume(b == b' ' || b == b'\t' || b == b':');
            sep = [a, b];
            (&sep, &sep[1..], b"\n", &sep[..1])
        }
    };
    let form = choice("number form", param("form0", 0), param("form1", 5));
    let qform = choice("demand form", 0, param("qform1", 2));
    let order = choice("header order", 0, param("orders", 3));
    let mut t: Vec<u8> = Vec::new();
    let mut cap_text = Vec::new();
    let cap = numeral(&mut cap_text, choice("capacity form", 1, param("cform1", 2)));
    let dim_text = number(n as u64);
    let name: &[u8] = b"X-n3-k1";
    let kind: &[u8] = if explicit { b"EXPLICIT" } else { b"EUC_2D" };
    let headers: [(&[u8], &[u8]); 6] = [(b"NAME", name), (b"COMMENT", b"DIMENSION 17, CAPACITY 4"), (b"TYPE", b"CVRP"), (b"DIMENSION", &dim_text), (b"EDGE_WEIGHT_TYPE", kind), (b"CAPACITY", &cap_text)];
    let turn: [usize; 6] = match order { 0 => [0, 1, 2, 3, 4, 5], 1 => [5, 4, 3, 2, 1, 0], 2 => [4, 0, 5, 1, 3, 2], _ => [1, 3, 5, 0, 2, 4] };
    for h in turn { line(&mut t, &[headers[h].0, headers[h].1], hs, end, lead); if order == 3 { t.extend_from_slice(end); } }
    let mut coords = Vec::new();
    let mut demands = Vec::new();
    let mut entries: Vec<Vec<f64>> = Vec::new();
    if explicit { line(&mut t, &[b"EDGE_WEIGHT_FORMAT", b"LOWER_ROW"], hs, end, lead); }
    for part in 0..3 {
        // the three sections in one of three orders
        match (part + order.min(2)) % 3 {
            0 => {
                line(&mut t, &[b"NODE_COORD_SECTION"], ss, end, lead);
                for i in 0..n {
                    let (mut a, mut b) = (Vec::new(), Vec::new());
                    let x = numeral(&mut a, form);
                    let y = numeral(&mut b, if i == 0 { 0 } else { form });
                    coords.push((x, y));
                    line(&mut t, &[&number(i as u64 + 1), &a, &b], ss, end, lead);
                }
            }
            1 => {
                line(&mut t, &[b"DEMAND_SECTION"], ss, end, lead);
                for i in 0..n {
                    let mut a = Vec::new();
                    let q = if i == 0 && qform != 1 { a.push(b'0'); 0.0 } else { numeral(&mut a, qform) };
                    demands.push(q);
                    line(&mut t, &[&number(i as u64 + 1), &a], ss, end, lead);
                }
            }
            _ => if explicit {
                line(&mut t, &[b"EDGE_WEIGHT_SECTION"], ss, end, lead);
                for i in 1..n {
                    let mut row = Vec::new();
                    let mut parts: Vec<Vec<u8>> = Vec::new();
                    for _ in 0..i { let mut a = Vec::new(); row.push(numeral(&mut a, form)); parts.push(a); }
                    let p: Vec<&[u8]> = parts.iter().map(|p| &p[..]).collect();
                    line(&mut t, &p, ss, end, lead);
                    entries.push(row);
                }
            }
        }
    }
    line(&mut t, &[b"DEPOT_SECTION"], ss, end, lead);
    line(&mut t, &[b"1"], ss, end, lead);
    line(&mut t, &[b"-1"], ss, end, lead);
    line(&mut t, &[b"EOF"], ss, if layout == 0 { b"" } else { end }, lead);
    let path = "instance.vrp";
    std::fs::write(path, &t).unwrap();
    let mut config = Config::default();
    config.instance_path = path.to_string();
    config.round_distances = false;
    let mut parser = ProblemParser::new();
    parser.parse(&mut config);
    let p = parser.problem.as_ref().unwrap();
    check(p.dim() == n && p.num_customers() == n - 1 && p.nodes.len() == n, "the dimension is the stated one");
    check(p.vehicle.cap == cap, "the capacity is the stated one");
    for i in 0..n {
        check(p.nodes[i].coord.lng == coords[i].0 && p.nodes[i].coord.lat == coords[i].1, "the coordinates are the stated ones");
        check(p.nodes[i].demand == demands[i], "the demands are the stated ones");
        check(p.nodes[i].id == i + 1, "the nodes keep their order");
    }
    match parser.matrix.as_ref() {
        None => check(!explicit, "explicit distances are read"),
        Some(m) => {
            check(explicit && m.len() == n - 1, "the rows of the matrix");
            for i in 1..n { check(m[i - 1].len() == i, "the columns of the matrix"); for j in 0..i { check(m[i - 1][j] == entries[i - 1][j], "the distances are the stated ones"); } }
            reach("explicit");
        }
    }
    if explicit && param("context", 0) == 1 {
        let ctx = Context::new(parser, config, instant::Instant::now());
        for i in 0..n { for j in 0..i {
            let (a, b) = (ctx.matrix_provider.distance.get(i, j), ctx.matrix_provider.distance.get(j, i));
            check(a == entries[i - 1][j] && b == a, "the solver uses the stated distances");
        } }
        check(ctx.problem.nodes.len() == n, "the solver gets every node");
        reach("context");
    }
    reach("end");
}

/// Every setting: its name and the kind of its value.
#[derive(Clone, Copy, PartialEq)]
enum Kind { Int, Float, Bool, Text, OptText, OptInt }
macro_rules! settings {
    ($($f:ident $k:ident),* $(,)?) => {
        const SETTINGS: &[(&str, Kind)] = &[$((stringify!($f), Kind::$k)),*];
        /// Checks each setting but those at the given places against another configuration.
        fn same_but(a: &Config, b: &Config, but: &[usize], what: &str) {
            let mut i = 0;
            $( if !but.contains(&i) { check(a.$f == b.$f, what); } i += 1; )*
            let _ = i;
        }
        fn number_is(a: &Config, at: usize, v: f64) -> bool {
            let mut i = 0;
            $( if i == at { return settings!(@num a.$f, v, $k); } i += 1; )*
            let _ = i;
            false
        }
        fn integer_is(a: &Config, at: usize, v: u64) -> bool {
            let mut i = 0;
            $( if i == at { return settings!(@int a.$f, v, $k); } i += 1; )*
            let _ = i;
            false
        }
        fn truth_of(a: &Config, at: usize) -> bool {
            let mut i = 0;
            $( if i == at { return settings!(@bool a.$f, $k); } i += 1; )*
            let _ = i;
            false
        }
        fn text_is(a: &Config, at: usize, v: Option<&str>) -> bool {
            let mut i = 0;
            $( if i == at { return settings!(@text a.$f, v, $k); } i += 1; )*
            let _ = i;
            false
        }
    };
    (@num $e:expr, $v:expr, Float) => { $e == $v };
    (@num $e:expr, $v:expr, $k:ident) => { false };
    (@int $e:expr, $v:expr, Int) => { $e as u64 == $v };
    (@int $e:expr, $v:expr, OptInt) => { $e == Some($v) };
    (@int $e:expr, $v:expr, $k:ident) => { false };
    (@bool $e:expr, Bool) => { $e };
    (@bool $e:expr, $k:ident) => { false };
    (@text $e:expr, $v:expr, Text) => { Some(&$e[..]) == $v };
    (@text $e:expr, $v:expr, OptText) => { $e.as_deref() == $v };
    (@text $e:expr, $v:expr, OptInt) => { $e.is_none() && $v.is_none() };
    (@text $e:expr, $v:expr, $k:ident) => { false };
}
settings!(
    instance_path Text, solution_path OptText, time_limit Int, bks Float, max_iterations OptInt, max_iterations_without_improvement Int, num_vehicles Int, log_interval Int, precompute_distance_size_limit Int, round_distances Bool, decompose_limit Int, decomposed_problem_min_size Int, deterministic Bool, seed Int, min_population_size Int, initial_individuals Int, population_lambda Int, num_elites Int, num_diversity_closest Int, feasibility_proportion_target Float, tournament_size Int, repair_probability Float, split_capacity_factor Float, linear_split Bool, local_search_granularity Int, dynamic_granularity Bool, granularity_min Int, ls_enabled Bool, relocate_single Bool, relocate_double Bool, relocate_double_reverse Bool, swap_one_with_one Bool, swap_two_with_one Bool, swap_two_with_two Bool, two_opt_intra_reverse Bool, two_opt_inter_reverse Bool, two_opt_inter Bool, swap_star Bool, penalty_capacity Float, penalty_update_interval Int, penalty_inc_multiplier Float, penalty_dec_multiplier Float, average_ruin_cardinality Int, max_ruin_string_length Int, rr_mutation Bool, rr_probability Float, rr_gamma Float, rr_final_temp Float, rr_start_temp Float, rr_diversify Bool, elite_education Bool, elite_education_problem_size_limit Int, elite_education_gamma Float, elite_education_final_temp Float, elite_education_start_temp Float, elite_education_time_based Bool, elite_education_time_fraction Float,
);

enum Wanted { Integer(u64), Number(f64), Truth(bool), Text(Option<&'static str>) }
impl Wanted {
    fn holds(&self, c: &Config, at: usize) -> bool {
        match self { Wanted::Integer(v) => integer_is(c, at, *v), Wanted::Number(v) => number_is(c, at, *v), Wanted::Truth(v) => truth_of(c, at) == *v, Wanted::Text(v) => text_is(c, at, *v) }
    }
}
pub fn digits(t: &mut Vec<u8>, n: usize) -> u64 {
    let mut m = 0;
    for i in 0..n {
        let d = int("digit", if i == 0 && n > 1 { b'1' } else { b'0' } as i64, b'9' as i64) as u8;
        t.push(d);
        m = m * 10 + (d - b'0') as u64;
    }
    m
}
/// The number of digits of an integer: few, or more than 32 bits hold.
fn width() -> usize { [1, 2, param("digits", 11) as usize][uchoice("digits", 0, 2)] }
/// A value of the right kind, its digits symbolic.
fn value_of(t: &mut Vec<u8>, kind: Kind) -> Wanted {
    match kind {
        Kind::Int => Wanted::Integer(digits(t, width())),
        Kind::OptInt => if flip("null") { t.extend_from_slice(b"null"); Wanted::Text(None) } else { Wanted::Integer(digits(t, width())) },
        Kind::Bool => { let v = flip("truth"); t.extend_from_slice(if v { b"true" } else { b"false" }); Wanted::Truth(v) }
        Kind::Text => { t.extend_from_slice(b"other.vrp"); Wanted::Text(Some("other.vrp")) }
        Kind::OptText => if flip("null") { t.push(b'~'); Wanted::Text(None) } else { t.extend_from_slice(b"\"a b.sol\""); Wanted::Text(Some("a b.sol")) },
        Kind::Float => {
            let form = choice("float form", 0, 2);
            let a = digits(t, 2);
            if form == 0 { return Wanted::Number(a as f64); }
            t.push(b'.');
            let mut m = a;
            for _ in 0..form { let d = int("digit", b'0' as i64, b'9' as i64) as u8; t.push(d); m = m * 10 + (d - b'0') as u64; }
            Wanted::Number(m as f64 / if form == 1 { 10.0 } else { 100.0 })
        }
    }
}

/// C22: a configuration file changes what it names and nothing else.
#[no_mangle]
pub fn h_config() {
    flag("clock", -1);
    let path = "settings.yml";
    let first = uchoice("first", param("first0", 0) as usize, SETTINGS.len() - 1);
    let named: Vec<usize> = match choice("named", 0, param("named", 2)) { 0 => vec![], 1 => vec![first], _ => vec![(first * 7 + 3) % SETTINGS.len(), first] };
    if named.is_empty() && first > 0 { return; }
    if named.len() == 2 && named[0] == named[1] { return; }
    let mut t = Vec::new();
    let layout = choice("layout", 0, param("layouts", 1));
    if layout == 1 { t.extend_from_slice(b"# a comment: 1\n\n---\n"); }
    let unknown = named.is_empty() || flip("unknown setting");
    if unknown { t.extend_from_slice(b"ruin_alpha: 0.01\n"); }
    let mut wanted = Vec::new();
    for &k in &named {
        t.extend_from_slice(SETTINGS[k].0.as_bytes());
        t.extend_from_slice(if layout == 1 { b":   " } else { b": " });
        wanted.push(value_of(&mut t, SETTINGS[k].1));
        if layout == 1 { t.extend_from_slice(b" # remark\n"); } else { t.push(b'\n'); }
    }
    std::fs::write(path, &t).unwrap();
    let again = flip("again");
    let c = if again { let mut c = Config::default(); c.update_from_yaml_file(path); c } else { Config::load_yaml_file(path) };
    same_but(&c, &Config::default(), &named, "other settings keep their built-in values");
    for (k, w) in named.iter().zip(&wanted) { check(w.holds(&c, *k), "a named setting takes the file's value"); }
    if unknown { reach("unknown"); }
    if named.len() == 2 { reach("two settings"); }
    reach("end");
}

/// C22: what the user gives on the command line overrides the file, the rest is kept.
#[no_mangle]
pub fn h_args() {
    flag("clock", -1);
    let mut before = Config::default();
    before.time_limit = int("file time limit", 0, 1_000_000) as u64;
    before.max_iterations_without_improvement = int("file iterations", 0, 1_000_000) as u64;
    before.max_iterations = if flip("file limited") { Some(int("file limit", 0, 1_000_000) as u64) } else { None };
    before.round_distances = flip("file rounded");
    before.solution_path = match choice("file output", 0, 2) { 0 => None, 1 => Some("file.sol".to_string()), _ => before.solution_path };
    let mut words: Vec<Vec<u8>> = vec![b"hybridcvrp".to_vec()];
    let instance = choice("place of the instance", 0, param("places", 2));
    if instance == 0 { words.push(b"given.vrp".to_vec()); }
    // an option and its value, together or apart
    fn option(words: &mut Vec<Vec<u8>>, name: &[u8], form: i64, value: &[u8]) {
        let mut w = name.to_vec();
        match form { 1 => { w.extend_from_slice(value); words.push(w); } 2 => { w.push(b'='); w.extend_from_slice(value); words.push(w); } _ => { words.push(w); words.push(value.to_vec()); } }
    }
    let order = choice("order", 0, param("orders", 1));
    let form = choice("form", 0, param("forms", 2));
    let (mut time, mut iterations, mut rounded, mut output) = (None, None, None, None);
    for i in 0..4 {
        let k = if order == 0 { i } else { 3 - i };
        if instance == 1 && i == 2 { words.push(b"given.vrp".to_vec()); }
        if !flip("given") { continue; }
        let mut v = Vec::new();
        match k {
            0 => { time = Some(digits(&mut v, width())); option(&mut words, b"-t", form, &v); }
            1 => { iterations = Some(digits(&mut v, width())); option(&mut words, b"-i", form, &v); }
            2 => { let r = flip("rounded"); rounded = Some(r); option(&mut words, b"-r", form, if r { b"true" } else { b"false" }); }
            _ => { output = Some("given.sol"); option(&mut words, b"-o", form, b"given.sol"); }
        }
    }
    if instance == 2 { words.push(b"given.vrp".to_vec()); }
    let refs: Vec<&[u8]> = words.iter().map(|w| &w[..]).collect();
    set_args(&refs);
    let args = hybridcvrp::cli::Args::parse();
    let mut after = before.clone();
    after.update_from_args(&args);
    check(after.instance_path == "given.vrp", "the instance is the given one");
    check(after.time_limit == time.unwrap_or(before.time_limit), "the time limit is the given one, else the file's");
    check(after.max_iterations_without_improvement == iterations.unwrap_or(before.max_iterations_without_improvement), "the iterations are the given ones, else the file's");
    check(after.round_distances == rounded.unwrap_or(before.round_distances), "the rounding is the given one, else the file's");
    match output {
        Some(o) => check(after.solution_path.as_deref() == Some(o), "the output path is the given one"),
        None => check(after.solution_path == before.solution_path, "the output path stays the file's"),
    }
    let but: Vec<usize> = SETTINGS.iter().enumerate().filter(|(_, s)| ["instance_path", "time_limit", "max_iterations_without_improvement", "round_distances", "solution_path"].contains(&s.0)).map(|(i, _)| i).collect();
    check(but.len() == 5, "five settings have an argument");
    same_but(&after, &before, &but, "settings without an argument keep the file's values");
    if time.is_some() && rounded == Some(false) { reach("given"); }
    reach("end");
}
