use crate::common::*;
use crate::entries;
use fastrand::verif::{Mode, Policy};
use hybridcvrp::solver::improvement::*;
use hybridcvrp::utils::Random;
use std::time::Duration;

entries!(h_sched_iter, h_sched_time, h_accept);

fn factor(t: f64) -> f64 { (-2.0 * t).exp() - t * (-2.0f64).exp() }

/// Iteration schedule: temperatures, completion, reset.
#[no_mangle]
pub extern "Rust" fn h_sched_iter() {
    let total = uchoice("total", 1, param("total", 6) as usize);
    let start = f64s("start", 1, 100_000, 6);
    let mut s = IterationSchedule::new(start, total);
    let first = uchoice("first", 0, total + 1);
    for round in 0..2 {
        check(TemperatureAcceptance::temp(&s) == start, "starts at the start temperature");
        check(!s.completed(), "not complete at the start");
        let mut last = start;
        let updates = if round == 0 { first } else { total + 1 };
        for i in 1..=updates {
            s.update();
            let t = TemperatureAcceptance::temp(&s);
            if i <= total {
                check((t - start * factor(i as f64 / total as f64)).abs() <= 1e-9, "temperature follows the formula");
                check(t <= last, "temperature does not rise");
                check(t >= -1e-9, "temperature is not negative");
            }
            check(s.completed() == (i >= total), "complete exactly after all iterations");
            last = t;
            if i == total { reach("completed"); }
        }
        s.reset();
    }
    reach("end");
}

/// Time schedule under any clock.
#[no_mangle]
pub extern "Rust" fn h_sched_time() {
    flag("clock", -1);
    let dur = [1.0, 8.0, 64.0, 0.5][uchoice("duration", 0, 3)];
    let rate = uchoice("rate", 1, 2);
    let start = f64s("start", 1, 100_000, 6);
    let steps = param("steps", 4);
    let mut s = TimeSchedule::new(start, Duration::from_millis((dur * 1000.0) as u64));
    s.set_update_rate(rate);
    let mut half = 0;
    for round in 0..2 {
        check(TemperatureAcceptance::temp(&s) == start, "starts at the start temperature");
        check(!s.completed(), "not complete at the start");
        // the clock reads half seconds from here on
        let more = choice("half", 0, if half == 0 { 1 } else { 0 });
        half += more;
        let mut elapsed = more as f64 / 2.0;
        flag("nanos", half * 500_000_000);
        let mut done = false;
        let mut temp = start;
        for i in 1..=steps {
            let dt = int("dt", 0, 50);
            flag("tick", dt);
            elapsed += dt as f64;
            s.update();
            if i % rate as i64 == 0 {
                let t = elapsed / dur;
                temp = start * factor(t);
                if elapsed >= dur { done = true; reach("completed"); }
            }
            check((TemperatureAcceptance::temp(&s) - temp).abs() <= 1e-6, "temperature follows the formula");
            check(s.completed() == done, "complete when the duration has passed");
        }
        if round == 0 {
            flag("tick", int("pause", 0, 50));
            s.reset();
        }
    }
    reach("end");
}

/// The acceptance rule.
#[no_mangle]
pub extern "Rust" fn h_accept() {
    let start = f64s("start", 1, 100_000, 6);
    let total = uchoice("total", 1, 3);
    let mut s = IterationSchedule::new(start, total);
    for _ in 0..uchoice("updates", 0, total - 1) { s.update(); }
    let temp = TemperatureAcceptance::temp(&s);
    let (new, old) = (f64s("new", 0, 100_000, 4), f64s("old", 0, 100_000, 4));
    fastrand::verif::set(Policy { reals: Mode::Sym, real_budget: 1, ..Policy::FIXED });
    let random = Random::from_seed(1);
    let kind = uchoice("kind", 0, 1);
    let ok = if kind == 0 { AcceptanceCriterion::from(s).accept(new, old, &random) } else { Acceptance::accept(&s, new, old, &random) };
    let r = fastrand::verif::last_real();
    if new < old - 2e-6 { check(ok, "a cheaper solution is accepted"); }
    if r > 0.0 {
        let limit = old - temp * r.ln();
        if ok { check(new < limit, "a dearer solution only within the temperature"); reach("accepted"); }
        else { check(new > limit - 2e-6, "accepted within the temperature"); reach("rejected"); }
        if new > old + 1.0 && ok { reach("dearer accepted"); }
    }
    reach("end");
}
