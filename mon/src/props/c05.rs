//! The result does not depend on the solver, on threads, or on the run.
use super::c01::crowd_scene;
use crate::check;
use crate::eng::*;
use crate::general;
use crate::geo::*;
use crate::lattice::*;
use crate::runner::*;
use i_overlay::core::solver::{MultithreadOptions, Precision, Solver, Strategy};

pub fn property() -> Property {
    Property {
        id: "C05",
        workloads: vec![
            Workload {
                name: "lattice",
                rule: "lattice scenes (crossings are exact): for each of 28 rule/fill pairs the results of List, Tree, Frag and Auto with several precisions and with parallel sorting on (from sizes 1 to 40) and off are compared as sets of shapes; non-trivial: the result is not empty",
                quick: 16_000,
                thorough: 800_000,
                run: lattice,
            },
            Workload {
                name: "repeat",
                rule: "scenes with arbitrary slopes up to +-2^30: the same call repeated, with and without parallel sorting, must give the identical result, vertex by vertex",
                quick: 12_000,
                thorough: 600_000,
                run: repeat,
            },
            Workload {
                name: "large",
                rule: "lattice scenes of 2,000 to 60,000 edges around the sizes where Auto switches its algorithms and sorts in parallel: all strategies, threads on and off",
                quick: 30,
                thorough: 800,
                run: large,
            },
        ],
        assumptions: &[
            "coordinates stay within +-2^30",
            "different strategies are compared where no crossing needs rounding; elsewhere each is held to the region itself (C01)",
        ],
    }
}

fn par(n: usize) -> Option<MultithreadOptions> {
    Some(MultithreadOptions { par_sort_min_size: n })
}

fn lattice(c: &mut Case) -> CaseResult {
    let sc = Scene::random(&mut c.rng, 8, 5);
    c.sign(sc.sig());
    c.note(|| sc.show());
    let (s, k) = (sc.int_subj(), sc.int_clip());
    // with a coarse precision vertices may be snapped over some units: far apart points only
    let coarse = min_vec2(&sc.map) > 64 * 64 * 64;
    for fill in FILLS {
        for rule in RULES {
            let d = dir(&mut c.rng);
            let simplify = c.rng.bool();
            let go = |sv: Solver| run_overlay(&s, &k, rule, fill, d, simplify, 0, sv);
            let base_solver = Solver { strategy: *c.rng.pick(&STRATEGIES), precision: Precision::HIGH, multithreading: None };
            let base = go(base_solver);
            c.nontrivial |= !base.is_empty();
            for strategy in STRATEGIES {
                let precision = *c.rng.pick(if coarse { &PRECISIONS[..] } else { &[Precision::ABSOLUTE, Precision::HIGH, Precision::MEDIUM][..] });
                let multithreading = if c.rng.chance(1, 10) { par(c.rng.usize(1, 40)) } else { None };
                let sv = Solver { strategy, precision, multithreading };
                let out = go(sv);
                c.count("results compared", 1);
                if let Some(m) = check::diff(&base, &out) {
                    c.note(|| format!("{}{}", show_out(&base), show_out(&out)));
                    return Err(format!("{rule:?} {fill:?} {d:?} simplify {simplify}: {} and {} give different results: {m}", show_solver(&base_solver), show_solver(&sv)));
                }
            }
        }
    }
    Ok(())
}

fn repeat(c: &mut Case) -> CaseResult {
    let sc = general::Scene::random(&mut c.rng, general::LIM, 5);
    c.sign(sc.sig());
    c.note(|| sc.show());
    for _ in 0..6 {
        let sv = general_solver(&mut c.rng, sc.size);
        let (fill, rule, d) = (*c.rng.pick(&FILLS), *c.rng.pick(&RULES), dir(&mut c.rng));
        let simplify = c.rng.bool();
        let go = |sv: Solver| -> Vec<Vec<Contour>> { run_overlay(&sc.subj, &sc.clip, rule, fill, d, simplify, 0, sv) };
        let base = go(Solver { multithreading: None, ..sv });
        c.nontrivial |= !base.is_empty();
        let named = named_solver(&mut c.rng, sv.strategy, sv.precision);
        let out = go(named);
        c.count("results compared", 1);
        if out != base || named.strategy != sv.strategy || named.precision != sv.precision {
            return Err(format!("{rule:?} {fill:?} {d:?}: the named solver {} does not do what {} does", show_solver(&named), show_solver(&sv)));
        }
        let n = c.rng.usize(1, 30);
        for m in [None, par(n), Some(MultithreadOptions::default())] {
            let out = go(Solver { multithreading: m, ..sv });
            c.count("results compared", 1);
            if out != base {
                c.note(|| format!("{}{}", show_out(&base), show_out(&out)));
                return Err(format!("{rule:?} {fill:?} {d:?} {}: repeated with parallel sorting {:?} the result differs", show_solver(&sv), m.map(|m| m.par_sort_min_size)));
            }
        }
    }
    Ok(())
}

fn large(c: &mut Case) -> CaseResult {
    let sc = if c.rng.bool() { crowd_scene(&mut c.rng, 20, 50) } else { crowd_scene(&mut c.rng, 50, 100) };
    c.sign(sc.sig());
    c.note(|| sc.show().chars().take(3000).collect());
    let (s, k) = (sc.int_subj(), sc.int_clip());
    let n: usize = s.iter().chain(k.iter()).map(|c| c.len()).sum();
    c.max("most input edges", n as f64);
    let (fill, rule) = (*c.rng.pick(&FILLS), *c.rng.pick(&RULES));
    let go = |sv: Solver| run_overlay(&s, &k, rule, fill, i_overlay::core::overlay::ContourDirection::CounterClockwise, true, 0, sv);
    let base = go(Solver { strategy: Strategy::Auto, precision: Precision::HIGH, multithreading: None });
    c.nontrivial |= !base.is_empty();
    for (strategy, multithreading) in [
        (Strategy::Auto, Some(MultithreadOptions::default())),
        (Strategy::Tree, par(1000)),
        (Strategy::Frag, Some(MultithreadOptions::default())),
        (Strategy::List, None),
    ] {
        if strategy == Strategy::List && n > 12_000 {
            continue;
        }
        let out = go(Solver { strategy, precision: Precision::HIGH, multithreading });
        c.count("results compared", 1);
        if let Some(m) = check::diff(&base, &out) {
            return Err(format!("{rule:?} {fill:?}: Auto without threads and {strategy:?} give different results: {m}"));
        }
    }
    Ok(())
}
