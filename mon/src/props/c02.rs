//! The form of the contours of a result.
use super::c01::crowd_scene;
use crate::check;
use crate::eng::*;
use crate::general;
use crate::geo::*;
use crate::lattice::*;
use crate::runner::*;
use i_overlay::core::solver::Solver;

pub fn property() -> Property {
    Property {
        id: "C02",
        workloads: vec![
            Workload {
                name: "lattice",
                rule: "lattice scenes x 7 rules x 4 fill rules x simplification on/off x both directions; every contour of every result is examined exactly: vertex count, repeated and collinear vertices, spikes, area, and all pairs of edges of the result for crossings and overlaps; non-trivial: some result has a contour",
                quick: 30_000,
                thorough: 2_000_000,
                run: lattice,
            },
            Workload {
                name: "general",
                rule: "scenes with arbitrary slopes and sizes up to +-2^30 (rounded crossings, near-coincident edges), examined in the same way",
                quick: 30_000,
                thorough: 1_500_000,
                run: general,
            },
            Workload {
                name: "crowd",
                rule: "lattice scenes of hundreds to thousands of contours, examined in the same way",
                quick: 600,
                thorough: 30_000,
                run: crowd,
            },
        ],
        assumptions: &["coordinates stay within +-2^30"],
    }
}

fn judge(c: &mut Case, s: &[Contour], k: &[Contour], sv: Solver, all: bool) -> CaseResult {
    let cut = c.rng.chance(1, 4);
    for fill in FILLS {
        for rule in RULES {
            if !all && !c.rng.chance(1, 5) {
                continue;
            }
            let simplify = c.rng.bool();
            let d = dir(&mut c.rng);
            let min_area = if cut { c.rng.log_range(1000) as usize } else { 0 };
            let out = run_overlay(s, k, rule, fill, d, simplify, min_area, sv);
            let cs = check::contours_of(&out);
            c.nontrivial |= !cs.is_empty();
            c.count("contours examined", cs.len() as u64);
            let r = cs.iter().try_for_each(|x| check::contour_form(x, simplify)).and_then(|_| {
                if out.iter().any(|s| s.is_empty()) {
                    return Err("a shape without contours".to_string());
                }
                check::no_crossing(&cs)
            });
            match r {
                Ok(p) => c.count("edge pairs examined", p as u64),
                Err(m) => {
                    c.note(|| show_out(&out));
                    return Err(format!("{rule:?} {fill:?} {d:?} simplify {simplify} {}: {m}", show_solver(&sv)));
                }
            }
        }
    }
    Ok(())
}

fn lattice(c: &mut Case) -> CaseResult {
    let sc = Scene::random(&mut c.rng, 8, 5);
    c.sign(sc.sig());
    c.note(|| sc.show());
    let sv = fine_solver(&mut c.rng);
    judge(c, &sc.int_subj(), &sc.int_clip(), sv, true)
}

fn general(c: &mut Case) -> CaseResult {
    let max = if c.rng.chance(1, 20) { 12 } else { 4 };
    let sc = general::Scene::random(&mut c.rng, general::LIM, max);
    c.sign(sc.sig());
    c.note(|| sc.show());
    let sv = general_solver(&mut c.rng, sc.size);
    judge(c, &sc.subj, &sc.clip, sv, true)
}

fn crowd(c: &mut Case) -> CaseResult {
    let sc = crowd_scene(&mut c.rng, 12, 40);
    c.sign(sc.sig());
    c.note(|| sc.show().chars().take(4000).collect());
    let sv = fine_solver(&mut c.rng);
    judge(c, &sc.int_subj(), &sc.int_clip(), sv, false)
}
