//! What the output options of an overlay do: minimal area and removal of collinear points.
use super::c01::crowd_scene;
use crate::check;
use crate::eng::*;
use crate::general;
use crate::geo::*;
use crate::lattice::*;
use crate::plates;
use crate::rng::Rng;
use crate::runner::*;
use i_overlay::core::fill_rule::FillRule;
use i_overlay::core::overlay_rule::OverlayRule;
use i_overlay::core::overlay::ContourDirection;
use i_overlay::core::solver::Solver;

pub fn property() -> Property {
    Property {
        id: "C04",
        workloads: vec![
            Workload {
                name: "lattice",
                rule: "lattice scenes x 7 rules x 4 fill rules; the result with a minimal area (picked at, just below and just above areas that occur) is compared with the unfiltered result without its smaller contours; the result with simplification with the plain one without its collinear vertices; non-trivial: some contour is dropped or some vertex removed",
                quick: 30_000,
                thorough: 1_500_000,
                run: lattice,
            },
            Workload {
                name: "general",
                rule: "the same in scenes with arbitrary slopes and sizes up to +-2^30",
                quick: 20_000,
                thorough: 1_000_000,
                run: general,
            },
            Workload {
                name: "crowd",
                rule: "the same in lattice scenes of hundreds of contours touching each other",
                quick: 600,
                thorough: 30_000,
                run: crowd,
            },
            Workload {
                name: "plates",
                rule: "up to tens of thousands of plates and holes (see C03): of them exactly the contours of at least the area asked",
                quick: 300,
                thorough: 10_000,
                run: plates_,
            },
        ],
        assumptions: &["coordinates stay within +-2^30"],
    }
}

/// the area is compared in whole units: 2A >> 1 against the limit
fn keeps(c: &Contour, m: usize) -> bool {
    area2(c).unsigned_abs() >> 1 >= m as u128
}

fn plates_(c: &mut Case) -> CaseResult {
    let most = plates::most(&mut c.rng);
    let p = plates::plates(&mut c.rng, most);
    c.sign(crate::rng::hash_str(&p.show()));
    c.note(|| p.show());
    let sv = plates::solver(&mut c.rng, p.contours.len());
    let d = dir(&mut c.rng);
    let m = pick_limit(&mut c.rng, &p.contours);
    let want = p.from_area(m);
    let out = run_overlay(&p.contours, &[], OverlayRule::Subject, FillRule::EvenOdd, d, c.rng.bool(), m, sv);
    let left: usize = out.iter().map(|s| s.len()).sum();
    c.nontrivial |= left > 0 && left < p.contours.len();
    c.count("contours below the area limit", (p.contours.len() - left) as u64);
    c.max("most contours in one result", left as f64);
    want.judge(&out, is_ccw(d)).map_err(|t| format!("min_area {m} {d:?} {}: {t}", show_solver(&sv)))
}

fn pick_limit(rng: &mut Rng, cs: &[Contour]) -> usize {
    let a = if cs.is_empty() { 10 } else { (area2(rng.pick(cs)).unsigned_abs() >> 1) as i64 };
    match rng.below(6) {
        0 => 1,
        1 => a.max(1) as usize,
        2 => (a + 1) as usize,
        3 => (a - 1).max(0) as usize,
        4 => (a / 2) as usize,
        _ => rng.log_range(a.max(2)) as usize,
    }
}

fn judge(c: &mut Case, s: &[Contour], k: &[Contour], sv: Solver, ops: usize) -> CaseResult {
    for i in 0..ops {
        let (fill, rule) = if ops == 28 { (FILLS[i / 7], RULES[i % 7]) } else { (*c.rng.pick(&FILLS), *c.rng.pick(&RULES)) };
        let d = dir(&mut c.rng);
        let run = |simplify: bool, m: usize| run_overlay(s, k, rule, fill, d, simplify, m, sv);
        let plain = run(false, 0);
        let clean = run(true, 0);
        let want: Shapes = plain
            .iter()
            .map(|s| s.iter().map(|c| check::straighten(c)).filter(|c| c.len() > 2).collect::<Vec<_>>())
            .filter(|s| !s.is_empty())
            .collect();
        let cs = check::contours_of(&plain);
        let dropped = cs.iter().map(|x| x.len()).sum::<usize>() - check::contours_of(&want).iter().map(|x| x.len()).sum::<usize>();
        c.count("collinear vertices removed", dropped as u64);
        c.nontrivial |= dropped > 0;
        let fail = |c: &mut Case, what: String, out: &Shapes, want: &Shapes| -> CaseResult {
            c.note(|| format!("got {}\nwanted {}", show_out(out), show_out(want)));
            Err(format!("{rule:?} {fill:?} {d:?} {}: {what}", show_solver(&sv)))
        };
        if let Some(m) = check::diff(&clean, &want) {
            return fail(c, format!("the simplified result is not the plain one without collinear vertices: {m}"), &clean, &want);
        }
        for (simplify, base) in [(false, &plain), (true, &clean)] {
            let m = pick_limit(&mut c.rng, &cs);
            let out = run(simplify, m);
            // a shape goes with its outer contour
            let want: Shapes = base
                .iter()
                .map(|s| s.iter().filter(|c| keeps(c, m)).cloned().collect::<Vec<_>>())
                .filter(|s| !s.is_empty())
                .collect();
            let gone = check::contours_of(base).len() - check::contours_of(&want).len();
            c.count("results filtered by area", 1);
            c.count("contours below the area limit", gone as u64);
            c.nontrivial |= gone > 0;
            if let Some(t) = check::diff(&out, &want) {
                return fail(c, format!("min_area {m} simplify {simplify}: not the unfiltered result without its smaller contours: {t}"), &out, &want);
            }
        }
        let dflt = shapes_of(&overlay(s, k).overlay(rule, fill));
        let full = run_overlay(s, k, rule, fill, ContourDirection::CounterClockwise, true, 0, Default::default());
        if dflt != full {
            return fail(c, "overlay() is not overlay_custom() with the documented defaults".into(), &dflt, &full);
        }
    }
    Ok(())
}

fn lattice(c: &mut Case) -> CaseResult {
    let sc = Scene::random(&mut c.rng, 8, 5);
    c.sign(sc.sig());
    c.note(|| sc.show());
    let sv = fine_solver(&mut c.rng);
    judge(c, &sc.int_subj(), &sc.int_clip(), sv, 28)
}

fn general(c: &mut Case) -> CaseResult {
    let sc = general::Scene::random(&mut c.rng, general::LIM, 4);
    c.sign(sc.sig());
    c.note(|| sc.show());
    let sv = general_solver(&mut c.rng, sc.size);
    judge(c, &sc.subj, &sc.clip, sv, 10)
}

fn crowd(c: &mut Case) -> CaseResult {
    let sc = crowd_scene(&mut c.rng, 10, 30);
    c.sign(sc.sig());
    c.note(|| sc.show().chars().take(4000).collect());
    let sv = fine_solver(&mut c.rng);
    judge(c, &sc.int_subj(), &sc.int_clip(), sv, 4)
}
