//! Boolean regions: what the result covers, for every overlay rule and fill rule.
use crate::bars;
use crate::check;
use crate::eng::*;
use crate::general;
use crate::geo::*;
use crate::lattice::*;
use crate::plates;
use crate::rng::Rng;
use crate::runner::*;
use i_overlay::core::fill_rule::FillRule;
use i_overlay::core::overlay::ContourDirection;
use i_overlay::core::overlay_rule::OverlayRule;
use i_overlay::core::solver::{MultithreadOptions, Precision, Solver, Strategy};

pub fn property() -> Property {
    Property {
        id: "C01",
        workloads: vec![
            Workload {
                name: "lattice",
                rule: "random scenes of up to 5+5 contours (rectangles, combs, spirals, walks, needles, copies, nested frames, pixel fields) on an octilinear lattice under an integer affine map up to +-2^30; the result of each of the 7 rules x 4 fill rules is compared in all 4n^2 cells with the winding numbers of the input; non-trivial: some result is not empty",
                quick: 40_000,
                thorough: 3_000_000,
                run: lattice,
            },
            Workload {
                name: "general",
                rule: "random scenes with arbitrary slopes and sizes up to +-2^30, slivers, near-coincident and fan-like edges; 7 rules x 4 fill rules compared with the exact winding numbers at 150 points further than 6 units from every input edge; non-trivial: some point is inside some result",
                quick: 30_000,
                thorough: 1_500_000,
                run: general,
            },
            Workload {
                name: "crowd",
                rule: "lattice scenes of some hundred to some thousand contours (n up to 40): sweeps with many edges alive at once; compared cell by cell",
                quick: 1_000,
                thorough: 60_000,
                run: crowd,
            },
            Workload {
                name: "large",
                rule: "lattice scenes of 4,000 to 60,000 edges, past the sizes where the engine changes its algorithms and sorts in parallel; compared cell by cell",
                quick: 60,
                thorough: 2_000,
                run: large,
            },
            Workload {
                name: "wound",
                rule: "lattice scenes of few contours, each given many times over (up to 300 times, some 30,000 to 70,000 times, and at the limits of small integer types) or wound so often by one contour, some of them with as many or nearly as many reversed ones; all cells against the multiplied winding numbers",
                quick: 400,
                thorough: 12_000,
                run: wound,
            },
            Workload {
                name: "bars",
                rule: "upright bars across lying ones, straight and aslant, up to tens of thousands of parts or holes: every rule makes exactly the parts known beforehand",
                quick: 4_000,
                thorough: 40_000,
                run: bars_,
            },
        ],
        assumptions: &[
            "coordinates stay within +-2^30, as the float interface of the crate keeps them",
            "Precision::ABSOLUTE is asked where edges are below 256 units long or crossings are exact (see the known finding drift)",
            "away from exact crossings the answer is judged only further than 6 units from every input edge (crossings are rounded to integers)",
        ],
    }
}

fn bars_(c: &mut Case) -> CaseResult {
    let most = plates::most(&mut c.rng);
    let b = bars::bars(&mut c.rng, most);
    c.sign(crate::rng::hash_str(&b.show()));
    c.note(|| b.show());
    c.nontrivial = true;
    let (mut s, mut k) = (b.subj(), b.clip());
    let fill = bars::dress(&mut c.rng, &mut [&mut s, &mut k]);
    let rule = *c.rng.pick(&RULES);
    let sv = plates::solver(&mut c.rng, b.size());
    let (d, simplify) = (dir(&mut c.rng), c.rng.bool());
    let out = run_overlay(&s, &k, rule, fill, d, simplify, 0, sv);
    c.count("overlays of bars judged", 1);
    c.max("most contours in one result", out.iter().map(|s| s.len()).sum::<usize>() as f64);
    b.judge(rule, &out, is_ccw(d), !simplify).map_err(|m| format!("{rule:?} {fill:?} {d:?} simplify {simplify} {}: {m}", show_solver(&sv)))
}

pub fn expect(ws: &[i32], wk: &[i32], rule: i_overlay::core::overlay_rule::OverlayRule, fill: i_overlay::core::fill_rule::FillRule) -> Vec<bool> {
    ws.iter().zip(wk).map(|(&a, &b)| combine(rule, filled(fill, a), filled(fill, b))).collect()
}

fn lattice(c: &mut Case) -> CaseResult {
    let sc = Scene::random(&mut c.rng, 8, 5);
    c.sign(sc.sig());
    c.note(|| sc.show());
    let (s, k) = (sc.int_subj(), sc.int_clip());
    let ws = sc.cells(&sc.subj).unwrap();
    let wk = sc.cells(&sc.clip).unwrap();
    for fill in FILLS {
        for rule in RULES {
            let sv = fine_solver(&mut c.rng);
            let exp = expect(&ws, &wk, rule, fill);
            c.nontrivial |= exp.iter().any(|&x| x);
            let out = shapes_of(&overlay_via(&mut c.rng, &s, &k).overlay_custom(rule, fill, ContourDirection::CounterClockwise, true, 0, sv));
            c.count("overlays judged", 1);
            c.count("cells compared", exp.len() as u64);
            check::region(&sc, &check::contours_of(&out), &exp, true).map_err(|m| {
                c.note(|| show_out(&out));
                format!("{rule:?} {fill:?} {}: {m}", show_solver(&sv))
            })?;
        }
    }
    Ok(())
}

/// distance from the input edges up to which rounding may decide, in units
pub const TOL: f64 = 6.0;

fn general(c: &mut Case) -> CaseResult {
    let max = if c.rng.chance(1, 20) { 12 } else { 4 };
    let sc = general::Scene::random(&mut c.rng, general::LIM, max);
    c.sign(sc.sig());
    c.note(|| sc.show());
    let mut probes = sc.probes(&mut c.rng, 120, 6.5);
    probes.extend(sc.probes(&mut c.rng, 40, 1.0));
    let (es, ec) = (edges(&sc.subj), edges(&sc.clip));
    probes.retain(|p| winding(&es, p.0, 1).is_some() && winding(&ec, p.0, 1).is_some());
    let w: Vec<(i32, i32)> = probes.iter().map(|p| (winding(&es, p.0, 1).unwrap(), winding(&ec, p.0, 1).unwrap())).collect();
    // the finest precision closes in on near-parallel edges one unit at a time: short edges only
    let p = if sc.size < 256 && c.rng.bool() { Precision::ABSOLUTE } else { Precision::HIGH };
    let sv = any_solver(&mut c.rng, p);
    for fill in FILLS {
        for rule in RULES {
            let out = shapes_of(&overlay_via(&mut c.rng, &sc.subj, &sc.clip).overlay_custom(rule, fill, ContourDirection::CounterClockwise, true, 0, sv));
            let eo = edges(&check::contours_of(&out));
            c.count("overlays judged", 1);
            for (&(q, dist), &(a, b)) in probes.iter().zip(&w) {
                let e = combine(rule, filled(fill, a), filled(fill, b));
                c.nontrivial |= e;
                let got = winding(&eo, q, 1);
                if dist > TOL {
                    c.count("points compared", 1);
                }
                if got != Some(e as i32) {
                    if dist <= TOL {
                        c.max("furthest rounding effect from an input edge", dist);
                        continue;
                    }
                    c.note(|| show_out(&out));
                    return Err(format!(
                        "{rule:?} {fill:?} {}: the point {q:?} should be {}, the result has winding {got:?} there",
                        show_solver(&sv),
                        if e { "inside" } else { "outside" }
                    ));
                }
            }
        }
    }
    Ok(())
}

/// many contours, exact
pub fn crowd_scene(rng: &mut crate::rng::Rng, lo: i64, hi: i64) -> Scene {
    let n = rng.range(lo, hi);
    let one = |rng: &mut crate::rng::Rng| -> Vec<Contour> {
        match rng.below(5) {
            0 => {
                let step = 2 * rng.range(1, 3);
                let h = rng.bool();
                field(rng, n, step, h)
            }
            1 => {
                let step = 4;
                field(rng, n, step, true)
            }
            2 => {
                // many overlapping bars
                let k = rng.usize(10, 60);
                (0..k).map(|_| contour(rng, n, &[])).collect()
            }
            3 => {
                let k = rng.usize(1, 6);
                (0..k).map(|_| { let st = rng.usize(20, 200); walk(rng, n, st, 4.min(n)) }).collect()
            }
            _ => pixels(rng, n),
        }
    };
    let subj = one(rng);
    let clip = if rng.chance(1, 6) { vec![] } else { one(rng) };
    let map = affine(rng, n);
    Scene { n, subj, clip, map }
}

fn judge(c: &mut Case, sc: &Scene, sv: Solver, ops: usize) -> CaseResult {
    c.sign(sc.sig());
    c.note(|| { let t = sc.show(); t.chars().take(4000).collect() });
    let (s, k) = (sc.int_subj(), sc.int_clip());
    let ws = sc.cells(&sc.subj).unwrap();
    let wk = sc.cells(&sc.clip).unwrap();
    let edges = s.iter().chain(k.iter()).map(|c| c.len() as u64).sum::<u64>();
    c.count("input edges", edges);
    c.max("most input edges in one overlay", edges as f64);
    for _ in 0..ops {
        let fill = *c.rng.pick(&FILLS);
        let rule = *c.rng.pick(&RULES);
        let exp = expect(&ws, &wk, rule, fill);
        c.nontrivial |= exp.iter().any(|&x| x);
        let out = shapes_of(&overlay(&s, &k).overlay_custom(rule, fill, ContourDirection::CounterClockwise, true, 0, sv));
        c.count("overlays judged", 1);
        c.count("cells compared", exp.len() as u64);
        c.max("most contours in one result", out.iter().map(|s| s.len()).sum::<usize>() as f64);
        check::region(sc, &check::contours_of(&out), &exp, true).map_err(|m| format!("{rule:?} {fill:?} {}: {m}", show_solver(&sv)))?;
    }
    Ok(())
}

fn crowd(c: &mut Case) -> CaseResult {
    let sc = crowd_scene(&mut c.rng, 12, 40);
    let sv = fine_solver(&mut c.rng);
    judge(c, &sc, sv, 4)
}

fn large(c: &mut Case) -> CaseResult {
    let sc = crowd_scene(&mut c.rng, 40, 110);
    let strategy = *c.rng.pick(&[Strategy::Auto, Strategy::Auto, Strategy::Tree, Strategy::Frag]);
    let multithreading = if c.rng.chance(1, 3) { None } else { Some(MultithreadOptions::default()) };
    judge(c, &sc, Solver { strategy, precision: Precision::HIGH, multithreading }, 3)
}

fn times(rng: &mut Rng) -> i32 {
    match rng.below(12) {
        0..=2 => rng.range(1, 3) as i32,
        3..=6 => rng.range(100, 300) as i32,
        7..=9 => *rng.pick(&[63, 64, 127, 128, 129, 255, 256, 257, 511, 512]),
        10 => rng.range(1_000, 5_000) as i32,
        _ => *rng.pick(&[32_767, 32_768, 32_769, 65_535, 65_536, 65_537]),
    }
}

fn wound(c: &mut Case) -> CaseResult {
    let n = c.rng.range(2, 5);
    let map = affine(&mut c.rng, n);
    let mut sc = Scene { n, subj: vec![], clip: vec![], map };
    let mut cells = [vec![0i32; 4 * (n * n) as usize], vec![0i32; 4 * (n * n) as usize]];
    let mut text = String::new();
    for (side, w) in cells.iter_mut().enumerate() {
        let mut all: Vec<Contour> = vec![];
        for _ in 0..c.rng.usize(1 - side, 2) {
            let base = contour(&mut c.rng, n, &[]);
            let Some(one) = sc.cells(std::slice::from_ref(&base)) else { continue };
            let k = times(&mut c.rng);
            // as many, or nearly as many, the other way round
            let back = if c.rng.chance(1, 3) { (k + c.rng.range(-2, 2) as i32).max(0) } else { 0 };
            text.push_str(&format!("side {side}: {k} times and {back} times back {}\n", show(&map.map_all(std::slice::from_ref(&base)))));
            for (k, way) in [(k, 1), (back, -1)] {
                let mut b = base.clone();
                if way < 0 {
                    b.reverse();
                }
                if c.rng.chance(1, 3) {
                    // one contour which runs round and round
                    all.push((0..k).flat_map(|_| b.iter().copied()).collect());
                } else {
                    all.extend((0..k).map(|_| b.clone()));
                }
                w.iter_mut().zip(&one).for_each(|(w, o)| *w += way * k * o);
            }
        }
        if c.rng.bool() {
            c.rng.shuffle(&mut all);
        }
        if side == 0 {
            sc.subj = all;
        } else {
            sc.clip = all;
        }
    }
    c.sign(crate::rng::hash_str(&text));
    c.note(|| text.clone());
    let (s, k) = (sc.int_subj(), sc.int_clip());
    c.max("highest winding number", cells.iter().flatten().map(|w| w.abs()).max().unwrap_or(0) as f64);
    for fill in FILLS {
        let rule = *c.rng.pick(&RULES);
        let sv = fine_solver(&mut c.rng);
        let exp = expect(&cells[0], &cells[1], rule, fill);
        c.nontrivial |= exp.iter().any(|&x| x);
        let out = shapes_of(&overlay(&s, &k).overlay_custom(rule, fill, ContourDirection::CounterClockwise, true, 0, sv));
        c.count("overlays judged", 1);
        check::region(&sc, &check::contours_of(&out), &exp, true).map_err(|m| format!("{rule:?} {fill:?} {}: {m}", show_solver(&sv)))?;
    }
    Ok(())
}

/// the drift of C18's finding, as it shows in the region
pub fn finding() -> Option<String> {
    let s = super::c18::beside();
    let es = edges(&s);
    let sv = Solver { strategy: Strategy::List, precision: Precision::ABSOLUTE, multithreading: None };
    let out: Vec<Contour> = run_overlay(&s, &[], OverlayRule::Subject, FillRule::EvenOdd, ContourDirection::CounterClockwise, true, 0, sv).concat();
    let got = edges(&out);
    for x in -550..1300 {
        for y in -440..860 {
            let q = (x, y);
            if es.iter().any(|e| dist_to_seg(f(q), f(e.0), f(e.1)) < TOL) {
                continue;
            }
            let (want, got) = (filled(FillRule::EvenOdd, winding(&es, q, 1).unwrap_or(0)), winding(&got, q, 1).unwrap_or(0) != 0);
            if want != got {
                return Some(format!("with Precision::ABSOLUTE the point {q:?}, more than {TOL} units away from all edges of the input, is {} the result", if got { "in" } else { "not in" }));
            }
        }
    }
    None
}
