//! One graph answers every rule, and the answers add up.
use super::c01::crowd_scene;
use crate::bars;
use crate::check;
use crate::eng::*;
use crate::general;
use crate::geo::*;
use crate::lattice::*;
use crate::plates;
use crate::runner::*;
use i_overlay::core::overlay::ContourDirection;
use i_overlay::core::overlay_rule::OverlayRule;
use i_overlay::core::solver::Solver;

pub fn property() -> Property {
    Property {
        id: "C07",
        workloads: vec![
            Workload {
                name: "general",
                rule: "scenes with arbitrary slopes and sizes up to +-2^30; for each fill rule one graph answers all 7 rules twice in random order; each answer is compared with the one-shot overlay, and the answers' exact areas and their windings at random points (however close to edges) with the set identities between the rules; non-trivial: the union is not empty",
                quick: 30_000,
                thorough: 1_500_000,
                run: general,
            },
            Workload {
                name: "lattice",
                rule: "the same on lattice scenes",
                quick: 20_000,
                thorough: 1_000_000,
                run: lattice,
            },
            Workload {
                name: "crowd",
                rule: "the same on lattice scenes of hundreds to thousands of contours",
                quick: 300,
                thorough: 20_000,
                run: crowd,
            },
            Workload {
                name: "bars",
                rule: "upright bars across lying ones, straight and aslant, up to tens of thousands of parts or holes: one graph gives every rule the parts known beforehand, in any order",
                quick: 400,
                thorough: 5_000,
                run: bars_,
            },
        ],
        assumptions: &["coordinates stay within +-2^30"],
    }
}

fn bars_(c: &mut Case) -> CaseResult {
    let most = plates::most(&mut c.rng);
    let b = bars::bars(&mut c.rng, most);
    c.sign(crate::rng::hash_str(&b.show()));
    c.note(|| b.show());
    c.nontrivial = true;
    let (mut s, mut k) = (b.subj(), b.clip());
    let fill = bars::dress(&mut c.rng, &mut [&mut s, &mut k]);
    let sv = plates::solver(&mut c.rng, b.size());
    let g = overlay(&s, &k).into_graph_with_solver(fill, sv);
    let mut rules = RULES;
    c.rng.shuffle(&mut rules);
    for rule in rules {
        let (d, simplify) = (dir(&mut c.rng), c.rng.bool());
        let out = shapes_of(&g.extract_shapes_custom(rule, d, simplify, 0));
        c.count("extractions of bars", 1);
        c.max("most contours in one result", out.iter().map(|s| s.len()).sum::<usize>() as f64);
        b.judge(rule, &out, is_ccw(d), !simplify).map_err(|m| format!("{rule:?} {fill:?} {d:?} simplify {simplify} {}: {m}", show_solver(&sv)))?;
    }
    Ok(())
}

fn judge(c: &mut Case, s: &[Contour], k: &[Contour], sv: Solver, probes: &[P], fills: usize) -> CaseResult {
    let mut fs = FILLS;
    c.rng.shuffle(&mut fs);
    for fill in fs.into_iter().take(fills) {
        let g = overlay(s, k).into_graph_with_solver(fill, sv);
        let d = dir(&mut c.rng);
        let simplify = c.rng.bool();
        let mut out: Vec<Option<Shapes>> = vec![None; 7];
        let mut order: Vec<usize> = (0..7).chain(0..7).collect();
        c.rng.shuffle(&mut order);
        for i in order {
            let r = shapes_of(&g.extract_shapes_custom(RULES[i], d, simplify, 0));
            c.count("extractions", 1);
            if let Some(b) = &out[i] {
                if *b != r {
                    return Err(format!("{:?} {fill:?} {d:?} {}: extracted a second time from the same graph the result differs", RULES[i], show_solver(&sv)));
                }
                continue;
            }
            let once = run_overlay(s, k, RULES[i], fill, d, simplify, 0, sv);
            if let Some(m) = check::diff(&r, &once) {
                c.note(|| format!("from the graph {}one-shot {}", show_out(&r), show_out(&once)));
                return Err(format!("{:?} {fill:?} {d:?} simplify {simplify} {}: the graph's result and the one-shot result differ: {m}", RULES[i], show_solver(&sv)));
            }
            out[i] = Some(r);
        }
        let out: Vec<Shapes> = out.into_iter().map(|o| o.unwrap()).collect();
        c.nontrivial |= !out[3].is_empty();
        let of = |r: OverlayRule| RULES.iter().position(|&x| x == r).unwrap();
        let sign = if is_ccw(d) { 1 } else { -1 };
        let identities: [(&str, &[OverlayRule], &[OverlayRule]); 5] = [
            ("union = intersection + difference + inverse difference", &[OverlayRule::Union], &[OverlayRule::Intersect, OverlayRule::Difference, OverlayRule::InverseDifference]),
            ("xor = difference + inverse difference", &[OverlayRule::Xor], &[OverlayRule::Difference, OverlayRule::InverseDifference]),
            ("subject = intersection + difference", &[OverlayRule::Subject], &[OverlayRule::Intersect, OverlayRule::Difference]),
            ("clip = intersection + inverse difference", &[OverlayRule::Clip], &[OverlayRule::Intersect, OverlayRule::InverseDifference]),
            ("subject + clip = union + intersection", &[OverlayRule::Subject, OverlayRule::Clip], &[OverlayRule::Union, OverlayRule::Intersect]),
        ];
        let areas: Vec<i128> = out.iter().map(|o| area2_all(&check::contours_of(o)) * sign).collect();
        let es: Vec<_> = out.iter().map(|o| edges(&check::contours_of(o))).collect();
        for (name, l, r) in identities {
            let a: i128 = l.iter().map(|&x| areas[of(x)]).sum();
            let b: i128 = r.iter().map(|&x| areas[of(x)]).sum();
            c.count("area identities", 1);
            if a != b {
                c.note(|| out.iter().map(|o| show_out(o)).collect());
                return Err(format!("{fill:?} {}: {name}: the doubled areas are {a} and {b}", show_solver(&sv)));
            }
        }
        for &q in probes {
            let w: Vec<Option<i32>> = es.iter().map(|e| winding(e, q, 1)).collect();
            if w.iter().any(|w| w.is_none()) {
                continue;
            }
            let w: Vec<i32> = w.into_iter().map(|w| w.unwrap() * sign as i32).collect();
            if let Some(i) = w.iter().position(|&v| v != 0 && v != 1) {
                return Err(format!("{:?} {fill:?} {}: the result covers {q:?} {} times", RULES[i], show_solver(&sv), w[i]));
            }
            for (name, l, r) in identities {
                let a: i32 = l.iter().map(|&x| w[of(x)]).sum();
                let b: i32 = r.iter().map(|&x| w[of(x)]).sum();
                c.count("identities at points", 1);
                if a != b {
                    c.note(|| out.iter().map(|o| show_out(o)).collect());
                    return Err(format!("{fill:?} {}: {name}: at {q:?} they are {a} and {b}", show_solver(&sv)));
                }
            }
        }
        if c.rng.chance(1, 4) {
            let a = shapes_of(&g.extract_shapes(OverlayRule::Xor));
            let b = shapes_of(&g.extract_shapes_custom(OverlayRule::Xor, ContourDirection::CounterClockwise, true, 0));
            if a != b {
                return Err(format!("{fill:?}: extract_shapes is not extract_shapes_custom with the documented defaults"));
            }
        }
    }
    Ok(())
}

fn general(c: &mut Case) -> CaseResult {
    let max = if c.rng.chance(1, 20) { 12 } else { 4 };
    let sc = general::Scene::random(&mut c.rng, general::LIM, max);
    c.sign(sc.sig());
    c.note(|| sc.show());
    let sv = general_solver(&mut c.rng, sc.size);
    let probes: Vec<P> = sc.probes(&mut c.rng, 20, 1.0).into_iter().map(|p| p.0).collect();
    judge(c, &sc.subj, &sc.clip, sv, &probes, 2)
}

fn lattice(c: &mut Case) -> CaseResult {
    let sc = Scene::random(&mut c.rng, 8, 5);
    c.sign(sc.sig());
    c.note(|| sc.show());
    let sv = fine_solver(&mut c.rng);
    judge(c, &sc.int_subj(), &sc.int_clip(), sv, &[], 4)
}

fn crowd(c: &mut Case) -> CaseResult {
    let sc = crowd_scene(&mut c.rng, 10, 40);
    c.sign(sc.sig());
    c.note(|| sc.show().chars().take(4000).collect());
    let sv = fine_solver(&mut c.rng);
    judge(c, &sc.int_subj(), &sc.int_clip(), sv, &[], 2)
}
