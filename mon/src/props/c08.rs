//! Results are stable: simplifying one gives it back.
use super::c01::crowd_scene;
use crate::check;
use crate::eng::*;
use crate::general;
use crate::geo::*;
use crate::lattice::*;
use crate::plates;
use crate::runner::*;
use i_overlay::core::fill_rule::FillRule;
use i_overlay::core::overlay_rule::OverlayRule;
use i_overlay::core::simplify::Simplify;
use i_overlay::core::solver::Solver;
use i_overlay::i_shape::int::shape::{IntContour, IntShape};

pub fn property() -> Property {
    Property {
        id: "C08",
        workloads: vec![
            Workload {
                name: "lattice",
                rule: "lattice scenes; results of random rules and fill rules are simplified again through every form of the input (contour, contours, shape, shapes) and every fill rule under which they mean the same, and used as subject of an overlay with nothing, with themselves and as difference; non-trivial: the result is not empty",
                quick: 80_000,
                thorough: 2_000_000,
                run: lattice,
            },
            Workload {
                name: "general",
                rule: "the same with arbitrary slopes and sizes up to +-2^30",
                quick: 80_000,
                thorough: 2_000_000,
                run: general,
            },
            Workload {
                name: "crowd",
                rule: "the same on lattice scenes of hundreds to thousands of contours",
                quick: 1_000,
                thorough: 30_000,
                run: crowd,
            },
            Workload {
                name: "input",
                rule: "lattice scenes, arbitrary scenes, crowds and tiny inputs (contours of no to six points, single triangles) simplified as contour, contours, shape and shapes under every fill rule, direction, area limit and contour simplification: each is the overlay of that subject alone; non-trivial: the result is not empty",
                quick: 120_000,
                thorough: 4_000_000,
                run: input,
            },
            Workload {
                name: "plates",
                rule: "up to tens of thousands of plates and holes (see C03): the result, simplified again, is still these",
                quick: 200,
                thorough: 8_000,
                run: plates_,
            },
        ],
        assumptions: &["coordinates stay within +-2^30"],
    }
}

fn plates_(c: &mut Case) -> CaseResult {
    let most = plates::most(&mut c.rng);
    let p = plates::plates(&mut c.rng, most);
    c.sign(crate::rng::hash_str(&p.show()));
    c.note(|| p.show());
    c.nontrivial = true;
    let sv = plates::solver(&mut c.rng, p.contours.len());
    let (d, d2) = (dir(&mut c.rng), dir(&mut c.rng));
    let r = overlay(&p.contours, &[]).overlay_custom(OverlayRule::Subject, FillRule::EvenOdd, d, true, 0, sv);
    let f = *c.rng.pick(&[FillRule::EvenOdd, FillRule::NonZero, if is_ccw(d) { FillRule::Positive } else { FillRule::Negative }]);
    let out = if c.rng.bool() {
        r.simplify(f, d2, true, 0)
    } else {
        let flat: Vec<IntContour> = r.iter().flatten().cloned().collect();
        flat.as_slice().simplify(f, d2, true, 0)
    };
    c.count("results compared", 1);
    p.judge(&shapes_of(&out), is_ccw(d2)).map_err(|m| format!("{d:?} {}, simplified {f:?} {d2:?}: {m}", show_solver(&sv)))
}

fn judge(c: &mut Case, s: &[Contour], k: &[Contour], sv: Solver, ops: usize) -> CaseResult {
    for _ in 0..ops {
        let (fill, rule, d) = (*c.rng.pick(&FILLS), *c.rng.pick(&RULES), dir(&mut c.rng));
        let r = overlay(s, k).overlay_custom(rule, fill, d, true, 0, sv);
        if r.is_empty() {
            continue;
        }
        let base = shapes_of(&r);
        let touching = check::touches(&check::contours_of(&base));
        c.nontrivial = true;
        let fills = [FillRule::EvenOdd, FillRule::NonZero, if is_ccw(d) { FillRule::Positive } else { FillRule::Negative }];
        let f2 = *c.rng.pick(&fills);
        let d2 = dir(&mut c.rng);
        let flat: Vec<IntContour> = r.iter().flatten().cloned().collect();
        let (name, out) = match c.rng.below(6) {
            0 => ("shapes simplified", r.simplify(f2, d2, true, 0)),
            1 => ("contours simplified", flat.as_slice().simplify(f2, d2, true, 0)),
            2 => {
                let (mut o, mut all) = (vec![], 0);
                for s in r.iter() {
                    let t: IntShape = s.clone();
                    let x = t.simplify(f2, d2, true, 0);
                    all += 1;
                    o.extend(x);
                }
                c.count("shapes simplified one by one", all);
                ("each shape simplified", o)
            }
            3 => ("result as subject and clip", {
                let mut o = i_overlay::core::overlay::Overlay::with_shapes(&r, &r);
                let _ = &mut o;
                let op = if c.rng.bool() { OverlayRule::Union } else { OverlayRule::Intersect };
                o.overlay_custom(op, f2, d2, true, 0, sv)
            }),
            4 => {
                let o = i_overlay::core::overlay::Overlay::with_shapes(&r, &r);
                let op = if c.rng.bool() { OverlayRule::Xor } else { OverlayRule::Difference };
                let e = o.overlay_custom(op, f2, d2, true, 0, sv);
                c.count("results compared", 1);
                if !e.is_empty() {
                    return Err(format!("{rule:?} {fill:?} {}: {op:?} of the result with itself is not empty", show_solver(&sv)));
                }
                continue;
            }
            _ => ("result overlaid with nothing", {
                let none: Vec<IntShape> = vec![];
                let o = i_overlay::core::overlay::Overlay::with_shapes(&r, &none);
                let op = *c.rng.pick(&[OverlayRule::Subject, OverlayRule::Union, OverlayRule::Difference, OverlayRule::Xor]);
                o.overlay_custom(op, f2, d2, true, 0, sv)
            }),
        };
        c.count("results compared", 1);
        c.count(name, 1);
        let got = shapes_of(&out);
        // contours touching themselves or each other can be parted differently
        let (was, is) = (check::contours_of(&base), check::contours_of(&got));
        let differs = if !touching && d2 == d {
            c.count("results without touching points, compared vertex by vertex", 1);
            check::diff(&base, &got)
        } else if d2 == d {
            check::same_region(&was, &is)
        } else {
            let back: Vec<Contour> = is.iter().map(|c| c.iter().rev().copied().collect()).collect();
            check::same_region(&was, &back)
        };
        if let Some(m) = differs {
            c.note(|| format!("{}{}", show_out(&base), show_out(&shapes_of(&out))));
            return Err(format!("{rule:?} {fill:?} {d:?} {}: {name} ({f2:?} {d2:?}) is something else: {m}", show_solver(&sv)));
        }
        // a contour without holes on its own
        if let Some(s) = r.iter().find(|s| s.len() == 1) {
            let x = shapes_of(&s[0].simplify(f2, d, true, 0));
            c.count("single contours simplified", 1);
            let one = vec![from_int(&s[0])];
            let differs = if touching { check::same_region(&one, &check::contours_of(&x)) } else { check::diff(&vec![one], &x) };
            if let Some(m) = differs {
                return Err(format!("{rule:?} {fill:?} {d:?} {}: a contour of the result simplified is something else: {m}", show_solver(&sv)));
            }
        }
    }
    Ok(())
}

fn lattice(c: &mut Case) -> CaseResult {
    let sc = Scene::random(&mut c.rng, 8, 5);
    c.sign(sc.sig());
    c.note(|| sc.show());
    let sv = fine_solver(&mut c.rng);
    judge(c, &sc.int_subj(), &sc.int_clip(), sv, 8)
}

fn general(c: &mut Case) -> CaseResult {
    let sc = general::Scene::random(&mut c.rng, general::LIM, 5);
    c.sign(sc.sig());
    c.note(|| sc.show());
    let sv = general_solver(&mut c.rng, sc.size);
    judge(c, &sc.subj, &sc.clip, sv, 4)
}

fn crowd(c: &mut Case) -> CaseResult {
    let sc = crowd_scene(&mut c.rng, 10, 40);
    c.sign(sc.sig());
    c.note(|| sc.show().chars().take(4000).collect());
    let sv = fine_solver(&mut c.rng);
    judge(c, &sc.int_subj(), &sc.int_clip(), sv, 3)
}

fn input(c: &mut Case) -> CaseResult {
    let cs: Vec<Contour> = match c.rng.below(8) {
        0 | 1 => Scene::random(&mut c.rng, 8, 4).int_subj(),
        2 => general::Scene::random(&mut c.rng, general::LIM, 3).subj,
        3 if c.rng.chance(1, 40) => crowd_scene(&mut c.rng, 10, 30).int_subj(),
        _ => general::tiny(&mut c.rng, 4, general::LIM),
    };
    c.sign(crate::rng::hash_str(&show(&cs)));
    c.note(|| show(&cs).chars().take(4000).collect());
    let paths: Vec<IntContour> = cs.iter().map(|k| to_int(k)).collect();
    for fill in FILLS {
        let (d, simple) = (dir(&mut c.rng), c.rng.bool());
        let min = match c.rng.below(4) {
            0 => (area2_all(&cs).unsigned_abs() / 2).min(1 << 62) as usize,
            1 => c.rng.usize(0, 50),
            _ => 0,
        };
        let none: [IntContour; 0] = [];
        let alone = |p: &[IntContour]| {
            i_overlay::core::overlay::Overlay::with_contours(p, &none).overlay_custom(OverlayRule::Subject, fill, d, simple, min, Solver::default())
        };
        let same = |c: &mut Case, what: &str, a: IntShapesOf, b: IntShapesOf| -> CaseResult {
            c.count("inputs simplified", 1);
            c.nontrivial |= !a.is_empty();
            if a != b {
                c.note(|| format!("overlay {}simplify {}", show_out(&shapes_of(&a)), show_out(&shapes_of(&b))));
                return Err(format!("{fill:?} {d:?} simplify {simple} min_area {min}: simplify of {what} is not the overlay of it alone"));
            }
            Ok(())
        };
        let all = alone(&paths);
        same(c, "contours", all.clone(), paths.as_slice().simplify(fill, d, simple, min))?;
        let shape: IntShape = paths.clone();
        same(c, "a shape", all.clone(), shape.simplify(fill, d, simple, min))?;
        let mut shapes: Vec<IntShape> = vec![];
        for k in &paths {
            if shapes.is_empty() || c.rng.bool() {
                if c.rng.chance(1, 8) {
                    shapes.push(vec![]);
                }
                shapes.push(vec![]);
            }
            shapes.last_mut().unwrap().push(k.clone());
        }
        same(c, "shapes", all, shapes.as_slice().simplify(fill, d, simple, min))?;
        for k in paths.iter().take(4) {
            same(c, "a contour", alone(std::slice::from_ref(k)), k.simplify(fill, d, simple, min))?;
            let one: IntShape = vec![k.clone()];
            same(c, "a shape of one contour", alone(&one), [one.clone()].as_slice().simplify(fill, d, simple, min))?;
        }
    }
    Ok(())
}

type IntShapesOf = Vec<IntShape>;
