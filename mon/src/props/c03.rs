//! How the contours of a result are oriented and gathered into shapes.
use super::c01::{crowd_scene, expect};
use crate::check;
use crate::eng::*;
use crate::general;
use crate::lattice::*;
use crate::plates;
use crate::runner::*;
use i_overlay::core::fill_rule::FillRule;
use i_overlay::core::overlay_rule::OverlayRule;

pub fn property() -> Property {
    Property {
        id: "C03",
        workloads: vec![
            Workload {
                name: "lattice",
                rule: "lattice scenes x 7 rules x 4 fill rules x both directions; every contour's direction is read from its area, every shape on its own is compared cell by cell: it covers each cell at most once and all cells of the expected region are covered; non-trivial: some result is not empty",
                quick: 40_000,
                thorough: 2_500_000,
                run: lattice,
            },
            Workload {
                name: "crowd",
                rule: "lattice scenes of hundreds to thousands of contours, with results of up to thousands of holes; judged the same way (at most 60 shapes with holes per result)",
                quick: 1_500,
                thorough: 80_000,
                run: crowd,
            },
            Workload {
                name: "general",
                rule: "scenes with arbitrary slopes and sizes up to +-2^30; directions, and for every shape with holes an exact point-in-contour question at the middle of edges of every contour",
                quick: 30_000,
                thorough: 1_500_000,
                run: general,
            },
            Workload {
                name: "plates",
                rule: "up to tens of thousands of plates and holes, with islands in holes and holes in these, in rows or fields, straight and aslant: every plate comes with its own holes and no others, in the asked directions",
                quick: 800,
                thorough: 20_000,
                run: plates_,
            },
        ],
        assumptions: &["coordinates stay within +-2^30"],
    }
}

fn plates_(c: &mut Case) -> CaseResult {
    let most = plates::most(&mut c.rng);
    let p = plates::plates(&mut c.rng, most);
    c.sign(crate::rng::hash_str(&p.show()));
    c.note(|| p.show());
    c.nontrivial = true;
    let sv = plates::solver(&mut c.rng, p.contours.len());
    let d = dir(&mut c.rng);
    let out = run_overlay(&p.contours, &[], OverlayRule::Subject, FillRule::EvenOdd, d, c.rng.bool(), 0, sv);
    c.count("plates judged", out.len() as u64);
    c.max("most holes in one shape", out.iter().map(|s| s.len() - 1).max().unwrap_or(0) as f64);
    c.max("most shapes in one result", out.len() as f64);
    p.judge(&out, is_ccw(d)).map_err(|m| format!("{d:?} {}: {m}", show_solver(&sv)))
}

fn lattice(c: &mut Case) -> CaseResult {
    let sc = Scene::random(&mut c.rng, 8, 5);
    c.sign(sc.sig());
    c.note(|| sc.show());
    let (s, k) = (sc.int_subj(), sc.int_clip());
    let (ws, wk) = (sc.cells(&sc.subj).unwrap(), sc.cells(&sc.clip).unwrap());
    for fill in FILLS {
        for rule in RULES {
            let sv = fine_solver(&mut c.rng);
            let d = dir(&mut c.rng);
            let simplify = c.rng.bool();
            let out = run_overlay(&s, &k, rule, fill, d, simplify, 0, sv);
            let exp = expect(&ws, &wk, rule, fill);
            c.nontrivial |= exp.iter().any(|&x| x);
            c.count("shapes judged", out.len() as u64);
            c.count("shapes with holes", out.iter().filter(|s| s.len() > 1).count() as u64);
            check::nesting(&sc, &out, is_ccw(d)).and_then(|_| check::region(&sc, &check::contours_of(&out), &exp, is_ccw(d))).map_err(|m| {
                c.note(|| show_out(&out));
                format!("{rule:?} {fill:?} {d:?} {}: {m}", show_solver(&sv))
            })?;
        }
    }
    Ok(())
}

fn crowd(c: &mut Case) -> CaseResult {
    let sc = crowd_scene(&mut c.rng, 12, 40);
    c.sign(sc.sig());
    c.note(|| sc.show().chars().take(4000).collect());
    let sv = fine_solver(&mut c.rng);
    let (s, k) = (sc.int_subj(), sc.int_clip());
    for _ in 0..4 {
        let (fill, rule, d) = (*c.rng.pick(&FILLS), *c.rng.pick(&RULES), dir(&mut c.rng));
        let simplify = c.rng.bool();
        let out = run_overlay(&s, &k, rule, fill, d, simplify, 0, sv);
        c.nontrivial |= !out.is_empty();
        let hol: Shapes = out.iter().filter(|s| s.len() > 1).take(60).cloned().collect();
        c.count("shapes judged", out.len() as u64);
        c.count("shapes with holes", hol.len() as u64);
        c.max("most holes in one shape", out.iter().map(|s| s.len() - 1).max().unwrap_or(0) as f64);
        let r = (0..out.len()).try_for_each(|i| check::directions(i, &out[i], is_ccw(d))).and_then(|_| check::nesting(&sc, &hol, is_ccw(d)));
        r.map_err(|m| {
            c.note(|| {
                let bad = |t: &Scene| check::nesting(t, &run_overlay(&t.int_subj(), &t.int_clip(), rule, fill, d, simplify, 0, sv), is_ccw(d)).is_err();
                let t = shrink(&sc, &bad);
                format!("SHRUNK {}\n{}", t.show(), show_out(&run_overlay(&t.int_subj(), &t.int_clip(), rule, fill, d, simplify, 0, sv)))
            });
            format!("{rule:?} {fill:?} {d:?} {}: {m}", show_solver(&sv))
        })?;
    }
    Ok(())
}

fn general(c: &mut Case) -> CaseResult {
    let max = if c.rng.chance(1, 10) { 14 } else { 5 };
    let sc = general::Scene::random(&mut c.rng, general::LIM, max);
    c.sign(sc.sig());
    c.note(|| sc.show());
    let sv = general_solver(&mut c.rng, sc.size);
    for fill in FILLS {
        for rule in RULES {
            let d = dir(&mut c.rng);
            let simplify = c.rng.bool();
            let out = run_overlay(&sc.subj, &sc.clip, rule, fill, d, simplify, 0, sv);
            c.count("shapes judged", out.len() as u64);
            c.count("shapes with holes", out.iter().filter(|s| s.len() > 1).count() as u64);
            c.nontrivial |= out.iter().any(|s| s.len() > 1);
            match check::holes_inside(&out, is_ccw(d)) {
                Ok(n) => c.count("containment questions", n),
                Err(m) => {
                    c.note(|| {
                        let go = |t: &general::Scene| run_overlay(&t.subj, &t.clip, rule, fill, d, simplify, 0, sv);
                        let t = general::shrink(&sc, &|t| check::holes_inside(&go(t), is_ccw(d)).is_err());
                        format!("{}\nSHRUNK {}\n{}", show_out(&out), t.show(), show_out(&go(&t)))
                    });
                    return Err(format!("{rule:?} {fill:?} {d:?} simplify {simplify} {}: {m}", show_solver(&sv)));
                }
            }
        }
    }
    Ok(())
}
