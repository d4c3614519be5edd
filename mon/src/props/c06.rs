//! The result does not depend on how the same input is presented.
use super::c01::crowd_scene;
use crate::check;
use crate::eng::*;
use crate::general;
use crate::geo::*;
use crate::lattice::*;
use crate::plates;
use crate::rng::Rng;
use crate::runner::*;
use i_overlay::core::fill_rule::FillRule;
use i_overlay::core::overlay_rule::OverlayRule;
use i_overlay::core::solver::Solver;

pub fn property() -> Property {
    Property {
        id: "C06",
        workloads: vec![
            Workload {
                name: "lattice",
                rule: "lattice scenes presented anew: contours and their start points permuted, directions reversed, vertices repeated, contours closed explicitly, collinear vertices inserted, degenerate contours and twice-added (cancelling or repeated) contours added, subject and clip swapped, other ways of adding; the results are compared as sets of shapes; non-trivial: the result is not empty",
                quick: 40_000,
                thorough: 2_000_000,
                run: lattice,
            },
            Workload {
                name: "general",
                rule: "scenes with arbitrary slopes and sizes up to +-2^30, presented anew in the ways which keep all edges (other start vertices and directions only for contours without collinear vertices); same comparison",
                quick: 40_000,
                thorough: 2_000_000,
                run: general,
            },
            Workload {
                name: "crowd",
                rule: "lattice scenes of hundreds to thousands of contours, presented anew",
                quick: 600,
                thorough: 30_000,
                run: crowd,
            },
            Workload {
                name: "plates",
                rule: "up to tens of thousands of plates and holes (see C03): begun anywhere, in any order, parted between subject and clip under Xor, given three times, come as themselves",
                quick: 200,
                thorough: 8_000,
                run: plates_,
            },
        ],
        assumptions: &["coordinates stay within +-2^30"],
    }
}

struct Presented {
    s: Vec<Contour>,
    k: Vec<Contour>,
    fill: FillRule,
    rule: OverlayRule,
    told: Vec<&'static str>,
}

fn reversed_fill(f: FillRule) -> FillRule {
    match f {
        FillRule::Positive => FillRule::Negative,
        FillRule::Negative => FillRule::Positive,
        f => f,
    }
}

fn swapped_rule(r: OverlayRule) -> OverlayRule {
    match r {
        OverlayRule::Subject => OverlayRule::Clip,
        OverlayRule::Clip => OverlayRule::Subject,
        OverlayRule::Difference => OverlayRule::InverseDifference,
        OverlayRule::InverseDifference => OverlayRule::Difference,
        r => r,
    }
}

/// no vertex lies on the line through its neighbours (there is no needle to fold)
fn plain(c: &[P]) -> bool {
    let n = c.len();
    (0..n).all(|i| cross(c[(i + n - 1) % n], c[i], c[(i + 1) % n]) != 0)
}

fn present(rng: &mut Rng, s: &[Contour], k: &[Contour], fill: FillRule, rule: OverlayRule, exact: bool) -> Presented {
    let mut p = Presented { s: s.to_vec(), k: k.to_vec(), fill, rule, told: vec![] };
    let n = rng.usize(1, 4);
    for _ in 0..n {
        match rng.below(11) {
            0 => {
                rng.shuffle(&mut p.s);
                rng.shuffle(&mut p.k);
                p.told.push("contours reordered");
            }
            1 => {
                for c in p.s.iter_mut().chain(p.k.iter_mut()) {
                    if c.len() > 1 && (exact || plain(c)) {
                        let r = rng.usize(0, c.len() - 1);
                        c.rotate_left(r);
                    }
                }
                p.told.push("other start vertices");
            }
            2 if exact || p.s.iter().chain(p.k.iter()).all(|c| plain(c)) => {
                for c in p.s.iter_mut().chain(p.k.iter_mut()) {
                    c.reverse();
                }
                p.fill = reversed_fill(p.fill);
                p.told.push("all contours reversed");
            }
            3 if exact && p.fill == FillRule::EvenOdd => {
                for c in p.s.iter_mut().chain(p.k.iter_mut()) {
                    if rng.bool() {
                        c.reverse();
                    }
                }
                p.told.push("some contours reversed");
            }
            4 => {
                for c in p.s.iter_mut().chain(p.k.iter_mut()) {
                    let t = rng.usize(1, 3);
                    for _ in 0..t {
                        if !c.is_empty() {
                            let i = rng.usize(0, c.len() - 1);
                            let q = c[i];
                            c.insert(i, q);
                        }
                    }
                }
                p.told.push("vertices repeated");
            }
            5 => {
                for c in p.s.iter_mut().chain(p.k.iter_mut()) {
                    if !c.is_empty() {
                        c.push(c[0]);
                    }
                }
                p.told.push("contours closed explicitly");
            }
            6 if exact => {
                // the middle of an edge
                for c in p.s.iter_mut().chain(p.k.iter_mut()) {
                    if c.len() < 2 {
                        continue;
                    }
                    let i = rng.usize(0, c.len() - 1);
                    let (a, b) = (c[i], c[(i + 1) % c.len()]);
                    let (x, y) = (a.0 + b.0, a.1 + b.1);
                    if x % 2 == 0 && y % 2 == 0 {
                        c.insert(i + 1, (x / 2, y / 2));
                    }
                }
                p.told.push("middles of edges inserted");
            }
            7 => {
                // contours without area along nothing or along an existing edge's ends
                for side in 0..2 {
                    let v = if side == 0 { &mut p.s } else { &mut p.k };
                    let q = v.first().and_then(|c| c.first()).cloned().unwrap_or((0, 0));
                    v.push(vec![]);
                    v.push(vec![q]);
                    v.push(vec![q, q, q]);
                    rng.shuffle(v);
                }
                p.told.push("empty and one-point contours added");
            }
            8 => {
                // a contour and its reverse cancel under every rule
                let v = if rng.bool() { &mut p.s } else { &mut p.k };
                if exact && !v.is_empty() {
                    let c = rng.pick(v).clone();
                    let mut r = c.clone();
                    r.reverse();
                    v.push(c);
                    v.push(r);
                    p.told.push("a contour and its reverse added");
                }
            }
            9 if p.fill == FillRule::NonZero || p.fill == FillRule::Positive || p.fill == FillRule::Negative => {
                let (a, b) = (p.s.clone(), p.k.clone());
                p.s.extend(a);
                p.k.extend(b);
                p.told.push("everything twice");
            }
            10 => {
                std::mem::swap(&mut p.s, &mut p.k);
                p.rule = swapped_rule(p.rule);
                p.told.push("subject and clip swapped");
            }
            _ => {}
        }
    }
    p
}

fn plates_(c: &mut Case) -> CaseResult {
    let most = plates::most(&mut c.rng);
    let p = plates::plates(&mut c.rng, most);
    c.sign(crate::rng::hash_str(&p.show()));
    c.note(|| p.show());
    c.nontrivial = true;
    let (mut s, mut k) = (vec![], vec![]);
    let (mut parted, thrice) = (c.rng.bool(), c.rng.chance(1, 4));
    if p.contours.len() == 1 {
        parted = false;
    }
    for q in &p.contours {
        for _ in 0..if thrice && c.rng.chance(1, 3) { 3 } else { 1 } {
            let mut q = q.clone();
            let at = c.rng.usize(0, q.len() - 1);
            q.rotate_left(at);
            if parted && c.rng.bool() { &mut k } else { &mut s }.push(q);
        }
    }
    c.rng.shuffle(&mut s);
    let rule = if parted { OverlayRule::Xor } else { *c.rng.pick(&[OverlayRule::Subject, OverlayRule::Xor, OverlayRule::Union, OverlayRule::Difference]) };
    let sv = plates::solver(&mut c.rng, s.len() + k.len());
    let d = dir(&mut c.rng);
    let out = shapes_of(&overlay_via(&mut c.rng, &s, &k).overlay_custom(rule, FillRule::EvenOdd, d, c.rng.bool(), 0, sv));
    c.count("plates judged", out.len() as u64);
    c.max("most contours in one result", out.iter().map(|s| s.len()).sum::<usize>() as f64);
    p.judge(&out, is_ccw(d)).map_err(|m| format!("{rule:?} {d:?} {}: {m}", show_solver(&sv)))
}

fn judge(c: &mut Case, s: &[Contour], k: &[Contour], sv: Solver, ops: usize, exact: bool) -> CaseResult {
    for _ in 0..ops {
        let (fill, rule, d) = (*c.rng.pick(&FILLS), *c.rng.pick(&RULES), dir(&mut c.rng));
        let simplify = exact || c.rng.bool();
        let base = run_overlay(s, k, rule, fill, d, simplify, 0, sv);
        c.nontrivial |= !base.is_empty();
        for _ in 0..2 {
            let p = present(&mut c.rng, s, k, fill, rule, exact);
            let out = shapes_of(&overlay_via(&mut c.rng, &p.s, &p.k).overlay_custom(p.rule, p.fill, d, simplify, 0, sv));
            c.count("presentations compared", 1);
            for t in &p.told {
                c.count(t, 1);
            }
            let (exact, differs) = check::alike(&base, &out);
            c.count(if exact { "results compared shape by shape" } else { "results with touching contours, compared as regions" }, 1);
            if let Some(m) = differs {
                c.note(|| format!("presented as\nsubj {}\nclip {}\n{}{}", show(&p.s), show(&p.k), show_out(&base), show_out(&out)));
                return Err(format!("{rule:?} {fill:?} {d:?} simplify {simplify} {}: with {} the result differs: {m}", show_solver(&sv), p.told.join(", ")));
            }
        }
    }
    Ok(())
}

fn lattice(c: &mut Case) -> CaseResult {
    let sc = Scene::random(&mut c.rng, 8, 5);
    c.sign(sc.sig());
    c.note(|| sc.show());
    let sv = fine_solver(&mut c.rng);
    judge(c, &sc.int_subj(), &sc.int_clip(), sv, 8, true)
}

fn general(c: &mut Case) -> CaseResult {
    let sc = general::Scene::random(&mut c.rng, general::LIM, 5);
    c.sign(sc.sig());
    c.note(|| sc.show());
    let sv = general_solver(&mut c.rng, sc.size);
    judge(c, &sc.subj, &sc.clip, sv, 4, false)
}

fn crowd(c: &mut Case) -> CaseResult {
    let sc = crowd_scene(&mut c.rng, 10, 40);
    c.sign(sc.sig());
    c.note(|| sc.show().chars().take(4000).collect());
    let sv = fine_solver(&mut c.rng);
    judge(c, &sc.int_subj(), &sc.int_clip(), sv, 3, true)
}
