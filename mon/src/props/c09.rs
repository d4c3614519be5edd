//! Vector outputs: every edge of the arrangement with what lies on its two sides.
use super::c01::crowd_scene;
use crate::bars;
use crate::check;
use crate::eng::*;
use crate::general;
use crate::geo::*;
use crate::lattice::*;
use crate::plates;
use crate::runner::*;
use i_overlay::core::fill_rule::FillRule;
use i_overlay::core::overlay::ContourDirection;
use i_overlay::core::overlay_rule::OverlayRule;
use i_overlay::core::solver::Solver;
use i_overlay::vector::edge::{Reverse, ToPath, VectorEdge, VectorShape, CLIP_LEFT, CLIP_RIGHT, SUBJ_LEFT, SUBJ_RIGHT};
use std::collections::HashMap;

pub fn property() -> Property {
    Property {
        id: "C09",
        workloads: vec![
            Workload {
                name: "lattice",
                rule: "lattice scenes: separate vectors are compared with the exact arrangement (each elementary edge once, its four side bits), shape vectors with the exact region, nesting and side bits, for all fill rules and two rules each; non-trivial: some vectors are expected",
                quick: 120_000,
                thorough: 2_000_000,
                run: lattice,
            },
            Workload {
                name: "crowd",
                rule: "the same on lattice scenes of hundreds to thousands of contours",
                quick: 900,
                thorough: 20_000,
                run: crowd,
            },
            Workload {
                name: "general",
                rule: "arbitrary slopes up to +-2^30: no two vectors cross or overlap, the nearest vector below or above a probe tells its filling, shape vectors are the contours of the clockwise overlay",
                quick: 75_000,
                thorough: 1_500_000,
                run: general,
            },
            Workload {
                name: "plates",
                rule: "up to tens of thousands of plates and holes (see C03): every plate comes with its own holes and no others",
                quick: 300,
                thorough: 10_000,
                run: plates_,
            },
            Workload {
                name: "bars",
                rule: "upright bars across lying ones, straight and aslant, up to tens of thousands of parts or holes: the shape vectors of every rule are the parts known beforehand",
                quick: 1_200,
                thorough: 10_000,
                run: bars_,
            },
        ],
        assumptions: &["coordinates stay within +-2^30", "between rounded crossings probes nearer than 6 units to an input edge are not asked"],
    }
}

/// side bits of an edge from the fills (subject, clip) left and right of it
fn bits(l: (bool, bool), r: (bool, bool)) -> u8 {
    (if l.0 { SUBJ_LEFT } else { 0 }) | (if r.0 { SUBJ_RIGHT } else { 0 }) | (if l.1 { CLIP_LEFT } else { 0 }) | (if r.1 { CLIP_RIGHT } else { 0 })
}

struct World {
    /// elementary edges with any net passage
    mids: HashMap<P, (P, P)>,
    ws: Vec<i32>,
    wk: Vec<i32>,
}

fn world(sc: &Scene) -> World {
    let (a, b) = (passages(&sc.subj), passages(&sc.clip));
    let mut mids = HashMap::new();
    for (m, v) in a.iter().chain(b.iter()) {
        if v.0 != 0 {
            mids.insert(*m, (v.1, v.2));
        }
    }
    World { mids, ws: sc.cells(&sc.subj).unwrap(), wk: sc.cells(&sc.clip).unwrap() }
}

impl World {
    fn fill_at(&self, fill: FillRule, i: Option<usize>) -> (bool, bool) {
        i.map_or((false, false), |i| (filled(fill, self.ws[i]), filled(fill, self.wk[i])))
    }

    /// the elementary edges of one vector, with its bits checked
    fn check(&self, sc: &Scene, fill: FillRule, e: &VectorEdge, seen: &mut HashMap<P, u32>) -> CaseResult {
        let (a, b) = ((e.a.x as i64, e.a.y as i64), (e.b.x as i64, e.b.y as i64));
        let off = || format!("the vector {a:?}-{b:?} ends in no vertex or crossing of the input");
        let (p, q) = (sc.map.back(a).ok_or_else(off)?, sc.map.back(b).ok_or_else(off)?);
        let st = steps(p, q).ok_or_else(|| format!("the vector {a:?}-{b:?} runs along no input edge"))?;
        if st.is_empty() {
            return Err(format!("a vector of no length at {a:?}"));
        }
        for (m, p, q) in st {
            if !self.mids.contains_key(&m) {
                return Err(format!("the vector {a:?}-{b:?} runs where no input edge has a net passage"));
            }
            *seen.entry(m).or_insert(0) += 1;
            let (l, r) = sides(sc.n, m, p, q);
            let (l, r) = if sc.map.sign() < 0 { (r, l) } else { (l, r) };
            let want = bits(self.fill_at(fill, l), self.fill_at(fill, r));
            if want != e.fill {
                return Err(format!("{fill:?}: the vector {a:?}-{b:?} has side bits {:04b}, it should be {want:04b} (clip right, clip left, subject right, subject left)", e.fill));
            }
            if Reverse::reverse(e.fill) != bits(self.fill_at(fill, r), self.fill_at(fill, l)) {
                return Err(format!("{fill:?}: reversed, the vector {a:?}-{b:?} with side bits {:04b} has {:04b}", e.fill, Reverse::reverse(e.fill)));
            }
        }
        Ok(())
    }
}

fn closed(shapes: &[VectorShape]) -> CaseResult {
    for s in shapes {
        for path in s {
            for i in 0..path.len() {
                let n = path[(i + 1) % path.len()];
                if path[i].b != n.a {
                    return Err(format!("a vector path is broken: {:?} is followed by {:?}", path[i].b, n.a));
                }
            }
        }
    }
    Ok(())
}

fn to_shapes(v: &[VectorShape]) -> Shapes {
    v.iter().map(|s| s.iter().map(|p| from_int(&p.to_path())).collect()).collect()
}

fn judge(c: &mut Case, sc: &Scene, sv: Solver, fill: FillRule, rules: usize, nest: usize) -> CaseResult {
    let w = world(sc);
    let (s, k) = (sc.int_subj(), sc.int_clip());
    c.nontrivial |= !w.mids.is_empty();
    let sep = overlay(&s, &k).into_separate_vectors(fill, sv);
    c.count("separate vectors", sep.len() as u64);
    let mut seen = HashMap::new();
    for e in &sep {
        w.check(sc, fill, e, &mut seen).map_err(|m| format!("{}: {m}", show_solver(&sv)))?;
    }
    if let Some((m, v)) = w.mids.iter().find(|(m, _)| seen.get(m) != Some(&1)) {
        return Err(format!("{fill:?} {}: the edge {:?}-{:?} is covered by {} separate vectors", show_solver(&sv), sc.map.map(v.0), sc.map.map(v.1), seen.get(m).unwrap_or(&0)));
    }
    for _ in 0..rules {
        let rule = *c.rng.pick(&RULES);
        let vs = overlay(&s, &k).into_shape_vectors(fill, rule, sv);
        let tell = |m: String| format!("vectors of {rule:?} {fill:?} {}: {m}", show_solver(&sv));
        let out = to_shapes(&vs);
        c.count("vector shapes", vs.len() as u64);
        let r = (|| -> CaseResult {
            closed(&vs)?;
            let mut seen = HashMap::new();
            for e in vs.iter().flatten().flatten() {
                w.check(sc, fill, e, &mut seen)?;
            }
            let exp = super::c01::expect(&w.ws, &w.wk, rule, fill);
            check::region(sc, &check::contours_of(&out), &exp, false)?;
            let hol: Shapes = out.iter().filter(|s| s.len() > 1).take(nest).cloned().collect();
            c.count("vector shapes with holes", hol.len() as u64);
            (0..out.len()).try_for_each(|i| check::directions(i, &out[i], false))?;
            check::nesting(sc, &hol, false)
        })();
        if let Err(m) = r {
            c.note(|| show_out(&out));
            return Err(tell(m));
        }
    }
    Ok(())
}

fn lattice(c: &mut Case) -> CaseResult {
    let sc = Scene::random(&mut c.rng, 8, 5);
    c.sign(sc.sig());
    c.note(|| sc.show());
    for fill in FILLS {
        let sv = fine_solver(&mut c.rng);
        judge(c, &sc, sv, fill, 3, 100)?;
    }
    Ok(())
}

fn crowd(c: &mut Case) -> CaseResult {
    let sc = crowd_scene(&mut c.rng, 10, 40);
    c.sign(sc.sig());
    c.note(|| sc.show().chars().take(4000).collect());
    let sv = fine_solver(&mut c.rng);
    let fill = *c.rng.pick(&FILLS);
    judge(c, &sc, sv, fill, 3, 60)
}

/// the fillings above (or below) the nearest vector under (or over) the point half a unit right of q
fn told(es: &[VectorEdge], q: P, up: bool) -> (bool, bool) {
    // doubled coordinates: no vector ends in this column
    let q = (2 * q.0 + 1, 2 * q.1);
    let mut best: Option<(i128, i128, u8)> = None;
    for e in es {
        let (a, b) = ((2 * e.a.x as i64, 2 * e.a.y as i64), (2 * e.b.x as i64, 2 * e.b.y as i64));
        if !(a.0 < q.0 && q.0 < b.0) {
            continue;
        }
        let c = cross(a, b, q);
        if (c > 0) == up {
            let (h, w) = (c.abs(), (b.0 - a.0) as i128);
            if best.map_or(true, |(bh, bw, _)| h * bw < bh * w) {
                best = Some((h, w, e.fill));
            }
        }
    }
    match best {
        None => (false, false),
        // vectors go from left to right: left is above
        Some((_, _, f)) if up => (f & SUBJ_LEFT != 0, f & CLIP_LEFT != 0),
        Some((_, _, f)) => (f & SUBJ_RIGHT != 0, f & CLIP_RIGHT != 0),
    }
}

fn general(c: &mut Case) -> CaseResult {
    let sc = general::Scene::random(&mut c.rng, general::LIM, 5);
    c.sign(sc.sig());
    c.note(|| sc.show());
    let sv = general_solver(&mut c.rng, sc.size);
    let fill = *c.rng.pick(&FILLS);
    let sep = overlay(&sc.subj, &sc.clip).into_separate_vectors(fill, sv);
    c.nontrivial |= !sep.is_empty();
    c.count("separate vectors", sep.len() as u64);
    for e in &sep {
        if e.a >= e.b {
            return Err(format!("the separate vector {:?}-{:?} does not run from the smaller to the greater point", e.a, e.b));
        }
    }
    let two: Vec<Contour> = sep.iter().map(|e| vec![(e.a.x as i64, e.a.y as i64), (e.b.x as i64, e.b.y as i64)]).collect();
    pairs_apart(&two).map_err(|m| format!("{fill:?} {}: {m}", show_solver(&sv)))?;
    let (es, ek) = (edges(&sc.subj), edges(&sc.clip));
    for (q, d) in sc.probes(&mut c.rng, 24, 6.0) {
        if d < 6.0 {
            continue;
        }
        let (Some(ws), Some(wk)) = (winding(&es, q, 1), winding(&ek, q, 1)) else { continue };
        let want = (filled(fill, ws), filled(fill, wk));
        for up in [true, false] {
            let got = told(&sep, q, up);
            c.count("probes told by vectors", 1);
            if got != want {
                return Err(format!("{fill:?} {}: at {q:?} (subject, clip) filling is {want:?}, the vector {} tells {got:?}", show_solver(&sv), if up { "below" } else { "above" }));
            }
        }
    }
    for _ in 0..2 {
        let rule = *c.rng.pick(&RULES);
        let vs = overlay(&sc.subj, &sc.clip).into_shape_vectors(fill, rule, sv);
        c.count("vector shapes", vs.len() as u64);
        closed(&vs)?;
        for e in vs.iter().flatten().flatten() {
            let l = combine(rule, e.fill & SUBJ_LEFT != 0, e.fill & CLIP_LEFT != 0);
            let r = combine(rule, e.fill & SUBJ_RIGHT != 0, e.fill & CLIP_RIGHT != 0);
            if (l, r) != (false, true) {
                return Err(format!("{rule:?} {fill:?} {}: the side bits {:04b} of {:?}-{:?} do not have the shape on the right", show_solver(&sv), e.fill, e.a, e.b));
            }
        }
        let out = to_shapes(&vs);
        let base = run_overlay(&sc.subj, &sc.clip, rule, fill, ContourDirection::Clockwise, false, 0, sv);
        if let Some(m) = check::diff(&base, &out) {
            c.note(|| format!("overlay {}vectors {}", show_out(&base), show_out(&out)));
            return Err(format!("{rule:?} {fill:?} {}: shape vectors are not the contours of the clockwise overlay: {m}", show_solver(&sv)));
        }
    }
    Ok(())
}

/// no two of the segments cross, overlap or touch but in their ends
pub fn pairs_apart(two: &[Contour]) -> CaseResult {
    let mut es: Vec<(P, P)> = two.iter().map(|c| (c[0].min(c[1]), c[0].max(c[1]))).collect();
    es.sort();
    for i in 0..es.len() {
        let (a, b) = es[i];
        for &(c, d) in &es[i + 1..] {
            if c.0 > b.0 {
                break;
            }
            if c.1.min(d.1) > a.1.max(b.1) || c.1.max(d.1) < a.1.min(b.1) {
                continue;
            }
            if (a, b) == (c, d) {
                return Err(format!("the vector {a:?}-{b:?} appears twice"));
            }
            if proper_cross(a, b, c, d) || overlap(a, b, c, d) {
                return Err(format!("the vectors {a:?}-{b:?} and {c:?}-{d:?} cross"));
            }
        }
    }
    Ok(())
}

fn plates_(c: &mut Case) -> CaseResult {
    let most = plates::most(&mut c.rng);
    let p = plates::plates(&mut c.rng, most);
    c.sign(crate::rng::hash_str(&p.show()));
    c.note(|| p.show());
    c.nontrivial = true;
    let sv = plates::solver(&mut c.rng, p.contours.len());
    let vs = overlay(&p.contours, &[]).into_shape_vectors(FillRule::EvenOdd, OverlayRule::Subject, sv);
    let out: Shapes = vs.iter().map(|s| s.iter().map(|c| from_int(&c.to_path())).collect()).collect();
    let ccw = false;
    c.count("plates judged", out.len() as u64);
    c.max("most shapes in one result", out.len() as f64);
    p.judge(&out, ccw).map_err(|m| format!("{}: {m}", show_solver(&sv)))
}

fn bars_(c: &mut Case) -> CaseResult {
    let most = plates::most(&mut c.rng);
    let b = bars::bars(&mut c.rng, most);
    c.sign(crate::rng::hash_str(&b.show()));
    c.note(|| b.show());
    c.nontrivial = true;
    let (mut s, mut k) = (b.subj(), b.clip());
    let fill = bars::dress(&mut c.rng, &mut [&mut s, &mut k]);
    let rule = *c.rng.pick(&RULES);
    let sv = plates::solver(&mut c.rng, b.size());
    let vs = overlay(&s, &k).into_shape_vectors(fill, rule, sv);
    let out: Shapes = vs.iter().map(|s| s.iter().map(|c| from_int(&c.to_path())).collect()).collect();
    c.count("overlays of bars judged", 1);
    c.max("most shapes in one result", out.len() as f64);
    b.judge(rule, &out, false, true).map_err(|m| format!("{rule:?} {fill:?} {}: {m}", show_solver(&sv)))
}
