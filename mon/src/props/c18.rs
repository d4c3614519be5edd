//! Vertices of results: input vertices stay where they are, crossings are rounded to an integer
//! point less than one unit away in x and in y, and nothing else appears.
use super::c11::string_overlay;
use crate::check;
use crate::eng::*;
use crate::fl::*;
use crate::general;
use crate::geo::*;
use crate::rng::Rng;
use crate::runner::*;
use i_overlay::core::fill_rule::FillRule;
use i_overlay::core::overlay::ContourDirection;
use i_overlay::core::solver::{Precision, Solver, Strategy};
use i_overlay::float::filter::ContourFilter;
use i_overlay::float::overlay::FloatOverlay;
use i_overlay::i_float::adapter::FloatPointAdapter;
use i_overlay::i_float::float::compatible::FloatPointCompatible;
use i_overlay::string::clip::ClipRule;
use std::collections::HashSet;

pub fn property() -> Property {
    Property {
        id: "C18",
        workloads: vec![
            Workload {
                name: "apart",
                rule: "scenes of one to six random contours and chains, 10 to 2^31 units across, in which vertices, crossings and the edges they are not on keep 6 units apart: the vertices of the arranged edges, results and clips are input vertices or crossings rounded by less than one unit in x and y (or within REACH, where the edges have further crossings), and every such crossing of a boundary is there; non-trivial: some crossing needs rounding",
                quick: 200_000,
                thorough: 10_000_000,
                run: apart,
            },
            Workload {
                name: "general",
                rule: "any scenes, also with edges along each other: every vertex and edge of a result runs within REACH of the input edges",
                quick: 20_000,
                thorough: 1_000_000,
                run: general,
            },
            Workload {
                name: "floats",
                rule: "scenes of the first kind in f64: vertices of results are input vertices or crossings to within REACH units of the internal grid",
                quick: 60_000,
                thorough: 3_000_000,
                run: floats,
            },
        ],
        assumptions: &["coordinates stay within +-2^30", "where a vertex, a crossing and an edge it is not on come nearer than 6 units, vertices may be off by REACH units"],
    }
}

/// how far repeated rounding was allowed to move things where edges crowd
const REACH: f64 = 4.0;
const APART: f64 = 6.0;

struct Apart {
    subj: Vec<Contour>,
    clip: Vec<Contour>,
    chains: Vec<Contour>,
    /// exact crossings: numerators and denominator; whether both edges have no other crossing
    cross: Vec<((i128, i128, i128), bool)>,
}

fn small(rng: &mut Rng, s: i64, open: bool) -> Contour {
    let k = if open { rng.usize(2, 4) } else { rng.usize(3, 6) };
    let mut p = || (rng.range(-s, s), rng.range(-s, s));
    let mut c: Contour = (0..k).map(|_| p()).collect();
    if rng.chance(1, 6) {
        // an upright or level edge
        if rng.bool() {
            c[1].0 = c[0].0;
        } else {
            c[1].1 = c[0].1;
        }
    }
    c
}

fn gap(q: (f64, f64), e: &(P, P)) -> f64 {
    dist_to_seg(q, f(e.0), f(e.1))
}

/// a proper crossing as a fraction
fn crossing(a: &(P, P), b: &(P, P)) -> Option<(i128, i128, i128)> {
    if !proper_cross(a.0, a.1, b.0, b.1) {
        return None;
    }
    let d0 = ((a.1 .0 - a.0 .0) as i128, (a.1 .1 - a.0 .1) as i128);
    let d1 = ((b.1 .0 - b.0 .0) as i128, (b.1 .1 - b.0 .1) as i128);
    let den = d0.0 * d1.1 - d0.1 * d1.0;
    let num = (b.0 .0 - a.0 .0) as i128 * d1.1 - (b.0 .1 - a.0 .1) as i128 * d1.0;
    let (num, den) = if den < 0 { (-num, -den) } else { (num, den) };
    Some((a.0 .0 as i128 * den + d0.0 * num, a.0 .1 as i128 * den + d0.1 * num, den))
}

fn sine(a: &(P, P), b: &(P, P)) -> f64 {
    let (u, v) = ((f(a.1).0 - f(a.0).0, f(a.1).1 - f(a.0).1), (f(b.1).0 - f(b.0).0, f(b.1).1 - f(b.0).1));
    (u.0 * v.1 - u.1 * v.0).abs() / (u.0.hypot(u.1) * v.0.hypot(v.1))
}

/// the integers less than one away from n/d
fn round_to(n: i128, d: i128) -> Vec<i64> {
    let q = n.div_euclid(d) as i64;
    if n.rem_euclid(d) == 0 {
        vec![q]
    } else {
        vec![q, q + 1]
    }
}

fn spot(x: &(i128, i128, i128)) -> Vec<P> {
    let ys = round_to(x.1, x.2);
    round_to(x.0, x.2).iter().flat_map(|&a| ys.iter().map(move |&b| (a, b))).collect()
}

fn at(x: &(i128, i128, i128)) -> (f64, f64) {
    // numerators may exceed what a double holds exactly: split off the whole part
    let one = |n: i128| n.div_euclid(x.2) as f64 + n.rem_euclid(x.2) as f64 / x.2 as f64;
    (one(x.0), one(x.1))
}

fn chain_edges(cs: &[Contour]) -> Vec<(P, P)> {
    cs.iter().flat_map(|c| c.windows(2).map(|w| (w[0], w[1])).collect::<Vec<_>>()).collect()
}

fn scene(rng: &mut Rng) -> Option<Apart> {
    let s = rng.log_range(general::LIM).max(10);
    let mut a = Apart { subj: vec![], clip: vec![], chains: vec![], cross: vec![] };
    for _ in 0..rng.usize(1, 2) {
        a.subj.push(small(rng, s, false));
    }
    for _ in 0..rng.usize(0, 2) {
        a.clip.push(small(rng, s, false));
    }
    for _ in 0..rng.usize(0, 2) {
        a.chains.push(small(rng, s, true));
    }
    if rng.chance(1, 4) {
        let m = general::LIM - s;
        let o = (if rng.bool() { m } else { -m }, rng.range(-m, m));
        for c in a.subj.iter_mut().chain(a.clip.iter_mut()).chain(a.chains.iter_mut()) {
            for p in c.iter_mut() {
                *p = (p.0 + o.0, p.1 + o.1);
            }
        }
    }
    let mut es = edges(&a.subj);
    es.extend(edges(&a.clip));
    es.extend(chain_edges(&a.chains));
    let vs: Vec<P> = a.subj.iter().chain(&a.clip).chain(&a.chains).flatten().copied().collect();
    for (i, p) in vs.iter().enumerate() {
        for e in &es {
            if e.0 != *p && e.1 != *p && gap(f(*p), e) < APART {
                return None;
            }
        }
        for q in &vs[..i] {
            if (p.0 - q.0).abs() < 6 && (p.1 - q.1).abs() < 6 {
                return None;
            }
        }
    }
    let mut pairs = vec![];
    let mut many = vec![0; es.len()];
    for i in 0..es.len() {
        for j in 0..i {
            if let Some(x) = crossing(&es[i], &es[j]) {
                let q = at(&x);
                many[i] += 1;
                many[j] += 1;
                pairs.push((x, i, j));
                if es.iter().enumerate().any(|(k, e)| k != i && k != j && gap(q, e) < APART) {
                    return None;
                }
                if vs.iter().any(|&v| (f(v).0 - q.0).hypot(f(v).1 - q.1) < APART) {
                    return None;
                }
            }
        }
    }
    for (x, i, j) in pairs {
        let alone = many[i] == 1 && many[j] == 1;
        if !alone && sine(&es[i], &es[j]) < 0.35 {
            return None;
        }
        a.cross.push((x, alone));
    }
    Some(a)
}

fn apart(c: &mut Case) -> CaseResult {
    let Some(sc) = (0..20).find_map(|_| scene(&mut c.rng)) else { return Ok(()) };
    let text = format!("subj {}\nclip {}\nchains {}", show(&sc.subj), show(&sc.clip), show(&sc.chains));
    c.sign(crate::rng::hash_str(&text));
    c.note(|| text.clone());
    let precision = *c.rng.pick(&[Precision::ABSOLUTE, Precision::HIGH, Precision::MEDIUM]);
    let sv = any_solver(&mut c.rng, precision);
    let fill = *c.rng.pick(&FILLS);
    let own: HashSet<P> = sc.subj.iter().chain(&sc.clip).chain(&sc.chains).flatten().copied().collect();
    let rounded = sc.cross.iter().filter(|(x, _)| x.0 % x.2 != 0 || x.1 % x.2 != 0).count();
    c.nontrivial |= rounded > 0;
    c.count("crossings", sc.cross.len() as u64);
    c.count("crossings to be rounded", rounded as u64);
    c.count("crossings alone on their edges", sc.cross.iter().filter(|x| x.1).count() as u64);
    // an edge already split at a rounded crossing has moved a little where the next one crosses it
    let mut all = own.clone();
    let mut loose: Vec<(f64, f64)> = vec![];
    for (x, alone) in &sc.cross {
        if *alone {
            all.extend(spot(x));
        } else {
            loose.push(at(x));
        }
    }
    let mut furthest = 0.0f64;
    let mut fits = |v: &P| {
        if all.contains(v) {
            return true;
        }
        let d = loose.iter().map(|q| (q.0 - v.0 as f64).hypot(q.1 - v.1 as f64)).fold(f64::MAX, f64::min);
        if d <= REACH {
            furthest = furthest.max(d);
        }
        d <= REACH
    };
    let tell = |what: &str, v: &P| {
        let near = sc.cross.iter().map(|x| at(&x.0)).min_by(|a, b| {
            let d = |q: &(f64, f64)| (q.0 - v.0 as f64).hypot(q.1 - v.1 as f64);
            d(a).total_cmp(&d(b))
        });
        format!("{fill:?} {}: {what} has the vertex {v:?}, which is no vertex of the input nor a crossing rounded; the nearest crossing is {near:?}", show_solver(&sv))
    };
    // all arranged edges
    let vs = overlay(&sc.subj, &sc.clip).into_separate_vectors(fill, sv);
    let ends: HashSet<P> = vs.iter().flat_map(|e| [(e.a.x as i64, e.a.y as i64), (e.b.x as i64, e.b.y as i64)]).collect();
    c.count("vertices judged", ends.len() as u64);
    if let Some(v) = ends.iter().find(|v| !fits(v)) {
        return Err(tell("the arrangement", v));
    }
    let rule = *c.rng.pick(&RULES);
    let d = dir(&mut c.rng);
    let out = run_overlay(&sc.subj, &sc.clip, rule, fill, d, c.rng.bool(), 0, sv);
    let got: HashSet<P> = out.iter().flatten().flatten().copied().collect();
    c.count("vertices judged", got.len() as u64);
    if let Some(v) = got.iter().find(|v| !fits(v)) {
        return Err(tell("the result", v));
    }
    // what must be there: a point with an odd number of the four quarters around it inside, or two of
    // them which are neighbours on one edge, is a corner or on an edge; the corners are known exactly
    let (es, ek) = (edges(&sc.subj), edges(&sc.clip));
    let both: Vec<(P, P)> = es.iter().chain(&ek).copied().collect();
    for i in 0..both.len() {
        for j in 0..i {
            let Some(x) = crossing(&both[i], &both[j]) else { continue };
            let q = at(&x);
            let unit = |e: &(P, P)| {
                let (dx, dy) = ((e.1 .0 - e.0 .0) as f64, (e.1 .1 - e.0 .1) as f64);
                let l = dx.hypot(dy);
                (dx / l, dy / l)
            };
            let (u, v) = (unit(&both[i]), unit(&both[j]));
            if (u.0 * v.1 - u.1 * v.0).abs() < 0.72 {
                continue;
            }
            // the middle of each quarter, well inside of the free surroundings
            let quarter = |a: f64, b: f64| -> Option<bool> {
                let w = (u.0 * a + v.0 * b, u.1 * a + v.1 * b);
                let l = w.0.hypot(w.1) / 4.0;
                let p = ((q.0 + w.0 / l).round() as i64, (q.1 + w.1 / l).round() as i64);
                Some(combine(rule, filled(fill, winding(&es, p, 1)?), filled(fill, winding(&ek, p, 1)?)))
            };
            let Some(k) = [(1.0, 1.0), (-1.0, 1.0), (-1.0, -1.0), (1.0, -1.0)].iter().map(|w| quarter(w.0, w.1)).collect::<Option<Vec<bool>>>() else {
                continue;
            };
            let n = k.iter().filter(|x| **x).count();
            let corner = n % 2 == 1 || n == 2 && k[0] == k[2];
            c.count("crossings that are corners", corner as u64);
            if corner && !got.iter().any(|p| (q.0 - p.0 as f64).hypot(q.1 - p.1 as f64) <= REACH) {
                c.note(|| show_out(&out));
                return Err(format!("{rule:?} {fill:?} {}: the crossing at {q:?} is a corner of the result, but none of its vertices", show_solver(&sv)));
            }
        }
    }
    // lines
    if !sc.chains.is_empty() {
        let cr = ClipRule { invert: c.rng.bool(), boundary_included: c.rng.bool() };
        let out = string_overlay(&mut c.rng, &sc.subj, &sc.chains).clip_string_lines_with_solver(fill, cr, sv);
        let got: HashSet<P> = out.iter().flatten().map(|p| (p.x as i64, p.y as i64)).collect();
        c.count("vertices judged", got.len() as u64);
        if let Some(v) = got.iter().find(|v| !fits(v)) {
            return Err(tell("the clip", v));
        }
    }
    c.max("furthest from its crossing", furthest);
    Ok(())
}

fn general(c: &mut Case) -> CaseResult {
    let sc = general::Scene::random(&mut c.rng, general::LIM, 4);
    c.sign(sc.sig());
    c.note(|| sc.show());
    let es = edges(&sc.all());
    let precision = *c.rng.pick(&[Precision::HIGH, Precision::HIGH, Precision::MEDIUM_HIGH, Precision::MEDIUM]);
    let sv = any_solver(&mut c.rng, precision);
    for _ in 0..3 {
        let (rule, fill) = (*c.rng.pick(&RULES), *c.rng.pick(&FILLS));
        let out = run_overlay(&sc.subj, &sc.clip, rule, fill, ContourDirection::CounterClockwise, c.rng.bool(), 0, sv);
        let tell = |m: String| Err(format!("{rule:?} {fill:?} {}: {m}", show_solver(&sv)));
        c.nontrivial |= !out.is_empty();
        for k in check::contours_of(&out) {
            for i in 0..k.len() {
                let (a, b) = (k[i], k[(i + 1) % k.len()]);
                c.count("vertices judged", 1);
                for t in [0.0, 0.5, c.rng.f64()] {
                    let q = (a.0 as f64 + (b.0 - a.0) as f64 * t, a.1 as f64 + (b.1 - a.1) as f64 * t);
                    let far = es.iter().map(|e| gap(q, e)).fold(f64::MAX, f64::min);
                    c.max("furthest edge", far);
                    c.count("places on edges judged", 1);
                    if far > REACH {
                        c.note(|| show_out(&out));
                        return tell(format!("the edge {a:?} {b:?} runs {far:.2} away from all edges of the input near {q:?}"));
                    }
                }
            }
        }
    }
    Ok(())
}

fn floats(c: &mut Case) -> CaseResult {
    let Some(sc) = (0..20).find_map(|_| scene(&mut c.rng)) else { return Ok(()) };
    let k = 10f64.powf(c.rng.frange(-12.0, 4.0));
    let o = if c.rng.bool() { (0.0, 0.0) } else { (c.rng.frange(-1e9, 1e9) * k, c.rng.frange(-1e9, 1e9) * k) };
    let to = |cs: &[Contour]| -> Vec<Vec<Pt<f64>>> { cs.iter().map(|c| c.iter().map(|p| [p.0 as f64 * k + o.0, p.1 as f64 * k + o.1]).collect()).collect() };
    let (s, l) = (to(&sc.subj), to(&sc.clip));
    let e = Free::of(s.clone(), l.clone());
    let text = e.show();
    c.sign(crate::rng::hash_str(&text));
    c.note(|| text);
    let adapter: FloatPointAdapter<Pt<f64>, f64> = FloatPointAdapter::with_iter(s.iter().chain(&l).flatten());
    let unit = 1.0 / adapter.dir_scale;
    // the grid is fine enough for what is apart in the scene
    if unit > k * 0.5 || e.size <= 0.0 {
        return Ok(());
    }
    let tol = REACH * unit + (e.mag + e.size) * f64::EPSILON * 8.0;
    let es: Vec<(P, P)> = edges(&sc.subj).into_iter().chain(edges(&sc.clip)).collect();
    let mut spots: Vec<Pf> = s.iter().chain(&l).flatten().map(|p| pf(p)).collect();
    for i in 0..es.len() {
        for j in 0..i {
            if let Some(x) = crossing(&es[i], &es[j]) {
                let q = at(&x);
                spots.push((q.0 * k + o.0, q.1 * k + o.1));
            }
        }
    }
    // shallow crossings move with the rounding of their edges' ends
    let steep = |es: &[(P, P)]| (0..es.len()).all(|i| (0..i).all(|j| crossing(&es[i], &es[j]).is_none() || sine(&es[i], &es[j]) > 0.5));
    if !steep(&es) {
        return Ok(());
    }
    let (rule, fill) = (*c.rng.pick(&RULES), *c.rng.pick(&FILLS));
    let sv = any_solver(&mut c.rng, Precision::HIGH);
    let filter = ContourFilter { min_area: 0.0, simplify_contour: c.rng.bool(), clean_result: c.rng.chance(1, 4) };
    let out = FloatOverlay::with_subj_and_clip(&s, &l).overlay_custom(rule, fill, ContourDirection::CounterClockwise, filter, sv);
    c.nontrivial |= !out.is_empty();
    for v in out.iter().flatten().flatten() {
        c.count("vertices judged", 1);
        let far = spots.iter().map(|q| (q.0 - v.x()).hypot(q.1 - v.y())).fold(f64::MAX, f64::min);
        c.max("furthest from its place, in grid units", far / unit);
        if !(far <= tol) {
            c.note(|| format!("{out:?}"));
            return Err(format!("{rule:?} {fill:?} {}: the vertex {v:?} of the result is {far:e} away from the nearest vertex or crossing of the input (a grid unit is {unit:e})", show_solver(&sv)));
        }
    }
    Ok(())
}

/// two contours which run a unit beside each other
pub fn beside() -> Vec<Contour> {
    vec![vec![(-544, -428), (773, 646), (0, 0), (1291, 847)], vec![(-544, -427), (772, 645), (1, 1), (1290, 848)]]
}

/// Precision::ABSOLUTE rounds the crossings of such edges again in each of many rounds
pub fn finding() -> Option<String> {
    let s = beside();
    let es = edges(&s);
    let sv = Solver { strategy: Strategy::List, precision: Precision::ABSOLUTE, multithreading: None };
    let mut worst: (f64, (P, P)) = (0.0, ((0, 0), (0, 0)));
    for e in overlay(&s, &[]).into_separate_vectors(FillRule::EvenOdd, sv) {
        let (a, b) = ((e.a.x as i64, e.a.y as i64), (e.b.x as i64, e.b.y as i64));
        for t in 0..=10 {
            let q = (a.0 as f64 + (b.0 - a.0) as f64 * t as f64 * 0.1, a.1 as f64 + (b.1 - a.1) as f64 * t as f64 * 0.1);
            let far = es.iter().map(|e| gap(q, e)).fold(f64::MAX, f64::min);
            if far > worst.0 {
                worst = (far, (a, b));
            }
        }
    }
    if worst.0 > REACH {
        return Some(format!("with Precision::ABSOLUTE the edge {:?} {:?} runs {:.1} units away from all edges of the input", worst.1 .0, worst.1 .1, worst.0));
    }
    None
}
