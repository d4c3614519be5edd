//! Strokes of paths.
use super::c13::{area_f, per};
use super::c14::{form, grouped, own, plain};
use crate::buffer::*;
use crate::eng::*;
use crate::fl::*;
use crate::rng::Rng;
use crate::runner::*;
use i_overlay::core::overlay::ContourDirection;
use i_overlay::float::filter::ContourFilter;
use i_overlay::mesh::stroke::offset::StrokeOffset;
use i_overlay::mesh::style::StrokeStyle;

pub fn property() -> Property {
    Property {
        id: "C16",
        workloads: vec![
            Workload {
                name: "f64",
                rule: "one to three open or closed paths (random, lattice, curves, sharp turns, reversals, repeated points), any width, join and caps, anywhere in f64: points further from the drawn edges than rounding are covered exactly when a section, a join or a cap covers them; non-trivial: the stroke is not empty",
                quick: 30_000,
                thorough: 2_000_000,
                run: region::<f64>,
            },
            Workload {
                name: "f32",
                rule: "the same in f32",
                quick: 15_000,
                thorough: 1_000_000,
                run: region::<f32>,
            },
            Workload {
                name: "calls",
                rule: "every container the paths can come in, own point types, the short call, empty and one-point paths among the others, repeated points: the same shapes; lone points draw nothing; f64 and f32 by turns",
                quick: 20_000,
                thorough: 1_000_000,
                run: calls,
            },
            Workload {
                name: "filters",
                rule: "min_area between, at and around areas that occur: exactly the contours reaching it; clean_result takes away only vertices between their neighbours; non-trivial: a contour is dropped",
                quick: 20_000,
                thorough: 1_000_000,
                run: filters,
            },
            Workload {
                name: "scaling",
                rule: "path and width times a power of two, custom caps as they are: the result times it, to the bit; a closed path from another start or backwards covers the same",
                quick: 10_000,
                thorough: 1_000_000,
                run: scaling,
            },
            Workload {
                name: "long",
                rule: "paths of 100 to 2500 points: smooth wanderings, spirals and serpentines in f64, any style",
                quick: 800,
                thorough: 20_000,
                run: long,
            },
            Workload {
                name: "narrow",
                rule: "small paths far from each other: widths of 3 to 600 steps of the internal grid, ends and joins of up to 1024 points, many of them at the same grid point; f64, judged to 12 steps; non-trivial: the stroke is not empty",
                quick: 15_000,
                thorough: 1_000_000,
                run: narrow,
            },
        ],
        assumptions: &[
            "successive points of a path are equal or at least 1/250 of its extent apart, widths are at least 1/1000 of it",
            "points nearer to an edge of a section, join or cap than rounding are not judged, nor those between a circle and its coarsest polygon",
        ],
    }
}

pub struct Drawn<T: Num> {
    pub paths: Vec<Vec<Pt<T>>>,
    pub width: T,
    pub closed: bool,
    pub join: Join,
    pub start: Cap,
    pub end: Cap,
}

impl<T: Num> Drawn<T> {
    pub fn style(&self) -> StrokeStyle<Pt<T>, T> {
        StrokeStyle::new(self.width).line_join(self.join.to()).start_cap(self.start.to()).end_cap(self.end.to())
    }
    pub fn reach(&self) -> f64 {
        self.join.reach().max(self.start.reach()).max(self.end.reach()) * self.width.to_f64() / 2.0
    }
    pub fn show(&self) -> String {
        format!("{} closed {} width {:?} {:?} start {:?} end {:?}\npaths {:?}", T::NAME, self.closed, self.width, self.join, self.start, self.end, self.paths)
    }
    pub fn random(c: &mut Case) -> (Drawn<T>, Placing) {
        let rng = &mut c.rng;
        let pl = Placing::random::<T>(rng);
        let n = if rng.chance(2, 3) { 1 } else { rng.usize(2, 3) };
        let width = 10f64.powf(rng.frange(-3.0, 0.7)) * pl.scale;
        let paths = (0..n)
            .map(|_| {
                let k = if rng.chance(1, 5) { 24 } else { 7 };
                path(rng, k).iter().map(|&p| pl.to(p)).collect()
            })
            .collect();
        let d = Drawn { paths, width: T::of(width), closed: rng.bool(), join: Join::random(rng), start: Cap::random(rng), end: Cap::random(rng) };
        (d, pl)
    }
    pub fn model(&self) -> Model {
        let mut m = Model::default();
        for p in &self.paths {
            let v: Vec<Pf> = p.iter().map(pf).collect();
            stroke(&mut m, &v, self.closed, self.width.to_f64() / 2.0, self.join, &self.start, &self.end);
        }
        m
    }
}

/// the result against a model of the region
pub fn judge<T: Num>(c: &mut Case, m: &Model, out: &[Vec<Vec<Pt<T>>>], d: ContourDirection, tol: f64, n: usize) -> CaseResult {
    let es = m.edges();
    let flat: Vec<_> = out.iter().flatten().cloned().collect();
    let eo = edges_f(&flat);
    let one = if is_ccw(d) { 1 } else { -1 };
    for q in probes_f(&mut c.rng, &es, n, tol) {
        let Some(x) = m.at(q) else { continue };
        let away = dist_all(&es, q);
        if away <= tol {
            continue;
        }
        c.count("points compared", 1);
        c.nontrivial |= x;
        let got = winding_f(&eo, q);
        if got != if x { one } else { 0 } {
            c.note(|| format!("{out:?}"));
            return Err(format!(
                "the point {q:?} should be {}, the result has winding {got} there ({away:e} away from all edges drawn, tolerance {tol:e})",
                if x { "inside" } else { "outside" }
            ));
        }
    }
    shape_form(out, d, tol)
}

/// directions of the contours, holes in their shapes
pub fn shape_form<T: Num>(out: &[Vec<Vec<Pt<T>>>], d: ContourDirection, tol: f64) -> CaseResult {
    for (i, s) in out.iter().enumerate() {
        if s.is_empty() {
            return Err(format!("shape {i} is empty"));
        }
        let outer = edges_f(&s[..1]);
        for (j, k) in s.iter().enumerate() {
            if k.len() < 3 {
                return Err(format!("contour {j} of shape {i} has {} vertices", k.len()));
            }
            let a = area_f(k);
            if a.abs() > tol * per(k) && (a > 0.0) != ((j == 0) == is_ccw(d)) {
                return Err(format!("contour {j} of shape {i} runs in the wrong direction, its area is {a:e}"));
            }
            if j > 0 {
                for e in edges_f(&s[j..=j]).iter().take(6) {
                    let q = ((e.0 .0 + e.1 .0) / 2.0, (e.0 .1 + e.1 .1) / 2.0);
                    if winding_f(&outer, q) == 0 && dist_all(&outer, q) > tol {
                        return Err(format!("hole {j} of shape {i} lies outside of it near {q:?}"));
                    }
                }
            }
        }
    }
    Ok(())
}

fn region<T: Num>(c: &mut Case) -> CaseResult {
    let (e, _) = Drawn::<T>::random(c);
    c.sign(crate::rng::hash_str(&e.show()));
    c.note(|| e.show());
    let tol = tolerance(&e.paths, e.reach());
    let d = dir(&mut c.rng);
    let filter = ContourFilter { min_area: T::of(0.0), simplify_contour: c.rng.bool(), clean_result: c.rng.bool() };
    let out = e.paths.stroke_custom(e.style(), e.closed, d, filter);
    c.count("strokes judged", 1);
    judge(c, &e.model(), &out, d, tol, 150).map_err(|m| format!("{} {:?}: {m}", T::NAME, d))
}

fn calls(c: &mut Case) -> CaseResult {
    if c.rng.bool() {
        calls_of::<f64>(c)
    } else {
        calls_of::<f32>(c)
    }
}

fn calls_of<T: Num>(c: &mut Case) -> CaseResult {
    let (mut e, _) = Drawn::<T>::random(c);
    c.sign(crate::rng::hash_str(&e.show()));
    c.note(|| e.show());
    let d = dir(&mut c.rng);
    let f = ContourFilter { min_area: T::of(0.0), simplify_contour: c.rng.bool(), clean_result: c.rng.bool() };
    let want = e.paths.stroke_custom(e.style(), e.closed, d, f);
    c.nontrivial |= !want.is_empty();
    let (how, got) = form!(&mut c.rng, &e.paths, r => r.stroke_custom(e.style(), e.closed, d, f));
    c.count("calls compared", 3);
    if got != want {
        return Err(format!("{} {d:?}: given as {how} the stroke is {got:?}, as Vec<Vec<P>> it is {want:?}", T::NAME));
    }
    let o = own(&e.paths);
    let cap = |k: &Cap| match k {
        Cap::Butt => i_overlay::mesh::style::LineCap::Butt,
        Cap::Round(a) => i_overlay::mesh::style::LineCap::Round(T::of(*a)),
        Cap::Square => i_overlay::mesh::style::LineCap::Square,
        Cap::Custom(v) => i_overlay::mesh::style::LineCap::Custom(own(&[v.iter().map(|p| [T::of(p.0), T::of(p.1)]).collect::<Vec<_>>()]).remove(0)),
    };
    let style = StrokeStyle { width: e.width, join: e.join.to(), start_cap: cap(&e.start), end_cap: cap(&e.end) };
    let got = plain(&o.stroke_custom(style, e.closed, d, f));
    if got != want {
        return Err(format!("{} {d:?}: with an own point type and a style made by hand the stroke is {got:?}, else {want:?}", T::NAME));
    }
    let short = e.paths.stroke(e.style(), e.closed);
    let long = e.paths.stroke_custom(e.style(), e.closed, ContourDirection::CounterClockwise, Default::default());
    if short != long {
        return Err(format!("{}: stroke gives {short:?}, stroke_custom with the defaults {long:?}", T::NAME));
    }
    // paths that draw nothing; points inside the bounds, so that the grid stays the same
    let p = e.paths[0][0];
    let mut more = e.paths.clone();
    for _ in 0..c.rng.usize(1, 3) {
        let at = c.rng.usize(0, more.len());
        let k = c.rng.usize(0, 3);
        more.insert(at, vec![p; k]);
    }
    let got = more.stroke_custom(e.style(), e.closed, d, f);
    if got != want {
        c.note(|| format!("{more:?}"));
        return Err(format!("{} {d:?}: with empty and one-point paths added the stroke is {got:?}, without {want:?}", T::NAME));
    }
    let nothing: Vec<Vec<Pt<T>>> = more.into_iter().filter(|v| v.iter().all(|q| *q == p)).collect();
    for cut in [&nothing[..], &nothing[..1], &[]] {
        let got = cut.to_vec().stroke_custom(e.style(), e.closed, d, f);
        if !got.is_empty() {
            return Err(format!("{}: the stroke of {cut:?} is {got:?}", T::NAME));
        }
    }
    // points repeated in place
    let i = c.rng.below(e.paths.len() as u64) as usize;
    let j = c.rng.below(e.paths[i].len() as u64) as usize;
    let q = e.paths[i][j];
    for _ in 0..c.rng.usize(1, 3) {
        e.paths[i].insert(j, q);
    }
    if e.closed && c.rng.bool() {
        let q = e.paths[i][0];
        e.paths[i].push(q);
    }
    let got = e.paths.stroke_custom(e.style(), e.closed, d, f);
    if got != want {
        return Err(format!("{} {d:?}: with repeated points ({:?}) the stroke is {got:?}, without {want:?}", T::NAME, e.paths));
    }
    Ok(())
}

/// a limit asked of a call that takes filters
pub fn limits<T: Num>(c: &mut Case, tol: f64, run: impl Fn(ContourFilter<T>) -> Vec<Vec<Vec<Pt<T>>>>) -> CaseResult {
    let simplify = c.rng.bool();
    let filter = |min_area: T, clean_result: bool| ContourFilter { min_area, simplify_contour: simplify, clean_result };
    let all = run(filter(T::of(0.0), false));
    let a: Vec<(f64, f64)> = all.iter().flatten().map(|k| (area_f(k).abs(), per(k) * tol)).collect();
    for _ in 0..2 {
        let x = match a.len() {
            0 => 1.0,
            n => a[c.rng.below(n as u64) as usize].0,
        };
        let m = T::of(match c.rng.below(4) {
            0 => x * 0.98,
            1 => x * 1.02,
            2 => x * 10f64.powf(c.rng.frange(-3.0, 3.0)),
            _ => x * c.rng.frange(0.5, 2.0),
        });
        let x = m.to_f64();
        if a.iter().any(|a| (a.0 - x).abs() <= a.1) {
            continue;
        }
        let got = run(filter(m, false));
        let want: Vec<Vec<_>> = all
            .iter()
            .map(|s| s.iter().filter(|k| area_f(k).abs() >= x).cloned().collect::<Vec<_>>())
            .filter(|s| !s.is_empty())
            .collect();
        c.count("limits asked", 1);
        let (n, w) = (a.len(), want.iter().flatten().count());
        c.nontrivial |= w < n;
        c.count("contours below the limit", (n - w) as u64);
        if got != want {
            c.note(|| format!("{all:?}\n{got:?}"));
            return Err(format!("min_area {x:e}: {} contours left of {n}, {w} are at least as large", got.iter().flatten().count()));
        }
    }
    let clean = run(filter(T::of(0.0), true));
    let flat = |s: &Vec<Vec<Vec<Pt<T>>>>| s.iter().flatten().map(|k| area_f(k)).sum::<f64>();
    let (x, y) = (flat(&all), flat(&clean));
    let may = all.iter().flatten().map(|k| per(k)).sum::<f64>() * tol;
    if (x - y).abs() > may {
        c.note(|| format!("{all:?}\n{clean:?}"));
        return Err(format!("cleaning changes the area from {x:e} to {y:e}"));
    }
    for k in clean.iter().flatten() {
        if k.len() < 3 || (0..k.len()).any(|i| k[i] == k[(i + 1) % k.len()]) {
            return Err(format!("a cleaned contour has less than three vertices or repeats one: {k:?}"));
        }
    }
    Ok(())
}

fn filters(c: &mut Case) -> CaseResult {
    if c.rng.bool() {
        filters_of::<f64>(c)
    } else {
        filters_of::<f32>(c)
    }
}

fn filters_of<T: Num>(c: &mut Case) -> CaseResult {
    let (e, _) = Drawn::<T>::random(c);
    c.sign(crate::rng::hash_str(&e.show()));
    c.note(|| e.show());
    let tol = tolerance(&e.paths, e.reach());
    let d = dir(&mut c.rng);
    limits(c, tol, |f| e.paths.stroke_custom(e.style(), e.closed, d, f)).map_err(|m| format!("{} {d:?}: {m}", T::NAME))
}

fn scaling(c: &mut Case) -> CaseResult {
    let (mut e, _) = Drawn::<f64>::random(c);
    c.sign(crate::rng::hash_str(&e.show()));
    let k = 2f64.powi(c.rng.range(-30, 30) as i32);
    c.note(|| format!("{}\nscaled by {k:e}", e.show()));
    let d = dir(&mut c.rng);
    let up = |cs: &[Vec<Pt<f64>>]| -> Vec<Vec<Pt<f64>>> { cs.iter().map(|c| c.iter().map(|p| [p[0] * k, p[1] * k]).collect()).collect() };
    let f = ContourFilter { min_area: 0.0, simplify_contour: true, clean_result: false };
    let a = e.paths.stroke_custom(e.style(), e.closed, d, f);
    c.nontrivial |= !a.is_empty();
    c.count("results compared", 1);
    let mut style = e.style();
    style.width *= k;
    let b = up(&e.paths).stroke_custom(style, e.closed, d, f);
    // the scale of the grid follows a truncated logarithm: around 1 its step is different
    let a: Vec<_> = a.iter().map(|s| up(s)).collect();
    let tol = tolerance(&e.paths, e.reach());
    let same = a == b;
    if !same && (a.len() != b.len() || !alike(&a, &b, tol * k)) {
        c.note(|| format!("{a:?}\n{b:?}"));
        return Err(format!("{d:?}: path and width times {k:e} give another result than the result times {k:e}"));
    }
    c.count("results alike to the bit", same as u64);
    if e.closed {
        let m = e.model();
        for p in e.paths.iter_mut() {
            let n = c.rng.below(p.len() as u64) as usize;
            p.rotate_left(n);
            if c.rng.bool() {
                p.reverse();
            }
        }
        let out = e.paths.stroke_custom(e.style(), true, d, f);
        judge(c, &m, &out, d, tol, 60).map_err(|t| format!("started elsewhere or backwards ({:?}): {t}", e.paths))?;
    }
    Ok(())
}

/// the same area to within rounding
fn alike(a: &[Vec<Vec<Pt<f64>>>], b: &[Vec<Vec<Pt<f64>>>], tol: f64) -> bool {
    let sum = |s: &[Vec<Vec<Pt<f64>>>]| s.iter().flatten().map(|k| area_f(k)).sum::<f64>();
    let len = a.iter().chain(b).flatten().map(|k| per(k)).sum::<f64>();
    (sum(a) - sum(b)).abs() <= len * tol
}

fn long(c: &mut Case) -> CaseResult {
    let (mut e, pl) = Drawn::<f64>::random(c);
    let n = c.rng.usize(100, 2500);
    let v: Vec<Pf> = match c.rng.below(3) {
        0 => {
            // a smooth wandering
            let (mut an, mut p) = (0.0f64, (0.0, 0.0));
            let mut bend = 0.0;
            (0..n)
                .map(|_| {
                    bend = 0.8 * bend + c.rng.frange(-0.1, 0.1);
                    an += bend;
                    p = add(p, (0.03 * an.cos(), 0.03 * an.sin()));
                    p
                })
                .collect()
        }
        1 => {
            let a = c.rng.frange(0.05, 0.6);
            (0..n)
                .map(|i| {
                    let t = (i as f64 + 3.0).sqrt() * 3.0 * a;
                    (t * t.cos() * 0.1, t * t.sin() * 0.1)
                })
                .collect()
        }
        _ => {
            let w = c.rng.usize(5, 40);
            (0..n)
                .map(|i| {
                    let (r, x) = (i / w, i % w);
                    let x = if r % 2 == 0 { x } else { w - 1 - x };
                    (x as f64 * 0.05 + c.rng.frange(0.0, 0.02), r as f64 * 0.05 + c.rng.frange(0.0, 0.02))
                })
                .collect()
        }
    };
    e.paths = vec![v.iter().map(|&p| pl.to(p)).collect()];
    // wide strokes of many fine joins cross themselves millions of times
    e.width = pl.scale * 10f64.powf(c.rng.frange(-3.0, -1.0));
    let coarse = |a: f64| a.max(0.2);
    if let Join::Round(a) = e.join {
        e.join = Join::Round(coarse(a));
    }
    c.sign(crate::rng::hash_str(&e.show()));
    c.note(|| e.show().chars().take(3000).collect());
    c.max("most points of a path", n as f64);
    let tol = tolerance(&e.paths, e.reach());
    let d = dir(&mut c.rng);
    let filter = ContourFilter { min_area: 0.0, simplify_contour: c.rng.bool(), clean_result: c.rng.bool() };
    let out = e.paths.stroke_custom(e.style(), e.closed, d, filter);
    c.count("strokes judged", 1);
    judge(c, &e.model(), &out, d, tol, 150).map_err(|m| format!("f64 {d:?}: {m}"))
}

/// paths that are small on the internal grid
fn narrow(c: &mut Case) -> CaseResult {
    let rng = &mut c.rng;
    let pl = Placing::random::<f64>(rng);
    let size = 10f64.powf(rng.frange(2.7, 3.7));
    let width = 10f64.powf(rng.frange(0.5, 2.8));
    // the whole is about 2^28 to 2^29 steps wide
    let far = 2f64.powf(rng.frange(28.0, 28.9));
    let n = rng.usize(2, 3);
    let spots = [(0.0, 0.0), (far, rng.frange(-far, far)), (rng.frange(-far, far) * 0.1, -far)];
    let paths = (0..n)
        .map(|i| path(rng, 6).iter().map(|&p| pl.to(mul(add(mul(p, size), spots[i]), 1.0 / far))).collect())
        .collect();
    let mut e = Drawn { paths, width: width * pl.scale / far, closed: rng.chance(1, 3), join: Join::random(rng), start: Cap::random(rng), end: Cap::random(rng) };
    let fine = |rng: &mut Rng| if rng.bool() { rng.frange(0.0, 0.05) } else { rng.frange(0.05, 1.0) };
    if rng.bool() {
        e.start = Cap::Round(fine(rng));
    }
    if rng.bool() {
        e.end = Cap::Round(fine(rng));
    }
    c.sign(crate::rng::hash_str(&e.show()));
    c.note(|| e.show());
    let f = Free::of(e.paths.clone(), vec![]);
    let tol = (f.size + 2.5 * e.reach()) * 12.0 / (1u64 << 29) as f64 + f.mag * f64::EPS * 20.0;
    let d = dir(&mut c.rng);
    let filter = ContourFilter { min_area: 0.0, simplify_contour: c.rng.bool(), clean_result: c.rng.bool() };
    let out = e.paths.stroke_custom(e.style(), e.closed, d, filter);
    c.count("strokes judged", 1);
    judge(c, &e.model(), &out, d, tol, 150).map_err(|m| format!("f64 {d:?}: {m}"))
}
