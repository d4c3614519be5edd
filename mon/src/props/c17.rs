//! Outlines (offsets) of polygons.
use super::c14::{form, grouped, own, plain};
use super::c16::{limits, shape_form};
use crate::buffer::*;
use crate::eng::*;
use crate::fl::*;
use crate::general;
use crate::lattice;
use crate::rng::Rng;
use crate::runner::*;
use i_overlay::core::fill_rule::FillRule;
use i_overlay::core::overlay::ContourDirection;
use i_overlay::core::overlay_rule::OverlayRule;
use i_overlay::float::filter::ContourFilter;
use i_overlay::mesh::outline::offset::OutlineOffset;
use i_overlay::mesh::style::OutlineStyle;

pub fn property() -> Property {
    Property {
        id: "C17",
        workloads: vec![
            Workload {
                name: "f64",
                rule: "valid polygons (stars, combs, notched rectangles, results of overlays; with holes, islands and touching points), outer and inner offsets of either sign and any size, joins, anywhere in f64: points further from the drawn edges than rounding are covered exactly when the offset polygon covers them; non-trivial: something is left",
                quick: 30_000,
                thorough: 2_000_000,
                run: region::<f64>,
            },
            Workload {
                name: "f32",
                rule: "the same in f32",
                quick: 15_000,
                thorough: 1_000_000,
                run: region::<f32>,
            },
            Workload {
                name: "calls",
                rule: "every container the contours can come in, own point types, the short call, empty contours among the others, other starts, repeated points: the same region or the same shapes; a single clockwise contour gives nothing",
                quick: 15_000,
                thorough: 1_000_000,
                run: calls,
            },
            Workload {
                name: "filters",
                rule: "min_area between, at and around areas that occur: exactly the contours reaching it; clean_result takes away only vertices between their neighbours; non-trivial: a contour is dropped",
                quick: 15_000,
                thorough: 1_000_000,
                run: filters,
            },
            Workload {
                name: "many",
                rule: "rings of 50 to 2000 vertices and plates with up to 400 holes and islands in them, f64",
                quick: 400,
                thorough: 30_000,
                run: many,
            },
        ],
        assumptions: &[
            "polygons are valid as the documentation asks: outer contours counterclockwise, holes clockwise, no crossings",
            "points nearer to a drawn edge than rounding are not judged, nor those between a circle and its coarsest polygon",
        ],
    }
}

/// contours of a valid polygon of about unit size, outer ones counterclockwise
fn polygon(rng: &mut Rng) -> Vec<Vec<Pf>> {
    let star = |rng: &mut Rng, lo: f64| -> Vec<Pf> {
        let n = rng.usize(3, 12);
        let ph = rng.frange(0.0, 6.3);
        (0..n)
            .map(|i| {
                let a = ph + (i as f64 + rng.frange(-0.3, 0.3)) * 6.283 / n as f64;
                let l = rng.frange(lo, 1.0) * 0.5;
                (l * a.cos(), l * a.sin())
            })
            .collect()
    };
    match rng.below(7) {
        0 => vec![star(rng, 0.15)],
        1 => {
            // a hole inside
            let mut v = vec![star(rng, 0.6)];
            let mut h: Vec<Pf> = star(rng, 0.2).iter().map(|p| mul(*p, 0.5)).collect();
            if v[0].len() >= 5 {
                h.reverse();
                v.push(h);
                if rng.bool() {
                    // an island in the hole
                    v.push(vec![(0.0, 0.0), (0.03, 0.0), (0.02, 0.03)]);
                }
            }
            if rng.bool() {
                v.push([(0.8, 0.0), (1.3, 0.1), (0.9, 0.5)].to_vec());
            }
            v
        }
        2 => {
            // a rectangle with notches and teeth on its upper side
            let h = rng.frange(0.05, 1.0);
            let mut v = vec![(0.0, 0.0), (1.0, 0.0)];
            let n = rng.usize(1, 8);
            let step = 1.0 / (n as f64 + 0.5);
            let mut x = 1.0;
            for _ in 0..n {
                let w = step * rng.frange(0.1, 0.9);
                let d = h * rng.frange(-0.9, 0.9);
                v.push((x, h));
                v.push((x - w * rng.f64(), h + d));
                v.push((x - w, h + if rng.bool() { d } else { 0.0 }));
                x -= step;
                v.push((x + step * 0.05, h));
            }
            v.push((0.0, h));
            vec![v]
        }
        3 => {
            // a spiral corridor
            let w = rng.frange(0.05, 0.9);
            let n = rng.usize(4, 16);
            let at = |i: usize, l: f64| {
                let a = i as f64 * 0.7;
                let r = 0.1 * a + l;
                (r * a.cos() * 0.4, r * a.sin() * 0.4)
            };
            let mut v: Vec<Pf> = (0..n).map(|i| at(i + 1, 0.3 + 0.5 * w)).collect();
            v.extend((0..n).rev().map(|i| at(i + 1, 0.3)));
            vec![v]
        }
        4 | 5 => {
            let n = rng.range(2, 9);
            let cs = lattice::side(rng, n, 4, &[]);
            let fill = if rng.bool() { FillRule::EvenOdd } else { FillRule::NonZero };
            let out = run_overlay(&cs, &[], OverlayRule::Subject, fill, ContourDirection::CounterClockwise, true, 0, solver_of(STRATEGIES[0]));
            out.iter().flatten().map(|c| c.iter().map(|p| (p.0 as f64 / n as f64, p.1 as f64 / n as f64)).collect()).collect()
        }
        _ => {
            let mut g = general::Scene::random(rng, 60, 3);
            let o = g.off;
            for c in g.subj.iter_mut() {
                for p in c.iter_mut() {
                    *p = (p.0 - o.0, p.1 - o.1);
                }
            }
            let fill = if rng.bool() { FillRule::EvenOdd } else { FillRule::NonZero };
            let out = run_overlay(&g.subj, &[], OverlayRule::Subject, fill, ContourDirection::CounterClockwise, true, 0, solver_of(STRATEGIES[0]));
            let s = g.size as f64;
            out.iter().flatten().map(|c| c.iter().map(|p| (p.0 as f64 / s, p.1 as f64 / s)).collect()).collect()
        }
    }
}

struct Offset<T: Num> {
    cs: Vec<Vec<Pt<T>>>,
    outer: T,
    inner: T,
    join: Join,
    scale: f64,
}

impl<T: Num> Offset<T> {
    fn random(c: &mut Case) -> Offset<T> {
        let rng = &mut c.rng;
        let pl = Placing::random::<T>(rng);
        let v = polygon(rng);
        let cs: Vec<Vec<Pt<T>>> = v.iter().map(|c| c.iter().map(|&p| pl.to(p)).collect()).collect();
        let off = |rng: &mut Rng| {
            let r = 10f64.powf(rng.frange(-3.0, 0.4)) * pl.scale;
            if rng.bool() {
                r
            } else {
                -r * rng.frange(0.05, 1.0)
            }
        };
        let outer = off(rng);
        let inner = if rng.bool() { outer } else { off(rng) };
        Offset { cs, outer: T::of(outer), inner: T::of(inner), join: Join::random(rng), scale: pl.scale }
    }
    fn style(&self) -> OutlineStyle<T> {
        OutlineStyle::new(self.outer).inner_offset(self.inner).line_join(self.join.to())
    }
    fn reach(&self) -> f64 {
        self.join.reach() * (self.outer.to_f64().abs() + self.inner.to_f64().abs())
    }
    fn tol(&self) -> f64 {
        tolerance(&self.cs, self.reach())
    }
    fn show(&self) -> String {
        format!("{} outer {:?} inner {:?} {:?}\ncontours {:?}", T::NAME, self.outer, self.inner, self.join, self.cs)
    }
    fn models(&self) -> (Vec<Model>, Vec<Model>) {
        let (mut a, mut b) = (vec![], vec![]);
        for k in &self.cs {
            let mut v: Vec<Pf> = k.iter().map(pf).collect();
            if area(&v) > 0.0 {
                a.push(outline(&v, self.outer.to_f64(), self.join));
            } else {
                v.reverse();
                b.push(outline(&v, -self.inner.to_f64(), self.join));
            }
        }
        (a, b)
    }
}

fn judge<T: Num>(c: &mut Case, e: &Offset<T>, out: &[Vec<Vec<Pt<T>>>], d: ContourDirection, tol: f64, n: usize) -> CaseResult {
    let (a, b) = e.models();
    let mut es = vec![];
    for m in a.iter().chain(&b) {
        es.extend(m.edges());
    }
    let flat: Vec<_> = out.iter().flatten().cloned().collect();
    let eo = edges_f(&flat);
    let one = if is_ccw(d) { 1 } else { -1 };
    for q in probes_f(&mut c.rng, &es, n, tol) {
        let Some(x) = sum_at(&a, &b, q) else { continue };
        let away = dist_all(&es, q);
        if away <= tol {
            continue;
        }
        c.count("points compared", 1);
        c.nontrivial |= x;
        let got = winding_f(&eo, q);
        if got != if x { one } else { 0 } {
            c.note(|| format!("{out:?}"));
            return Err(format!(
                "the point {q:?} should be {}, the result has winding {got} there ({away:e} away from all edges drawn, tolerance {tol:e})",
                if x { "inside" } else { "outside" }
            ));
        }
    }
    shape_form(out, d, tol)
}

fn region<T: Num>(c: &mut Case) -> CaseResult {
    let e = Offset::<T>::random(c);
    c.sign(crate::rng::hash_str(&e.show()));
    c.note(|| e.show());
    let d = dir(&mut c.rng);
    let filter = ContourFilter { min_area: T::of(0.0), simplify_contour: c.rng.bool(), clean_result: c.rng.bool() };
    let out = e.cs.outline_custom(e.style(), d, filter);
    c.count("outlines judged", 1);
    judge(c, &e, &out, d, e.tol(), 150).map_err(|m| format!("{} {:?}: {m}", T::NAME, d))
}

fn calls(c: &mut Case) -> CaseResult {
    if c.rng.bool() {
        calls_of::<f64>(c)
    } else {
        calls_of::<f32>(c)
    }
}

fn calls_of<T: Num>(c: &mut Case) -> CaseResult {
    let mut e = Offset::<T>::random(c);
    c.sign(crate::rng::hash_str(&e.show()));
    c.note(|| e.show());
    let d = dir(&mut c.rng);
    let f = ContourFilter { min_area: T::of(0.0), simplify_contour: c.rng.bool(), clean_result: c.rng.bool() };
    let want = e.cs.outline_custom(e.style(), d, f);
    c.nontrivial |= !want.is_empty();
    let (how, got) = form!(&mut c.rng, &e.cs, r => r.outline_custom(e.style(), d, f));
    c.count("calls compared", 3);
    // an array padded with an empty contour is no longer a single contour, which has a way of its own
    if how.contains("; 2]") {
        judge(c, &e, &got, d, e.tol(), 40).map_err(|t| format!("{} given as {how}: {t}", T::NAME))?;
    } else if got != want {
        return Err(format!("{} {d:?}: given as {how} the outline is {got:?}, as Vec<Vec<P>> it is {want:?}", T::NAME));
    }
    let style = OutlineStyle { outer_offset: e.outer, inner_offset: e.inner, join: e.join.to() };
    let got = plain(&own(&e.cs).outline_custom(style, d, f));
    if got != want {
        return Err(format!("{} {d:?}: with an own point type and a style made by hand the outline is {got:?}, else {want:?}", T::NAME));
    }
    let short = e.cs.outline(e.style());
    let long = e.cs.outline_custom(e.style(), ContourDirection::CounterClockwise, Default::default());
    if short != long {
        return Err(format!("{}: outline gives {short:?}, outline_custom with the defaults {long:?}", T::NAME));
    }
    let tol = e.tol();
    // contours that hold nothing
    let mut more = Offset { cs: e.cs.clone(), ..e };
    let p = more.cs.iter().flatten().next().cloned();
    for _ in 0..c.rng.usize(1, 2) {
        let at = c.rng.usize(0, more.cs.len());
        let k = c.rng.usize(0, 3);
        if let (Some(p), true) = (p, k > 0) {
            more.cs.insert(at, vec![p; k]);
        } else {
            more.cs.insert(at, vec![]);
        }
    }
    let got = more.cs.outline_custom(more.style(), d, f);
    judge(c, &e, &got, d, tol, 40).map_err(|t| format!("{} with empty contours ({:?}): {t}", T::NAME, more.cs))?;
    let nothing: Vec<Vec<Pt<T>>> = more.cs.into_iter().filter(|v| v.iter().all(|q| Some(*q) == p)).collect();
    for cut in [&nothing[..], &nothing[..1], &[]] {
        let got = cut.to_vec().outline_custom(e.style(), d, f);
        if !got.is_empty() {
            return Err(format!("{}: the outline of {cut:?} is {got:?}", T::NAME));
        }
    }
    // other starts, repeated points
    for k in e.cs.iter_mut() {
        let n = c.rng.below(k.len() as u64) as usize;
        k.rotate_left(n);
        if c.rng.bool() {
            let j = c.rng.below(k.len() as u64) as usize;
            k.insert(j, k[j]);
        }
        if c.rng.bool() {
            k.push(k[0]);
        }
    }
    c.rng.shuffle(&mut e.cs);
    let got = e.cs.outline_custom(e.style(), d, f);
    judge(c, &e, &got, d, tol, 40).map_err(|t| format!("{} with other starts, order and repeated points ({:?}): {t}", T::NAME, e.cs))?;
    // a clockwise contour alone
    if let Some(k) = e.cs.iter().max_by(|a, b| a.len().cmp(&b.len())) {
        let mut k = k.clone();
        if area(&k.iter().map(pf).collect::<Vec<_>>()) > 0.0 {
            k.reverse();
        }
        let got = k.outline_custom(e.style(), d, f);
        if !got.is_empty() {
            return Err(format!("{}: the outline of the clockwise contour {k:?} alone is {got:?}", T::NAME));
        }
    }
    let _ = e.scale;
    Ok(())
}

fn filters(c: &mut Case) -> CaseResult {
    if c.rng.bool() {
        filters_of::<f64>(c)
    } else {
        filters_of::<f32>(c)
    }
}

fn filters_of<T: Num>(c: &mut Case) -> CaseResult {
    let e = Offset::<T>::random(c);
    c.sign(crate::rng::hash_str(&e.show()));
    c.note(|| e.show());
    let d = dir(&mut c.rng);
    limits(c, e.tol(), |f| e.cs.outline_custom(e.style(), d, f)).map_err(|m| format!("{} {d:?}: {m}", T::NAME))
}

fn many(c: &mut Case) -> CaseResult {
    let mut e = Offset::<f64>::random(c);
    let pl = Placing::random::<f64>(&mut c.rng);
    // great offsets of many fine edges cross themselves millions of times
    let off = |rng: &mut Rng| pl.scale * 10f64.powf(rng.frange(-3.0, -1.0)) * if rng.bool() { 1.0 } else { -1.0 };
    e.outer = off(&mut c.rng);
    e.inner = if c.rng.bool() { e.outer } else { off(&mut c.rng) };
    if let Join::Round(a) = e.join {
        e.join = Join::Round(a.max(0.2));
    }
    let v: Vec<Vec<Pf>> = if c.rng.bool() {
        let n = c.rng.usize(50, 2000);
        let (lo, w) = (c.rng.frange(0.2, 0.99), c.rng.usize(2, 40));
        let ring = |rng: &mut Rng, s: f64| -> Vec<Pf> {
            (0..n)
                .map(|i| {
                    let a = i as f64 * std::f64::consts::TAU / n as f64;
                    let l = s * if i / w % 2 == 0 { 1.0 } else { rng.frange(lo, 1.0) };
                    (l * a.cos(), l * a.sin())
                })
                .collect()
        };
        let mut v = vec![ring(&mut c.rng, 1.0)];
        if c.rng.bool() {
            let mut h = ring(&mut c.rng, lo * 0.8);
            h.reverse();
            v.push(h);
        }
        v
    } else {
        let m = c.rng.usize(2, 20);
        let mut v = vec![vec![(0.0, 0.0), (1.0, 0.0), (1.0, 1.0), (0.0, 1.0)]];
        let s = 1.0 / m as f64;
        for i in 0..m * m {
            let o = ((i % m) as f64 * s, (i / m) as f64 * s);
            let h = [(0.1, 0.1), (0.2, 0.9), (0.8, 0.8), (0.9, 0.3)];
            v.push(h.iter().map(|p| (o.0 + s * p.0, o.1 + s * p.1)).collect());
            if c.rng.chance(1, 3) {
                let h = [(0.4, 0.4), (0.7, 0.5), (0.5, 0.6)];
                v.push(h.iter().map(|p| (o.0 + s * p.0, o.1 + s * p.1)).collect());
            }
        }
        e.outer *= 4.0 * s;
        e.inner *= 4.0 * s;
        if c.rng.bool() {
            c.rng.shuffle(&mut v);
        }
        v
    };
    e.cs = v.iter().map(|c| c.iter().map(|&p| pl.to(p)).collect()).collect();
    c.sign(crate::rng::hash_str(&e.show()));
    c.note(|| e.show().chars().take(3000).collect());
    c.max("most points of a polygon", e.cs.iter().map(|k| k.len()).sum::<usize>() as f64);
    let d = dir(&mut c.rng);
    let filter = ContourFilter { min_area: 0.0, simplify_contour: c.rng.bool(), clean_result: c.rng.bool() };
    let out = e.cs.outline_custom(e.style(), d, filter);
    c.count("outlines judged", 1);
    judge(c, &e, &out, d, e.tol(), 150).map_err(|m| format!("f64 {d:?}: {m}"))
}
