//! What the filter of float calls does.
use super::c01::crowd_scene;
use super::c11::cut_by;
use super::c13::{area_f, per};
use crate::check;
use crate::eng::*;
use crate::fl::*;
use crate::geo::*;
use crate::lattice::Scene;
use crate::plates;
use crate::rng::Rng;
use crate::runner::*;
use i_overlay::core::fill_rule::FillRule;
use i_overlay::core::overlay_rule::OverlayRule;
use i_overlay::float::filter::ContourFilter;
use i_overlay::float::overlay::FloatOverlay;
use i_overlay::float::simplify::SimplifyShape;
use i_overlay::float::slice::FloatSlice;

pub fn property() -> Property {
    Property {
        id: "C15",
        workloads: vec![
            Workload {
                name: "exact-f64",
                rule: "exact f64 scenes: min_area at, just below and just above areas that occur, in units of the input, through overlay_custom, graphs, simplify_shape and slice_custom_by: exactly the contours reaching it are kept; simplify_contour and clean_result take away exactly the vertices between their neighbours; non-trivial: a contour is dropped or a vertex taken away",
                quick: 60_000,
                thorough: 2_000_000,
                run: exact::<f64>,
            },
            Workload {
                name: "exact-f32",
                rule: "the same in f32",
                quick: 60_000,
                thorough: 2_000_000,
                run: exact::<f32>,
            },
            Workload {
                name: "free",
                rule: "arbitrary scenes, f64 and f32 by turns: a limit between areas that occur separates them; cleaned results have no repeated neighbours",
                quick: 60_000,
                thorough: 2_000_000,
                run: free,
            },
            Workload {
                name: "plates",
                rule: "up to tens of thousands of plates and holes (see C03): in f64, of them exactly the contours of at least the area asked",
                quick: 300,
                thorough: 10_000,
                run: plates_,
            },
        ],
        assumptions: &["f32 extents are above 2^-28 (i_float squares the scale in the float type itself)", "areas nearer to the limit than the internal grid or the float type can tell apart are not judged in arbitrary scenes"],
    }
}

fn plates_(c: &mut Case) -> CaseResult {
    let most = plates::most(&mut c.rng);
    let p = plates::plates(&mut c.rng, most);
    let mut dy = Dyadic::random::<f64>(&mut c.rng);
    dy.off = (dy.off.0 % (1 << 40), dy.off.1 % (1 << 40));
    c.sign(crate::rng::hash_str(&p.show()));
    c.note(|| format!("{}\n{dy:?}", p.show()));
    let sv = plates::solver(&mut c.rng, p.contours.len());
    let d = dir(&mut c.rng);
    // in whole and half units: all areas are whole
    let m = (area2(c.rng.pick(&p.contours)).unsigned_abs() / 2) as usize + c.rng.usize(0, 1);
    let u = 2f64.powi(dy.exp);
    let min_area = (m as f64 - 0.5) * u * u;
    let f = ContourFilter { min_area, simplify_contour: c.rng.bool(), clean_result: c.rng.bool() };
    let out = FloatOverlay::with_subj(&dy.all::<f64>(&p.contours)).overlay_custom(OverlayRule::Subject, FillRule::EvenOdd, d, f, sv);
    let left: usize = out.iter().map(|s| s.len()).sum();
    c.nontrivial |= left > 0 && left < p.contours.len();
    c.count("limits asked", 1);
    c.max("most contours in one result", left as f64);
    let tell = |t: String| format!("min_area {min_area:e}, one unit is {u:e}, {d:?} {}: {t}", show_solver(&sv));
    let back = dy.back_shapes(&out).map_err(tell)?;
    p.from_area(m).judge(&back, is_ccw(d)).map_err(tell)
}

fn limit<T: Num>(rng: &mut Rng, areas: &[f64]) -> T {
    let a = if areas.is_empty() { 1.0 } else { *rng.pick(areas) };
    T::of(match rng.below(6) {
        0 | 1 => a,
        2 => a * (1.0 + 1e-5),
        3 => a * (1.0 - 1e-5),
        4 => a * rng.frange(0.3, 3.0),
        _ => a * 10f64.powf(rng.frange(-6.0, 1.0)),
    })
}

fn exact<T: Num>(c: &mut Case) -> CaseResult {
    let mut sc = if c.rng.chance(1, 100) { crowd_scene(&mut c.rng, 8, 24) } else { Scene::random(&mut c.rng, 9, 4) };
    let many = if sc.n > 9 { 20 } else { c.rng.usize(1, 5) };
    let chains = cut_by(&mut c.rng, sc.n, &sc.subj.clone(), many);
    let mut e = Exact::of::<T>(&mut c.rng, &mut sc);
    if T::BITS < 25 {
        e.dy.exp = e.dy.exp.max(-28);
    }
    c.sign(e.sig());
    let (s, k) = (e.subj::<T>(), e.clip::<T>());
    let lines = e.dy.all::<T>(&sc.map.map_all(&chains));
    c.note(|| format!("{} {}\nlines {lines:?}", T::NAME, e.show()).chars().take(6000).collect());
    let u = 2f64.powi(e.dy.exp);
    // the area in input units; exact, unless it has more bits than a double
    let area = |k: &Contour| area2(k).unsigned_abs() as f64 * (u * u / 2.0);
    for _ in 0..3 {
        let (rule, fill) = (*c.rng.pick(&RULES), *c.rng.pick(&FILLS));
        let sv = fine_solver(&mut c.rng);
        let d = dir(&mut c.rng);
        let how = c.rng.below(4);
        let (s, k, lines) = (&s, &k, &lines);
        let run = |f: ContourFilter<T>| match how {
            0 => FloatOverlay::with_subj_and_clip(s, k).overlay_custom(rule, fill, d, f, sv),
            1 => FloatOverlay::with_subj_and_clip(s, k).into_graph_with_solver(fill, sv).extract_shapes_custom(rule, d, f),
            2 => FloatOverlay::with_subj(s).overlay_custom(OverlayRule::Subject, fill, d, f, sv),
            _ => s.slice_custom_by(lines, fill, d, f, sv),
        };
        let name = ["overlay_custom", "extract_shapes_custom", "overlay_custom of the subject alone", "slice_custom_by"][how as usize];
        let filter = |min_area: T, simplify_contour: bool, clean_result: bool| ContourFilter { min_area, simplify_contour, clean_result };
        let tell = |m: String| format!("{} {name} {rule:?} {fill:?} {d:?} {}: {m}", T::NAME, show_solver(&sv));
        let zero = T::of(0.0);
        let plain = e.dy.back_shapes(&run(filter(zero, false, false))).map_err(tell)?;
        let straight: Shapes = plain.iter().map(|s| s.iter().map(|c| check::straighten(c)).collect()).collect();
        let taken = plain.iter().flatten().map(|c| c.len()).sum::<usize>() - straight.iter().flatten().map(|c| c.len()).sum::<usize>();
        c.nontrivial |= taken > 0;
        c.count("collinear vertices taken away", taken as u64);
        // slicing leaves the choice of simplify_contour aside: its cuts end on straight walls
        let tries: &[(bool, bool)] = if how == 3 { &[(false, true), (true, true)] } else { &[(true, false), (false, true), (true, true)] };
        for &(simplify, clean) in tries {
            let got = e.dy.back_shapes(&run(filter(zero, simplify, clean))).map_err(tell)?;
            c.count("results compared", 1);
            if let Some(m) = check::diff(&got, &straight) {
                c.note(|| format!("plain {}\ngot {}", show_out(&plain), show_out(&got)));
                return Err(tell(format!("simplify_contour {simplify} clean_result {clean}: not the plain result without the vertices between their neighbours: {m}")));
            }
        }
        let areas: Vec<f64> = plain.iter().flatten().map(area).collect();
        let limited = |c: &mut Case, got: Shapes, base: &Shapes, m: T, what: &str| -> CaseResult {
            let m = m.to_f64();
            let want: Shapes = base
                .iter()
                .map(|s| s.iter().filter(|k| area(k) >= m).cloned().collect::<Vec<_>>())
                .filter(|s| !s.is_empty())
                .collect();
            let gone = base.iter().flatten().count() - want.iter().flatten().count();
            c.nontrivial |= gone > 0;
            c.count("contours below the limit", gone as u64);
            c.count("limits asked", 1);
            if let Some(t) = check::diff(&got, &want) {
                c.note(|| format!("min_area {m:e}, one unit is {u:e}\nall {}\ngot {}", show_out(base), show_out(&got)));
                return Err(tell(format!("min_area {m:e}{what}: not the contours of at least this area: {t}")));
            }
            Ok(())
        };
        for _ in 0..2 {
            let m = limit::<T>(&mut c.rng, &areas);
            // the grid holds at least two bits below a unit; a limit within them is not judged
            let near = areas.iter().any(|&a| a != m.to_f64() && (a - m.to_f64()).abs() < u * u * 0.25 + a * 1e-14);
            if near {
                continue;
            }
            let simplify = c.rng.bool() && how != 3;
            let got = e.dy.back_shapes(&run(filter(m, simplify, false))).map_err(tell)?;
            limited(c, got, if simplify { &straight } else { &plain }, m, "")?;
            if how == 2 {
                let got = s.simplify_shape_with_solver(fill, d, m, sv);
                let got = e.dy.back_shapes(&got).map_err(tell)?;
                limited(c, got, &straight, m, " of simplify_shape")?;
            }
        }
    }
    Ok(())
}

fn free(c: &mut Case) -> CaseResult {
    if c.rng.bool() {
        free_of::<f64>(c)
    } else {
        free_of::<f32>(c)
    }
}

fn free_of<T: Num>(c: &mut Case) -> CaseResult {
    let e = Free::<T>::random(&mut c.rng, 4);
    if e.size <= 0.0 || T::BITS < 25 && e.size < 1e-8 {
        return Ok(());
    }
    c.sign(e.sig());
    c.note(|| e.show());
    let tol = e.tol();
    for _ in 0..2 {
        let (rule, fill) = (*c.rng.pick(&RULES), *c.rng.pick(&FILLS));
        let sv = general_solver(&mut c.rng, 1 << 28);
        let d = dir(&mut c.rng);
        let simplify = c.rng.bool();
        let run = |min_area: T, clean_result: bool| {
            FloatOverlay::with_subj_and_clip(&e.subj, &e.clip).overlay_custom(rule, fill, d, ContourFilter { min_area, simplify_contour: simplify, clean_result }, sv)
        };
        let tell = |m: String| format!("{} {rule:?} {fill:?} {d:?} simplify {simplify} {}: {m}", T::NAME, show_solver(&sv));
        let all = run(T::of(0.0), false);
        let a: Vec<(f64, f64)> = all.iter().flatten().map(|k| (area_f(k).abs(), per(k) * tol)).collect();
        let areas: Vec<f64> = a.iter().map(|a| a.0).collect();
        for _ in 0..2 {
            let m = limit::<T>(&mut c.rng, &areas);
            let x = m.to_f64();
            if a.iter().any(|a| (a.0 - x).abs() <= a.1) {
                continue;
            }
            let got = run(m, false);
            let want: Vec<Vec<_>> = all
                .iter()
                .map(|s| s.iter().filter(|k| area_f(k).abs() >= x).cloned().collect::<Vec<_>>())
                .filter(|s| !s.is_empty())
                .collect();
            c.count("limits asked", 1);
            c.nontrivial |= want.iter().flatten().count() < areas.len();
            if got != want {
                c.note(|| format!("{all:?}\n{got:?}"));
                return Err(tell(format!("min_area {x:e}: {} contours left of {}, {} are at least as large", got.iter().flatten().count(), areas.len(), want.iter().flatten().count())));
            }
        }
        let clean = run(T::of(0.0), true);
        c.count("cleaned results", 1);
        for k in clean.iter().flatten() {
            if k.len() < 3 {
                return Err(tell(format!("a cleaned contour has {} vertices", k.len())));
            }
            for i in 0..k.len() {
                if k[i] == k[(i + 1) % k.len()] {
                    c.note(|| format!("{clean:?}"));
                    return Err(tell(format!("a cleaned contour repeats the vertex {:?}", k[i])));
                }
            }
        }
        let flat = |s: &Vec<Vec<Vec<Pt<T>>>>| s.iter().flatten().map(|k| area_f(k)).sum::<f64>();
        let (x, y) = (flat(&all), flat(&clean));
        let may = all.iter().flatten().map(|k| per(k)).sum::<f64>() * tol;
        if (x - y).abs() > may {
            c.note(|| format!("{all:?}\n{clean:?}"));
            return Err(tell(format!("cleaning changes the area from {x:e} to {y:e}")));
        }
    }
    Ok(())
}
