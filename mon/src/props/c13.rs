//! Boolean operations on float coordinates.
use super::c01::{crowd_scene, expect};
use super::c14::grouped;
use crate::bars;
use crate::check;
use crate::eng::*;
use crate::fl::*;
use crate::plates;
use crate::rng::Rng;
use crate::runner::*;
use i_overlay::core::overlay::ContourDirection;
use i_overlay::float::filter::ContourFilter;
use i_overlay::float::overlay::FloatOverlay;

pub fn property() -> Property {
    Property {
        id: "C13",
        workloads: vec![
            Workload {
                name: "exact-f64",
                rule: "lattice scenes with coordinates which floats hold exactly, at magnitudes from 2^-40 to 2^65, offset by up to 2^45 units: the region, the shapes' directions and nesting are exact; non-trivial: the expected region is not empty",
                quick: 120_000,
                thorough: 1_000_000,
                run: exact::<f64>,
            },
            Workload {
                name: "exact-f32",
                rule: "the same in f32 with up to 21 bits",
                quick: 90_000,
                thorough: 1_000_000,
                run: exact::<f32>,
            },
            Workload {
                name: "free-f64",
                rule: "rotated, scaled (1e-9 to 1e9) and shifted scenes in f64: probes further from all edges than rounding reaches are inside or outside as the rules say, at all other scales alike",
                quick: 48_000,
                thorough: 500_000,
                run: free::<f64>,
            },
            Workload {
                name: "free-f32",
                rule: "the same in f32",
                quick: 36_000,
                thorough: 500_000,
                run: free::<f32>,
            },
            Workload {
                name: "scaling",
                rule: "an arbitrary f64 scene and the same times a power of two or mirrored by swapping signs: the scaled result to the bit",
                quick: 60_000,
                thorough: 500_000,
                run: scaling,
            },
            Workload {
                name: "bars",
                rule: "upright bars across lying ones, straight and aslant, up to tens of thousands of parts or holes: in f64 at magnitudes from 2^-40 to 2^20, every rule makes exactly the parts known beforehand",
                quick: 1_500,
                thorough: 8_000,
                run: bars_,
            },
        ],
        assumptions: &["coordinates are finite, their extent is between 1e-12 and 1e20", "in free scenes probes nearer to an edge than 20 units of the internal grid plus 8 roundings of the float type are not asked"],
    }
}

fn filter<T: Num>(clean: bool) -> ContourFilter<T> {
    ContourFilter { min_area: T::of(0.0), simplify_contour: true, clean_result: clean }
}

/// the contours as a list of contours or of shapes, some of them empty
fn held<T: Num>(rng: &mut Rng, s: &[Vec<Pt<T>>], k: &[Vec<Pt<T>>]) -> FloatOverlay<Pt<T>, T> {
    let loose = |rng: &mut Rng, cs: &[Vec<Pt<T>>]| {
        let mut v = cs.to_vec();
        while rng.chance(1, 4) {
            let at = rng.usize(0, v.len());
            v.insert(at, vec![]);
        }
        v
    };
    let form = rng.below(4);
    if form == 0 {
        return FloatOverlay::with_subj_and_clip(s, k);
    }
    let (s, k) = (loose(rng, s), loose(rng, k));
    match form {
        1 => FloatOverlay::with_subj_and_clip(&s, &k),
        2 => FloatOverlay::with_subj_and_clip(&grouped(rng, &s), &k),
        _ => FloatOverlay::with_subj_and_clip(&grouped(rng, &s), &grouped(rng, &k)),
    }
}

fn bars_(c: &mut Case) -> CaseResult {
    let most = plates::most(&mut c.rng);
    let b = bars::bars(&mut c.rng, most);
    let mut dy = Dyadic::random::<f64>(&mut c.rng);
    // the extent takes up to 22 bits and two bits more
    dy.off = (dy.off.0 % (1 << 40), dy.off.1 % (1 << 40));
    c.sign(crate::rng::hash_str(&b.show()));
    c.note(|| format!("{}\n{dy:?}", b.show()));
    c.nontrivial = true;
    let (mut s, mut k) = (b.subj(), b.clip());
    let fill = bars::dress(&mut c.rng, &mut [&mut s, &mut k]);
    let rule = *c.rng.pick(&RULES);
    let sv = plates::solver(&mut c.rng, b.size());
    let d = dir(&mut c.rng);
    let clean = c.rng.bool();
    let out = held(&mut c.rng, &dy.all::<f64>(&s), &dy.all::<f64>(&k)).overlay_custom(rule, fill, d, filter(clean), sv);
    c.count("overlays judged", 1);
    c.max("most contours in one result", out.iter().map(|s| s.len()).sum::<usize>() as f64);
    let tell = |m: String| format!("{rule:?} {fill:?} {d:?} clean {clean} {}: {m}", show_solver(&sv));
    let back = dy.back_shapes(&out).map_err(tell)?;
    b.judge(rule, &back, is_ccw(d), false).map_err(tell)
}

fn exact<T: Num>(c: &mut Case) -> CaseResult {
    let e = if c.rng.chance(1, 100) {
        let mut sc = crowd_scene(&mut c.rng, 8, 30);
        Exact::of::<T>(&mut c.rng, &mut sc)
    } else {
        Exact::random::<T>(&mut c.rng, 9, 4)
    };
    c.sign(e.sig());
    c.max("most input edges in one overlay", e.sc.subj.iter().chain(&e.sc.clip).map(|k| k.len()).sum::<usize>() as f64);
    c.note(|| e.show().chars().take(6000).collect());
    let (s, k) = (e.subj::<T>(), e.clip::<T>());
    let ws = e.sc.cells(&e.sc.subj).unwrap();
    let wk = e.sc.cells(&e.sc.clip).unwrap();
    for fill in FILLS {
        let rule = *c.rng.pick(&RULES);
        let sv = fine_solver(&mut c.rng);
        let d = dir(&mut c.rng);
        let exp = expect(&ws, &wk, rule, fill);
        c.nontrivial |= exp.iter().any(|&x| x);
        let clean = c.rng.bool();
        let out = held(&mut c.rng, &s, &k).overlay_custom(rule, fill, d, filter(clean), sv);
        c.count("overlays judged", 1);
        c.count("cells compared", exp.len() as u64);
        let tell = |m: String| format!("{} {rule:?} {fill:?} {d:?} {}: {m}", T::NAME, show_solver(&sv));
        let back = e.dy.back_shapes(&out).map_err(tell)?;
        let r = check::region(&e.sc, &check::contours_of(&back), &exp, is_ccw(d)).and_then(|_| check::nesting(&e.sc, &back, is_ccw(d)));
        if r.is_err() {
            c.note(|| format!("{out:?}"));
        }
        r.map_err(tell)?;
    }
    Ok(())
}

fn free<T: Num>(c: &mut Case) -> CaseResult {
    let e = Free::<T>::random(&mut c.rng, 4);
    if e.size <= 0.0 {
        return Ok(());
    }
    c.sign(e.sig());
    c.note(|| e.show());
    let tol = e.tol();
    let (es, ek) = (edges_f(&e.subj), edges_f(&e.clip));
    let all: Vec<_> = es.iter().chain(&ek).copied().collect();
    let mut probes = probes_f(&mut c.rng, &all, 100, tol);
    probes.retain(|&q| dist_all(&all, q) > tol);
    let w: Vec<(i32, i32)> = probes.iter().map(|&q| (winding_f(&es, q), winding_f(&ek, q))).collect();
    for fill in FILLS {
        let rule = *c.rng.pick(&RULES);
        let sv = general_solver(&mut c.rng, 1 << 28);
        let d = if c.rng.bool() { ContourDirection::CounterClockwise } else { dir(&mut c.rng) };
        let one = if is_ccw(d) { 1 } else { -1 };
        let clean = c.rng.bool();
        let out = held(&mut c.rng, &e.subj, &e.clip).overlay_custom(rule, fill, d, filter(clean), sv);
        let flat: Vec<_> = out.iter().flatten().cloned().collect();
        let eo = edges_f(&flat);
        c.count("overlays judged", 1);
        for (&q, &(a, b)) in probes.iter().zip(&w) {
            let x = combine(rule, filled(fill, a), filled(fill, b));
            c.nontrivial |= x;
            let got = winding_f(&eo, q);
            c.count("points compared", 1);
            if got != if x { one } else { 0 } {
                c.note(|| format!("{out:?}"));
                return Err(format!(
                    "{} {rule:?} {fill:?} {d:?} {}: the point {q:?} should be {}, the result has winding {got} there (distance from the input's edges {:e}, size {:e})",
                    T::NAME,
                    show_solver(&sv),
                    if x { "inside" } else { "outside" },
                    dist_all(&all, q),
                    e.size
                ));
            }
        }
        // nothing lies far from the input
        for v in flat.iter().flatten() {
            c.count("vertices placed", 1);
            let d = dist_all(&all, pf(v));
            if !(d <= tol) {
                c.note(|| format!("{out:?}"));
                return Err(format!("{} {rule:?} {fill:?} {}: the vertex {v:?} of the result is {d:e} away from the input's edges (size {:e})", T::NAME, show_solver(&sv), e.size));
            }
        }
        for (i, s) in out.iter().enumerate() {
            for (j, k) in s.iter().enumerate() {
                if k.len() < 3 {
                    return Err(format!("{} {rule:?} {fill:?}: contour {j} of shape {i} has {} vertices", T::NAME, k.len()));
                }
                let a = area_f(k);
                if a.abs() > tol * per(k) && (a > 0.0) != ((j == 0) == is_ccw(d)) {
                    return Err(format!("{} {rule:?} {fill:?} {d:?}: contour {j} of shape {i} runs in the wrong direction, its area is {a:e}", T::NAME));
                }
            }
        }
    }
    Ok(())
}

pub fn area_f<T: Num>(k: &[Pt<T>]) -> f64 {
    if k.is_empty() {
        return 0.0;
    }
    let o = pf(&k[0]);
    (0..k.len())
        .map(|i| {
            let (a, b) = (pf(&k[i]), pf(&k[(i + 1) % k.len()]));
            (a.0 - o.0) * (b.1 - o.1) - (a.1 - o.1) * (b.0 - o.0)
        })
        .sum::<f64>()
        / 2.0
}

pub fn per<T: Num>(k: &[Pt<T>]) -> f64 {
    (0..k.len())
        .map(|i| {
            let (a, b) = (pf(&k[i]), pf(&k[(i + 1) % k.len()]));
            ((a.0 - b.0).powi(2) + (a.1 - b.1).powi(2)).sqrt()
        })
        .sum()
}

fn scaling(c: &mut Case) -> CaseResult {
    let e = Free::<f64>::random(&mut c.rng, 4);
    if e.size <= 0.0 {
        return Ok(());
    }
    // the scale is chosen by a rounded logarithm: keep away from where it jumps
    let l = e.size.log2();
    if (l - l.floor() - 0.5).abs() < 1e-6 {
        return Ok(());
    }
    c.sign(e.sig());
    let k = 2f64.powi(c.rng.range(-30, 30) as i32);
    c.note(|| format!("{}\nscaled by {k:e}", e.show()));
    let up = |cs: &[Vec<Pt<f64>>]| -> Vec<Vec<Pt<f64>>> { cs.iter().map(|c| c.iter().map(|p| [p[0] * k, p[1] * k]).collect()).collect() };
    let (rule, fill) = (*c.rng.pick(&RULES), *c.rng.pick(&FILLS));
    let sv = general_solver(&mut c.rng, 1 << 28);
    let d = dir(&mut c.rng);
    let a = FloatOverlay::with_subj_and_clip(&e.subj, &e.clip).overlay_custom(rule, fill, d, filter(false), sv);
    let b = FloatOverlay::with_subj_and_clip(&up(&e.subj), &up(&e.clip)).overlay_custom(rule, fill, d, filter(false), sv);
    c.nontrivial |= !a.is_empty();
    c.count("results compared", 1);
    let a: Vec<_> = a.iter().map(|s| up(s)).collect();
    if a != b {
        c.note(|| format!("{a:?}\n{b:?}"));
        return Err(format!("{rule:?} {fill:?} {d:?} {}: the input times {k:e} gives another result than the result times {k:e}", show_solver(&sv)));
    }
    Ok(())
}
