//! Every call of the public interface returns: no panic, no abort, no endless run, also on
//! degenerate and hostile input. Built with overflow checks and debug assertions.
use super::c11::{cut_by, string_overlay};
use crate::buffer;
use crate::eng::*;
use crate::fl::*;
use crate::general;
use crate::geo::*;
use crate::rng::Rng;
use crate::runner::*;
use i_overlay::core::divide::ContourDecomposition;
use i_overlay::core::overlay::{Overlay, ShapeType};
use i_overlay::core::simplify::Simplify;
use i_overlay::core::solver::{Precision, Solver};
use i_overlay::float::clip::FloatClip;
use i_overlay::float::filter::ContourFilter;
use i_overlay::float::overlay::FloatOverlay;
use i_overlay::float::simplify::SimplifyShape;
use i_overlay::float::single::SingleFloatOverlay;
use i_overlay::float::slice::FloatSlice;
use i_overlay::float::string_overlay::FloatStringOverlay;
use i_overlay::i_float::adapter::FloatPointAdapter;
use i_overlay::mesh::outline::offset::OutlineOffset;
use i_overlay::mesh::stroke::offset::StrokeOffset;
use i_overlay::mesh::style::{LineCap, LineJoin, OutlineStyle, StrokeStyle};
use i_overlay::string::clip::{ClipRule, IntClip};
use i_overlay::string::rule::StringRule;
use i_overlay::string::slice::IntSlice;
use i_overlay::vector::edge::ToPath;
use std::sync::atomic::{AtomicBool, Ordering::Relaxed};
use std::sync::OnceLock;

pub fn property() -> Property {
    Property {
        id: "C19",
        workloads: vec![
            Workload {
                name: "integers",
                rule: "every integer call on hostile input: up to six contours of 0 to 40 points (runs of one point, back and forth walks, corners of the coordinate range, nested copies, thousands of points) and lines (also of no length), every option, areas up to usize::MAX; the call returns and every contour has its points; non-trivial: the input has an edge",
                quick: 80_000,
                thorough: 4_000_000,
                run: integers,
            },
            Workload {
                name: "mites",
                rule: "contours and lines a few units wide or high, of arbitrary slopes, so that most edges meet near several points of the grid and whole rounds of them cancel each other out; every strategy, overlays, graphs, vectors, slices and clips",
                quick: 150_000,
                thorough: 20_000_000,
                run: mites,
            },
            Workload {
                name: "vast",
                rule: "executions of those workloads of the other properties which have inputs and results of up to a hundred thousand contours or points",
                quick: 2_000,
                thorough: 60_000,
                run: vast,
            },
            Workload {
                name: "floats",
                rule: "every float call on hostile finite input: extents of 1e-28 to 1e28 in f32 and 1e-290 to 1e290 in f64, coordinates far away from the origin, equal, subnormal or zero, empty ones, area limits of any value; the call returns finite coordinates",
                quick: 60_000,
                thorough: 3_000_000,
                run: floats,
            },
            Workload {
                name: "buffers",
                rule: "strokes and outlines of such paths with any finite style: widths and offsets zero, negative, tiny and huge against the path, angles of any value, custom caps of 0 to 12 points at any place",
                quick: 60_000,
                thorough: 3_000_000,
                run: buffers,
            },
            Workload {
                name: "others",
                rule: "executions of all workloads of the other properties, with these checks on; what they return is their monitors' business",
                quick: 60_000,
                thorough: 3_000_000,
                run: others,
            },
        ],
        assumptions: &["integer coordinates stay within +-2^30", "float coordinates and styles are finite"],
    }
}

/// The workloads of the other properties, each as often as it has cases there.
type Runs = Vec<(u64, String, fn(&mut Case) -> CaseResult)>;

fn runs(weight: fn(&Workload) -> u64) -> Runs {
    let mut v = vec![];
    let mut sum = 0;
    for p in super::behaviour() {
        for w in p.workloads {
            sum += weight(&w);
            v.push((sum, format!("{} {}", p.id, w.name), w.run));
        }
    }
    v
}

pub fn others(c: &mut Case) -> CaseResult {
    static ALL: OnceLock<Runs> = OnceLock::new();
    any_of(c, ALL.get_or_init(|| runs(|w| w.quick)))
}

/// the workloads with inputs of up to some hundred thousand edges
pub fn vast(c: &mut Case) -> CaseResult {
    static ALL: OnceLock<Runs> = OnceLock::new();
    any_of(c, ALL.get_or_init(|| runs(|w| ["plates", "bars", "long", "vast"].contains(&w.name) as u64)))
}

fn any_of(c: &mut Case, all: &Runs) -> CaseResult {
    let k = c.rng.below(all.last().unwrap().0);
    let (_, name, run) = all.iter().find(|w| k < w.0).unwrap();
    c.count(name, 1);
    c.note(|| name.clone());
    c.nontrivial = true;
    let own = c.nontrivial;
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run(c)));
    c.nontrivial |= own;
    match r {
        Ok(_) => Ok(()),
        // a monitor that trips over a strange result is no finding of this property
        Err(_) if last_panic().contains("panicked at src/") => Ok(()),
        Err(e) => std::panic::resume_unwind(e),
    }
}

/// contours a careful caller would never pass
fn weird(rng: &mut Rng, s: i64, prior: &[Contour]) -> Contour {
    let p = |rng: &mut Rng| (rng.range(-s, s), rng.range(-s, s));
    match rng.below(12) {
        0 => vec![],
        1 => (0..rng.usize(1, 2)).map(|_| p(rng)).collect(),
        2 => vec![p(rng); rng.usize(1, 40)],
        3 => {
            // back and forth on a line
            let (a, b) = (p(rng), p(rng));
            (0..rng.usize(2, 20)).map(|i| if i % 2 == 0 { a } else { b }).collect()
        }
        4 => {
            let v = [-s, 0, s];
            (0..rng.usize(2, 20)).map(|_| (*rng.pick(&v), *rng.pick(&v))).collect()
        }
        5 => {
            // collinear points in any order
            let (d, k) = ((rng.range(-3, 3), rng.range(-3, 3)), (s / 4).max(1));
            (0..rng.usize(2, 20)).map(|_| rng.range(-k, k)).map(|t| (t * d.0, t * d.1)).map(|q| (q.0.clamp(-s, s), q.1.clamp(-s, s))).collect()
        }
        6 if !prior.is_empty() => {
            let mut c = rng.pick(prior).clone();
            if rng.bool() {
                c.reverse();
            }
            if !c.is_empty() && rng.bool() {
                let k = rng.usize(0, c.len() - 1);
                c.rotate_left(k);
            }
            if rng.bool() {
                let d = c.clone();
                c.extend(d);
            }
            c
        }
        7 if s < general::SHORT => {
            // a dense scribble
            let w = rng.range(1, 30.min(s));
            (0..rng.usize(3, 200)).map(|_| (rng.range(-w, w), rng.range(-w, w))).collect()
        }
        8 => {
            // a spike of an edge to a corner of the range and back
            let mut c = general::contour(rng, s, prior);
            if !c.is_empty() {
                let i = rng.usize(0, c.len() - 1);
                let q = c[i];
                c.insert(i, q);
                c.insert(i, (if rng.bool() { s } else { -s }, if rng.bool() { s } else { -s }));
                c.insert(i, q);
            }
            c
        }
        _ => general::contour(rng, s, prior),
    }
}

/// set when every access is interpreted: only a few points then
static FEW: AtomicBool = AtomicBool::new(false);

pub fn few() {
    FEW.store(true, Relaxed);
}

pub fn weird_all(rng: &mut Rng, s: i64, max: usize) -> Vec<Contour> {
    let few = FEW.load(Relaxed);
    let mut v: Vec<Contour> = vec![];
    for _ in 0..rng.usize(0, if few { 2 } else { max }) {
        let mut c = weird(rng, s, &v);
        if few {
            c.truncate(rng.usize(3, 9));
        }
        v.push(c);
    }
    v
}

fn size(rng: &mut Rng) -> i64 {
    if rng.chance(1, 3) {
        return rng.range(4, 12);
    }
    rng.log_range(general::LIM).max(4)
}

fn form(shapes: &[Vec<Vec<i_overlay::i_float::int::point::IntPoint>>]) -> CaseResult {
    for s in shapes {
        if s.is_empty() {
            return Err("a shape of the result has no contour".into());
        }
        for c in s {
            if c.len() < 3 {
                return Err(format!("a contour of the result has {} points", c.len()));
            }
        }
    }
    Ok(())
}

fn areas(rng: &mut Rng) -> usize {
    *rng.pick(&[0, 0, 1, 2, 1000, 1 << 40, 1 << 62, usize::MAX])
}

pub fn integers(c: &mut Case) -> CaseResult {
    let rng = &mut c.rng;
    let s = size(rng);
    let subj = weird_all(rng, s, 3);
    let clip = weird_all(rng, s, 3);
    let near: Vec<Contour> = subj.clone();
    let mut lines: Vec<Contour> = weird_all(rng, s, 3);
    if s < 12 && rng.bool() {
        let k = rng.usize(0, 4);
        lines.extend(cut_by(rng, s, &near, k));
    }
    let text = format!("subj {}\nclip {}\nlines {}", show(&subj), show(&clip), show(&lines));
    let call = rng.below(12);
    c.sign(crate::rng::hash_str(&text) ^ call);
    c.note(|| format!("{text}\ncall {call}"));
    c.nontrivial |= !edges(&subj).is_empty();
    let rng = &mut c.rng;
    let fill = *rng.pick(&FILLS);
    let rule = *rng.pick(&RULES);
    let sv = general_solver(rng, s);
    let d = dir(rng);
    let min = areas(rng);
    let simplify = rng.bool();
    let cr = ClipRule { invert: rng.bool(), boundary_included: rng.bool() };
    let si: Vec<_> = subj.iter().map(|c| to_int(c)).collect();
    let li: Vec<_> = lines.iter().map(|c| to_int(c)).collect();
    let seg: Vec<_> = lines.iter().flat_map(|c| c.windows(2)).map(|w| [ip(w[0]), ip(w[1])]).collect();
    let name = ["overlay", "overlay_custom", "graph", "vectors", "simplify", "decompose", "string graph", "slice", "clip", "clip with solver", "adding", "default graph"][call as usize];
    c.count(name, 1);
    let rng = &mut c.rng;
    match call {
        0 => form(&overlay_via(rng, &subj, &clip).overlay(rule, fill)),
        1 => form(&overlay_via(rng, &subj, &clip).overlay_custom(rule, fill, d, simplify, min, sv)),
        2 => {
            let g = overlay_via(rng, &subj, &clip).into_graph_with_solver(fill, sv);
            g.validate();
            for r in RULES {
                form(&g.extract_shapes(r))?;
                form(&g.extract_shapes_custom(r, d, simplify, min))?;
            }
            Ok(())
        }
        3 => {
            for shape in overlay_via(rng, &subj, &clip).into_shape_vectors(fill, rule, sv) {
                for p in shape {
                    p.to_path();
                }
            }
            overlay_via(rng, &subj, &clip).into_separate_vectors(fill, sv);
            Ok(())
        }
        4 => {
            for k in &si {
                form(&k.simplify(fill, d, simplify, min))?;
            }
            form(&si.simplify(fill, d, simplify, min))?;
            form(&si.as_slice().simplify(fill, d, simplify, min))?;
            form(&vec![si.clone(), vec![]].as_slice().simplify(fill, d, simplify, min))
        }
        5 => {
            for k in si.iter().chain(&li) {
                if let Some(v) = k.decompose_contours() {
                    if v.iter().any(|c| c.is_empty()) {
                        return Err("a part of a decomposed contour is empty".into());
                    }
                }
            }
            Ok(())
        }
        6 => {
            let g = string_overlay(rng, &subj, &lines).into_graph_with_solver(fill, sv);
            form(&g.extract_shapes(StringRule::Slice))?;
            form(&g.extract_shapes_custom(StringRule::Slice, d, min))
        }
        7 => {
            for k in &si {
                form(&k.as_slice().slice_by_lines(&seg, fill))?;
                if let Some(p) = li.first() {
                    form(&k.as_slice().slice_by_path(p, fill))?;
                }
            }
            if let Some(l) = seg.first() {
                form(&si.slice_by_line(*l, fill))?;
            }
            form(&si.slice_by_paths(&li, fill))?;
            form(&vec![si.clone()].slice_by_paths(&li, fill))
        }
        8 => {
            for k in &si {
                k.as_slice().clip_lines(&seg, fill, cr);
                if let Some(p) = li.first() {
                    k.as_slice().clip_path(p, fill, cr);
                }
            }
            if let Some(l) = seg.first() {
                si.clip_line(*l, fill, cr);
            }
            for p in si.clip_paths(&li, fill, cr) {
                if p.len() < 2 {
                    return Err(format!("a clipped path has {} points", p.len()));
                }
            }
            Ok(())
        }
        9 => {
            for p in string_overlay(rng, &subj, &lines).clip_string_lines_with_solver(fill, cr, sv) {
                if p.len() < 2 {
                    return Err(format!("a clipped path has {} points", p.len()));
                }
            }
            Ok(())
        }
        10 => {
            // ever more of the same
            let mut o = Overlay::new(0);
            for _ in 0..rng.usize(1, if FEW.load(Relaxed) { 3 } else { 30 }) {
                let k = match (si.len(), rng.below(3)) {
                    (0, _) | (_, 0) => {
                        let mut k = weird(rng, s.min(40), &[]);
                        if FEW.load(Relaxed) {
                            k.truncate(9);
                        }
                        to_int(&k)
                    }
                    _ => rng.pick(&si).clone(),
                };
                o.add_contour(&k, if rng.bool() { ShapeType::Subject } else { ShapeType::Clip });
            }
            form(&o.overlay_custom(rule, fill, d, simplify, min, sv))
        }
        _ => {
            let g = overlay(&subj, &clip).into_graph(fill);
            form(&g.extract_shapes(rule))
        }
    }
}

fn mites(c: &mut Case) -> CaseResult {
    let rng = &mut c.rng;
    let (w, h) = (rng.range(1, 8), rng.range(1, 8));
    let far = general::LIM - 8;
    let (x, y) = if rng.chance(1, 4) { (*rng.pick(&[-far, 0, far]), *rng.pick(&[-far, 0, far])) } else { (0, 0) };
    let some = |rng: &mut Rng, max: usize| -> Vec<Contour> {
        let few = FEW.load(Relaxed);
        (0..rng.usize(0, if few { 2 } else { max }))
            .map(|_| (0..rng.usize(2, if few { 6 } else { 14 })).map(|_| (x + rng.range(0, w), y + rng.range(0, h))).collect())
            .collect()
    };
    let (subj, clip, lines) = (some(rng, 4), some(rng, 3), some(rng, 2));
    let text = format!("subj {}\nclip {}\nlines {}", show(&subj), show(&clip), show(&lines));
    c.sign(crate::rng::hash_str(&text));
    c.note(|| text);
    let rng = &mut c.rng;
    let precision = *rng.pick(&[Precision::ABSOLUTE, Precision::HIGH, Precision::MEDIUM, Precision::LOW]);
    let (rule, fill, d) = (*rng.pick(&RULES), *rng.pick(&FILLS), dir(rng));
    let cr = ClipRule { invert: rng.bool(), boundary_included: rng.bool() };
    c.note(|| format!("{precision:?} {rule:?} {fill:?} {cr:?}"));
    for strategy in STRATEGIES {
        let sv = Solver { strategy, precision, multithreading: None };
        c.note(|| format!("{strategy:?}"));
        let rng = &mut c.rng;
        let out = match rng.below(4) {
            0 => {
                let g = overlay(&subj, &clip).into_graph_with_solver(fill, sv);
                g.validate();
                g.extract_shapes_custom(rule, d, true, 0)
            }
            1 => {
                overlay(&subj, &clip).into_separate_vectors(fill, sv);
                overlay(&subj, &clip).into_shape_vectors(fill, rule, sv).iter().map(|s| s.iter().map(|p| p.to_path()).collect()).collect()
            }
            _ => overlay(&subj, &clip).overlay_custom(rule, fill, d, rng.bool(), 0, sv),
        };
        c.nontrivial |= !out.is_empty();
        form(&out)?;
        if !lines.is_empty() {
            let rng = &mut c.rng;
            form(&string_overlay(rng, &subj, &lines).into_graph_with_solver(fill, sv).extract_shapes(StringRule::Slice))?;
            for p in string_overlay(rng, &subj, &lines).clip_string_lines_with_solver(fill, cr, sv) {
                if p.len() < 2 {
                    return Err(format!("a clipped path has {} points", p.len()));
                }
            }
        }
        c.count("strategies run", 1);
    }
    Ok(())
}

fn magnitude<T: Num>(rng: &mut Rng) -> f64 {
    let top = if T::BITS < 25 { 28.0 } else { 290.0 };
    match rng.below(4) {
        0 => 10f64.powf(rng.frange(-top, top)),
        1 => 10f64.powf(rng.frange(-6.0, 6.0)),
        2 => 1.0,
        _ => 10f64.powf(rng.frange(-20.0, 20.0)),
    }
}

fn weird_floats<T: Num>(rng: &mut Rng, max: usize, scale: f64, off: Pf) -> Vec<Vec<Pt<T>>> {
    let s = rng.log_range(1 << 24).max(4);
    let tiny: [f64; 5] = [0.0, -0.0, f64::MIN_POSITIVE, 1e-45, 5e-324];
    weird_all(rng, s, max)
        .iter()
        .map(|k| {
            k.iter()
                .map(|p| {
                    let q = (p.0 as f64 / s as f64 * scale + off.0, p.1 as f64 / s as f64 * scale + off.1);
                    if rng.chance(1, 30) {
                        [T::of(*rng.pick(&tiny)), T::of(q.1)]
                    } else {
                        [T::of(q.0), T::of(q.1)]
                    }
                })
                .collect()
        })
        .collect()
}

fn place<T: Num>(rng: &mut Rng) -> (f64, Pf) {
    let scale = magnitude::<T>(rng);
    let far = match rng.below(4) {
        0 => 0.0,
        1 => scale,
        2 => magnitude::<T>(rng),
        _ => scale * 10f64.powf(rng.frange(0.0, 8.0)),
    };
    let top = if T::BITS < 25 { 1e28 } else { 1e290 };
    let far = far.min(top);
    (scale, (rng.frange(-far, far), rng.frange(-far, far)))
}

fn finite<T: Num>(s: &[Vec<Vec<Pt<T>>>]) -> CaseResult {
    for c in s.iter().flatten() {
        if c.len() < 3 {
            return Err(format!("a contour of the result has {} points", c.len()));
        }
        if let Some(p) = c.iter().find(|p| !pf(p).0.is_finite() || !pf(p).1.is_finite()) {
            return Err(format!("the result has the vertex {p:?}"));
        }
    }
    Ok(())
}

fn any_area(rng: &mut Rng, scale: f64) -> f64 {
    let a = *rng.pick(&[0.0, 0.0, 1.0, -1.0, 1e-300, 1e300, 0.5]);
    if rng.bool() { a } else { a * scale * scale }.clamp(-1e37, 1e37)
}

pub fn floats(c: &mut Case) -> CaseResult {
    if c.rng.bool() { floats_of::<f64>(c) } else { floats_of::<f32>(c) }
}

fn floats_of<T: Num>(c: &mut Case) -> CaseResult {
    let rng = &mut c.rng;
    let (scale, off) = place::<T>(rng);
    let subj = weird_floats::<T>(rng, 3, scale, off);
    let clip = weird_floats::<T>(rng, 3, scale, off);
    // the internal grid of smaller extents has a scale that is no float
    let size = Free::of(subj.clone(), clip.clone()).size;
    if size > 0.0 && size < if T::BITS < 25 { 1e-28 } else { 1e-290 } {
        return Ok(());
    }
    let call = rng.below(9);
    let text = format!("{} scale {scale:e} off {off:?} call {call}\nsubj {subj:?}\nclip {clip:?}", T::NAME);
    c.sign(crate::rng::hash_str(&text));
    c.note(|| text);
    c.nontrivial |= subj.iter().any(|c| c.len() > 2);
    c.max("greatest decimal exponent", scale.log10());
    c.max("smallest decimal exponent, negated", -scale.log10());
    let rng = &mut c.rng;
    let fill = *rng.pick(&FILLS);
    let rule = *rng.pick(&RULES);
    let sv = any_solver(rng, *rng.clone().pick(&[Precision::HIGH, Precision::MEDIUM]));
    let d = dir(rng);
    let area = any_area(rng, scale);
    let filter = ContourFilter { min_area: T::of(area), simplify_contour: rng.bool(), clean_result: rng.bool() };
    let cr = ClipRule { invert: rng.bool(), boundary_included: rng.bool() };
    let name = ["overlay_custom", "graph", "one-shot", "simplify", "slice", "slice custom", "clip", "string graph", "adapter"][call as usize];
    c.count(name, 1);
    match call {
        0 => finite(&FloatOverlay::with_subj_and_clip(&subj, &clip).overlay_custom(rule, fill, d, filter, sv)),
        1 => {
            let g = FloatOverlay::with_subj_and_clip(&subj, &clip).into_graph_with_solver(fill, sv);
            finite(&g.extract_shapes(rule))?;
            finite(&g.extract_shapes_custom(rule, d, filter))
        }
        2 => finite(&subj.overlay(&clip, rule, fill)),
        3 => {
            finite(&subj.simplify_shape(fill, d, T::of(area)))?;
            finite(&subj.simplify_shape_with_solver(fill, d, T::of(area), sv))
        }
        4 => finite(&subj.slice_by(&clip, fill)),
        5 => finite(&subj.slice_custom_by(&clip, fill, d, filter, sv)),
        6 => {
            for p in clip.clip_by(&subj, fill, cr).iter().chain(&clip.clip_by_with_solver(&subj, fill, cr, sv)) {
                if p.len() < 2 || p.iter().any(|p| !pf(p).0.is_finite() || !pf(p).1.is_finite()) {
                    return Err(format!("the clip has the path {p:?}"));
                }
            }
            Ok(())
        }
        7 => {
            let g = FloatStringOverlay::with_shape_and_string(&subj, &clip).into_graph_with_solver(fill, sv);
            finite(&g.extract_shapes(StringRule::Slice))?;
            finite(&g.extract_shapes_custom(StringRule::Slice, d, filter))
        }
        _ => {
            let adapter = FloatPointAdapter::with_iter(subj.iter().chain(&clip).flatten());
            let g = FloatOverlay::with_adapter(adapter, 0).unsafe_add_source(&subj, ShapeType::Subject).unsafe_add_source(&clip, ShapeType::Clip);
            finite(&g.overlay(rule, fill))
        }
    }
}

pub fn buffers(c: &mut Case) -> CaseResult {
    if c.rng.bool() { buffers_of::<f64>(c) } else { buffers_of::<f32>(c) }
}

/// a length to draw with: from nothing to much more than the path
///
/// Lines of a few hundred units of the internal grid in width are drawn by long edges side by
/// side, which is what the engine may get lost in (DESIGN.md): such lengths are left out.
fn length(rng: &mut Rng, scale: f64, extent: f64) -> f64 {
    loop {
        let v = any_length(rng, scale);
        let k = v.abs() / extent;
        if k > 1e-3 || k < 1e-11 || extent == 0.0 {
            return v;
        }
    }
}

fn any_length(rng: &mut Rng, scale: f64) -> f64 {
    let v = match rng.below(6) {
        0 => 0.0,
        1 => *rng.pick(&[1e-30, 1.0, 1e30, 1e-300]),
        2 => scale * 10f64.powf(rng.frange(-12.0, 12.0)),
        _ => scale * 10f64.powf(rng.frange(-2.0, 1.0)),
    };
    let v = v.clamp(0.0, 1e32);
    if rng.chance(1, 3) { -v } else { v }
}

fn angle(rng: &mut Rng) -> f64 {
    if FEW.load(Relaxed) {
        return rng.frange(0.4, 4.0);
    }
    match rng.below(3) {
        0 => *rng.pick(&[0.0, -0.0, -1.0, 1e30, -1e30, 1e-30, 3.14159265, 6.2831853]),
        _ => rng.frange(-1.0, 4.0),
    }
}

fn join<T: Num>(rng: &mut Rng, shallow: bool) -> LineJoin<T> {
    match rng.below(3) {
        0 => LineJoin::Bevel,
        1 => LineJoin::Miter(T::of(angle(rng))),
        _ => LineJoin::Round(T::of(if shallow { angle(rng) } else { rng.frange(0.2, 4.0) })),
    }
}

fn cap<T: Num>(rng: &mut Rng) -> LineCap<Pt<T>, T> {
    match rng.below(5) {
        0 => LineCap::Butt,
        1 => LineCap::Square,
        2 => LineCap::Round(T::of(angle(rng))),
        3 => buffer::Cap::random(rng).to(),
        _ => {
            let r = 10f64.powf(rng.frange(-3.0, 3.0));
            LineCap::Custom((0..rng.usize(0, 12)).map(|_| [T::of(rng.frange(-r, r)), T::of(rng.frange(-r, r))]).collect())
        }
    }
}

fn buffers_of<T: Num>(c: &mut Case) -> CaseResult {
    let rng = &mut c.rng;
    let (scale, off) = place::<T>(rng);
    // squares of lengths have to be floats, too
    let scale = scale.clamp(1e-14, 1e14);
    let off = (off.0.clamp(-1e16, 1e16), off.1.clamp(-1e16, 1e16));
    let paths = weird_floats::<T>(rng, 3, scale, off);
    let extent = Free::of(paths.clone(), vec![]).size;
    let points: usize = paths.iter().map(|p| p.len()).sum();
    let d = dir(rng);
    let area = any_area(rng, scale);
    let filter = ContourFilter { min_area: T::of(area), simplify_contour: rng.bool(), clean_result: rng.bool() };
    let text = format!("{} scale {scale:e} off {off:?}\npaths {paths:?}\nmin_area {:?}", T::NAME, filter.min_area);
    c.sign(crate::rng::hash_str(&text));
    c.note(|| text);
    c.nontrivial |= points > 1;
    let rng = &mut c.rng;
    if rng.bool() {
        let w = length(rng, scale, extent);
        let mut st = StrokeStyle::<Pt<T>, T>::new(T::of(w));
        if rng.bool() {
            st = st.width(T::of(w));
        }
        if rng.bool() {
            st = st.line_join(join(rng, points < 60)).start_cap(cap(rng)).end_cap(cap(rng));
        } else {
            st.join = join(rng, points < 60);
            st.start_cap = cap(rng);
            st.end_cap = cap(rng);
        }
        let closed = rng.bool();
        let text = format!("{st:?} closed {closed}");
        c.sign(crate::rng::hash_str(&text));
        c.note(|| text);
        c.count("strokes", 1);
        let rng = &mut c.rng;
        finite(&match rng.below(3) {
            0 => paths.stroke(st, closed),
            1 if !paths.is_empty() => paths[0].stroke_custom(st, closed, d, filter),
            _ => paths.stroke_custom(st, closed, d, filter),
        })
    } else {
        let o = length(rng, scale, extent);
        let mut st = OutlineStyle::<T>::new(T::of(o)).line_join(join(rng, points < 60));
        if rng.bool() {
            st = st.inner_offset(T::of(length(rng, scale, extent)));
        }
        let text = format!("{st:?}");
        c.sign(crate::rng::hash_str(&text));
        c.note(|| text);
        c.count("outlines", 1);
        let rng = &mut c.rng;
        finite(&match rng.below(3) {
            0 => paths.outline(st),
            1 if !paths.is_empty() => paths[0].outline_custom(st, d, filter),
            _ => paths.outline_custom(st, d, filter),
        })
    }
}
