//! The float calls agree with each other and with the integer calls.
use super::c01::crowd_scene;
use super::c11::cut_by;
use crate::check;
use crate::eng::*;
use crate::fl::*;
use crate::general;
use crate::geo::*;
use crate::lattice::Scene;
use crate::rng::Rng;
use crate::runner::*;
use i_overlay::core::overlay::{ContourDirection, ShapeType};
use i_overlay::core::overlay_rule::OverlayRule;
use i_overlay::core::solver::Precision;
use i_overlay::float::clip::FloatClip;
use i_overlay::float::filter::ContourFilter;
use i_overlay::float::overlay::FloatOverlay;
use i_overlay::float::simplify::SimplifyShape;
use i_overlay::float::single::SingleFloatOverlay;
use i_overlay::float::slice::FloatSlice;
use i_overlay::float::string_overlay::FloatStringOverlay;
use i_overlay::i_float::adapter::FloatPointAdapter;
use i_overlay::i_float::float::compatible::FloatPointCompatible;
use i_overlay::string::clip::ClipRule;
use i_overlay::string::overlay::StringOverlay;
use i_overlay::string::rule::StringRule;

pub fn property() -> Property {
    Property {
        id: "C14",
        workloads: vec![
            Workload {
                name: "forms-f64",
                rule: "arbitrary and exact f64 scenes given as vectors, slices, references to slices, fixed arrays, of points, contours and shapes, with points of an own type, through with_subj_and_clip, with_subj, with_adapter, the one-shot traits and graphs: identical results to the bit; the public integer graph mapped by the public adapter too; non-trivial: the result is not empty",
                quick: 12_000,
                thorough: 600_000,
                run: forms::<f64>,
            },
            Workload {
                name: "forms-f32",
                rule: "the same in f32",
                quick: 12_000,
                thorough: 600_000,
                run: forms::<f32>,
            },
            Workload {
                name: "strings",
                rule: "shapes and open lines in every form through slice_by, slice_custom_by, clip_by, clip_by_with_solver, FloatStringOverlay and its graph: identical results; f64 and f32 by turns",
                quick: 12_000,
                thorough: 600_000,
                run: strings,
            },
            Workload {
                name: "sizes",
                rule: "the comparisons of forms and strings on inputs of hundreds to thousands of points (lines of up to 3000) and on tiny ones (contours and lines of no to six points)",
                quick: 6_000,
                thorough: 300_000,
                run: sizes,
            },
            Workload {
                name: "twin",
                rule: "exact scenes: overlays, slices and clips of the floats are those of the integers, mapped",
                quick: 20_000,
                thorough: 1_000_000,
                run: twin,
            },
        ],
        assumptions: &["coordinates are finite, their extent is between 1e-12 and 1e20"],
    }
}

pub type Out<T> = Vec<Vec<Vec<Pt<T>>>>;

/// a user's own point
#[derive(Clone, Copy, Debug)]
pub struct Own<T> {
    y: T,
    _tag: u8,
    x: T,
}

impl<T: Num> FloatPointCompatible<T> for Own<T> {
    fn from_xy(x: T, y: T) -> Self {
        Own { y, _tag: 7, x }
    }
    fn x(&self) -> T {
        self.x
    }
    fn y(&self) -> T {
        self.y
    }
}

pub fn own<T: Num>(cs: &[Vec<Pt<T>>]) -> Vec<Vec<Own<T>>> {
    cs.iter().map(|c| c.iter().map(|p| Own { y: p[1], _tag: 0, x: p[0] }).collect()).collect()
}

pub fn plain<T: Num>(o: &[Vec<Vec<Own<T>>>]) -> Out<T> {
    o.iter().map(|s| s.iter().map(|c| c.iter().map(|p| [p.x, p.y]).collect()).collect()).collect()
}

pub fn grouped<P: Clone>(rng: &mut Rng, cs: &[Vec<P>]) -> Vec<Vec<Vec<P>>> {
    let mut g: Vec<Vec<Vec<P>>> = vec![];
    for c in cs {
        if g.is_empty() || rng.bool() {
            if rng.chance(1, 6) {
                g.push(vec![]);
            }
            g.push(vec![]);
        }
        g.last_mut().unwrap().push(c.clone());
    }
    if rng.chance(1, 6) {
        g.push(vec![]);
    }
    g
}

/// binds $r to a reference of one of the types that carry contours, and says which
macro_rules! form {
    ($rng:expr, $cs:expr, $r:ident => $body:expr) => {{
        let cs = $cs;
        let rng: &mut crate::rng::Rng = $rng;
        let mut k = rng.below(12);
        if k >= 6 && cs.len() != 1 || k == 9 && cs[0].len() != 3 || k == 10 && cs[0].len() != 4 {
            k = rng.below(6);
        }
        match k {
            0 => {
                let $r = &cs.as_slice();
                ("&[Vec<P>]", $body)
            }
            1 => {
                let g = grouped(rng, cs);
                let $r = &g;
                ("Vec<Vec<Vec<P>>>", $body)
            }
            2 => {
                let g = grouped(rng, cs);
                let $r = &[g.concat()];
                ("[Vec<Vec<P>>; 1]", $body)
            }
            3 => {
                let m = rng.usize(0, cs.len());
                let $r = &[cs[..m].to_vec(), cs[m..].to_vec()];
                ("[Vec<Vec<P>>; 2]", $body)
            }
            4 => {
                let mut two = [vec![], vec![]];
                if cs.len() <= 2 {
                    for (i, c) in cs.iter().enumerate() {
                        two[i] = c.clone();
                    }
                    let $r = &two;
                    ("[Vec<P>; 2]", $body)
                } else {
                    let $r = &[cs.clone()];
                    ("[Vec<Vec<P>>; 1]", $body)
                }
            }
            5 => {
                let $r = cs;
                ("Vec<Vec<P>>", $body)
            }
            6 => {
                let $r = &cs[0];
                ("Vec<P>", $body)
            }
            7 => {
                let $r = &cs[0].as_slice();
                ("&[P]", $body)
            }
            8 => {
                let $r = &[cs[0].clone()];
                ("[Vec<P>; 1]", $body)
            }
            9 => {
                let $r = &[cs[0][0], cs[0][1], cs[0][2]];
                ("[P; 3]", $body)
            }
            10 => {
                let $r = &[cs[0][0], cs[0][1], cs[0][2], cs[0][3]];
                ("[P; 4]", $body)
            }
            _ => {
                let $r = &vec![vec![cs[0].clone()]];
                ("Vec<Vec<Vec<P>>>", $body)
            }
        }
    }};
}

pub(crate) use form;

fn scene<T: Num>(c: &mut Case) -> (Vec<Vec<Pt<T>>>, Vec<Vec<Pt<T>>>) {
    let small = if c.rng.chance(1, 3) { 1 } else { 4 };
    if c.rng.bool() {
        let e = Exact::random::<T>(&mut c.rng, 9, small);
        c.sign(e.sig());
        (e.subj(), e.clip())
    } else {
        let e = Free::<T>::random(&mut c.rng, small);
        c.sign(e.sig());
        (e.subj, e.clip)
    }
}

fn forms<T: Num>(c: &mut Case) -> CaseResult {
    let (s, k) = scene::<T>(c);
    forms_of::<T>(c, s, k)
}

/// hundreds to thousands of points, or hardly any
fn sizes(c: &mut Case) -> CaseResult {
    if c.rng.bool() {
        sizes_of::<f64>(c)
    } else {
        sizes_of::<f32>(c)
    }
}

fn sizes_of<T: Num>(c: &mut Case) -> CaseResult {
    if c.rng.chance(1, 12) {
        let mut sc = crowd_scene(&mut c.rng, 8, 30);
        let e = Exact::of::<T>(&mut c.rng, &mut sc);
        c.sign(e.sig());
        let mut lines: Vec<Contour> = (0..c.rng.usize(1, 4)).map(|_| {
            let (st, r) = (c.rng.usize(100, 3000), c.rng.range(1, sc.n.min(6)));
            crate::lattice::walk_open(&mut c.rng, sc.n, st, r)
        }).collect();
        if c.rng.bool() {
            lines.extend(sc.subj.iter().take(3).cloned());
        }
        c.max("most points of a line", lines.iter().map(|l| l.len()).max().unwrap_or(0) as f64);
        c.max("most points of an input", e.sc.subj.iter().chain(&e.sc.clip).map(|l| l.len()).sum::<usize>() as f64);
        if c.rng.bool() {
            forms_of::<T>(c, e.subj(), e.clip())
        } else {
            let l = e.dy.all::<T>(&sc.map.map_all(&lines));
            strings_body::<T>(c, e.subj(), l)
        }
    } else {
        let (a, b) = (general::tiny(&mut c.rng, 3, general::LIM), general::tiny(&mut c.rng, 3, general::LIM));
        let k = 10f64.powf(c.rng.frange(-6.0, 0.0));
        let f = |cs: &[Contour]| -> Vec<Vec<Pt<T>>> { cs.iter().map(|c| c.iter().map(|p| [T::of(p.0 as f64 * k), T::of(p.1 as f64 * k)]).collect()).collect() };
        let f = Free::of(f(&a), f(&b));
        c.sign(f.sig());
        if c.rng.bool() {
            forms_of::<T>(c, f.subj, f.clip)
        } else {
            strings_body::<T>(c, f.subj, f.clip)
        }
    }
}

fn forms_of<T: Num>(c: &mut Case, s: Vec<Vec<Pt<T>>>, k: Vec<Vec<Pt<T>>>) -> CaseResult {
    c.note(|| format!("{}\nsubj {s:?}\nclip {k:?}", T::NAME).chars().take(6000).collect());
    let (rule, fill) = (*c.rng.pick(&RULES), *c.rng.pick(&FILLS));
    let sv = if c.rng.bool() { Default::default() } else { any_solver(&mut c.rng, Precision::HIGH) };
    let d = dir(&mut c.rng);
    let f = ContourFilter { min_area: T::of(0.0), simplify_contour: c.rng.bool(), clean_result: c.rng.bool() };
    let base: Out<T> = FloatOverlay::with_subj_and_clip(&s, &k).overlay_custom(rule, fill, d, f, sv);
    let short: Out<T> = FloatOverlay::with_subj_and_clip(&s, &k).overlay(rule, fill);
    c.nontrivial |= !base.is_empty();
    let call = format!("{} {rule:?} {fill:?} {d:?} simplify {} clean {} {}", T::NAME, f.simplify_contour, f.clean_result, show_solver(&sv));
    let same = |c: &mut Case, what: &str, a: &Out<T>, b: &Out<T>| -> CaseResult {
        c.count("results compared", 1);
        if a == b {
            return Ok(());
        }
        c.note(|| format!("{a:?}\n{b:?}"));
        Err(format!("{call}: {what} gives another result"))
    };
    // the defaults
    let def = ContourFilter::<T> { min_area: T::of(0.0), simplify_contour: true, clean_result: T::NAME == "f32" };
    let o = FloatOverlay::with_subj_and_clip(&s, &k).overlay_custom(rule, fill, ContourDirection::CounterClockwise, def, Default::default());
    same(c, "overlay() against overlay_custom() with the documented defaults", &short, &o)?;
    // resource types
    for _ in 0..2 {
        let (n, o) = form!(&mut c.rng, &s, r => FloatOverlay::with_subj_and_clip(r, &k).overlay_custom(rule, fill, d, f, sv));
        same(c, &format!("the subject as {n}"), &base, &o)?;
        let (n, o) = form!(&mut c.rng, &k, r => FloatOverlay::with_subj_and_clip(&s, r).overlay_custom(rule, fill, d, f, sv));
        same(c, &format!("the clip as {n}"), &base, &o)?;
        let (n, o) = form!(&mut c.rng, &s, r => r.overlay(&k, rule, fill));
        same(c, &format!("the one-shot overlay of the subject as {n}"), &short, &o)?;
        let (n, o) = form!(&mut c.rng, &k, r => s.overlay(r, rule, fill));
        same(c, &format!("the one-shot overlay by the clip as {n}"), &short, &o)?;
    }
    // unsized slices
    let (gs, gk) = (grouped(&mut c.rng, &s), grouped(&mut c.rng, &k));
    let o = FloatOverlay::with_subj_and_clip(s.as_slice(), gk.as_slice()).overlay_custom(rule, fill, d, f, sv);
    same(c, "[Vec<P>] with [Vec<Vec<P>>]", &base, &o)?;
    let o = FloatOverlay::with_subj_and_clip(gs.as_slice(), k.as_slice()).overlay_custom(rule, fill, d, f, sv);
    same(c, "[Vec<Vec<P>>] with [Vec<P>]", &base, &o)?;
    if s.len() == 1 {
        let o = FloatOverlay::with_subj_and_clip(s[0].as_slice(), &k).overlay_custom(rule, fill, d, f, sv);
        same(c, "the subject as [P]", &base, &o)?;
    }
    // an own adapter
    let adapter: FloatPointAdapter<Pt<T>, T> = FloatPointAdapter::with_iter(s.iter().chain(&k).flatten());
    let o = {
        let mut o = FloatOverlay::with_adapter(adapter.clone(), c.rng.usize(0, 100));
        if c.rng.bool() {
            o = o.unsafe_add_source(&k, ShapeType::Clip).unsafe_add_source(gs.as_slice(), ShapeType::Subject);
        } else {
            for x in &s {
                o = o.unsafe_add_contour(x, ShapeType::Subject);
            }
            for x in &k {
                o = o.unsafe_add_contour(x, ShapeType::Clip);
            }
        }
        if c.rng.bool() {
            o = o.clone();
        }
        o
    };
    same(c, "with_adapter and the contours added one by one", &base, &o.clone().overlay_custom(rule, fill, d, f, sv))?;
    // graphs
    let g = FloatOverlay::with_subj_and_clip(&s, &k).into_graph_with_solver(fill, sv);
    let all = g.extract_shapes_custom(rule, d, f);
    same_region(c, &call, "extract_shapes_custom of the graph", &base, &all, &adapter)?;
    same(c, "extract_shapes_custom of the graph a second time", &all, &g.extract_shapes_custom(rule, d, f))?;
    let o = FloatOverlay::with_subj_and_clip(&s, &k).into_graph(fill).extract_shapes(rule);
    let p = FloatOverlay::with_subj_and_clip(&s, &k).into_graph_with_solver(fill, Default::default()).extract_shapes_custom(rule, ContourDirection::CounterClockwise, def);
    same(c, "extract_shapes() against extract_shapes_custom() with the documented defaults", &o, &p)?;
    if !f.clean_result {
        let int = g.graph.extract_shapes_custom(rule, d, f.simplify_contour, 0);
        let o: Out<T> = int.iter().map(|s| s.iter().map(|k| k.iter().map(|p| g.adapter.int_to_float(p)).collect()).collect()).collect();
        same(c, "the integer graph mapped by the adapter", &all, &o)?;
    }
    // own points
    let o = plain(&FloatOverlay::with_subj_and_clip(&own(&s), &own(&k)).overlay_custom(rule, fill, d, f, sv));
    same(c, "a point type of the user", &base, &o)?;
    // the subject alone
    let full = ContourFilter { min_area: T::of(0.0), simplify_contour: true, clean_result: true };
    let alone = FloatOverlay::with_subj(&s).overlay_custom(OverlayRule::Subject, fill, d, full, sv);
    let (n, o) = form!(&mut c.rng, &s, r => r.simplify_shape_with_solver(fill, d, T::of(0.0), sv));
    same(c, &format!("simplify_shape_with_solver of {n} against the overlay of the subject alone"), &alone, &o)?;
    let (n, o) = form!(&mut c.rng, &s, r => r.simplify_shape(fill, d, T::of(0.0)));
    let alone = FloatOverlay::with_subj(&gs).overlay_custom(OverlayRule::Subject, fill, d, full, Default::default());
    same(c, &format!("simplify_shape of {n} against the overlay of the subject alone"), &alone, &o)?;
    let none: Vec<Vec<Pt<T>>> = vec![];
    let o = FloatOverlay::with_subj_and_clip(&s, &none).overlay_custom(OverlayRule::Subject, fill, d, full, Default::default());
    same(c, "an empty clip against the subject alone", &alone, &o)?;
    Ok(())
}

/// a graph keeps all links of the arrangement, a single overlay only those of its rule: contours
/// which touch may be parted differently
fn same_region<T: Num>(c: &mut Case, call: &str, what: &str, a: &Out<T>, b: &Out<T>, ad: &FloatPointAdapter<Pt<T>, T>) -> CaseResult {
    c.count("results compared", 1);
    if a == b {
        return Ok(());
    }
    let int = |o: &Out<T>| -> Shapes { o.iter().map(|s| s.iter().map(|k| from_int(&k.iter().map(|p| ad.float_to_int(p)).collect::<Vec<_>>())).collect()).collect() };
    if let Some(t) = check::alike(&int(a), &int(b)).1 {
        c.note(|| format!("{a:?}\n{b:?}"));
        return Err(format!("{call}: {what} gives another result: {t}"));
    }
    Ok(())
}

fn strings(c: &mut Case) -> CaseResult {
    if c.rng.bool() {
        strings_of::<f64>(c)
    } else {
        strings_of::<f32>(c)
    }
}

fn strings_of<T: Num>(c: &mut Case) -> CaseResult {
    let (s, k) = if c.rng.bool() {
        let few = c.rng.usize(1, 4);
        let mut sc = Scene::random(&mut c.rng, 9, few);
        sc.clip.clear();
        let many = c.rng.usize(1, 6);
        let chains = cut_by(&mut c.rng, sc.n, &sc.subj.clone(), many);
        let e = Exact::of::<T>(&mut c.rng, &mut sc);
        (e.subj::<T>(), e.dy.all::<T>(&sc.map.map_all(&chains)))
    } else {
        let few = c.rng.usize(1, 4);
        let e = Free::<T>::random(&mut c.rng, few);
        let mut k = e.clip;
        k.retain(|p| p.len() > 1);
        (e.subj, k)
    };
    c.sign(crate::rng::hash_str(&format!("{s:?}{k:?}")));
    strings_body::<T>(c, s, k)
}

fn strings_body<T: Num>(c: &mut Case, s: Vec<Vec<Pt<T>>>, k: Vec<Vec<Pt<T>>>) -> CaseResult {
    c.note(|| format!("{}\nshapes {s:?}\nlines {k:?}", T::NAME).chars().take(6000).collect());
    let fill = *c.rng.pick(&FILLS);
    let sv = if c.rng.bool() { Default::default() } else { any_solver(&mut c.rng, Precision::HIGH) };
    let d = dir(&mut c.rng);
    let f = ContourFilter { min_area: T::of(0.0), simplify_contour: true, clean_result: c.rng.chance(1, 4) };
    let def = ContourFilter::<T> { min_area: T::of(0.0), simplify_contour: true, clean_result: T::NAME == "f32" };
    let cr = ClipRule { invert: c.rng.bool(), boundary_included: c.rng.bool() };
    let call = format!("{} {fill:?} {d:?} clean {} invert {} boundary_included {} {}", T::NAME, f.clean_result, cr.invert, cr.boundary_included, show_solver(&sv));
    let over = || FloatStringOverlay::with_shape_and_string(&s, &k);
    let slice: Out<T> = over().into_graph_with_solver(fill, sv).extract_shapes_custom(StringRule::Slice, d, f);
    let short: Out<T> = over().into_graph(fill).extract_shapes(StringRule::Slice);
    let clip: Vec<Vec<Pt<T>>> = over().clip_string_lines_with_solver(fill, cr, sv);
    let clip_def: Vec<Vec<Pt<T>>> = over().clip_string_lines_with_solver(fill, cr, Default::default());
    c.nontrivial |= !slice.is_empty() && !clip.is_empty();
    let same = |c: &mut Case, what: &str, eq: bool| -> CaseResult {
        c.count("results compared", 1);
        if eq {
            return Ok(());
        }
        Err(format!("{call}: {what} gives another result"))
    };
    let o = over().into_graph_with_solver(fill, Default::default()).extract_shapes_custom(StringRule::Slice, ContourDirection::CounterClockwise, def);
    same(c, "extract_shapes() against extract_shapes_custom() with the documented defaults", o == short)?;
    let (n, o) = form!(&mut c.rng, &s, r => r.slice_by(&k, fill));
    same(c, &format!("slice_by of {n}"), o == short)?;
    let (n, o) = form!(&mut c.rng, &k, r => s.slice_by(r, fill));
    same(c, &format!("slice_by with {n}"), o == short)?;
    let (n, o) = form!(&mut c.rng, &s, r => r.slice_custom_by(&k, fill, d, f, sv));
    same(c, &format!("slice_custom_by of {n}"), o == slice)?;
    let (n, o) = form!(&mut c.rng, &k, r => s.slice_custom_by(r, fill, d, f, sv));
    same(c, &format!("slice_custom_by with {n}"), o == slice)?;
    let (n, o) = form!(&mut c.rng, &k, r => r.clip_by(&s, fill, cr));
    same(c, &format!("clip_by of {n}"), o == clip_def)?;
    let (n, o) = form!(&mut c.rng, &s, r => k.clip_by(r, fill, cr));
    same(c, &format!("clip_by with {n}"), o == clip_def)?;
    let (n, o) = form!(&mut c.rng, &k, r => r.clip_by_with_solver(&s, fill, cr, sv));
    same(c, &format!("clip_by_with_solver of {n}"), o == clip)?;
    let (n, o) = form!(&mut c.rng, &s, r => k.clip_by_with_solver(r, fill, cr, sv));
    same(c, &format!("clip_by_with_solver with {n}"), o == clip)?;
    let adapter: FloatPointAdapter<Pt<T>, T> = FloatPointAdapter::with_iter(s.iter().chain(&k).flatten());
    let (n, o) = form!(&mut c.rng, &s, r => FloatStringOverlay::with_adapter(adapter.clone(), 3).unsafe_add_shapes(r).unsafe_add_string_lines(&k));
    same(c, &format!("with_adapter and shapes as {n}"), o.clone().into_graph_with_solver(fill, sv).extract_shapes_custom(StringRule::Slice, d, f) == slice)?;
    same(c, &format!("with_adapter and shapes as {n}, clipped"), o.clip_string_lines_with_solver(fill, cr, sv) == clip)?;
    let o = s.iter().fold(FloatStringOverlay::with_adapter(adapter.clone(), 0), |o, x| o.unsafe_add_shape_contour(x));
    let o = k.iter().fold(o, |o, x| o.unsafe_add_string_line(x));
    same(c, "contours and lines added one by one", o.clone().into_graph_with_solver(fill, sv).extract_shapes_custom(StringRule::Slice, d, f) == slice)?;
    same(c, "contours and lines added one by one, clipped", o.clip_string_lines_with_solver(fill, cr, sv) == clip)?;
    // the integer overlay
    let mut so = StringOverlay::new(0);
    for x in &s {
        so.add_shape_contour(&x.iter().map(|p| adapter.float_to_int(p)).collect::<Vec<_>>());
    }
    for x in &k {
        for w in x.windows(2) {
            so.add_string_line([adapter.float_to_int(&w[0]), adapter.float_to_int(&w[1])]);
        }
    }
    let o: Vec<Vec<Pt<T>>> = so.clone().clip_string_lines_with_solver(fill, cr, sv).iter().map(|p| p.iter().map(|p| adapter.int_to_float(p)).collect()).collect();
    same(c, "the integer clip mapped by the adapter", o == clip)?;
    if !f.clean_result {
        let o: Out<T> = so
            .into_graph_with_solver(fill, sv)
            .extract_shapes_custom(StringRule::Slice, d, 0)
            .iter()
            .map(|s| s.iter().map(|k| k.iter().map(|p| adapter.int_to_float(p)).collect()).collect())
            .collect();
        same(c, "the integer slice mapped by the adapter", o == slice)?;
    }
    // own points
    let o = plain(&own(&s).slice_custom_by(&own(&k), fill, d, f, sv));
    same(c, "slicing with a point type of the user", o == slice)?;
    let o: Vec<Vec<Pt<T>>> = own(&k).clip_by_with_solver(&own(&s), fill, cr, sv).iter().map(|p| p.iter().map(|p| [p.x, p.y]).collect()).collect();
    same(c, "clipping with a point type of the user", o == clip)?;
    Ok(())
}

fn twin(c: &mut Case) -> CaseResult {
    if c.rng.bool() {
        twin_of::<f64>(c)
    } else {
        twin_of::<f32>(c)
    }
}

fn twin_of<T: Num>(c: &mut Case) -> CaseResult {
    let mut sc = Scene::random(&mut c.rng, 9, 4);
    let many = c.rng.usize(1, 6);
    let chains = cut_by(&mut c.rng, sc.n, &sc.subj.clone(), many);
    let e = Exact::of::<T>(&mut c.rng, &mut sc);
    c.sign(e.sig());
    let (s, k, l) = (sc.int_subj(), sc.int_clip(), sc.map.map_all(&chains));
    c.note(|| format!("{} {}\nlines {}", T::NAME, e.show(), show(&l)));
    let (rule, fill) = (*c.rng.pick(&RULES), *c.rng.pick(&FILLS));
    let sv = fine_solver(&mut c.rng);
    let d = dir(&mut c.rng);
    let simplify = c.rng.bool();
    let f = ContourFilter { min_area: T::of(0.0), simplify_contour: simplify, clean_result: false };
    let tell = |m: String| format!("{} {rule:?} {fill:?} {d:?} {}: {m}", T::NAME, show_solver(&sv));
    let want = run_overlay(&s, &k, rule, fill, d, simplify, 0, sv);
    let got = FloatOverlay::with_subj_and_clip(&e.subj::<T>(), &e.clip::<T>()).overlay_custom(rule, fill, d, f, sv);
    let got = e.dy.back_shapes(&got).map_err(tell)?;
    c.nontrivial |= !want.is_empty();
    c.count("overlays compared", 1);
    if let Some(t) = check::alike(&got, &want).1 {
        c.note(|| format!("float {got:?}\ninteger {want:?}"));
        return Err(tell(format!("the overlay of the floats and of the integers differ: {t}")));
    }
    c.count("overlays equal to the last vertex", (got == want) as u64);
    let fl = e.dy.all::<T>(&l);
    let mut so = StringOverlay::new(0);
    so.add_shapes(&[s.iter().map(|c| to_int(c)).collect::<Vec<_>>()]);
    for x in &l {
        for w in x.windows(2) {
            so.add_string_line([ip(w[0]), ip(w[1])]);
        }
    }
    let want = shapes_of(&so.clone().into_graph_with_solver(fill, sv).extract_shapes_custom(StringRule::Slice, d, 0));
    let got = e.subj::<T>().slice_custom_by(&fl, fill, d, f, sv);
    let got = e.dy.back_shapes(&got).map_err(tell)?;
    c.count("slices compared", 1);
    if got != want {
        let (a, b) = (edges_sorted(&got), edges_sorted(&want));
        if a != b {
            c.note(|| format!("float {got:?}\ninteger {want:?}"));
            return Err(tell("the slices of the floats and of the integers differ".into()));
        }
    }
    let cr = ClipRule { invert: c.rng.bool(), boundary_included: c.rng.bool() };
    let want: Vec<Contour> = so.clip_string_lines_with_solver(fill, cr, sv).iter().map(|p| from_int(p)).collect();
    let got = e.dy.back_paths(&fl.clip_by_with_solver(&e.subj::<T>(), fill, cr, sv)).map_err(tell)?;
    c.count("clips compared", 1);
    let steps = |v: &[Contour]| {
        let mut r: Vec<(P, P)> = v.iter().flat_map(|p| p.windows(2).map(|w| (w[0], w[1])).collect::<Vec<_>>()).collect();
        r.sort();
        r
    };
    if steps(&got) != steps(&want) {
        c.note(|| format!("float {got:?}\ninteger {want:?}"));
        return Err(tell(format!("invert {} boundary_included {}: the clips of the floats and of the integers differ", cr.invert, cr.boundary_included)));
    }
    Ok(())
}

fn edges_sorted(s: &Shapes) -> Vec<(P, P)> {
    let mut e = edges(&check::contours_of(s));
    e.sort();
    e
}

