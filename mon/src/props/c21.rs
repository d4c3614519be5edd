//! Calls made at the same time, on any threads, do not disturb each other.
use super::c11::string_overlay;
use super::c19;
use crate::buffer::{Cap, Join};
use crate::eng::*;
use crate::fl::*;
use crate::general;
use crate::geo::*;
use crate::lattice;
use crate::rng::{mix, Rng};
use crate::runner::*;
use i_overlay::core::divide::ContourDecomposition;
use i_overlay::core::simplify::Simplify;
use i_overlay::core::solver::{MultithreadOptions, Precision};
use i_overlay::float::clip::FloatClip;
use i_overlay::float::filter::ContourFilter;
use i_overlay::float::overlay::FloatOverlay;
use i_overlay::float::slice::FloatSlice;
use i_overlay::float::string_overlay::FloatStringOverlay;
use i_overlay::i_float::int::point::IntPoint;
use i_overlay::mesh::outline::offset::OutlineOffset;
use i_overlay::mesh::stroke::offset::StrokeOffset;
use i_overlay::mesh::style::{OutlineStyle, StrokeStyle};
use i_overlay::string::clip::{ClipRule, IntClip};
use i_overlay::string::rule::StringRule;
use i_overlay::string::slice::IntSlice;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::Relaxed};
use std::sync::Barrier;

pub fn property() -> Property {
    Property {
        id: "C21",
        workloads: vec![
            Workload {
                name: "together",
                rule: "4 to 12 calls of any kind (overlays, graphs, vectors, simplify, decompose, slices, clips, floats, strokes, outlines; solvers with and without parallel sorting) made once after the other and then by 2 to 4 threads at the same time, each in its own order: every call gives the identical result; non-trivial: results differ between the calls",
                quick: 12_000,
                thorough: 800_000,
                run: together,
            },
            Workload {
                name: "shared",
                rule: "one graph (integer, string, float), built on another thread, is asked by 2 to 4 threads at the same time, rule by rule in different orders: every answer is the one it gave alone, and it gives it again afterwards",
                quick: 10_000,
                thorough: 800_000,
                run: shared,
            },
            Workload {
                name: "pools",
                rule: "the same calls inside rayon pools of 1 to 4 threads, by parallel iterators, next to and inside each other",
                quick: 1_500,
                thorough: 100_000,
                run: pools,
            },
        ],
        assumptions: &[
            "schedules are those the operating system gives the threads, started together; ThreadSanitizer watches some of the executions for races that did no harm",
            "coordinates stay within +-2^30",
        ],
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
struct Sum(u64);

impl Sum {
    fn add(&mut self, v: u64) {
        self.0 = mix(self.0 ^ v.wrapping_mul(0x9E37_79B9_7F4A_7C15)).wrapping_add(1);
    }
    fn path(&mut self, p: &[IntPoint]) {
        self.add(p.len() as u64);
        for q in p {
            self.add((q.x as u32 as u64) << 32 | q.y as u32 as u64);
        }
    }
    fn paths(&mut self, p: &[Vec<IntPoint>]) {
        self.add(p.len() as u64);
        p.iter().for_each(|p| self.path(p));
    }
    fn shapes(&mut self, s: &[Vec<Vec<IntPoint>>]) {
        self.add(s.len() as u64);
        s.iter().for_each(|s| self.paths(s));
    }
    /// pieces of clipped lines; which of them are chained to a path depends on how ties are sorted
    fn pieces(&mut self, p: &[Vec<IntPoint>]) {
        let mut v: Vec<_> = p.iter().flat_map(|p| p.windows(2)).map(|w| (w[0].x, w[0].y, w[1].x, w[1].y)).collect();
        v.sort_unstable();
        for w in v {
            self.path(&[IntPoint::new(w.0, w.1), IntPoint::new(w.2, w.3)]);
        }
    }
    fn fpieces<T: Num>(&mut self, p: &[Vec<Pt<T>>]) {
        let b = |p: &Pt<T>| (p[0].to_f64().to_bits(), p[1].to_f64().to_bits());
        let mut v: Vec<_> = p.iter().flat_map(|p| p.windows(2)).map(|w| (b(&w[0]), b(&w[1]))).collect();
        v.sort_unstable();
        for w in v {
            [w.0 .0, w.0 .1, w.1 .0, w.1 .1].iter().for_each(|&x| self.add(x));
        }
    }
    fn fpaths<T: Num>(&mut self, p: &[Vec<Pt<T>>]) {
        self.add(p.len() as u64);
        for p in p {
            self.add(p.len() as u64);
            for q in p {
                self.add(q[0].to_f64().to_bits());
                self.add(q[1].to_f64().to_bits());
            }
        }
    }
    fn fshapes<T: Num>(&mut self, s: &[Vec<Vec<Pt<T>>>]) {
        self.add(s.len() as u64);
        s.iter().for_each(|s| self.fpaths(s));
    }
}

pub const KINDS: [&str; 13] =
    ["overlay", "graph", "vectors", "simplify", "decompose", "string graph", "slice", "clip", "float overlay", "float slice", "float clip", "stroke", "outline"];

fn scene(rng: &mut Rng) -> (Vec<Contour>, Vec<Contour>, i64) {
    match rng.below(5) {
        0 | 1 => {
            let s = general::Scene::random(rng, general::LIM, 4);
            (s.subj.clone(), s.clip.clone(), s.size)
        }
        2 => {
            let s = rng.log_range(1 << 20).max(4);
            (c19::weird_all(rng, s, 3), c19::weird_all(rng, s, 3), s)
        }
        _ => {
            let s = lattice::Scene::random(rng, 10, 4);
            (s.int_subj(), s.int_clip(), i64::MAX)
        }
    }
}

/// One call made up from a number, and the digest of what it returned.
pub fn job(seed: u64) -> (usize, u64) {
    let rng = &mut Rng::new(seed);
    let kind = rng.below(KINDS.len() as u64) as usize;
    let mut h = Sum(kind as u64);
    let fill = *rng.pick(&FILLS);
    let rule = *rng.pick(&RULES);
    let d = dir(rng);
    let simplify = rng.bool();
    let cr = ClipRule { invert: rng.bool(), boundary_included: rng.bool() };
    if kind < 8 {
        let (s, k, size) = scene(rng);
        let mut sv = general_solver(rng, size);
        if rng.chance(1, 3) && !serial() {
            sv.multithreading = Some(MultithreadOptions { par_sort_min_size: rng.usize(1, 30) });
        }
        let si: Vec<_> = s.iter().map(|c| to_int(c)).collect();
        let ki: Vec<_> = k.iter().map(|c| to_int(c)).collect();
        match kind {
            0 => h.shapes(&overlay(&s, &k).overlay_custom(rule, fill, d, simplify, 0, sv)),
            1 => {
                let g = overlay(&s, &k).into_graph_with_solver(fill, sv);
                for r in RULES {
                    h.shapes(&g.extract_shapes_custom(r, d, simplify, 0));
                }
            }
            2 => {
                for v in overlay(&s, &k).into_separate_vectors(fill, sv) {
                    h.path(&[v.a, v.b]);
                    h.add(v.fill as u64);
                }
                for v in overlay(&s, &k).into_shape_vectors(fill, rule, sv).iter().flatten().flatten() {
                    h.path(&[v.a, v.b]);
                    h.add(v.fill as u64);
                }
            }
            3 => {
                h.shapes(&si.simplify(fill, d, simplify, 0));
                for c in &si {
                    h.shapes(&c.simplify(fill, d, simplify, 0));
                }
            }
            4 => {
                for c in &si {
                    match c.decompose_contours() {
                        Some(v) => h.paths(&v),
                        None => h.add(1),
                    }
                }
            }
            5 => h.shapes(&string_overlay(rng, &s, &k).into_graph_with_solver(fill, sv).extract_shapes_custom(StringRule::Slice, d, 0)),
            6 => h.shapes(&si.slice_by_paths(&ki, fill)),
            _ => {
                h.pieces(&si.clip_paths(&ki, fill, cr));
                h.pieces(&string_overlay(rng, &s, &k).clip_string_lines_with_solver(fill, cr, sv));
            }
        }
    } else if rng.bool() {
        floats::<f32>(rng, kind, &mut h);
    } else {
        floats::<f64>(rng, kind, &mut h);
    }
    (kind, h.0)
}

fn floats<T: Num>(rng: &mut Rng, kind: usize, h: &mut Sum) {
    let fill = *rng.pick(&FILLS);
    let rule = *rng.pick(&RULES);
    let d = dir(rng);
    let filter = ContourFilter { min_area: T::of(0.0), simplify_contour: rng.bool(), clean_result: rng.bool() };
    let cr = ClipRule { invert: rng.bool(), boundary_included: rng.bool() };
    let f = Free::<T>::random(rng, 4);
    let sv = any_solver(rng, Precision::HIGH);
    match kind {
        8 => {
            h.fshapes(&FloatOverlay::with_subj_and_clip(&f.subj, &f.clip).overlay_custom(rule, fill, d, filter, sv));
            let g = FloatOverlay::with_subj_and_clip(&f.subj, &f.clip).into_graph_with_solver(fill, sv);
            h.fshapes(&g.extract_shapes_custom(rule, d, filter));
        }
        9 => h.fshapes(&f.subj.slice_custom_by(&f.clip, fill, d, filter, sv)),
        10 => h.fpieces(&f.clip.clip_by_with_solver(&f.subj, fill, cr, sv)),
        _ => {
            let w = f.size * 10f64.powf(rng.frange(-2.0, -0.5));
            let mut join = Join::random(rng);
            if let Join::Round(a) = join {
                join = Join::Round(a.max(0.3));
            }
            if kind == 11 {
                let st = StrokeStyle::new(T::of(w)).line_join(join.to()).start_cap(Cap::random(rng).to()).end_cap(Cap::random(rng).to());
                h.fshapes(&f.subj.stroke_custom(st, rng.bool(), d, filter));
            } else {
                let st = OutlineStyle::new(T::of(if rng.bool() { w } else { -w })).line_join(join.to());
                h.fshapes(&f.subj.outline_custom(st, d, filter));
            }
        }
    }
}

pub fn describe(seed: u64) -> String {
    let (k, h) = job(seed);
    let kind = KINDS[k];
    let mut rng = Rng::new(seed);
    rng.below(KINDS.len() as u64);
    let fill = *rng.pick(&FILLS);
    let rule = *rng.pick(&RULES);
    let d = dir(&mut rng);
    let simplify = rng.bool();
    let cr = ClipRule { invert: rng.bool(), boundary_included: rng.bool() };
    let mut t = format!("{kind} {fill:?} {rule:?} {d:?} {simplify} {} {} -> {h:016x}\n", cr.invert, cr.boundary_included);
    if k < 8 {
        let (s, k, size) = scene(&mut rng);
        let sv = general_solver(&mut rng, size);
        t += &format!("subj {}\nclip {}\n{}\n", show(&s), show(&k), show_solver(&sv));
        if rng.chance(1, 3) {
            t += &format!("parallel from {}\n", rng.usize(1, 30));
        }
    }
    t
}

fn seeds(c: &mut Case) -> Vec<u64> {
    let n = c.rng.usize(4, 12);
    (0..n).map(|_| c.rng.next()).collect()
}

fn alone(c: &mut Case, seeds: &[u64]) -> Vec<u64> {
    let mut v = vec![];
    for &s in seeds {
        let (k, h) = job(s);
        c.count(KINDS[k], 1);
        v.push(h);
    }
    c.nontrivial |= v.iter().any(|x| *x != v[0]);
    v
}

fn complain(seeds: &[u64], i: usize, how: &str) -> CaseResult {
    let (k, _) = job(seeds[i]);
    Err(format!("the call made up from {:#x} ({}) gives another result {how} than alone", seeds[i], KINDS[k]))
}

fn together(c: &mut Case) -> CaseResult {
    let seeds = seeds(c);
    c.sign(seeds[0]);
    c.note(|| format!("calls made up from {seeds:x?}"));
    let exp = alone(c, &seeds);
    let t = c.rng.usize(2, 4);
    let orders: Vec<Vec<usize>> = (0..t)
        .map(|_| {
            let mut v: Vec<usize> = (0..seeds.len()).collect();
            c.rng.shuffle(&mut v);
            v
        })
        .collect();
    let (running, beside) = (AtomicUsize::new(0), AtomicU64::new(0));
    let start = Barrier::new(t);
    let bad: Option<usize> = std::thread::scope(|s| {
        let hs: Vec<_> = orders
            .iter()
            .map(|o| {
                let (start, seeds, exp, running, beside) = (&start, &seeds, &exp, &running, &beside);
                s.spawn(move || {
                    start.wait();
                    let mut bad = None;
                    for &i in o {
                        if running.fetch_add(1, Relaxed) > 0 {
                            beside.fetch_add(1, Relaxed);
                        }
                        let h = job(seeds[i]).1;
                        running.fetch_sub(1, Relaxed);
                        if h != exp[i] {
                            bad = bad.or(Some(i));
                        }
                    }
                    bad
                })
            })
            .collect();
        let mut bad = None;
        for h in hs {
            match h.join() {
                Ok(b) => bad = bad.or(b),
                Err(e) => std::panic::resume_unwind(e),
            }
        }
        bad
    });
    c.count("calls repeated", (t * seeds.len()) as u64);
    c.count("calls begun while another of the case ran", beside.load(Relaxed));
    match bad {
        Some(i) => complain(&seeds, i, "beside other calls"),
        None => Ok(()),
    }
}

#[cfg(feature = "parallel")]
fn pools(c: &mut Case) -> CaseResult {
    use rayon::prelude::*;
    let seeds = seeds(c);
    c.sign(seeds[0]);
    c.note(|| format!("calls made up from {seeds:x?}"));
    let exp = alone(c, &seeds);
    let t = c.rng.usize(1, 4);
    let pool = rayon::ThreadPoolBuilder::new().num_threads(t).build().unwrap();
    c.count("calls in pools", 2 * seeds.len() as u64);
    let got: Vec<u64> = pool.install(|| seeds.par_iter().map(|&s| job(s).1).collect());
    if let Some(i) = (0..exp.len()).find(|&i| got[i] != exp[i]) {
        return complain(&seeds, i, "in a pool");
    }
    // the calls' own parallel parts run on this pool's threads, below other calls
    let got: Vec<u64> = pool.install(|| {
        fn split(s: &[u64]) -> Vec<u64> {
            if s.len() < 2 {
                return s.iter().map(|&s| job(s).1).collect();
            }
            let (a, b) = s.split_at(s.len() / 2);
            let (mut a, b) = rayon::join(|| split(a), || split(b));
            a.extend(b);
            a
        }
        split(&seeds)
    });
    match (0..exp.len()).find(|&i| got[i] != exp[i]) {
        Some(i) => complain(&seeds, i, "in a pool"),
        None => Ok(()),
    }
}

#[cfg(not(feature = "parallel"))]
fn pools(_: &mut Case) -> CaseResult {
    Ok(())
}

fn ask<G: Sync + Send>(c: &mut Case, what: &str, build: impl FnOnce() -> G + Send, n: usize, answer: impl Fn(&G, usize) -> u64 + Sync) -> CaseResult {
    // built there, asked here
    let g = std::thread::scope(|s| s.spawn(build).join()).unwrap_or_else(|e| std::panic::resume_unwind(e));
    let exp: Vec<u64> = (0..n).map(|i| answer(&g, i)).collect();
    c.nontrivial |= exp.iter().any(|x| *x != exp[0]);
    let t = c.rng.usize(2, 4);
    let at: Vec<usize> = (0..t).map(|_| c.rng.usize(0, n - 1)).collect();
    c.count("questions at the same time", (t * n) as u64);
    let start = Barrier::new(t);
    let bad = std::thread::scope(|s| {
        let hs: Vec<_> = at
            .iter()
            .map(|&k| {
                let (g, exp, answer, start) = (&g, &exp, &answer, &start);
                s.spawn(move || {
                    start.wait();
                    (0..n).map(|i| (i + k) % n).find(|&i| answer(g, i) != exp[i])
                })
            })
            .collect();
        let mut bad = None;
        for h in hs {
            match h.join() {
                Ok(b) => bad = bad.or(b),
                Err(e) => std::panic::resume_unwind(e),
            }
        }
        bad
    });
    let after = (0..n).find(|&i| answer(&g, i) != exp[i]);
    match bad.or(after) {
        Some(i) => Err(format!("{what}: question {i} is answered otherwise {} than at first", if bad.is_some() { "beside other questions" } else { "afterwards" })),
        None => Ok(()),
    }
}

fn shared(c: &mut Case) -> CaseResult {
    let fill = *c.rng.pick(&FILLS);
    let kind = c.rng.below(4);
    c.count(["integer graphs", "string graphs", "float graphs", "float string graphs"][kind as usize], 1);
    let filter = |i: usize| ContourFilter { min_area: 0.0, simplify_contour: i & 1 == 0, clean_result: i & 2 == 0 };
    let d = |i: usize| if i & 4 == 0 { i_overlay::core::overlay::ContourDirection::CounterClockwise } else { i_overlay::core::overlay::ContourDirection::Clockwise };
    if kind < 2 {
        let (s, k, size) = scene(&mut c.rng);
        let sv = general_solver(&mut c.rng, size);
        c.sign(crate::rng::hash_str(&format!("{s:?}{k:?}")));
        c.note(|| format!("subj {}\nclip {}", show(&s), show(&k)));
        if kind == 0 {
            return ask(c, "integer graph", || overlay(&s, &k).into_graph_with_solver(fill, sv), 28, |g, i| {
                let mut h = Sum(0);
                h.shapes(&g.extract_shapes_custom(RULES[i % 7], d(i), i & 1 == 0, i / 14));
                h.0
            });
        }
        let o = string_overlay(&mut c.rng, &s, &k);
        return ask(c, "string graph", || o.into_graph_with_solver(fill, sv), 8, |g, i| {
            let mut h = Sum(0);
            h.shapes(&g.extract_shapes_custom(StringRule::Slice, d(i), i));
            h.0
        });
    }
    let f = Free::<f64>::random(&mut c.rng, 4);
    let sv = any_solver(&mut c.rng, Precision::HIGH);
    c.sign(f.sig());
    c.note(|| f.show());
    if kind == 2 {
        return ask(c, "float graph", || FloatOverlay::with_subj_and_clip(&f.subj, &f.clip).into_graph_with_solver(fill, sv), 28, |g, i| {
            let mut h = Sum(0);
            h.fshapes(&g.extract_shapes_custom(RULES[i % 7], d(i), filter(i)));
            h.0
        });
    }
    ask(c, "float string graph", || FloatStringOverlay::with_shape_and_string(&f.subj, &f.clip).into_graph_with_solver(fill, sv), 8, |g, i| {
        let mut h = Sum(0);
        h.fshapes(&g.extract_shapes_custom(StringRule::Slice, d(i), filter(i)));
        h.0
    })
}
