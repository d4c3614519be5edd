//! Calls cost what their input and its crossings ask for, and give back what they took.
use super::c11::string_overlay;
use super::c21;
use crate::eng::*;
use crate::geo::*;
use crate::mem;
use crate::rng::Rng;
use crate::runner::*;
use i_overlay::core::divide::ContourDecomposition;
use i_overlay::core::fill_rule::FillRule;
use i_overlay::core::overlay::ContourDirection;
use i_overlay::core::overlay_rule::OverlayRule;
use i_overlay::core::simplify::Simplify;
use i_overlay::core::solver::{Precision, Solver, Strategy};
use i_overlay::mesh::outline::offset::OutlineOffset;
use i_overlay::mesh::stroke::offset::StrokeOffset;
use i_overlay::mesh::style::{LineCap, LineJoin, OutlineStyle, StrokeStyle};
use i_overlay::string::clip::{ClipRule, IntClip};
use i_overlay::string::rule::StringRule;

pub fn property() -> Property {
    Property {
        id: "C22",
        workloads: vec![
            Workload {
                name: "returned",
                rule: "a call of any kind (see C21) made again and again with a counting allocator: after the first two, every further one leaves exactly as many bytes allocated as it found, and no more than a hundred first ones on a thread leave any; non-trivial: the call takes memory",
                quick: 60_000,
                thorough: 3_000_000,
                run: returned,
            },
            Workload {
                name: "returned by threads",
                rule: "thousands of such calls, also with parallel sorting and splitting and in pools, made one after the other for several rounds: no round leaves more allocated than the one before",
                quick: 1,
                thorough: 1,
                run: returned_by_threads,
            },
            Workload {
                name: "bounds",
                rule: "scenes of arbitrary slopes and lattice scenes, up to thousands of edges, whose crossings are counted exactly: the working memory of a call and the vertices of its result stay within a multiple of edges and crossings",
                quick: 20_000,
                thorough: 1_000_000,
                run: bounds,
            },
            Workload {
                name: "growth",
                rule: "15 families of scenes (beads, fields of squares, holes, circles, stars, combs, strips, lattices of bars, chains, spirals, random triangles, nested squares), anywhere in the plane, of 8,000 and 64,000 edges (2,000 and 15,500 for the tree strategy), by ten calls: memory stays within its bounds, and where a vertical line meets only some of the edges the CPU time rises by less than 28 times, far less than the 64 of comparing all edges with each other",
                quick: 150,
                thorough: 1500,
                run: growth,
            },
        ],
        assumptions: &[
            "memory is what the crate and its dependencies ask of Rust's global allocator",
            "bundles of long edges which run a few units beside each other are left out: see the known findings",
        ],
    }
}

thread_local! {
    static KEPT: std::cell::Cell<u32> = const { std::cell::Cell::new(0) };
}

fn returned(c: &mut Case) -> CaseResult {
    let seed = c.rng.next();
    c.sign(seed);
    c.note(|| format!("the call made up from {seed:#x}: {}", c21::describe(seed)));
    set_serial(true);
    let at = mem::live();
    let ((kind, _), top) = mem::peak(|| c21::job(seed));
    let mut left = [0; 5];
    left[0] = mem::live() - at;
    for l in &mut left[1..] {
        c21::job(seed);
        *l = mem::live() - at;
    }
    set_serial(false);
    c.nontrivial = top > 0;
    c.count(c21::KINDS[kind], 5);
    c.count("bytes taken and given back", 5 * top as u64);
    // a thread may once set up something; call after call must not
    if left[0] > 0 {
        let n = KEPT.get() + 1;
        KEPT.set(n);
        c.max("calls on a thread which left something behind the first time", n as f64);
        if n > 100 {
            return Err(format!("{}: a call on new input leaves memory behind, {} bytes, as {n} calls of this thread did", c21::KINDS[kind], left[0]));
        }
    }
    if left[1..].windows(2).all(|w| w[1] > w[0]) {
        return Err(format!("{}: repeating the call leaves more memory behind each time: {left:?} bytes", c21::KINDS[kind]));
    }
    Ok(())
}

fn returned_by_threads(c: &mut Case) -> CaseResult {
    const ROUNDS: usize = 6;
    let n = if c.thorough { 40_000 } else { 3_000 };
    c.nontrivial = true;
    mem::count_all();
    let mut left = Vec::with_capacity(ROUNDS);
    #[cfg(feature = "parallel")]
    let pool = rayon::ThreadPoolBuilder::new().num_threads(3).build().unwrap();
    for _ in 0..ROUNDS {
        let seeds: Vec<u64> = (0..n).map(|_| c.rng.next()).collect();
        for s in &seeds {
            c21::job(*s);
        }
        #[cfg(feature = "parallel")]
        {
            use rayon::prelude::*;
            pool.install(|| seeds.par_iter().for_each(|s| _ = c21::job(*s)));
        }
        drop(seeds);
        left.push(mem::all_live());
        c.count("calls", 2 * n as u64);
    }
    c.max("bytes left after the last round", (left[ROUNDS - 1] - left[0]) as f64);
    c.note(|| format!("bytes left after each round: {left:?}"));
    // rayon's queues grow by chance
    if left[1..].windows(2).all(|w| w[1] - w[0] > n as i64 * 4) {
        return Err(format!("every round of calls leaves more memory behind: {left:?} bytes"));
    }
    Ok(())
}

fn square(x: i64, y: i64, a: i64) -> Contour {
    vec![(x, y), (x + a, y), (x + a, y + a), (x, y + a)]
}

pub const SCENES: [&str; 15] = ["beads", "squares", "shuffled squares", "holes", "nested", "circle", "star", "comb", "lying comb", "strips", "lying strips", "lattice", "chain", "spiral", "triangles"];

/// subject and clip of about n edges with no more than about n crossings
pub fn scene(kind: usize, n: usize, rng: &mut Rng) -> (Vec<Contour>, Vec<Contour>) {
    let m = n as i64;
    let side = ((m / 4) as f64).sqrt() as i64;
    let grid = |a: i64, step: i64| -> Vec<Contour> { (0..side * side).map(|i| square(i % side * step, i / side * step, a)).collect() };
    let circle = |r: f64, k: usize, o: i64, inner: f64| -> Contour {
        (0..k)
            .map(|i| {
                let a = i as f64 * std::f64::consts::TAU / k as f64;
                let r = if i % 2 == 0 { r } else { r * inner };
                (o + (r * a.cos()).round() as i64, (r * a.sin()).round() as i64)
            })
            .collect()
    };
    match SCENES[kind] {
        "squares" => (grid(60, 100), vec![square(0, 0, side * 50)]),
        "shuffled squares" => {
            let mut v = grid(60, 100);
            rng.shuffle(&mut v);
            let (a, b) = v.split_at(v.len() / 2);
            (a.to_vec(), b.to_vec())
        }
        "holes" => {
            let mut v = vec![square(-100, -100, side * 100 + 200)];
            v.extend(grid(60, 100).into_iter().map(|mut c| {
                c.reverse();
                c
            }));
            (v, vec![])
        }
        "nested" => ((0..m / 4).map(|i| square(i, i, 4 * m - 2 * i)).collect(), vec![]),
        "circle" => (vec![circle(1e8, n, 0, 1.0)], vec![circle(1e8, 100, 50_000_000, 1.0)]),
        "star" => (vec![circle(1e8, n, 0, 0.9)], vec![square(-100_000_000, -7, 200_000_000)]),
        "comb" | "lying comb" => {
            let mut c: Contour = vec![];
            for i in 0..m / 4 {
                c.extend([(8 * i, 0), (8 * i, 1_000_000), (8 * i + 4, 1_000_000), (8 * i + 4, 10)]);
            }
            c.push((2 * m, 10));
            c.push((2 * m, 0));
            let mut d = vec![(0, -100), (2 * m, -100), (2 * m, -50), (0, -50)];
            if SCENES[kind] == "lying comb" {
                c.iter_mut().chain(d.iter_mut()).for_each(|p| *p = (p.1, p.0));
            }
            (vec![c], vec![d])
        }
        "strips" | "lying strips" => {
            let mut v: Vec<Contour> = (0..m / 4).map(|i| vec![(10 * i, 0), (10 * i + 5, 0), (10 * i + 5, 1_000_000), (10 * i, 1_000_000)]).collect();
            let mut w = vec![vec![(-10, 1000), (3 * m, 1000), (3 * m, 2000), (-10, 2000)]];
            if SCENES[kind] == "lying strips" {
                v.iter_mut().chain(w.iter_mut()).for_each(|c| c.iter_mut().for_each(|p| *p = (p.1, p.0)));
            }
            (v, w)
        }
        "beads" => {
            // one contour which comes by again at every corner of its way back
            let k = m / 4;
            let mut c: Contour = vec![];
            for i in 0..k {
                c.extend([(100 * i, 0), (100 * i + 50, -40)]);
            }
            c.push((100 * k, 0));
            for i in (0..k).rev() {
                c.extend([(100 * i + 50, 40), (100 * i, 0)]);
            }
            c.pop();
            (vec![c], vec![])
        }
        "lattice" => {
            // long bars which cross in all
            let k = ((m / 8) as f64).sqrt() as i64;
            let bars: Vec<Contour> = (0..k).map(|i| vec![(100 * i, -10), (100 * i + 40, -10), (100 * i + 40, 100 * k), (100 * i, 100 * k)]).collect();
            let other = bars.iter().map(|c| c.iter().map(|p| (p.1, p.0)).collect()).collect();
            (bars, other)
        }
        "chain" => {
            let v = (0..m / 4).map(|i| square(50 * i, (i * 37) % 100, 60)).collect();
            (v, vec![])
        }
        "spiral" => {
            let turns = (m / 40).max(1);
            let mut a: Contour = (0..turns * 20)
                .map(|i| {
                    let t = i as f64 * std::f64::consts::TAU / 20.0;
                    let r = 1000.0 + 20.0 * t;
                    ((r * t.cos()) as i64, (r * t.sin()) as i64)
                })
                .collect();
            let b: Contour = a.iter().map(|p| ((p.0 as f64 * 1.0) as i64, p.1)).rev().collect();
            let b: Contour = b
                .iter()
                .map(|p| {
                    let l = ((p.0 * p.0 + p.1 * p.1) as f64).sqrt();
                    ((p.0 as f64 * (1.0 + 40.0 / l)) as i64, (p.1 as f64 * (1.0 + 40.0 / l)) as i64)
                })
                .collect();
            a.extend(b);
            (vec![a], vec![])
        }
        _ => {
            // everywhere about the same number of crossings an edge
            let s = (100.0 * (m as f64).sqrt()) as i64;
            let t = |rng: &mut Rng| -> Contour {
                let o = (rng.range(0, s), rng.range(0, s));
                (0..3).map(|_| (o.0 + rng.range(-100, 100), o.1 + rng.range(-100, 100))).collect()
            };
            ((0..m / 6).map(|_| t(rng)).collect(), (0..m / 6).map(|_| t(rng)).collect())
        }
    }
}

pub fn cpu() -> f64 {
    let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::clock_gettime(libc::CLOCK_THREAD_CPUTIME_ID, &mut t) };
    t.tv_sec as f64 + t.tv_nsec as f64 * 1e-9
}

pub const CALLS: [&str; 10] = ["overlay", "overlay tree", "overlay frag", "graph", "vectors", "slice", "clip", "stroke", "outline", "simplify"];

fn make(kind: usize, s: &[Contour], k: &[Contour]) -> usize {
    make_with(kind, s, k, Solver { strategy: Strategy::Auto, precision: Precision::HIGH, multithreading: None })
}

fn make_with(kind: usize, s: &[Contour], k: &[Contour], solver: Solver) -> usize {
    let sv = |strategy| Solver { strategy: if strategy == Strategy::Auto { solver.strategy } else { strategy }, ..solver };
    let fl = |c: &Contour| -> Vec<[f64; 2]> { c.iter().map(|p| [p.0 as f64, p.1 as f64]).collect() };
    let count = |v: &[Vec<Vec<i_overlay::i_float::int::point::IntPoint>>]| v.iter().flatten().map(|c| c.len()).sum::<usize>();
    let cw = ContourDirection::CounterClockwise;
    match CALLS[kind] {
        "overlay" => count(&overlay(s, k).overlay_custom(OverlayRule::Xor, FillRule::EvenOdd, cw, true, 0, sv(Strategy::Auto))),
        "overlay tree" => count(&overlay(s, k).overlay_custom(OverlayRule::Union, FillRule::NonZero, cw, true, 0, sv(Strategy::Tree))),
        "overlay frag" => count(&overlay(s, k).overlay_custom(OverlayRule::Union, FillRule::NonZero, cw, true, 0, sv(Strategy::Frag))),
        "graph" => {
            let g = overlay(s, k).into_graph_with_solver(FillRule::EvenOdd, sv(Strategy::Auto));
            RULES.iter().map(|r| count(&g.extract_shapes(*r))).sum()
        }
        "vectors" => overlay(s, k).into_shape_vectors(FillRule::EvenOdd, OverlayRule::Union, sv(Strategy::Auto)).iter().flatten().map(|c| c.len()).sum(),
        "slice" => count(&string_overlay(&mut Rng::new(1), s, k).into_graph_with_solver(FillRule::EvenOdd, sv(Strategy::Auto)).extract_shapes(StringRule::Slice)),
        "clip" => {
            let (s, k): (Vec<_>, Vec<_>) = (s.iter().map(|c| to_int(c)).collect(), k.iter().map(|c| to_int(c)).collect());
            let cr = ClipRule { invert: false, boundary_included: true };
            s.clip_paths(&k, FillRule::EvenOdd, cr).len() + k.clip_paths(&s, FillRule::EvenOdd, cr).len()
        }
        "stroke" => {
            let f: Vec<_> = s.iter().map(fl).collect();
            let st = StrokeStyle::new(2.0).line_join(LineJoin::Bevel).start_cap(LineCap::Butt).end_cap(LineCap::Butt);
            f.stroke(st, true).len()
        }
        "outline" => {
            let f: Vec<_> = s.iter().map(fl).collect();
            let st = OutlineStyle::new(2.0).line_join(LineJoin::Bevel);
            f.outline(st).len()
        }
        _ => {
            let s: Vec<_> = s.iter().map(|c| to_int(c)).collect();
            count(&s.simplify(FillRule::NonZero, cw, true, 0)) + s.first().and_then(|c| c.decompose_contours()).map_or(0, |v| v.len())
        }
    }
}


/// edges of non-zero length, and pairs of them with a point in common besides ends
fn crossings(cs: &[Contour]) -> (usize, usize) {
    let es = edges(cs);
    let mut x = 0;
    for i in 0..es.len() {
        for j in 0..i {
            let ((a, b), (p, q)) = (es[i], es[j]);
            if proper_cross(a, b, p, q) || [p, q].iter().any(|v| on_seg(*v, a, b)) || [a, b].iter().any(|v| on_seg(*v, p, q)) {
                x += 1;
            }
        }
    }
    (es.len(), x)
}

fn bounds(c: &mut Case) -> CaseResult {
    let lattice = c.rng.chance(1, 3);
    let (s, k, size) = if lattice {
        let s = crate::lattice::Scene::random(&mut c.rng, 16, 8);
        (s.int_subj(), s.int_clip(), i64::MAX)
    } else {
        let s = crate::general::Scene::random(&mut c.rng, crate::general::LIM, 8);
        (s.subj, s.clip, s.size)
    };
    c.note(|| format!("subj {}\nclip {}", show(&s), show(&k)));
    c.sign(crate::rng::hash_str(&format!("{s:?}{k:?}")));
    let all: Vec<Contour> = s.iter().chain(k.iter()).cloned().collect();
    let (n, x) = crossings(&all);
    c.nontrivial = n > 0;
    set_serial(true);
    let sv = general_solver(&mut c.rng, size);
    set_serial(false);
    let kind = c.rng.usize(0, CALLS.len() - 1);
    let (r, top) = mem::peak(|| make_with(kind, &s, &k, sv));
    let m = (n + x + 4) as f64;
    let buffer = matches!(CALLS[kind], "stroke" | "outline");
    c.count(CALLS[kind], 1);
    c.max(if buffer { "bytes at once for each edge and crossing, buffers" } else { "bytes at once for each edge and crossing" }, top as f64 / m);
    // a graph is asked for all seven rules
    let per = if CALLS[kind] == "graph" { 7.0 } else { 1.0 };
    c.max("vertices for each edge and crossing", r as f64 / m / per);
    // about four times what is seen on any scene
    if top as f64 > m * if buffer { 8000.0 } else { 2000.0 } {
        return Err(format!("{}: {top} bytes at once for {n} edges with {x} crossings", CALLS[kind]));
    }
    if r as f64 > 4.0 * per * m {
        return Err(format!("{}: {r} vertices for {n} edges with {x} crossings", CALLS[kind]));
    }
    Ok(())
}

/// families whose edges nearly all meet a common vertical line: the columns of the frag strategy
/// cut each edge into pieces, as many as the root of the number of edges
const DEEP: [&str; 6] = ["nested", "star", "lying comb", "lying strips", "spiral", "none"];

fn growth(c: &mut Case) -> CaseResult {
    let i = c.rng.next();
    c.sign(i);
    // each call on each family by turns
    let at = c.index as usize;
    let (kind, call) = (at % SCENES.len(), at / SCENES.len() % CALLS.len());
    let what = format!("{} of {}", CALLS[call], SCENES[kind]);
    c.note(|| what.clone());
    set_serial(true);
    let deep = DEEP.contains(&SCENES[kind]);
    // the tree is left for the frag strategy above 16,000 edges
    let tree = CALLS[call] == "overlay tree";
    let (small, large) = if deep || tree { (2_000, 15_500) } else { (8_000, 64_000) };
    // anywhere in the plane, also turned by half a turn
    let mut rng = Rng::new(i);
    let far = 400_000_000;
    let (dx, dy) = (*rng.pick(&[0, far, -far]), *rng.pick(&[0, far, -far]));
    let f = *rng.pick(&[1, -1]);
    let what = if dx == 0 && dy == 0 && f == 1 { what } else { format!("{what}, times {f}, moved by ({dx}, {dy})") };
    let buffer = matches!(CALLS[call], "stroke" | "outline");
    let cost = |n: usize| {
        let (mut s, mut k) = scene(kind, n, &mut Rng::new(i));
        for p in s.iter_mut().chain(k.iter_mut()).flatten() {
            *p = (f * p.0 + dx, f * p.1 + dy);
        }
        let t = cpu();
        let (r, top) = mem::peak(|| make(call, &s, &k));
        (cpu() - t, r, top)
    };
    let (mut a, mut b) = (f64::MAX, f64::MAX);
    let (mut r, mut top) = (0, 0);
    for _ in 0..if deep { 1 } else { 8 } {
        // the ratio of the best of several
        for _ in 0..3 {
            a = a.min(cost(small).0);
        }
        let (t, r1, top1) = cost(large);
        (b, r, top) = (b.min(t), r1, top1);
        if b < 15.0 * a {
            break;
        }
    }
    c.nontrivial = r > 0;
    c.count(&format!("{} of {}", CALLS[call], SCENES[kind]), 1);
    let ratio = b / a.max(2e-4);
    let per = top as f64 / large as f64 / if deep { (large as f64).sqrt() } else { 1.0 };
    let name = match (deep, buffer) {
        (false, false) => "bytes at once for each edge",
        (false, true) => "bytes at once for each edge, buffers",
        (true, false) => "bytes at once for each edge and the root of edges, deep scenes",
        (true, true) => "bytes at once for each edge and the root of edges, deep scenes, buffers",
    };
    c.max(name, per);
    c.max(if deep { "CPU time for 8 times the edges, deep scenes (not judged)" } else { "CPU time for 8 times the edges" }, ratio);
    let limit = match (deep, buffer) {
        (false, false) => 1500.0,
        (false, true) => 5000.0,
        (true, false) => 120.0,
        (true, true) => 800.0,
    };
    if per > limit {
        return Err(format!("{what}: {top} bytes at once for {large} edges"));
    }
    if !deep && ratio > 30.0 {
        return Err(format!("{what}: {b:.4} s for {large} edges, {ratio:.1} times the {a:.4} s for {small}"));
    }
    Ok(())
}

/// what fails, if it does
pub fn finding(name: &str) -> Option<String> {
    if name == "cluster" {
        let cost = |n: i64| {
            let s = vec![square(0, 0, 1_000_000_000)];
            let k: Vec<Contour> = (0..n / 4).map(|i| vec![(10 * i, 10), (10 * i + 5, 10), (10 * i + 5, 20), (10 * i, 20)]).collect();
            let sv = Solver { strategy: Strategy::Frag, precision: Precision::HIGH, multithreading: None };
            (0..3)
                .map(|_| {
                    let t = cpu();
                    overlay(&s, &k).overlay_custom(OverlayRule::Difference, FillRule::EvenOdd, ContourDirection::CounterClockwise, true, 0, sv);
                    cpu() - t
                })
                .fold(f64::MAX, f64::min)
        };
        let (a, b) = (cost(4_000), cost(32_000));
        return if b > 30.0 * a { Some(format!("{b:.3} s for 32,000 edges, {:.0} times the {a:.4} s for 4,000", b / a)) } else { None };
    }
    let (s, precision): (Vec<Contour>, _) = if name == "bundle" {
        (
            vec![
                vec![(624712702, -918065466), (884646134, -697200969), (884646134, -697200971), (624712705, -918065463)],
                vec![(657740905, -890001522), (874452449, -705862506), (677659704, -873076590), (624712705, -918065463), (714839174, -841485328), (869531042, -710044208), (657740905, -890001522)],
            ],
            Precision::HIGH,
        )
    } else {
        (
            vec![
                vec![(1, -1), (199999, 173628), (199999, 173626), (-1, 0)],
                vec![(1, 0), (199999, 173627), (200000, 173628)],
            ],
            Precision::ABSOLUTE,
        )
    };
    let (n, x) = crossings(&s);
    let sv = Solver { strategy: Strategy::List, precision, multithreading: None };
    let r: usize = overlay(&s, &[]).overlay_custom(OverlayRule::Subject, FillRule::EvenOdd, ContourDirection::CounterClockwise, true, 0, sv).iter().flatten().map(|c| c.len()).sum();
    if r > 4 * (n + x + 4) {
        return Some(format!("{r} vertices for {n} edges with {x} crossings"));
    }
    None
}
