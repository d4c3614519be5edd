//! Slicing shapes by lines.
use crate::bars;
use crate::check;
use crate::eng::*;
use crate::general;
use crate::geo::*;
use crate::lattice::*;
use crate::rng::Rng;
use crate::plates;
use crate::runner::*;
use i_overlay::core::fill_rule::FillRule;
use i_overlay::core::overlay::ContourDirection;
use i_overlay::core::solver::Solver;
use i_overlay::i_shape::int::shape::IntShapes;
use i_overlay::string::overlay::StringOverlay;
use i_overlay::string::rule::StringRule;
use i_overlay::string::slice::IntSlice;
use std::collections::{HashMap, HashSet};

pub fn property() -> Property {
    Property {
        id: "C11",
        workloads: vec![
            Workload {
                name: "lattice",
                rule: "lattice scenes cut by up to six chains (through lines, polylines, closed loops, dangling ends, along edges, out of vertices): the shapes are compared cell by cell with the connected parts of the region between the cuts, every way of asking; non-trivial: the region is not empty and a chain is given",
                quick: 250_000,
                thorough: 3_000_000,
                run: lattice,
            },
            Workload {
                name: "mesh",
                rule: "large lattice scenes cut by 20 to 200 chains: hundreds of parts with holes and islands",
                quick: 2_000,
                thorough: 30_000,
                run: mesh,
            },
            Workload {
                name: "area",
                rule: "lattice scenes with a minimal area at and around the areas that occur: exactly the contours reaching it remain, in the same shapes",
                quick: 100_000,
                thorough: 1_000_000,
                run: area,
            },
            Workload {
                name: "general",
                rule: "arbitrary slopes up to +-2^30: every probe further than 8 units from all edges and lines is covered once or not at all as the fill rule says, shapes do not cross each other, and no shape lies on both sides of a line through the whole scene",
                quick: 100_000,
                thorough: 1_000_000,
                run: general,
            },
            Workload {
                name: "plates",
                rule: "up to tens of thousands of plates and holes (see C03): every plate comes with its own holes and no others",
                quick: 300,
                thorough: 10_000,
                run: plates_,
            },
            Workload {
                name: "bars",
                rule: "upright bars across lying ones, straight and aslant, up to tens of thousands of parts or holes: bars cut by lines, or by one path, into exactly the parts known beforehand",
                quick: 2_000,
                thorough: 10_000,
                run: bars_,
            },
        ],
        assumptions: &["coordinates stay within +-2^30", "between rounded crossings probes nearer than 8 units to an edge or line are not asked"],
    }
}

pub fn cut_by(rng: &mut Rng, n: i64, near: &[Contour], count: usize) -> Vec<Contour> {
    let near: Vec<Contour> = near.iter().filter(|c| !c.is_empty()).cloned().collect();
    let mut v: Vec<Contour> = (0..count).map(|_| chain(rng, n, &near)).collect();
    if count >= 20 && rng.chance(1, 2) {
        // one long path
        let (st, r) = (rng.usize(300, 3000), rng.range(1, 4.min(n)));
        v[0] = walk_open(rng, n, st, r);
    }
    v
}

/// the string overlay of shapes and open chains through one of the ways of adding them
pub fn string_overlay(rng: &mut Rng, subj: &[Contour], chains: &[Contour]) -> StringOverlay {
    let s: Vec<_> = subj.iter().map(|c| to_int(c)).collect();
    let mut o = match rng.below(5) {
        0 => StringOverlay::with_shape_contours(&s),
        1 => StringOverlay::with_shape(&s),
        2 => StringOverlay::with_shapes(&s.iter().map(|c| vec![c.clone()]).collect::<Vec<_>>()),
        3 if s.len() == 1 => StringOverlay::with_shape_contour(&s[0]),
        _ => {
            let mut o = StringOverlay::new(rng.usize(0, 9));
            match rng.below(3) {
                0 => o.add_shapes(&[s]),
                1 => o.add_shape_contours(&s),
                _ => for c in &s {
                    o.add_shape_contour_iter(c.iter().copied());
                },
            }
            o
        }
    };
    let paths: Vec<_> = chains.iter().map(|c| to_int(c)).collect();
    match rng.below(4) {
        0 => o.add_string_paths(&paths),
        1 => {
            for p in &paths {
                o.add_string_path(p);
            }
        }
        2 => {
            for p in &paths {
                let l: Vec<_> = p.windows(2).map(|w| [w[0], w[1]]).collect();
                o.add_string_lines(&l);
            }
        }
        _ => {
            for p in &paths {
                if p.len() > 3 && p.first() == p.last() {
                    // a closed chain: the end need not be repeated
                    let p = p[..p.len() - 1].to_vec();
                    if rng.bool() {
                        o.add_string_contour(&p);
                    } else {
                        o.add_string_contours(&[p]);
                    }
                } else {
                    o.add_string_path(p);
                }
            }
        }
    }
    o
}

/// the same call through the one-shot trait of shapes, shape or contour
fn one_shot(rng: &mut Rng, subj: &[Contour], chains: &[Contour], fill: FillRule) -> IntShapes {
    let s: Vec<_> = subj.iter().map(|c| to_int(c)).collect();
    let paths: Vec<_> = chains.iter().map(|c| to_int(c)).collect();
    let lines: Vec<_> = paths.iter().flat_map(|p| p.windows(2).map(|w| [w[0], w[1]]).collect::<Vec<_>>()).collect();
    if lines.len() == 1 && rng.bool() {
        return match rng.below(3) {
            0 => vec![s].slice_by_line(lines[0], fill),
            1 if s.len() == 1 => s[0].as_slice().slice_by_line(lines[0], fill),
            _ => s.slice_by_line(lines[0], fill),
        };
    }
    match rng.below(if paths.len() == 1 { 3 } else { 2 }) {
        0 => match rng.below(3) {
            0 => vec![s].slice_by_lines(&lines, fill),
            1 if s.len() == 1 => s[0].as_slice().slice_by_lines(&lines, fill),
            _ => s.slice_by_lines(&lines, fill),
        },
        1 => match rng.below(3) {
            0 => vec![s].slice_by_paths(&paths, fill),
            1 if s.len() == 1 => s[0].as_slice().slice_by_paths(&paths, fill),
            _ => s.slice_by_paths(&paths, fill),
        },
        _ => match rng.below(3) {
            0 => vec![s].slice_by_path(&paths[0], fill),
            1 if s.len() == 1 => s[0].as_slice().slice_by_path(&paths[0], fill),
            _ => s.slice_by_path(&paths[0], fill),
        },
    }
}

/// the connected parts of the filled cells: the part of each cell
fn parts(sc: &Scene, chains: &[Contour], fill: FillRule) -> (Vec<Option<usize>>, usize) {
    let w = sc.cells(&sc.subj).unwrap();
    let mut wall: HashSet<P> = passages(&sc.subj).iter().filter(|(_, v)| v.0 != 0).map(|(m, _)| *m).collect();
    for c in chains {
        for e in c.windows(2) {
            for (m, _, _) in steps(e[0], e[1]).expect("chains lie on the lattice") {
                wall.insert(m);
            }
        }
    }
    let mut part = vec![None; w.len()];
    let mut count = 0;
    for s in 0..w.len() {
        if part[s].is_some() || !filled(fill, w[s]) {
            continue;
        }
        let mut todo = vec![s];
        part[s] = Some(count);
        while let Some(i) = todo.pop() {
            for (j, m) in neighbours(sc.n, i) {
                if part[j].is_none() && filled(fill, w[j]) && !wall.contains(&m) {
                    part[j] = Some(count);
                    todo.push(j);
                }
            }
        }
        count += 1;
    }
    (part, count)
}

/// the triangles beside a triangle with the middles of the edges between
fn neighbours(n: i64, i: usize) -> Vec<(usize, P)> {
    let q = sample_of(n, i);
    // the middle of the square in doubled coordinates
    let m = (q.0.div_euclid(4) * 4 + 2, q.1.div_euclid(4) * 4 + 2);
    let (dx, dy) = (q.0 - m.0, q.1 - m.1);
    let mut r = vec![];
    for d in [1, -1] {
        // round the middle
        let o = (m.0 + dy * d, m.1 + dx * d);
        let edge = (m.0 + dx + dy * d, m.1 + dy + dx * d);
        r.push((cell_at(n, o).unwrap(), edge));
    }
    // over the side of the square
    if let Some(j) = cell_at(n, (q.0 + 2 * dx, q.1 + 2 * dy)) {
        r.push((j, (m.0 + 2 * dx, m.1 + 2 * dy)));
    }
    r
}

fn judge_parts(c: &mut Case, sc: &Scene, out: &Shapes, part: &[Option<usize>], count: usize, ccw: bool) -> CaseResult {
    let one = if ccw { 1 } else { -1 };
    let mut size = vec![0usize; count];
    for p in part.iter().flatten() {
        size[*p] += 1;
    }
    let mut seen = vec![false; count];
    for (k, s) in out.iter().enumerate() {
        check::directions(k, s, ccw)?;
        for v in s {
            if v.len() < 3 {
                return Err(format!("shape {k} has a contour of {} vertices", v.len()));
            }
        }
        let w = check::cells_of(sc, s)?;
        let mut of = None;
        let mut got = 0;
        for (i, &w) in w.iter().enumerate() {
            if w == 0 {
                continue;
            }
            if w != one {
                return Err(format!("shape {k} covers {} with winding {w}", check::at(sc, i)));
            }
            let p = part[i].ok_or_else(|| format!("shape {k} covers {}, which is outside of the sliced shape", check::at(sc, i)))?;
            if *of.get_or_insert(p) != p {
                return Err(format!("shape {k} is not cut where it should be: it covers parts on both sides, as at {}", check::at(sc, i)));
            }
            got += 1;
        }
        let Some(p) = of else { return Err(format!("shape {k} covers nothing")) };
        if got != size[p] {
            return Err(format!("shape {k} covers {got} of {} cells of a connected part, it is cut where no line runs", size[p]));
        }
        if seen[p] {
            return Err(format!("shape {k} covers a part which another shape covers too"));
        }
        seen[p] = true;
    }
    if let Some(p) = seen.iter().position(|s| !s) {
        let i = part.iter().position(|q| *q == Some(p)).unwrap();
        return Err(format!("the part around {} is missing", check::at(sc, i)));
    }
    c.count("parts judged", count as u64);
    c.count("parts with holes", out.iter().filter(|s| s.len() > 1).count() as u64);
    c.max("most parts", count as f64);
    Ok(())
}

fn judge(c: &mut Case, sc: &Scene, chains: &[Contour], fill: FillRule, sv: Solver) -> CaseResult {
    let (part, count) = parts(sc, chains, fill);
    c.nontrivial |= count > 0 && chains.iter().any(|c| c.len() > 1);
    let (s, k) = (sc.int_subj(), sc.map.map_all(chains));
    let d = dir(&mut c.rng);
    let g = string_overlay(&mut c.rng, &s, &k).into_graph_with_solver(fill, sv);
    let out = shapes_of(&g.extract_shapes_custom(StringRule::Slice, d, 0));
    judge_parts(c, sc, &out, &part, count, is_ccw(d)).map_err(|m| {
        c.note(|| format!("chains {}\n{}", show(&k), show_out(&out)));
        format!("{fill:?} {d:?} {}: {m}", show_solver(&sv))
    })?;
    if c.rng.chance(1, 3) {
        let again = shapes_of(&g.extract_shapes_custom(StringRule::Slice, d, 0));
        if again != out {
            return Err(format!("{fill:?}: the same graph sliced a second time gives something else"));
        }
        let a = shapes_of(&g.extract_shapes(StringRule::Slice));
        let b = shapes_of(&g.extract_shapes_custom(StringRule::Slice, ContourDirection::CounterClockwise, 0));
        if a != b {
            return Err("extract_shapes is not extract_shapes_custom with the documented defaults".into());
        }
        c.count("graphs asked again", 1);
    }
    if c.rng.chance(1, 2) {
        let out = shapes_of(&one_shot(&mut c.rng, &s, &k, fill));
        c.count("one-shot calls", 1);
        judge_parts(c, sc, &out, &part, count, true).map_err(|m| {
            c.note(|| format!("chains {}\none-shot {}", show(&k), show_out(&out)));
            format!("{fill:?} one-shot: {m}")
        })?;
    }
    Ok(())
}

fn lattice(c: &mut Case) -> CaseResult {
    let mut sc = Scene::random(&mut c.rng, 9, 4);
    sc.clip.clear();
    let k = c.rng.usize(1, 6);
    let chains = cut_by(&mut c.rng, sc.n, &sc.subj.clone(), k);
    c.sign(sc.sig());
    c.sign(crate::rng::hash_str(&show(&chains)));
    c.note(|| format!("{}\nchains {}", sc.show(), show(&sc.map.map_all(&chains))));
    for fill in FILLS {
        let sv = fine_solver(&mut c.rng);
        judge(c, &sc, &chains, fill, sv)?;
    }
    Ok(())
}

fn mesh(c: &mut Case) -> CaseResult {
    let mut sc = super::c01::crowd_scene(&mut c.rng, 8, 30);
    sc.clip.clear();
    let k = c.rng.usize(20, 200);
    let chains = cut_by(&mut c.rng, sc.n, &sc.subj.clone(), k);
    c.sign(sc.sig());
    c.sign(crate::rng::hash_str(&show(&chains)));
    c.note(|| format!("{}\nchains {}", sc.show(), show(&sc.map.map_all(&chains))).chars().take(6000).collect());
    let fill = *c.rng.pick(&FILLS);
    let sv = fine_solver(&mut c.rng);
    judge(c, &sc, &chains, fill, sv)
}

fn area(c: &mut Case) -> CaseResult {
    let mut sc = Scene::random(&mut c.rng, 9, 4);
    sc.clip.clear();
    let k = c.rng.usize(0, 6);
    let chains = cut_by(&mut c.rng, sc.n, &sc.subj.clone(), k);
    c.sign(sc.sig());
    c.sign(crate::rng::hash_str(&show(&chains)));
    let (s, k) = (sc.int_subj(), sc.map.map_all(&chains));
    c.note(|| format!("{}\nchains {}", sc.show(), show(&k)));
    let fill = *c.rng.pick(&FILLS);
    let d = dir(&mut c.rng);
    let sv = fine_solver(&mut c.rng);
    let g = string_overlay(&mut c.rng, &s, &k).into_graph_with_solver(fill, sv);
    let all = shapes_of(&g.extract_shapes_custom(StringRule::Slice, d, 0));
    let mut areas: Vec<i128> = all.iter().flatten().map(|k| area2(k).abs() / 2).collect();
    areas.sort();
    areas.dedup();
    for _ in 0..4 {
        if areas.is_empty() {
            break;
        }
        let m = (*c.rng.pick(&areas) + c.rng.range(-1, 1) as i128).max(0) as usize;
        c.nontrivial = true;
        let out = shapes_of(&g.extract_shapes_custom(StringRule::Slice, d, m));
        let keep = |k: &Contour| area2(k).abs() / 2 >= m as i128;
        let want: Shapes = all.iter().filter(|s| keep(&s[0])).map(|s| s.iter().filter(|k| keep(k)).cloned().collect()).collect();
        c.count("limits asked", 1);
        c.count("contours dropped", (all.iter().flatten().count() - want.iter().flatten().count()) as u64);
        if let Some(t) = check::diff(&out, &want) {
            c.note(|| format!("unfiltered {}with limit {}", show_out(&all), show_out(&out)));
            return Err(format!("{fill:?} {d:?} {}: with minimal area {m} the result is not the unfiltered one without smaller contours: {t}", show_solver(&sv)));
        }
    }
    Ok(())
}

pub fn general_chains(rng: &mut Rng, sc: &general::Scene, count: usize) -> (Vec<Contour>, Vec<bool>) {
    let all = sc.all();
    let vs: Vec<P> = all.iter().flatten().copied().collect();
    let s = sc.size;
    let lim = |v: i64, o: i64| v.clamp((-general::LIM).max(o - 2 * s - 2), general::LIM.min(o + 2 * s + 2));
    let mut chains = vec![];
    let mut through = vec![];
    for _ in 0..count {
        let pt = |rng: &mut Rng| -> P {
            if !vs.is_empty() && rng.chance(1, 4) {
                return *rng.pick(&vs);
            }
            (lim(sc.off.0 + rng.range(-s - s / 2, s + s / 2), sc.off.0), lim(sc.off.1 + rng.range(-s - s / 2, s + s / 2), sc.off.1))
        };
        if rng.bool() {
            // through everything
            let t = |rng: &mut Rng| rng.range(-s, s);
            let (lo, hi) = (lim(sc.off.0 - s - 1, sc.off.0), lim(sc.off.0 + s + 1, sc.off.0));
            let (blo, bhi) = (lim(sc.off.1 - s - 1, sc.off.1), lim(sc.off.1 + s + 1, sc.off.1));
            let (u, v) = (t(rng), t(rng));
            let l = if rng.bool() { vec![(lo, sc.off.1 + u), (hi, sc.off.1 + v)] } else { vec![(sc.off.0 + u, blo), (sc.off.0 + v, bhi)] };
            let l: Contour = l.into_iter().map(|p| (lim(p.0, sc.off.0), lim(p.1, sc.off.1))).collect();
            through.push(vs.iter().all(|v| (v.0 > l[0].0 && v.0 < l[1].0) || (v.1 > l[0].1 && v.1 < l[1].1 && l[0].1 == blo && l[1].1 == bhi)) && l[0] != l[1]);
            chains.push(l);
        } else {
            let k = rng.usize(2, 6);
            chains.push((0..k).map(|_| pt(rng)).collect());
            through.push(false);
        }
    }
    (chains, through)
}

fn general(c: &mut Case) -> CaseResult {
    let mut sc = general::Scene::random(&mut c.rng, general::LIM, 4);
    if sc.subj.is_empty() {
        sc.subj = std::mem::take(&mut sc.clip);
    }
    sc.clip.clear();
    let k = c.rng.usize(1, 4);
    let (chains, through) = general_chains(&mut c.rng, &sc, k);
    c.sign(sc.sig());
    c.sign(crate::rng::hash_str(&show(&chains)));
    c.note(|| format!("{}\nchains {}", sc.show(), show(&chains)));
    let fill = *c.rng.pick(&FILLS);
    let sv = general_solver(&mut c.rng, sc.size);
    let d = dir(&mut c.rng);
    let one = if is_ccw(d) { 1 } else { -1 };
    let out = shapes_of(&string_overlay(&mut c.rng, &sc.subj, &chains).into_graph_with_solver(fill, sv).extract_shapes_custom(StringRule::Slice, d, 0));
    let tell = |m: String| format!("{fill:?} {d:?} {}: {m}", show_solver(&sv));
    c.nontrivial |= !out.is_empty();
    for (i, s) in out.iter().enumerate() {
        check::directions(i, s, is_ccw(d)).map_err(tell)?;
        c.count("shapes judged", 1);
    }
    let mut lines: Vec<(P, P)> = vec![];
    for k in &chains {
        lines.extend(k.windows(2).map(|w| (w[0], w[1])));
    }
    let es = edges(&sc.subj);
    let near = |q: P| es.iter().chain(lines.iter()).map(|e| dist_to_seg(f(q), f(e.0), f(e.1))).fold(f64::MAX, f64::min);
    let oes: Vec<_> = out.iter().map(|s| edges(s)).collect();
    let cover = |q: P| -> Result<Vec<usize>, String> {
        let mut r = vec![];
        for (i, e) in oes.iter().enumerate() {
            match winding(e, q, 1) {
                Some(0) | None => {}
                Some(w) if w == one => r.push(i),
                Some(w) => return Err(format!("shape {i} covers {q:?} with winding {w}")),
            }
        }
        Ok(r)
    };
    // around shape edges and around lines
    let mut probes: Vec<P> = sc.probes(&mut c.rng, 16, 8.0).into_iter().map(|p| p.0).collect();
    let with_lines = general::Scene { clip: chains.iter().filter(|k| k.len() > 1).cloned().collect(), ..sc.clone() };
    probes.extend(with_lines.probes(&mut c.rng, 16, 8.0).into_iter().map(|p| p.0));
    let mut sides: HashMap<(usize, usize), i32> = HashMap::new();
    for q in probes {
        if near(q) < 8.0 {
            continue;
        }
        let Some(w) = winding(&es, q, 1) else { continue };
        let got = cover(q).map_err(tell)?;
        c.count("probes asked", 1);
        let want = filled(fill, w) as usize;
        if got.len() != want {
            c.note(|| show_out(&out));
            return Err(tell(format!("{q:?} should be covered {want} times, it is covered by the shapes {got:?}")));
        }
        for (j, k) in chains.iter().enumerate() {
            if !through[j] || want == 0 {
                continue;
            }
            let side = cross(k[0], k[1], q).signum() as i32;
            c.count("sides of through lines", 1);
            if *sides.entry((got[0], j)).or_insert(side) != side {
                c.note(|| show_out(&out));
                return Err(tell(format!("shape {} lies on both sides of the line {:?}-{:?}, as at {q:?}", got[0], k[0], k[1])));
            }
        }
    }
    // shapes share edges, but each runs once in each direction and none crosses another
    let mut dirs: HashSet<(P, P)> = HashSet::new();
    let mut pairs: HashSet<(P, P)> = HashSet::new();
    for e in oes.iter().flatten() {
        if !dirs.insert(*e) {
            return Err(tell(format!("the edge {e:?} is used twice in the same direction")));
        }
        pairs.insert((e.0.min(e.1), e.0.max(e.1)));
    }
    let pairs: Vec<Contour> = pairs.into_iter().map(|(a, b)| vec![a, b]).collect();
    super::c09::pairs_apart(&pairs).map_err(|m| tell(m.replace("vectors", "edges")))
}

fn plates_(c: &mut Case) -> CaseResult {
    let most = plates::most(&mut c.rng);
    let p = plates::plates(&mut c.rng, most);
    c.sign(crate::rng::hash_str(&p.show()));
    c.note(|| p.show());
    c.nontrivial = true;
    let sv = plates::solver(&mut c.rng, p.contours.len());
    let d = dir(&mut c.rng);
    let ccw = is_ccw(d);
    // a line which meets nothing
    let top = p.contours.iter().flatten().map(|p| p.1).max().unwrap() + 10;
    let o = string_overlay(&mut c.rng, &p.contours, &[vec![(0, top), (10, top + 5)]]);
    let out = shapes_of(&o.into_graph_with_solver(FillRule::EvenOdd, sv).extract_shapes_custom(StringRule::Slice, d, 0));
    c.count("plates judged", out.len() as u64);
    c.max("most shapes in one result", out.len() as f64);
    p.judge(&out, ccw).map_err(|m| format!("{}: {m}", show_solver(&sv)))
}

fn bars_(c: &mut Case) -> CaseResult {
    let most = plates::most(&mut c.rng);
    let b = bars::bars(&mut c.rng, most);
    c.sign(crate::rng::hash_str(&b.show()));
    c.note(|| b.show());
    c.nontrivial = true;
    let mut s = b.subj();
    let lines = b.lines(&mut c.rng);
    let fill = bars::dress(&mut c.rng, &mut [&mut s]);
    let sv = plates::solver(&mut c.rng, b.size());
    let d = dir(&mut c.rng);
    let (out, ccw) = if c.rng.bool() {
        (shapes_of(&one_shot(&mut c.rng, &s, &lines, fill)), true)
    } else {
        (shapes_of(&string_overlay(&mut c.rng, &s, &lines).into_graph_with_solver(fill, sv).extract_shapes_custom(StringRule::Slice, d, 0)), is_ccw(d))
    };
    c.count("parts judged", out.len() as u64);
    c.max("most shapes in one result", out.len() as f64);
    b.parts().judge(&out, ccw).map_err(|m| format!("{fill:?} {d:?} {}: {m}", show_solver(&sv)))
}
