//! Decomposition of contours that touch themselves.
use super::c01::crowd_scene;
use crate::eng::*;
use crate::general;
use crate::geo::*;
use crate::lattice::*;
use crate::rng::Rng;
use crate::runner::*;
use i_overlay::core::divide::ContourDecomposition;
use std::collections::HashMap;

pub fn property() -> Property {
    Property {
        id: "C10",
        workloads: vec![
            Workload {
                name: "results",
                rule: "contours of results on lattice scenes (rich in touching points), started at every vertex of theirs; non-trivial: some contour touches itself",
                quick: 180_000,
                thorough: 3_000_000,
                run: results,
            },
            Workload {
                name: "nested",
                rule: "loops hung into each other at random vertices, up to 40 loops with up to several loops in one vertex, random coordinates up to the i32 limits, random start; non-trivial: at least one repeated vertex",
                quick: 1_200_000,
                thorough: 20_000_000,
                run: nested,
            },
            Workload {
                name: "crowd",
                rule: "contours of results on scenes of hundreds to thousands of contours",
                quick: 1_800,
                thorough: 30_000,
                run: crowd,
            },
            Workload {
                name: "general",
                rule: "contours of results on scenes of arbitrary slopes up to +-2^30",
                quick: 60_000,
                thorough: 1_000_000,
                run: general,
            },
            Workload {
                name: "short",
                rule: "arbitrary closed sequences of 0 to 14 points out of a few, which touch, cross and retrace themselves (loops of two points included) but stay on no point; non-trivial: at least one repeated vertex",
                quick: 1_200_000,
                thorough: 20_000_000,
                run: short,
            },
            Workload {
                name: "vast",
                rule: "beads on a string which comes by again at every bead, rosettes through one point and combs of loops: up to 100,000 loops, begun anywhere, either way round",
                quick: 1_500,
                thorough: 10_000,
                run: vast,
            },
        ],
        assumptions: &["no contour repeats a vertex in a row"],
    }
}

fn judge(c: &mut Case, k: &[P], crossing: bool) -> CaseResult {
    let mut times: HashMap<P, usize> = HashMap::new();
    for p in k {
        *times.entry(*p).or_insert(0) += 1;
    }
    let extra = k.len() - times.len();
    let out = to_int(k).decompose_contours();
    c.count("contours asked", 1);
    let tell = |m: String| format!("{} decomposes wrongly: {m}", show(&[k.to_vec()]));
    let Some(out) = out else {
        if extra > 0 && k.len() > 2 {
            return Err(tell("it has a repeated vertex but is said to be simple".into()));
        }
        c.count("simple contours", 1);
        return Ok(());
    };
    if extra == 0 {
        return Err(tell("it has no repeated vertex but is decomposed".into()));
    }
    c.nontrivial = true;
    c.count("contours decomposed", 1);
    c.count("parts", out.len() as u64);
    c.max("most parts", out.len() as f64);
    c.max("most visits of a vertex", *times.values().max().unwrap() as f64);
    let parts: Vec<Contour> = out.iter().map(|p| from_int(p)).collect();
    for p in &parts {
        let mut v = p.clone();
        v.sort();
        v.dedup();
        if v.len() != p.len() {
            return Err(tell(format!("the part {} has a repeated vertex", show(&[p.clone()]))));
        }
    }
    let (mut a, mut b) = (edges(&[k.to_vec()]), edges(&parts));
    a.sort();
    b.sort();
    if a != b {
        let gone: Vec<_> = a.iter().filter(|e| b.binary_search(e).is_err()).take(3).collect();
        let new: Vec<_> = b.iter().filter(|e| a.binary_search(e).is_err()).take(3).collect();
        return Err(tell(format!("the parts {} do not consist of its edges: lost {gone:?}, new {new:?}", show(&parts))));
    }
    if crossing {
        // a point of a loop cut off before may come again
        if parts.len() < 2 || parts.len() > extra + 1 {
            return Err(tell(format!("{} parts for {extra} repeated visits", parts.len())));
        }
    } else if parts.len() != extra + 1 {
        return Err(tell(format!("{} parts instead of {}", parts.len(), extra + 1)));
    }
    Ok(())
}

fn turns(c: &mut Case, k: &Contour, max: usize) -> CaseResult {
    let n = k.len();
    let s = c.rng.usize(0, n - 1);
    for i in 0..n.min(max) {
        let r: Contour = (0..n).map(|j| k[(s + i + j) % n]).collect();
        judge(c, &r, false)?;
    }
    Ok(())
}

fn results(c: &mut Case) -> CaseResult {
    let sc = Scene::random(&mut c.rng, 10, 5);
    c.sign(sc.sig());
    c.note(|| sc.show());
    for _ in 0..3 {
        let (fill, rule, d) = (*c.rng.pick(&FILLS), *c.rng.pick(&RULES), dir(&mut c.rng));
        let simplify = c.rng.bool();
        let sv = fine_solver(&mut c.rng);
        let out = run_overlay(&sc.int_subj(), &sc.int_clip(), rule, fill, d, simplify, 0, sv);
        for k in out.iter().flatten() {
            turns(c, k, 12)?;
        }
    }
    Ok(())
}

fn crowd(c: &mut Case) -> CaseResult {
    let sc = crowd_scene(&mut c.rng, 10, 40);
    c.sign(sc.sig());
    c.note(|| sc.show().chars().take(4000).collect());
    let (fill, rule, d) = (*c.rng.pick(&FILLS), *c.rng.pick(&RULES), dir(&mut c.rng));
    let simplify = c.rng.bool();
    let sv = fine_solver(&mut c.rng);
    let out = run_overlay(&sc.int_subj(), &sc.int_clip(), rule, fill, d, simplify, 0, sv);
    for k in out.iter().flatten() {
        turns(c, k, 3)?;
    }
    Ok(())
}

fn general(c: &mut Case) -> CaseResult {
    let sc = general::Scene::random(&mut c.rng, general::LIM, 5);
    c.sign(sc.sig());
    c.note(|| sc.show());
    let sv = general_solver(&mut c.rng, sc.size);
    let (fill, rule, d) = (*c.rng.pick(&FILLS), *c.rng.pick(&RULES), dir(&mut c.rng));
    let out = run_overlay(&sc.subj, &sc.clip, rule, fill, d, true, 0, sv);
    for k in out.iter().flatten() {
        turns(c, k, 6)?;
    }
    Ok(())
}

/// a loop whose vertices carry further loops
fn grow(rng: &mut Rng, used: &mut Vec<P>, lim: i64, first: Option<P>, left: &mut usize, depth: usize) -> Contour {
    let n = rng.usize(3, 7);
    let mut c = vec![];
    for i in 0..n {
        let p = match first {
            Some(p) if i == 0 => p,
            _ => loop {
                let p = (rng.range(-lim, lim), rng.range(-lim, lim));
                if !used.contains(&p) {
                    used.push(p);
                    break p;
                }
            },
        };
        c.push(p);
        let mut again = 0;
        while *left > 0 && depth < 6 && again < 4 && rng.chance(1, 3) && !(i == 0 && first.is_some()) {
            *left -= 1;
            again += 1;
            let mut l = grow(rng, used, lim, Some(p), left, depth + 1);
            // p, the rest of the loop, p again
            l.remove(0);
            c.extend(l);
            c.push(p);
        }
    }
    c
}

fn nested(c: &mut Case) -> CaseResult {
    let lim = match c.rng.below(3) {
        0 => 12,
        1 => 1000,
        _ => i32::MAX as i64,
    };
    let mut left = if lim == 12 { c.rng.usize(0, 8) } else { c.rng.usize(0, 40) };
    let mut used = vec![];
    let mut k = grow(&mut c.rng, &mut used, lim, None, &mut left, 0);
    let s = c.rng.usize(0, k.len() - 1);
    k.rotate_left(s);
    if c.rng.bool() {
        k.reverse();
    }
    c.sign(crate::rng::hash_str(&show(&[k.clone()])));
    c.note(|| show(&[k.clone()]));
    judge(c, &k, false)
}

fn short(c: &mut Case) -> CaseResult {
    let n = c.rng.usize(0, 14);
    let pool: Vec<P> = (0..c.rng.usize(2, 9)).map(|i| if c.rng.bool() { (i as i64, c.rng.range(-2, 2)) } else { (c.rng.range(i32::MIN as i64, i32::MAX as i64), c.rng.range(-9, 9)) }).collect();
    let mut k: Contour = vec![];
    for _ in 0..n {
        let p = *c.rng.pick(&pool);
        if k.last() != Some(&p) {
            k.push(p);
        }
    }
    while k.len() > 1 && k.first() == k.last() {
        k.pop();
    }
    c.sign(crate::rng::hash_str(&show(&[k.clone()])));
    c.note(|| show(&[k.clone()]));
    judge(c, &k, true)
}

fn vast(c: &mut Case) -> CaseResult {
    let most = if c.rng.chance(1, 30) { 100_000 } else { 5_000 };
    let n = c.rng.log_range(most).max(2);
    let kind = c.rng.below(4);
    let mut k: Contour = vec![];
    match kind {
        // along a line and back by the same points
        0 => {
            for i in 0..n {
                k.extend([(100 * i, 0), (100 * i + 50, -40)]);
            }
            k.push((100 * n, 0));
            for i in (0..n).rev() {
                k.push((100 * i + 50, 40));
                if i > 0 {
                    k.push((100 * i, 0));
                }
            }
        }
        // all loops through one point
        1 => {
            for i in 0..n {
                k.extend([(0, 0), (1 + i, 1000), (1 + i, 1001 + c.rng.range(0, 5))]);
            }
        }
        // a back with a loop at some of its points
        2 => {
            for i in 0..n {
                let p = (10 * i, 0);
                k.push(p);
                for j in 0..c.rng.log_range(4) {
                    k.extend([(10 * i + 1 + 2 * j, 7), (10 * i + 2 + 2 * j, 7), p]);
                }
            }
            k.push((10 * n, -100));
            k.push((-10, -100));
        }
        // loops in loops in loops
        _ => {
            for i in 0..n {
                k.extend([(5 * i, 5 * i), (5 * i + 3, 5 * i)]);
            }
            k.push((5 * n, 5 * n));
            for i in (0..n).rev() {
                k.push((5 * i, 5 * i + 3));
                if i > 0 {
                    k.push((5 * i, 5 * i));
                }
            }
        }
    }
    let s = c.rng.usize(0, k.len() - 1);
    k.rotate_left(s);
    if c.rng.bool() {
        k.reverse();
    }
    c.sign(crate::rng::hash_str(&format!("{kind} {n} {s}")));
    c.note(|| format!("kind {kind}, {n} loops, begun at {s}: {}", show(&[k[..k.len().min(100)].to_vec()])));
    judge(c, &k, false).map_err(|m| m.chars().take(2000).collect())
}
