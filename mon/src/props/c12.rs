//! Clipping lines by shapes.
use super::c11::{cut_by, general_chains, string_overlay};
use crate::bars;
use crate::eng::*;
use crate::general;
use crate::geo::*;
use crate::lattice::*;
use crate::plates;
use crate::rng::Rng;
use crate::runner::*;
use i_overlay::core::fill_rule::FillRule;
use i_overlay::core::solver::Solver;
use i_overlay::i_float::int::point::IntPoint;
use i_overlay::string::clip::{ClipRule, IntClip};
use i_overlay::string::overlay::StringOverlay;
use std::collections::{HashMap, HashSet};

pub fn property() -> Property {
    Property {
        id: "C12",
        workloads: vec![
            Workload {
                name: "lattice",
                rule: "lattice scenes and up to eight chains (through lines, polylines going back over themselves, closed loops, along edges, out of vertices), the four fill and the four clip rules: the directed steps of the paths are exactly those the rule keeps, each once; non-trivial: some but not all steps are kept",
                quick: 250_000,
                thorough: 3_000_000,
                run: lattice,
            },
            Workload {
                name: "mesh",
                rule: "large lattice scenes and 20 to 200 chains",
                quick: 2_000,
                thorough: 30_000,
                run: mesh,
            },
            Workload {
                name: "line",
                rule: "lattice scenes and one straight line: its kept runs are the paths, whole and in its direction",
                quick: 200_000,
                thorough: 2_000_000,
                run: line,
            },
            Workload {
                name: "general",
                rule: "arbitrary slopes up to +-2^30: probes on the lines further than 10 units from every shape edge are within 6 units of a path in the line's direction when the rule keeps them, otherwise no path is near; the paths of a clip rule and of its inverse are exactly the directed edges of the arranged lines; every path runs along the lines",
                quick: 75_000,
                thorough: 800_000,
                run: general,
            },
            Workload {
                name: "bars",
                rule: "upright bars across lying ones, straight and aslant, up to tens of thousands of parts or holes: of lines along the lying bars, or of one path along them all, exactly the pieces in the upright ones, or exactly the others",
                quick: 3_000,
                thorough: 20_000,
                run: bars_,
            },
            Workload {
                name: "long",
                rule: "one path of up to 200,000 points up and down through a rectangle, sometimes beyond its sides, straight and aslant: exactly the pieces inside, or exactly the others, in its direction",
                quick: 800,
                thorough: 20_000,
                run: long,
            },
        ],
        assumptions: &[
            "coordinates stay within +-2^30",
            "several lines over each other in the same direction count as one",
            "between rounded crossings probes nearer than 10 units to a shape's edge are not asked, nor is the direction of pieces which span less than 4 units in x (rounding can make a steep line run back and forth)",
        ],
    }
}

const CLIPS: [ClipRule; 4] = [
    ClipRule { invert: false, boundary_included: false },
    ClipRule { invert: false, boundary_included: true },
    ClipRule { invert: true, boundary_included: false },
    ClipRule { invert: true, boundary_included: true },
];

fn show_rule(r: ClipRule) -> String {
    format!("invert {} boundary_included {}", r.invert, r.boundary_included)
}

/// inside: both sides filled, boundary: one of them; inverting takes the complement
fn keeps(r: ClipRule, left: bool, right: bool) -> bool {
    let inside = if r.boundary_included { left || right } else { left && right };
    inside != r.invert
}

fn paths_of(v: &[Vec<IntPoint>]) -> Vec<Contour> {
    v.iter().map(|p| from_int(p)).collect()
}

fn one_shot(rng: &mut Rng, subj: &[Contour], chains: &[Contour], fill: FillRule, r: ClipRule) -> Vec<Contour> {
    let s: Vec<_> = subj.iter().map(|c| to_int(c)).collect();
    let paths: Vec<_> = chains.iter().map(|c| to_int(c)).collect();
    let lines: Vec<[IntPoint; 2]> = paths.iter().flat_map(|p| p.windows(2).map(|w| [w[0], w[1]]).collect::<Vec<_>>()).collect();
    if rng.chance(1, 5) {
        return paths_of(&string_overlay(rng, subj, chains).clip_string_lines(fill, r));
    }
    let how = rng.below(3);
    macro_rules! call {
        ($f:ident, $a:expr) => {
            match how {
                0 => vec![s].$f($a, fill, r),
                1 if s.len() == 1 => s[0].as_slice().$f($a, fill, r),
                _ => s.$f($a, fill, r),
            }
        };
    }
    let out = if lines.len() == 1 && rng.bool() {
        call!(clip_line, lines[0])
    } else if paths.len() == 1 && rng.bool() {
        call!(clip_path, &paths[0])
    } else if rng.bool() {
        call!(clip_lines, &lines)
    } else {
        call!(clip_paths, &paths)
    };
    paths_of(&out)
}

/// the directed steps of the chains, with the triangles beside them
fn all_steps(sc: &Scene, chains: &[Contour], w: &[i32], fill: FillRule) -> HashMap<(P, P), (bool, bool)> {
    let mut m = HashMap::new();
    let is = |i: Option<usize>| i.map_or(false, |i| filled(fill, w[i]));
    for c in chains {
        for e in c.windows(2) {
            for (mid, p, q) in steps(e[0], e[1]).expect("chains lie on the lattice") {
                let (l, r) = sides(sc.n, mid, p, q);
                m.insert((p, q), (is(l), is(r)));
            }
        }
    }
    m
}

fn judge_paths(c: &mut Case, sc: &Scene, out: &[Contour], all: &HashMap<(P, P), (bool, bool)>, r: ClipRule) -> CaseResult {
    let mut seen: HashSet<(P, P)> = HashSet::new();
    for (k, p) in out.iter().enumerate() {
        if p.len() < 2 {
            return Err(format!("path {k} has {} points", p.len()));
        }
        let b = sc.back(std::slice::from_ref(p)).map_err(|m| format!("path {k}: {m}"))?.remove(0);
        for e in b.windows(2) {
            if e[0] == e[1] {
                return Err(format!("path {k} repeats the point {:?}", sc.map.map(e[0])));
            }
            let st = steps(e[0], e[1]).ok_or_else(|| format!("path {k} runs along no line from {:?} to {:?}", sc.map.map(e[0]), sc.map.map(e[1])))?;
            for (_, p, q) in st {
                let tell = |t: &str| Err(format!("path {k} {t}, from {:?} to {:?} (lattice {p:?} {q:?})", sc.map.map(e[0]), sc.map.map(e[1])));
                match all.get(&(p, q)) {
                    None => return tell("runs where no line runs in this direction"),
                    Some(&(l, rr)) if !keeps(r, l, rr) => return tell("runs where the rule keeps nothing"),
                    _ => {}
                }
                if !seen.insert((p, q)) {
                    return tell("runs where a path runs already");
                }
            }
        }
    }
    let want: Vec<_> = all.iter().filter(|(_, &(l, rr))| keeps(r, l, rr)).collect();
    if let Some((e, _)) = want.iter().find(|(e, _)| !seen.contains(e)) {
        return Err(format!("a piece the rule keeps is missing, from {:?} towards {:?}", sc.map.map(e.0), sc.map.map(e.1)));
    }
    c.count("steps kept", want.len() as u64);
    c.count("steps not kept", (all.len() - want.len()) as u64);
    c.count("paths judged", out.len() as u64);
    c.nontrivial |= !want.is_empty() && want.len() < all.len();
    Ok(())
}

fn judge(c: &mut Case, sc: &Scene, chains: &[Contour], fill: FillRule, r: ClipRule, sv: Solver) -> CaseResult {
    let w = sc.cells(&sc.subj).unwrap();
    let all = all_steps(sc, chains, &w, fill);
    let (s, k) = (sc.int_subj(), sc.map.map_all(chains));
    let out = paths_of(&string_overlay(&mut c.rng, &s, &k).clip_string_lines_with_solver(fill, r, sv));
    let tell = |c: &mut Case, m: String, out: &[Contour], how: &str| {
        c.note(|| format!("chains {}\n{how} paths {}", show(&k), show(out)));
        format!("{fill:?} {} {}{how}: {m}", show_rule(r), show_solver(&sv))
    };
    judge_paths(c, sc, &out, &all, r).map_err(|m| tell(c, m, &out, ""))?;
    if c.rng.chance(1, 2) {
        let out = one_shot(&mut c.rng, &s, &k, fill, r);
        c.count("one-shot calls", 1);
        judge_paths(c, sc, &out, &all, r).map_err(|m| tell(c, m, &out, " one-shot"))?;
    }
    Ok(())
}

fn lattice(c: &mut Case) -> CaseResult {
    let mut sc = Scene::random(&mut c.rng, 9, 4);
    sc.clip.clear();
    let k = c.rng.usize(1, 8);
    let chains = cut_by(&mut c.rng, sc.n, &sc.subj.clone(), k);
    c.sign(sc.sig());
    c.sign(crate::rng::hash_str(&show(&chains)));
    c.note(|| format!("{}\nchains {}", sc.show(), show(&sc.map.map_all(&chains))));
    for fill in FILLS {
        let sv = fine_solver(&mut c.rng);
        let r = *c.rng.pick(&CLIPS);
        judge(c, &sc, &chains, fill, r, sv)?;
    }
    Ok(())
}

fn mesh(c: &mut Case) -> CaseResult {
    let mut sc = super::c01::crowd_scene(&mut c.rng, 8, 30);
    sc.clip.clear();
    let k = c.rng.usize(20, 200);
    let chains = cut_by(&mut c.rng, sc.n, &sc.subj.clone(), k);
    c.sign(sc.sig());
    c.sign(crate::rng::hash_str(&show(&chains)));
    c.note(|| format!("{}\nchains {}", sc.show(), show(&sc.map.map_all(&chains))).chars().take(6000).collect());
    let fill = *c.rng.pick(&FILLS);
    let sv = fine_solver(&mut c.rng);
    let r = *c.rng.pick(&CLIPS);
    judge(c, &sc, &chains, fill, r, sv)
}

fn line(c: &mut Case) -> CaseResult {
    let mut sc = Scene::random(&mut c.rng, 9, 4);
    sc.clip.clear();
    let mut l = walk_open(&mut c.rng, sc.n, 1, sc.n);
    for _ in 0..8 {
        if l.len() == 2 {
            break;
        }
        l = walk_open(&mut c.rng, sc.n, 1, sc.n);
    }
    if l.len() < 2 {
        return Ok(());
    }
    c.sign(sc.sig());
    c.sign(crate::rng::hash_str(&show(&[l.clone()])));
    let fill = *c.rng.pick(&FILLS);
    let w = sc.cells(&sc.subj).unwrap();
    let is = |i: Option<usize>| i.map_or(false, |i| filled(fill, w[i]));
    let (s, k) = (sc.int_subj(), sc.map.map_all(std::slice::from_ref(&l)));
    c.note(|| format!("{}\nline {}", sc.show(), show(&k)));
    for r in CLIPS {
        let mut want: Vec<(P, P)> = vec![];
        let st = steps(l[0], l[1]).unwrap();
        for &(mid, p, q) in &st {
            let (a, b) = sides(sc.n, mid, p, q);
            if !keeps(r, is(a), is(b)) {
                continue;
            }
            match want.last_mut() {
                Some(e) if e.1 == p => e.1 = q,
                _ => want.push((p, q)),
            }
        }
        let sv = fine_solver(&mut c.rng);
        let out = if c.rng.bool() { one_shot(&mut c.rng, &s, &k, fill, r) } else { paths_of(&string_overlay(&mut c.rng, &s, &k).clip_string_lines_with_solver(fill, r, sv)) };
        let mut got = vec![];
        for p in &out {
            if p.len() < 2 {
                return Err(format!("{fill:?} {}: a path of {} points", show_rule(r), p.len()));
            }
            let b = sc.back(std::slice::from_ref(p))?.remove(0);
            let up = |a: P, b: P| (b.0 - a.0) * (l[1].0 - l[0].0) + (b.1 - a.1) * (l[1].1 - l[0].1) > 0;
            if let Some(e) = b.windows(2).find(|e| !up(e[0], e[1])) {
                return Err(format!("{fill:?} {}: a path runs against the line at {:?}: {}", show_rule(r), sc.map.map(e[0]), show(&out)));
            }
            got.push((b[0], *b.last().unwrap()));
        }
        let key = |e: &(P, P)| (e.0 .0 - l[0].0).abs().max((e.0 .1 - l[0].1).abs());
        got.sort_by_key(key);
        c.count("runs of lines judged", want.len() as u64);
        c.nontrivial |= !want.is_empty() && want != [(l[0], l[1])];
        if got != want {
            let m = |v: &[(P, P)]| v.iter().map(|e| format!("{:?}-{:?}", sc.map.map(e.0), sc.map.map(e.1))).collect::<Vec<_>>().join(" ");
            return Err(format!("{fill:?} {}: the kept runs of the line are {} but the paths run {}", show_rule(r), m(&want), m(&got)));
        }
    }
    Ok(())
}

fn directed(out: &[Contour]) -> Result<HashSet<(P, P)>, String> {
    let mut m = HashSet::new();
    for p in out {
        if p.len() < 2 {
            return Err(format!("a path of {} points", p.len()));
        }
        for e in p.windows(2) {
            if e[0] == e[1] {
                return Err(format!("a path repeats the point {:?}", e[0]));
            }
            if !m.insert((e[0], e[1])) {
                return Err(format!("the paths run twice from {:?} to {:?}", e[0], e[1]));
            }
        }
    }
    Ok(m)
}

fn general(c: &mut Case) -> CaseResult {
    let mut sc = general::Scene::random(&mut c.rng, general::LIM, 4);
    if sc.subj.is_empty() {
        sc.subj = std::mem::take(&mut sc.clip);
    }
    sc.clip.clear();
    let k = c.rng.usize(1, 5);
    let (chains, _) = general_chains(&mut c.rng, &sc, k);
    c.sign(sc.sig());
    c.sign(crate::rng::hash_str(&show(&chains)));
    c.note(|| format!("{}\nchains {}", sc.show(), show(&chains)));
    let fill = *c.rng.pick(&FILLS);
    let sv = general_solver(&mut c.rng, sc.size);
    let lines: Vec<(P, P)> = chains.iter().flat_map(|k| k.windows(2).map(|w| (w[0], w[1])).collect::<Vec<_>>()).filter(|e| e.0 != e.1).collect();
    let es = edges(&sc.subj);
    let mut sets = vec![];
    for r in CLIPS {
        let tell = |m: String| format!("{fill:?} {} {}: {m}", show_rule(r), show_solver(&sv));
        let how = c.rng.next();
        let o: StringOverlay = string_overlay(&mut Rng::new(how), &sc.subj, &chains);
        let out = paths_of(&o.clip_string_lines_with_solver(fill, r, sv));
        let set = directed(&out).map_err(tell)?;
        // every edge runs along a line in its direction
        for &(a, b) in &set {
            // (rounding may order crossings of a steep line wrongly: it then runs back and forth within a unit or two)
            let long = (a.0 - b.0).abs().max((a.1 - b.1).abs()) > 40 && (a.0 - b.0).abs() > 4;
            let ok = lines.iter().any(|l| {
                let d = |p: P| dist_to_seg(f(p), f(l.0), f(l.1)) < 6.0;
                d(a) && d(b) && (!long || (b.0 - a.0) as i128 * (l.1 .0 - l.0 .0) as i128 + (b.1 - a.1) as i128 * (l.1 .1 - l.0 .1) as i128 > 0)
            });
            if !ok {
                return Err(tell(format!("a path runs from {a:?} to {b:?}, along no line in this direction")));
            }
        }
        c.count("path edges judged", set.len() as u64);
        // probes on the lines
        for _ in 0..24 {
            if lines.is_empty() {
                break;
            }
            let l = *c.rng.pick(&lines);
            let t = c.rng.f64();
            let q = (l.0 .0 + ((l.1 .0 - l.0 .0) as f64 * t).round() as i64, l.0 .1 + ((l.1 .1 - l.0 .1) as f64 * t).round() as i64);
            if es.iter().any(|e| dist_to_seg(f(q), f(e.0), f(e.1)) < 10.0) {
                continue;
            }
            let Some(w) = winding(&es, q, 1) else { continue };
            let inside = filled(fill, w);
            c.count("probes asked", 1);
            if keeps(r, inside, inside) {
                let ok = set.iter().any(|&(a, b)| {
                    dist_to_seg(f(q), f(a), f(b)) < 6.0
                        && ((a.0 - b.0).abs().max((a.1 - b.1).abs()) <= 40
                            || (b.0 - a.0) as i128 * (l.1 .0 - l.0 .0) as i128 + (b.1 - a.1) as i128 * (l.1 .1 - l.0 .1) as i128 > 0)
                });
                if !ok {
                    c.note(|| show(&out));
                    return Err(tell(format!("the rule keeps the line {l:?} at {q:?}, no path runs there in its direction")));
                }
            } else if let Some(e) = set.iter().find(|&&(a, b)| dist_to_seg(f(q), f(a), f(b)) < 3.0) {
                c.note(|| show(&out));
                return Err(tell(format!("the rule keeps nothing at {q:?}, a path runs there: {e:?}")));
            }
        }
        sets.push(set);
    }
    // a rule and its inverse part the arranged lines
    let whole: HashSet<(P, P)> = sets[0].union(&sets[2]).copied().collect();
    let whole2: HashSet<(P, P)> = sets[1].union(&sets[3]).copied().collect();
    if let Some(e) = sets[0].intersection(&sets[2]).next().or(sets[1].intersection(&sets[3]).next()) {
        return Err(format!("{fill:?} {}: the piece {e:?} is kept by a rule and by its inverse", show_solver(&sv)));
    }
    if let Some(e) = whole.symmetric_difference(&whole2).next() {
        return Err(format!("{fill:?} {}: with the boundary on one side the piece {e:?} is kept by a rule or its inverse, with it on the other by neither", show_solver(&sv)));
    }
    if let Some(e) = sets[0].difference(&sets[1]).next() {
        return Err(format!("{fill:?} {}: the piece {e:?} is inside only while the boundary is not", show_solver(&sv)));
    }
    c.nontrivial |= !sets[0].is_empty() && !sets[3].is_empty();
    c.count("pieces on boundaries", sets[1].difference(&sets[0]).count() as u64);
    Ok(())
}

fn bars_(c: &mut Case) -> CaseResult {
    let most = plates::most(&mut c.rng);
    let b = bars::bars(&mut c.rng, most);
    c.sign(crate::rng::hash_str(&b.show()));
    c.note(|| b.show());
    c.nontrivial = true;
    let mut s = b.subj();
    let lines = b.lines(&mut c.rng);
    let fill = bars::dress(&mut c.rng, &mut [&mut s]);
    let sv = plates::solver(&mut c.rng, b.size());
    let r = *c.rng.pick(&CLIPS);
    let out = if c.rng.bool() {
        one_shot(&mut c.rng, &s, &lines, fill, r)
    } else {
        paths_of(&string_overlay(&mut c.rng, &s, &lines).clip_string_lines_with_solver(fill, r, sv))
    };
    c.count("paths judged", out.len() as u64);
    c.max("most paths in one result", out.len() as f64);
    c.max("longest path", out.iter().map(|p| p.len()).max().unwrap_or(0) as f64);
    b.judge_clip(&lines, &out, !r.invert).map_err(|m| format!("{fill:?} {} {}: {m}", show_rule(r), show_solver(&sv)))
}

fn long(c: &mut Case) -> CaseResult {
    let most = if c.rng.chance(1, 40) { 100_000 } else { 2_000 };
    let n = c.rng.log_range(most).max(2);
    let out_of = c.rng.below(3);
    let h = 1000;
    let way = plates::upright(c.rng.below(16), n > 10_000, false);
    let mut path: Contour = vec![];
    let mut y = 10;
    for i in 0..n {
        path.push((i + 1, y));
        let far = out_of > 0 && c.rng.chance(1, if out_of == 1 { 2 } else { 50 });
        let (lo, hi) = if far { (-c.rng.range(1, 9), h + c.rng.range(1, 9)) } else { (c.rng.range(1, 20), h - c.rng.range(1, 20)) };
        y = if i % 2 == 0 { hi } else { lo };
        path.push((i + 1, y));
    }
    let turned = |v: &[P]| -> Contour { v.iter().map(|&p| plates::turn(p, way)).collect() };
    // the pieces between the rectangle's sides
    let cut = |v: &[P]| -> Vec<(P, P)> {
        let mut r = vec![];
        for e in v.windows(2) {
            let (a, b) = (e[0], e[1]);
            let mut m = vec![a];
            let mut sides: Vec<i64> = [0, h].into_iter().filter(|&s| (a.1 < s) != (b.1 < s) && a.1 != s && b.1 != s).collect();
            if a.1 > b.1 {
                sides.reverse();
            }
            m.extend(sides.into_iter().map(|s| (a.0, s)));
            m.push(b);
            r.extend(m.windows(2).map(|w| (w[0], w[1])));
        }
        r
    };
    let rect = turned(&[(0, 0), (n + 9, 0), (n + 9, h), (0, h)]);
    let mut s = vec![if area2(&rect) < 0 { rect.iter().rev().copied().collect() } else { rect }];
    let fill = bars::dress(&mut c.rng, &mut [&mut s]);
    let (mut path, mut lines) = (path, vec![]);
    if c.rng.bool() {
        path.reverse();
    }
    lines.push(turned(&path));
    c.sign(crate::rng::hash_str(&format!("{n} {out_of} {way} {y}")));
    c.note(|| format!("{n} pieces up and down, way {way}, rectangle {}, first {}", show(&s), show(&[lines[0][..lines[0].len().min(60)].to_vec()])));
    let sv = plates::solver(&mut c.rng, path.len());
    let r = *c.rng.pick(&CLIPS);
    let out = if c.rng.bool() {
        one_shot(&mut c.rng, &s, &lines, fill, r)
    } else {
        paths_of(&string_overlay(&mut c.rng, &s, &lines).clip_string_lines_with_solver(fill, r, sv))
    };
    c.count("paths judged", out.len() as u64);
    c.max("longest path", out.iter().map(|p| p.len()).max().unwrap_or(0) as f64);
    let tell = |m: String| format!("{fill:?} {} {}: {m}", show_rule(r), show_solver(&sv));
    let mut got = vec![];
    for p in &out {
        let b: Contour = p.iter().map(|&p| plates::turn_back(p, way).ok_or(p)).collect::<Result<_, _>>().map_err(|p| tell(format!("the point {p:?} lies neither on the path nor on a crossing")))?;
        got.extend(cut(&b));
    }
    let mut want = cut(&path);
    let all = want.len();
    want.retain(|(a, b)| ((a.1 + b.1) > 0 && (a.1 + b.1) < 2 * h) != r.invert);
    c.nontrivial |= !want.is_empty();
    c.count("pieces not kept", (all - want.len()) as u64);
    bars::Bars::same(got, want).map_err(tell)
}
