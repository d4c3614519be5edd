//! Judgements on results, shared by several monitors.
use crate::geo::*;
use crate::lattice::{sample_of, windings, Scene};

/// Windings of the result in every cell of the scene; Err when the result leaves the input lines.
pub fn cells_of(sc: &Scene, out: &[Contour]) -> Result<Vec<i32>, String> {
    let b = sc.back(out)?;
    let mut w = windings(&b, sc.n).ok_or("an edge of the result runs along no input line or leaves the input's bounds")?;
    if sc.map.sign() < 0 {
        w.iter_mut().for_each(|v| *v = -*v);
    }
    Ok(w)
}

pub fn at(sc: &Scene, i: usize) -> String {
    let q = sample_of(sc.n, i);
    let m = sc.map;
    format!(
        "({:.2}, {:.2})",
        m.a as f64 * q.0 as f64 / 2.0 + m.b as f64 * q.1 as f64 / 2.0 + m.tx as f64,
        m.c as f64 * q.0 as f64 / 2.0 + m.d as f64 * q.1 as f64 / 2.0 + m.ty as f64
    )
}

/// The result covers exactly the expected cells, once each.
pub fn region(sc: &Scene, out: &[Contour], exp: &[bool], ccw: bool) -> Result<(), String> {
    let w = cells_of(sc, out)?;
    let one = if ccw { 1 } else { -1 };
    for (i, (&w, &e)) in w.iter().zip(exp).enumerate() {
        if w != if e { one } else { 0 } {
            return Err(format!(
                "the point {} should be {}, the result has winding {w} there",
                at(sc, i),
                if e { "inside" } else { "outside" }
            ));
        }
    }
    Ok(())
}

/// Every shape on its own covers each cell zero times or once, its first contour runs in the
/// asked direction, the others run against it.
pub fn nesting(sc: &Scene, shapes: &[Vec<Contour>], ccw: bool) -> Result<(), String> {
    let one = if ccw { 1 } else { -1 };
    for (k, s) in shapes.iter().enumerate() {
        directions(k, s, ccw)?;
        if s.len() > 1 {
            let w = cells_of(sc, s)?;
            if let Some(i) = w.iter().position(|&v| v != 0 && v != one) {
                return Err(format!("shape {k} on its own has winding {} at {}: a hole lies outside of its outer contour", w[i], at(sc, i)));
            }
        }
    }
    Ok(())
}

pub fn directions(k: usize, s: &[Contour], ccw: bool) -> Result<(), String> {
    if s.is_empty() {
        return Err(format!("shape {k} has no contour"));
    }
    for (j, c) in s.iter().enumerate() {
        let a = area2(c);
        let want = (j == 0) == ccw;
        if a == 0 || (a > 0) != want {
            return Err(format!(
                "contour {j} of shape {k} should be {}, its doubled area is {a}",
                if want { "counterclockwise" } else { "clockwise" }
            ));
        }
    }
    Ok(())
}

/// At least three vertices, no repeated neighbours, some area; nothing collinear when simplified.
pub fn contour_form(c: &[P], simplified: bool) -> Result<(), String> {
    let n = c.len();
    if n < 3 {
        return Err(format!("a contour of {n} vertices: {c:?}"));
    }
    for i in 0..n {
        let (a, b, d) = (c[(i + n - 1) % n], c[i], c[(i + 1) % n]);
        if a == b {
            return Err(format!("the vertex {a:?} is repeated"));
        }
        let k = cross(a, b, d);
        if k == 0 {
            let back = (b.0 - a.0) as i128 * (d.0 - b.0) as i128 + (b.1 - a.1) as i128 * (d.1 - b.1) as i128;
            if back < 0 {
                return Err(format!("the contour goes {a:?} {b:?} {d:?}: a spike"));
            }
            if simplified {
                return Err(format!("the vertex {b:?} lies on the line between its neighbours {a:?} and {d:?}"));
            }
        }
    }
    if area2(c) == 0 {
        return Err("a contour without area".into());
    }
    Ok(())
}

/// No two edges of the result cross or run over each other.
pub fn no_crossing(cs: &[Contour]) -> Result<usize, String> {
    let mut es = edges(cs);
    for e in es.iter_mut() {
        if e.0 > e.1 {
            *e = (e.1, e.0);
        }
    }
    es.sort();
    let mut pairs = 0;
    for i in 0..es.len() {
        let (a, b) = es[i];
        let (ylo, yhi) = (a.1.min(b.1), a.1.max(b.1));
        for &(c, d) in &es[i + 1..] {
            if c.0 > b.0 {
                break;
            }
            if c.1.min(d.1) > yhi || c.1.max(d.1) < ylo {
                continue;
            }
            pairs += 1;
            if (a, b) == (c, d) {
                return Err(format!("the edge {a:?}-{b:?} appears twice"));
            }
            if proper_cross(a, b, c, d) {
                return Err(format!("the edges {a:?}-{b:?} and {c:?}-{d:?} cross"));
            }
            if overlap(a, b, c, d) {
                return Err(format!("the edges {a:?}-{b:?} and {c:?}-{d:?} run over each other"));
            }
        }
    }
    Ok(pairs)
}

/// contour as a cyclic sequence: starts at its smallest vertex
pub fn canon(c: &[P]) -> Contour {
    if c.is_empty() {
        return vec![];
    }
    let n = c.len();
    let mut best: Option<Contour> = None;
    let m = *c.iter().min().unwrap();
    for i in (0..n).filter(|&i| c[i] == m) {
        let r: Contour = (0..n).map(|k| c[(i + k) % n]).collect();
        if best.as_ref().map_or(true, |b| r < *b) {
            best = Some(r);
        }
    }
    best.unwrap()
}

/// shapes as a set of sets of cyclic contours (outer contour first)
pub fn canon_shapes(s: &[Vec<Contour>]) -> Vec<Vec<Contour>> {
    let mut v: Vec<Vec<Contour>> = s
        .iter()
        .map(|sh| {
            let mut h: Vec<Contour> = sh.iter().skip(1).map(|c| canon(c)).collect();
            h.sort();
            let mut r: Vec<Contour> = sh.iter().take(1).map(|c| canon(c)).collect();
            r.extend(h);
            r
        })
        .collect();
    v.sort();
    v
}

pub fn contours_of(s: &[Vec<Contour>]) -> Vec<Contour> {
    s.iter().flatten().cloned().collect()
}

/// Holes lie inside their shape's outer contour and outside of its other holes. Exact, for
/// contours that do not cross; a touching point decides nothing, then another edge is asked.
/// Returns the number of questions answered.
pub fn holes_inside(shapes: &[Vec<Contour>], ccw: bool) -> Result<u64, String> {
    let one = if ccw { 1 } else { -1 };
    let mut asked = 0;
    for (k, s) in shapes.iter().enumerate() {
        directions(k, s, ccw)?;
        if s.len() == 1 {
            continue;
        }
        for j in 0..s.len() {
            let others: Vec<Contour> = s.iter().enumerate().filter(|(i, _)| *i != j).map(|(_, c)| c.clone()).collect();
            let eo = edges(&others);
            let want = if j == 0 { 0 } else { one };
            let mut left = 3;
            for (a, b) in edges(&s[j..j + 1]) {
                // the middle of an edge, in doubled coordinates
                if let Some(w) = winding(&eo, (a.0 + b.0, a.1 + b.1), 2) {
                    asked += 1;
                    if w != want {
                        return Err(if j == 0 {
                            format!("the outer contour of shape {k} passes through one of its holes at the middle of {a:?}-{b:?}")
                        } else {
                            format!("hole {j} of shape {k} does not lie inside its outer contour and outside its other holes: at the middle of {a:?}-{b:?} those have winding {w}")
                        });
                    }
                    left -= 1;
                    if left == 0 {
                        break;
                    }
                }
            }
        }
    }
    Ok(asked)
}

/// removes the vertices on the line between their neighbours
pub fn straighten(c: &[P]) -> Contour {
    let mut v: Contour = c.to_vec();
    loop {
        let n = v.len();
        if n < 3 {
            return vec![];
        }
        match (0..n).find(|&i| cross(v[(i + n - 1) % n], v[i], v[(i + 1) % n]) == 0) {
            Some(i) => {
                v.remove(i);
            }
            None => return v,
        }
    }
}

/// the first difference of two results, told for a reader
pub fn diff(a: &[Vec<Contour>], b: &[Vec<Contour>]) -> Option<String> {
    let (x, y) = (canon_shapes(a), canon_shapes(b));
    if x == y {
        return None;
    }
    let only = |x: &[Vec<Contour>], y: &[Vec<Contour>]| -> String {
        let v: Vec<_> = x.iter().filter(|s| !y.contains(s)).take(2).map(|s| show(s)).collect();
        v.join(" ; ").chars().take(400).collect()
    };
    Some(format!("{} and {} shapes; only in the first: {} only in the second: {}", x.len(), y.len(), only(&x, &y), only(&y, &x)))
}

/// Same covered region: the same directed edges once both are split in all vertices of both
/// that lie on them. Contours touching themselves or each other may be parted differently.
pub fn same_region(a: &[Contour], b: &[Contour]) -> Option<String> {
    let mut vs: Vec<P> = a.iter().chain(b).flatten().copied().collect();
    vs.sort();
    vs.dedup();
    let split = |cs: &[Contour]| -> Vec<(P, P)> {
        let mut r = vec![];
        for (p, q) in edges(cs) {
            let (lo, hi) = if p < q { (p, q) } else { (q, p) };
            let i = vs.partition_point(|v| *v <= lo);
            let mut on: Vec<P> = vs[i..].iter().take_while(|v| **v < hi).filter(|v| cross(lo, **v, hi) == 0).copied().collect();
            if (p, q) != (lo, hi) {
                on.reverse();
            }
            let mut last = p;
            for v in on {
                r.push((last, v));
                last = v;
            }
            r.push((last, q));
        }
        r.sort();
        r
    };
    let (x, y) = (split(a), split(b));
    if x == y {
        return None;
    }
    let one = x.iter().find(|e| y.binary_search(e).is_err());
    let two = y.iter().find(|e| x.binary_search(e).is_err());
    Some(format!("the bounds of the covered region differ, only in the first: {one:?}, only in the second: {two:?}"))
}

/// Does any contour touch another or itself?
pub fn touches(cs: &[Contour]) -> bool {
    let mut vs: Vec<P> = cs.iter().flatten().copied().collect();
    vs.sort();
    if vs.windows(2).any(|w| w[0] == w[1]) {
        return true;
    }
    edges(cs).iter().any(|&(p, q)| {
        let (lo, hi) = if p < q { (p, q) } else { (q, p) };
        let i = vs.partition_point(|v| *v <= lo);
        vs[i..].iter().take_while(|v| **v < hi).any(|v| cross(lo, *v, hi) == 0)
    })
}

/// Two presentations of one result: the same shapes, or, when contours touch, the same region
/// (a touching point leaves a choice of how to part contours, which depends on where the walk starts).
/// The flag tells whether shapes were compared.
pub fn alike(a: &[Vec<Contour>], b: &[Vec<Contour>]) -> (bool, Option<String>) {
    let (x, y) = (contours_of(a), contours_of(b));
    if touches(&x) || touches(&y) {
        (false, same_region(&x, &y))
    } else {
        (true, diff(a, b))
    }
}
