//! Scenes whose exact answer is known cell by cell.
//!
//! All edges run along lines x=2i, y=2j, x+y=2k, x-y=2k. Any two of them meet in an integer
//! point, so no rounding takes place, and the plane falls into triangles (four per 2x2 square)
//! which no edge cuts: one sample per triangle decides a region completely. An integer affine
//! map then gives arbitrary slopes and magnitudes with the same exactness.
use crate::geo::*;
use crate::rng::Rng;

#[derive(Clone, Debug)]
pub struct Scene {
    /// squares per side; coordinates are 0..=2n
    pub n: i64,
    pub subj: Vec<Contour>,
    pub clip: Vec<Contour>,
    pub map: Affine,
}

const DIRS: [(i64, i64); 8] = [(1, 0), (1, 1), (0, 1), (-1, 1), (-1, 0), (-1, -1), (0, -1), (1, -1)];

fn ev(rng: &mut Rng, n: i64) -> i64 {
    2 * rng.range(0, n)
}

/// closes an open octilinear chain with at most two octilinear edges
fn close(rng: &mut Rng, c: &mut Contour, n: i64) {
    let (e, s) = (*c.last().unwrap(), c[0]);
    let (dx, dy) = (s.0 - e.0, s.1 - e.1);
    if dx == 0 || dy == 0 || dx.abs() == dy.abs() {
        return;
    }
    let m = dx.abs().min(dy.abs());
    let diag = (e.0 + m * dx.signum(), e.1 + m * dy.signum());
    let diag2 = (s.0 - m * dx.signum(), s.1 - m * dy.signum());
    let opts = [(s.0, e.1), (e.0, s.1), diag, diag2];
    let p = *rng.pick(&opts);
    debug_assert!(p.0 >= 0 && p.1 >= 0 && p.0 <= 2 * n && p.1 <= 2 * n);
    c.push(p);
}

pub fn walk(rng: &mut Rng, n: i64, steps: usize, reach: i64) -> Contour {
    let mut c = vec![(ev(rng, n), ev(rng, n))];
    for _ in 0..steps {
        let p = *c.last().unwrap();
        for _ in 0..8 {
            let d = *rng.pick(&DIRS);
            let l = 2 * rng.range(1, reach);
            let q = (p.0 + d.0 * l, p.1 + d.1 * l);
            if q.0 >= 0 && q.1 >= 0 && q.0 <= 2 * n && q.1 <= 2 * n {
                c.push(q);
                break;
            }
        }
    }
    close(rng, &mut c, n);
    c
}

fn rect(rng: &mut Rng, n: i64) -> Contour {
    let (x0, y0) = (ev(rng, n - 1), ev(rng, n - 1));
    let x1 = x0 + 2 * rng.range(1, n - x0 / 2);
    let y1 = y0 + 2 * rng.range(1, n - y0 / 2);
    vec![(x0, y0), (x1, y0), (x1, y1), (x0, y1)]
}

fn rect_in(x0: i64, y0: i64, x1: i64, y1: i64) -> Contour {
    vec![(x0, y0), (x1, y0), (x1, y1), (x0, y1)]
}

fn diamond(rng: &mut Rng, n: i64) -> Contour {
    let r = 2 * rng.range(1, (n / 2).max(1));
    let cx = rng.range(r / 2, n - r / 2) * 2;
    let cy = rng.range(r / 2, n - r / 2) * 2;
    vec![(cx - r, cy), (cx, cy - r), (cx + r, cy), (cx, cy + r)]
}

fn tri(rng: &mut Rng, n: i64) -> Contour {
    let (x, y) = (ev(rng, n), ev(rng, n));
    let (sx, sy) = (if rng.bool() { 1 } else { -1 }, if rng.bool() { 1 } else { -1 });
    let mx = if sx > 0 { n - x / 2 } else { x / 2 };
    let my = if sy > 0 { n - y / 2 } else { y / 2 };
    let m = mx.min(my);
    if m < 1 {
        return rect(rng, n);
    }
    let l = 2 * rng.range(1, m);
    vec![(x, y), (x + sx * l, y), (x, y + sy * l)]
}

fn comb(rng: &mut Rng, n: i64) -> Contour {
    // teeth up from a base line
    let k = rng.range(2, (n - 1).max(2)).min(n);
    let y0 = ev(rng, (n - 2).max(0));
    let y1 = (y0 + 2).min(2 * n);
    let mut c = vec![];
    let w = (n / k).max(1) * 2;
    let mut x = 0;
    c.push((0, y0));
    let mut xs = vec![];
    while x + w <= 2 * n {
        xs.push(x);
        x += w;
    }
    let xe = xs.len() as i64 * w;
    c.push((xe, y0));
    let mut up = true;
    for i in (0..xs.len()).rev() {
        let top = y1 + 2 * rng.range(0, n - y1 / 2);
        let y = if up { top } else { y1 };
        c.push((xs[i] + w, y));
        c.push((xs[i], y));
        up = !up;
    }
    c
}

fn spiral(rng: &mut Rng, n: i64) -> Contour {
    // rectangular spiral corridor of width 2
    let turns = rng.range(1, (n / 4).max(1));
    let mut outer = vec![];
    let mut inner = vec![];
    let (mut x0, mut y0, mut x1, mut y1) = (0, 0, 2 * n, 2 * n);
    for t in 0..turns {
        if x1 - x0 < 8 || y1 - y0 < 8 {
            break;
        }
        if t == 0 {
            outer.push((x0, y0));
            inner.push((x0, y0 + 2));
        }
        outer.push((x1, y0));
        inner.push((x1 - 2, y0 + 2));
        outer.push((x1, y1));
        inner.push((x1 - 2, y1 - 2));
        outer.push((x0, y1));
        inner.push((x0 + 2, y1 - 2));
        outer.push((x0, y0 + 4));
        inner.push((x0 + 2, y0 + 6));
        y0 += 4;
        x1 -= 4;
        y1 -= 4;
        x0 += 4;
        // continue inward
        outer.push((x0 - 2, y0));
        inner.push((x0 - 2, y0 + 2));
        if x1 - x0 < 8 || y1 - y0 < 8 {
            break;
        }
    }
    if outer.len() < 3 {
        return rect(rng, n);
    }
    inner.reverse();
    outer.extend(inner);
    // keep it octilinear whatever the last turn did
    let ok = (0..outer.len()).all(|i| {
        let (a, b) = (outer[i], outer[(i + 1) % outer.len()]);
        let (dx, dy) = ((a.0 - b.0).abs(), (a.1 - b.1).abs());
        dx == 0 || dy == 0 || dx == dy
    });
    if ok {
        outer
    } else {
        rect(rng, n)
    }
}

/// one contour of a random kind, random direction and start
pub fn contour(rng: &mut Rng, n: i64, prior: &[Contour]) -> Contour {
    let mut c = match rng.below(16) {
        0..=2 => rect(rng, n),
        3 => diamond(rng, n),
        4 | 5 => tri(rng, n),
        6 => comb(rng, n),
        7 => spiral(rng, n),
        8 => {
            // spike out of a rectangle and back
            let mut c = rect(rng, n);
            let i = rng.usize(0, c.len() - 1);
            let p = c[i];
            let d = *rng.pick(&DIRS);
            let l = 2 * rng.range(1, 3);
            let q = (p.0 + d.0 * l, p.1 + d.1 * l);
            if q.0 >= 0 && q.1 >= 0 && q.0 <= 2 * n && q.1 <= 2 * n {
                c.insert(i + 1, q);
                c.insert(i + 2, p);
            }
            c
        }
        9 if !prior.is_empty() => {
            let mut c = rng.pick(prior).clone();
            if rng.bool() {
                // shifted copy: many shared edges
                let d = *rng.pick(&DIRS);
                let s = 2 * rng.range(0, 2);
                let t: Contour = c.iter().map(|p| (p.0 + d.0 * s, p.1 + d.1 * s)).collect();
                if t.iter().all(|q| q.0 >= 0 && q.1 >= 0 && q.0 <= 2 * n && q.1 <= 2 * n) {
                    c = t;
                }
            }
            c
        }
        10 => {
            // degenerate input: nothing, a point, a needle
            let p = (ev(rng, n), ev(rng, n));
            match rng.below(4) {
                0 => vec![],
                1 => vec![p],
                2 => vec![p, (p.0, ev(rng, n))],
                _ => vec![p, (ev(rng, n), p.1), (ev(rng, n), p.1), p],
            }
        }
        11 => {
            let s = rng.usize(3, 12);
            walk(rng, n, s, 1)
        }
        12 | 13 => {
            let s = rng.usize(3, 20);
            walk(rng, n, s, 3.min(n))
        }
        _ => {
            let s = rng.usize(2, 14);
            walk(rng, n, s, n)
        }
    };
    if c.len() > 1 {
        let k = rng.usize(0, c.len() - 1);
        c.rotate_left(k);
        if rng.bool() {
            c.reverse();
        }
        if rng.chance(1, 12) {
            let i = rng.usize(0, c.len() - 1);
            let p = c[i];
            c.insert(i, p);
        }
    }
    c
}

/// nested alternating frames (many levels of holes and islands)
fn nested(rng: &mut Rng, n: i64) -> Vec<Contour> {
    let mut v = vec![];
    let (mut x0, mut y0, mut x1, mut y1) = (0, 0, 2 * n, 2 * n);
    let mut ccw = true;
    while x1 - x0 >= 4 && y1 - y0 >= 4 && v.len() < 40 {
        let mut c = rect_in(x0, y0, x1, y1);
        if !ccw {
            c.reverse();
        }
        v.push(c);
        if !rng.chance(1, 5) {
            ccw = !ccw;
        }
        x0 += 2 * rng.range(0, 1);
        y0 += 2 * rng.range(0, 1);
        x1 -= 2 * rng.range(0, 1);
        y1 -= 2 * rng.range(0, 1);
        if rng.chance(1, 3) {
            x0 += 2;
            y0 += 2;
        }
    }
    v
}

/// a field of small squares / diamonds, some touching at corners, inside an optional frame
pub fn field(rng: &mut Rng, n: i64, step: i64, hole_like: bool) -> Vec<Contour> {
    let mut v = vec![];
    if hole_like {
        v.push(rect_in(0, 0, 2 * n, 2 * n));
    }
    let mut y = 0;
    while y + 2 <= 2 * n {
        let mut x = 0;
        while x + 2 <= 2 * n {
            if !rng.chance(1, 6) {
                let s = 2 * rng.range(1, (step / 2).max(1));
                let (x1, y1) = ((x + s).min(2 * n), (y + s).min(2 * n));
                let mut c = match rng.below(4) {
                    0 if s % 4 == 0 && x + s <= 2 * n && y + s <= 2 * n => {
                        let h = s / 2;
                        vec![(x, y + h), (x + h, y), (x + s, y + h), (x + h, y + s)]
                    }
                    1 if x1 - x == y1 - y => vec![(x, y), (x1, y), (x1, y1)],
                    _ => rect_in(x, y, x1, y1),
                };
                if hole_like != rng.chance(1, 10) {
                    c.reverse();
                }
                v.push(c);
            }
            x += step;
        }
        y += step;
    }
    v
}

/// A point set with every octilinear unit edge of a random cell colouring: maximal contact.
pub fn pixels(rng: &mut Rng, n: i64) -> Vec<Contour> {
    let mut v = vec![];
    let dens = rng.range(2, 8);
    for i in 0..n {
        for j in 0..n {
            if rng.range(0, 9) < dens {
                let (x, y) = (2 * i, 2 * j);
                let mut c = match rng.below(5) {
                    0 => vec![(x, y), (x + 2, y), (x + 2, y + 2)],
                    1 => vec![(x, y), (x + 2, y + 2), (x, y + 2)],
                    _ => rect_in(x, y, x + 2, y + 2),
                };
                if rng.chance(1, 8) {
                    c.reverse();
                }
                v.push(c);
            }
        }
    }
    v
}

pub fn side(rng: &mut Rng, n: i64, max: usize, other: &[Contour]) -> Vec<Contour> {
    match rng.below(12) {
        0 => nested(rng, n),
        1 => {
            let step = 2 * rng.range(1, 3);
            let h = rng.bool();
            field(rng, n, step, h)
        }
        2 if n <= 10 => pixels(rng, n),
        3 if !other.is_empty() => {
            let mut v = other.to_vec();
            if rng.bool() {
                v.truncate(rng.usize(0, v.len()));
            }
            v
        }
        _ => {
            let k = rng.usize(0, max);
            let mut v: Vec<Contour> = vec![];
            for _ in 0..k {
                let prior: Vec<Contour> = v.iter().chain(other).cloned().collect();
                v.push(contour(rng, n, &prior));
            }
            v
        }
    }
}

pub fn affine(rng: &mut Rng, n: i64) -> Affine {
    let ext = 2 * n;
    let lim = (1i64 << 30) - 1;
    loop {
        let m = match rng.below(8) {
            0 | 1 => Affine::ID,
            2 => {
                let s = rng.log_range(lim / ext / 2);
                Affine { a: s, b: 0, c: 0, d: s, tx: 0, ty: 0 }
            }
            3 => {
                let s = rng.log_range(1000.min(lim / ext / 2));
                let t = rng.log_range(1000.min(lim / ext / 2));
                Affine { a: s, b: 0, c: 0, d: -t, tx: 0, ty: 0 }
            }
            4 => {
                let r = |rng: &mut Rng| rng.range(-6, 6);
                Affine { a: r(rng), b: r(rng), c: r(rng), d: r(rng), tx: 0, ty: 0 }
            }
            5 | 6 => {
                let k = rng.log_range((lim / ext / 4).max(2));
                let r = |rng: &mut Rng| rng.range(-k, k);
                Affine { a: r(rng), b: r(rng), c: r(rng), d: r(rng), tx: 0, ty: 0 }
            }
            _ => {
                let k = (lim / ext / 2).max(2);
                let r = |rng: &mut Rng| rng.range(-k, k);
                Affine { a: r(rng), b: r(rng), c: r(rng), d: r(rng), tx: 0, ty: 0 }
            }
        };
        if m.det() == 0 {
            continue;
        }
        // distinct lattice points must stay further apart than the snapping radius can reach
        let mut m = m;
        let cs = [m.map((0, 0)), m.map((ext, 0)), m.map((0, ext)), m.map((ext, ext))];
        let (lx, hx) = (cs.iter().map(|p| p.0).min().unwrap(), cs.iter().map(|p| p.0).max().unwrap());
        let (ly, hy) = (cs.iter().map(|p| p.1).min().unwrap(), cs.iter().map(|p| p.1).max().unwrap());
        if hx - lx > 2 * lim || hy - ly > 2 * lim {
            continue;
        }
        let t = |rng: &mut Rng, lo: i64, hi: i64| -> i64 {
            // translation keeping [lo, hi] inside (-2^30, 2^30)
            let (a, b) = (-lim - lo, lim - hi);
            match rng.below(5) {
                0 => a,
                1 => b,
                2 => rng.range(a, b),
                3 => rng.range(-1000, 1000).clamp(a, b),
                _ => 0i64.clamp(a, b),
            }
        };
        m.tx = t(rng, lx, hx);
        m.ty = t(rng, ly, hy);
        return m;
    }
}

/// squared length of the shortest nonzero vector of the lattice (Gauss reduction)
pub fn min_vec2(m: &Affine) -> i128 {
    let mut u = (m.a as i128, m.c as i128);
    let mut v = (m.b as i128, m.d as i128);
    let n = |w: (i128, i128)| w.0 * w.0 + w.1 * w.1;
    loop {
        if n(u) < n(v) {
            std::mem::swap(&mut u, &mut v);
        }
        let d = u.0 * v.0 + u.1 * v.1;
        let k = {
            let q = n(v);
            let f = d.div_euclid(q);
            if (d - f * q) * 2 > q { f + 1 } else { f }
        };
        if k == 0 {
            return n(v);
        }
        u = (u.0 - k * v.0, u.1 - k * v.1);
    }
}

impl Scene {
    pub fn random(rng: &mut Rng, nmax: i64, max: usize) -> Scene {
        let n = rng.range(2, nmax);
        let mut subj = side(rng, n, max, &[]);
        let clip = side(rng, n, max, &subj);
        if rng.chance(1, 4) {
            subj.extend(clip.iter().take(1).cloned());
        }
        let map = affine(rng, n);
        Scene { n, subj, clip, map }
    }
    pub fn int_subj(&self) -> Vec<Contour> {
        self.map.map_all(&self.subj)
    }
    pub fn int_clip(&self) -> Vec<Contour> {
        self.map.map_all(&self.clip)
    }
    pub fn cells(&self, cs: &[Contour]) -> Option<Vec<i32>> {
        let mut v = windings(cs, self.n)?;
        if self.map.sign() < 0 {
            for w in v.iter_mut() {
                *w = -*w;
            }
        }
        Some(v)
    }
    /// maps an output back to lattice coordinates; Err when a vertex is off the lattice
    pub fn back(&self, cs: &[Contour]) -> Result<Vec<Contour>, String> {
        cs.iter()
            .map(|c| {
                c.iter()
                    .map(|&p| self.map.back(p).ok_or_else(|| format!("output vertex {p:?} is neither an input vertex nor an exact crossing")))
                    .collect()
            })
            .collect()
    }
    pub fn show(&self) -> String {
        format!("map {:?}\nsubj {}\nclip {}", self.map, show(&self.int_subj()), show(&self.int_clip()))
    }
    pub fn sig(&self) -> u64 {
        crate::rng::hash_str(&self.show())
    }
}

/// Winding numbers (counterclockwise positive in lattice orientation) of all 4*n*n triangles.
/// None when an edge is not octilinear or leaves the square.
pub fn windings(cs: &[Contour], n: i64) -> Option<Vec<i32>> {
    let rows = (4 * n) as usize; // quarter rows; row r holds y2 = r+... (r%4 = 1,2,3 used)
    let w = (2 * n) as usize + 2;
    // samples per row: rows 1 and 3 (mod 4): x2 = 4j+2 (n of them); row 2: x2 = 4j+1, 4j+3 (2n)
    let mut diff = vec![0i32; rows * w];
    for c in cs {
        for i in 0..c.len() {
            let (a, b) = (c[i], c[(i + 1) % c.len()]);
            if a == b {
                continue;
            }
            let (dx, dy) = (b.0 - a.0, b.1 - a.1);
            if a.0 < 0 || a.1 < 0 || a.0 > 2 * n || a.1 > 2 * n {
                return None;
            }
            // octilinear edges on lines through even points
            if !(dx == 0 || dy == 0 || dx.abs() == dy.abs()) {
                return None;
            }
            let on_line = if dx == 0 {
                a.0 % 2 == 0
            } else if dy == 0 {
                a.1 % 2 == 0
            } else if dx == dy {
                (a.0 - a.1) % 2 == 0
            } else {
                (a.0 + a.1) % 2 == 0
            };
            if !on_line {
                return None;
            }
            if dy == 0 {
                continue;
            }
            let (lo, hi, s) = if dy < 0 { (b, a, 1) } else { (a, b, -1) };
            let k = (hi.0 - lo.0) / (hi.1 - lo.1); // -1, 0, 1
            for y2 in (2 * lo.1 + 1)..(2 * hi.1) {
                if y2 % 4 == 0 {
                    continue;
                }
                // edges between odd lattice points end on y2 = 2 mod 4: half-open rule
                let cx = 2 * lo.0 + k * (y2 - 2 * lo.1);
                let idx = first_sample_right(y2, cx);
                diff[y2 as usize * w + idx] += s;
            }
            // endpoint rows with y2 = 2 mod 4 (odd lattice y): count the lower end
            let y2 = 2 * lo.1;
            if y2 % 4 != 0 {
                let idx = first_sample_right(y2, 2 * lo.0);
                diff[y2 as usize * w + idx] += s;
            }
        }
    }
    let mut out = Vec::with_capacity((4 * n * n) as usize);
    for r in 0..rows {
        let cnt = match r % 4 {
            0 => 0,
            2 => 2 * n as usize,
            _ => n as usize,
        };
        let mut acc = 0;
        for i in 0..cnt {
            acc += diff[r * w + i];
            out.push(acc);
        }
    }
    Some(out)
}

/// index of the first sample of the row strictly right of cx
fn first_sample_right(y2: i64, cx: i64) -> usize {
    if y2 % 4 == 2 {
        // samples at odd x2: 1, 3, 5, ... index i <-> x2 = 2i+1
        ((cx + 1).div_euclid(2)).max(0) as usize
    } else {
        // samples at x2 = 4j+2
        ((cx + 2).div_euclid(4)).max(0) as usize
    }
}

/// sample point (in coordinates times 2) of a triangle index
pub fn sample_of(n: i64, idx: usize) -> P {
    let per = 4 * n as usize; // per square row: n + 2n + n
    let (row, k) = (idx / per, idx % per);
    let y = 4 * row as i64;
    let n = n as usize;
    if k < n {
        (4 * k as i64 + 2, y + 1)
    } else if k < 3 * n {
        (2 * (k - n) as i64 + 1, y + 2)
    } else {
        (4 * (k - 3 * n) as i64 + 2, y + 3)
    }
}

/// Removes contours and vertices as long as the scene keeps failing (for the replay file).
pub fn shrink(sc: &Scene, bad: &dyn Fn(&Scene) -> bool) -> Scene {
    let mut cur = sc.clone();
    for s in [1i64, 64, 1 << 16] {
        let mut t = cur.clone();
        t.map = Affine { a: s, d: s, ..Affine::ID };
        if bad(&t) {
            cur = t;
            break;
        }
    }
    let mut budget = 20_000;
    loop {
        let mut changed = false;
        for side in 0..2 {
            let mut chunk = (if side == 0 { cur.subj.len() } else { cur.clip.len() }).max(1);
            while chunk > 0 {
                let mut i = 0;
                loop {
                    let len = if side == 0 { cur.subj.len() } else { cur.clip.len() };
                    if i >= len || budget == 0 {
                        break;
                    }
                    budget -= 1;
                    let mut t = cur.clone();
                    let e = (i + chunk).min(len);
                    if side == 0 {
                        t.subj.drain(i..e);
                    } else {
                        t.clip.drain(i..e);
                    }
                    if bad(&t) {
                        cur = t;
                        changed = true;
                    } else {
                        i += chunk;
                    }
                }
                chunk /= 2;
            }
            let mut i = 0;
            while i < if side == 0 { cur.subj.len() } else { cur.clip.len() } {
                let mut j = 0;
                while j < if side == 0 { cur.subj[i].len() } else { cur.clip[i].len() } {
                    if budget == 0 {
                        return cur;
                    }
                    budget -= 1;
                    let mut t = cur.clone();
                    if side == 0 {
                        t.subj[i].remove(j);
                    } else {
                        t.clip[i].remove(j);
                    }
                    if bad(&t) {
                        cur = t;
                        changed = true;
                    } else {
                        j += 1;
                    }
                }
                i += 1;
            }
        }
        if !changed || budget == 0 {
            return cur;
        }
    }
}

/// Elementary edges of the lattice: a side of a square or half a diagonal, known by its middle
/// (in doubled coordinates).
pub fn steps(a: P, b: P) -> Option<Vec<(P, P, P)>> {
    let (dx, dy) = (b.0 - a.0, b.1 - a.1);
    if a == b {
        return Some(vec![]);
    }
    if !(dx == 0 || dy == 0 || dx.abs() == dy.abs()) {
        return None;
    }
    let on_line = if dx == 0 {
        a.0 % 2 == 0
    } else if dy == 0 {
        a.1 % 2 == 0
    } else if dx == dy {
        (a.0 - a.1) % 2 == 0
    } else {
        (a.0 + a.1) % 2 == 0
    };
    if !on_line {
        return None;
    }
    let (ux, uy) = (dx.signum(), dy.signum());
    let len = dx.abs().max(dy.abs());
    let st = if dx != 0 && dy != 0 { 1 } else { 2 };
    if len % st != 0 || (st == 2 && (if dx == 0 { a.1 } else { a.0 }) % 2 != 0) {
        return None;
    }
    let mut r = vec![];
    let mut p = a;
    for _ in 0..len / st {
        let q = (p.0 + ux * st, p.1 + uy * st);
        r.push(((p.0 + q.0, p.1 + q.1), p, q));
        p = q;
    }
    Some(r)
}

/// index of the triangle with a sample in doubled coordinates; None outside of the square
pub fn cell_at(n: i64, q: P) -> Option<usize> {
    if q.0 < 0 || q.1 < 0 || q.0 > 4 * n || q.1 > 4 * n {
        return None;
    }
    let per = (4 * n) as usize;
    let (row, r) = ((q.1 / 4) as usize, q.1 % 4);
    let k = match r {
        1 => (q.0 - 2) / 4,
        2 => n + (q.0 - 1) / 2,
        _ => 3 * n + (q.0 - 2) / 4,
    };
    Some(row * per + k as usize)
}

/// the triangles left and right of an elementary edge a -> b
pub fn sides(n: i64, mid: P, a: P, b: P) -> (Option<usize>, Option<usize>) {
    let (p, q) = match (mid.0.rem_euclid(4), mid.1.rem_euclid(4)) {
        (0, 2) => ((mid.0 - 1, mid.1), (mid.0 + 1, mid.1)),
        (2, 0) => ((mid.0, mid.1 - 1), (mid.0, mid.1 + 1)),
        (1, 1) => ((mid.0 + 1, mid.1), (mid.0, mid.1 + 1)),
        (3, 1) => ((mid.0 - 1, mid.1), (mid.0, mid.1 + 1)),
        (1, 3) => ((mid.0, mid.1 - 1), (mid.0 + 1, mid.1)),
        _ => ((mid.0, mid.1 - 1), (mid.0 - 1, mid.1)),
    };
    let (i, j) = (cell_at(n, p), cell_at(n, q));
    let left = (b.0 - a.0) * (p.1 - mid.1) - (b.1 - a.1) * (p.0 - mid.0) > 0;
    if left {
        (i, j)
    } else {
        (j, i)
    }
}

/// net number of passages of closed contours over each elementary edge, counted positive in
/// the direction from the smaller to the greater end
pub fn passages(cs: &[Contour]) -> std::collections::HashMap<P, (i32, P, P)> {
    let mut m = std::collections::HashMap::new();
    for (a, b) in edges(cs) {
        for (mid, p, q) in steps(a, b).expect("a scene's edges lie on the lattice") {
            let e = m.entry(mid).or_insert((0, p.min(q), p.max(q)));
            e.0 += if p < q { 1 } else { -1 };
        }
    }
    m
}

/// an open chain of octilinear edges
pub fn chain(rng: &mut Rng, n: i64, near: &[Contour]) -> Contour {
    let edge = |rng: &mut Rng, n: i64| -> (P, P) {
        // from border to border
        let t = ev(rng, n);
        match rng.below(4) {
            0 => ((0, t), (2 * n, t)),
            1 => ((t, 0), (t, 2 * n)),
            2 => ((t, 0), (2 * n, 2 * n - t)),
            _ => ((0, t), (t, 0)),
        }
    };
    match rng.below(10) {
        0..=2 => {
            let (a, b) = edge(rng, n);
            if rng.bool() { vec![a, b] } else { vec![b, a] }
        }
        3 | 4 => {
            let steps = rng.usize(1, 6);
            let mut w = walk_open(rng, n, steps, n);
            if rng.chance(1, 3) && w.len() > 1 {
                // back over itself
                let k = rng.usize(1, w.len() - 1);
                let tail: Vec<P> = w[..k].iter().rev().copied().collect();
                if tail.first().map_or(false, |t| octilinear(*w.last().unwrap(), *t)) {
                    w.extend(tail);
                }
            }
            w
        }
        5 => {
            let mut c = rect(rng, n);
            c.push(c[0]);
            c
        }
        6 => {
            let mut c = diamond(rng, n);
            let k = rng.usize(2, 5);
            c.push(c[0]);
            c.truncate(k);
            c
        }
        7 if !near.is_empty() => {
            // along a contour
            let c = rng.pick(near).clone();
            let (i, k) = (rng.usize(0, c.len().max(1) - 1), rng.usize(1, c.len().max(1)));
            let mut r: Vec<P> = (0..=k).map(|j| c[(i + j) % c.len()]).collect();
            if rng.bool() {
                r.reverse();
            }
            r
        }
        8 if !near.is_empty() => {
            // out of a vertex
            let c = rng.pick(near).clone();
            let p = *rng.pick(&c);
            let mut r = vec![p];
            for _ in 0..rng.usize(1, 3) {
                let l = *r.last().unwrap();
                let (d, s) = (*rng.pick(&DIRS), 2 * rng.range(1, n));
                let q = (l.0 + d.0 * s, l.1 + d.1 * s);
                if q.0 >= 0 && q.1 >= 0 && q.0 <= 2 * n && q.1 <= 2 * n {
                    r.push(q);
                }
            }
            r
        }
        _ => {
            let k = rng.usize(1, 3);
            walk_open(rng, n, k, 2)
        }
    }
}

fn octilinear(a: P, b: P) -> bool {
    let (dx, dy) = (b.0 - a.0, b.1 - a.1);
    dx == 0 || dy == 0 || dx.abs() == dy.abs()
}

pub fn walk_open(rng: &mut Rng, n: i64, steps: usize, reach: i64) -> Contour {
    let mut c = vec![(ev(rng, n), ev(rng, n))];
    for _ in 0..steps {
        let p = *c.last().unwrap();
        for _ in 0..8 {
            let d = *rng.pick(&DIRS);
            let l = 2 * rng.range(1, reach);
            let q = (p.0 + d.0 * l, p.1 + d.1 * l);
            if q.0 >= 0 && q.1 >= 0 && q.0 <= 2 * n && q.1 <= 2 * n {
                c.push(q);
                break;
            }
        }
    }
    c
}
