//! Scenes with arbitrary slopes: crossings get rounded, so the answer is known away from the
//! input edges only (by more than the rounding distance).
use crate::geo::*;
use crate::rng::Rng;

#[derive(Clone, Debug)]
pub struct Scene {
    pub size: i64,
    pub subj: Vec<Contour>,
    pub clip: Vec<Contour>,
    pub off: P,
}

/// Up to this size edges may run beside each other at a few units. (Longer bundles of nearly
/// coincident edges make the engine split them into up to a piece per unit: see DESIGN.md.)
pub const SHORT: i64 = 3000;

pub const LIM: i64 = (1 << 30) - 1;

fn pt(rng: &mut Rng, s: i64) -> P {
    (rng.range(-s, s), rng.range(-s, s))
}

fn clampp(p: P, s: i64) -> P {
    (p.0.clamp(-s, s), p.1.clamp(-s, s))
}

pub fn contour(rng: &mut Rng, s: i64, prior: &[Contour]) -> Contour {
    let mut c: Contour = match rng.below(14) {
        0..=2 => {
            let k = rng.usize(3, 10);
            (0..k).map(|_| pt(rng, s)).collect()
        }
        3 | 4 => {
            // star or regular polygon
            let k = rng.usize(3, 24);
            let r = rng.frange(0.1, 1.0) * s as f64;
            let r2 = if rng.bool() { r } else { r * rng.frange(0.1, 0.9) };
            let cx = rng.frange(-0.5, 0.5) * s as f64;
            let cy = rng.frange(-0.5, 0.5) * s as f64;
            let a0 = rng.frange(0.0, 6.3);
            (0..k)
                .map(|i| {
                    let a = a0 + i as f64 * std::f64::consts::TAU / k as f64;
                    let q = if i % 2 == 0 { r } else { r2 };
                    clampp(((cx + q * a.cos()).round() as i64, (cy + q * a.sin()).round() as i64), s)
                })
                .collect()
        }
        5 => {
            // sliver along a random line
            let (a, b) = (pt(rng, s), pt(rng, s));
            let w = if s <= SHORT { rng.log_range((s / 8).max(1)) } else { rng.range(s / 500, s / 8) };
            let j = |rng: &mut Rng, p: P| clampp((p.0 + rng.range(-w, w), p.1 + rng.range(-w, w)), s);
            vec![j(rng, a), j(rng, b), j(rng, b), j(rng, a)]
        }
        6 => {
            // coarse grid points: many exact coincidences
            let g = (s / 4).max(1);
            let k = rng.usize(3, 12);
            (0..k).map(|_| (rng.range(-4, 4) * g, rng.range(-4, 4) * g)).map(|p| clampp(p, s)).collect()
        }
        7 | 8 if !prior.is_empty() => {
            // follows an existing contour at a distance of a few units
            let b = rng.pick(prior).clone();
            let w = if s <= SHORT { rng.log_range(6.min(s)) } else { rng.range(s / 200, s / 50) };
            b.iter().map(|p| clampp((p.0 + rng.range(-w, w), p.1 + rng.range(-w, w)), s)).collect()
        }
        9 if !prior.is_empty() => {
            // vertices on (or beside) existing edges; of long edges each is used once
            let mut es = edges(prior);
            if s > SHORT {
                rng.shuffle(&mut es);
            }
            let k = rng.usize(3, 8);
            (0..k)
                .map(|_| {
                    if es.is_empty() || rng.chance(1, 3) {
                        return pt(rng, s);
                    }
                    let (a, b) = if s > SHORT { es.pop().unwrap() } else { *rng.pick(&es) };
                    let t = rng.f64();
                    clampp(
                        (
                            (a.0 as f64 + t * (b.0 - a.0) as f64).round() as i64,
                            (a.1 as f64 + t * (b.1 - a.1) as f64).round() as i64,
                        ),
                        s,
                    )
                })
                .collect()
        }
        10 => {
            // zigzag
            let k = rng.usize(3, 16);
            let (h0, h1) = (rng.range(-s, s), rng.range(-s, s));
            let mut c: Contour = (0..k)
                .map(|i| ((-s as f64 + 2.0 * s as f64 * i as f64 / (k - 1) as f64) as i64, if i % 2 == 0 { h0 } else { h1 }))
                .collect();
            if rng.bool() {
                c.iter_mut().for_each(|p| *p = (p.1, p.0));
            }
            c
        }
        11 => {
            let (a, b) = (pt(rng, s), pt(rng, s));
            vec![a, (b.0, a.1), b, (a.0, b.1)]
        }
        12 => {
            // fan of long edges through nearly one point
            let o = pt(rng, s / 2);
            let k = rng.usize(2, 5);
            let mut c = vec![];
            for _ in 0..k {
                let q = pt(rng, s);
                let e = rng.range(-1, 1);
                c.push(q);
                c.push(clampp((2 * o.0 - q.0 + e, 2 * o.1 - q.1), s));
            }
            c
        }
        _ => {
            let k = rng.usize(6, 30);
            let w = rng.log_range(s);
            let o = pt(rng, s);
            (0..k).map(|_| clampp((o.0 + rng.range(-w, w), o.1 + rng.range(-w, w)), s)).collect()
        }
    };
    if rng.bool() {
        c.reverse();
    }
    if !c.is_empty() && rng.chance(1, 10) {
        let p = c[0];
        c.push(p);
    }
    c
}

impl Scene {
    pub fn random(rng: &mut Rng, smax: i64, max: usize) -> Scene {
        let size = rng.log_range(smax).max(3);
        let mut subj: Vec<Contour> = vec![];
        let mut clip: Vec<Contour> = vec![];
        let ns = rng.usize(0, max);
        let nc = rng.usize(if ns == 0 { 1 } else { 0 }, max);
        for i in 0..ns + nc {
            let prior: Vec<Contour> = subj.iter().chain(clip.iter()).cloned().collect();
            let c = contour(rng, size, &prior);
            if i < ns {
                subj.push(c);
            } else {
                clip.push(c);
            }
        }
        if rng.chance(1, 16) {
            subj = tiny(rng, max.min(4), size);
        }
        if rng.chance(1, 16) {
            clip = tiny(rng, max.min(4), size);
        }
        let m = LIM - size;
        let off = match rng.below(4) {
            0 if m > 0 => (rng.range(-m, m), rng.range(-m, m)),
            1 => (m, -m),
            _ => (0, 0),
        };
        for c in subj.iter_mut().chain(clip.iter_mut()) {
            for p in c.iter_mut() {
                *p = (p.0 + off.0, p.1 + off.1);
            }
        }
        Scene { size, subj, clip, off }
    }
    pub fn all(&self) -> Vec<Contour> {
        self.subj.iter().chain(self.clip.iter()).cloned().collect()
    }
    pub fn show(&self) -> String {
        format!("size {} off {:?}\nsubj {}\nclip {}", self.size, self.off, show(&self.subj), show(&self.clip))
    }
    pub fn sig(&self) -> u64 {
        crate::rng::hash_str(&self.show())
    }

    /// Points worth asking about, with their distance to the nearest input edge (in units).
    /// Coordinates are plain integers.
    pub fn probes(&self, rng: &mut Rng, n: usize, reach: f64) -> Vec<(P, f64)> {
        let es = edges(&self.all());
        if es.is_empty() {
            return vec![];
        }
        let s = self.size;
        let mut v = Vec::with_capacity(n);
        for _ in 0..n {
            let base: (f64, f64) = match rng.below(5) {
                0 => (
                    self.off.0 as f64 + rng.frange(-1.1, 1.1) * s as f64,
                    self.off.1 as f64 + rng.frange(-1.1, 1.1) * s as f64,
                ),
                1 => {
                    let e = rng.pick(&es);
                    f(if rng.bool() { e.0 } else { e.1 })
                }
                2 => {
                    // a crossing of two edges
                    let (a, b) = *rng.pick(&es);
                    let (c, d) = *rng.pick(&es);
                    let (a, b, c, d) = (f(a), f(b), f(c), f(d));
                    let r = (b.0 - a.0, b.1 - a.1);
                    let q = (d.0 - c.0, d.1 - c.1);
                    let den = r.0 * q.1 - r.1 * q.0;
                    let t = if den != 0.0 { ((c.0 - a.0) * q.1 - (c.1 - a.1) * q.0) / den } else { 0.5 };
                    let t = if (0.0..=1.0).contains(&t) { t } else { rng.f64() };
                    (a.0 + t * r.0, a.1 + t * r.1)
                }
                _ => {
                    let (a, b) = *rng.pick(&es);
                    let t = rng.f64();
                    (a.0 as f64 + t * (b.0 - a.0) as f64, a.1 as f64 + t * (b.1 - a.1) as f64)
                }
            };
            let d = reach * rng.frange(1.0, 4.0);
            let an = rng.frange(0.0, 6.3);
            let q = ((base.0 + d * an.cos()).round() as i64, (base.1 + d * an.sin()).round() as i64);
            let qf = f(q);
            let mut m = f64::MAX;
            for e in &es {
                m = m.min(dist_to_seg(qf, f(e.0), f(e.1)));
            }
            v.push((q, m));
        }
        v
    }
}

/// Removes contours and vertices as long as the scene keeps failing (for the replay file).
pub fn shrink(sc: &Scene, bad: &dyn Fn(&Scene) -> bool) -> Scene {
    let mut cur = sc.clone();
    let mut budget = 5_000;
    loop {
        let mut changed = false;
        for side in 0..2 {
            let mut i = 0;
            while i < if side == 0 { cur.subj.len() } else { cur.clip.len() } {
                let mut t = cur.clone();
                if side == 0 {
                    t.subj.remove(i);
                } else {
                    t.clip.remove(i);
                }
                budget -= 1;
                if budget <= 0 {
                    return cur;
                }
                if bad(&t) {
                    cur = t;
                    changed = true;
                    continue;
                }
                let mut j = 0;
                while j < if side == 0 { cur.subj[i].len() } else { cur.clip[i].len() } {
                    budget -= 1;
                    if budget <= 0 {
                        return cur;
                    }
                    let mut t = cur.clone();
                    if side == 0 {
                        t.subj[i].remove(j);
                    } else {
                        t.clip[i].remove(j);
                    }
                    if bad(&t) {
                        cur = t;
                        changed = true;
                    } else {
                        j += 1;
                    }
                }
                i += 1;
            }
        }
        if !changed {
            return cur;
        }
    }
}

/// contours of hardly any points, many of them without area
pub fn tiny(rng: &mut Rng, max: usize, lim: i64) -> Vec<Contour> {
    let lim = *rng.pick(&[2, 4, 10, 1000, lim]).min(&lim);
    (0..rng.usize(0, max))
        .map(|_| {
            let n = rng.usize(0, 5);
            let mut c: Contour = (0..n).map(|_| (rng.range(-lim, lim), rng.range(-lim, lim))).collect();
            if n > 0 && rng.chance(1, 5) {
                let i = rng.usize(0, n - 1);
                c.push(c[i]);
            }
            if n > 1 && rng.chance(1, 6) {
                // on one line
                let (a, b) = (c[0], c[1]);
                let at = |k: i64| (a.0 + (b.0 - a.0) * k, a.1 + (b.1 - a.1) * k);
                if [-1, 3].iter().all(|k| at(*k).0.abs().max(at(*k).1.abs()) <= lim) {
                    for (i, p) in c.iter_mut().enumerate().skip(2) {
                        *p = at(i as i64 - 3);
                    }
                }
            }
            c
        })
        .collect()
}
