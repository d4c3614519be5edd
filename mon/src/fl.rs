//! Float scenes: exact ones (dyadic images of lattice scenes) and arbitrary ones.
use crate::geo::*;
use crate::general;
use crate::lattice::{self, Scene};
use crate::rng::Rng;
use i_overlay::i_float::float::number::FloatNumber;

pub type Pf = (f64, f64);
pub type Pt<T> = [T; 2];

pub trait Num: FloatNumber + PartialEq + std::fmt::Debug + Send + Sync + 'static {
    const NAME: &'static str;
    /// bits of a coordinate which the exact scenes may use
    const BITS: u32;
    /// rounding of one coordinate, relative to it
    const EPS: f64;
    fn of(v: f64) -> Self;
}
impl Num for f64 {
    const NAME: &'static str = "f64";
    const BITS: u32 = 27;
    const EPS: f64 = 2.3e-16;
    fn of(v: f64) -> f64 {
        v
    }
}
impl Num for f32 {
    const NAME: &'static str = "f32";
    const BITS: u32 = 21;
    const EPS: f64 = 1.2e-7;
    fn of(v: f64) -> f32 {
        v as f32
    }
}

pub fn pf<T: Num>(p: &Pt<T>) -> Pf {
    (p[0].to_f64(), p[1].to_f64())
}

/// value = (integer + off) * unit, exactly
#[derive(Clone, Copy, Debug)]
pub struct Dyadic {
    pub off: P,
    pub exp: i32,
}

impl Dyadic {
    pub fn random<T: Num>(rng: &mut Rng) -> Dyadic {
        let o = 1i64 << if T::BITS < 25 { T::BITS } else { 45 };
        let off = match rng.below(4) {
            0 => (0, 0),
            1 => (rng.log_range(o), -rng.log_range(o)),
            2 => (rng.range(-o, o), rng.range(-o, o)),
            _ => (rng.range(-100, 100), rng.range(-100, 100)),
        };
        Dyadic { off, exp: rng.range(-40, 20) as i32 }
    }
    pub fn to<T: Num>(&self, p: P) -> Pt<T> {
        let u = 2f64.powi(self.exp);
        [T::of((p.0 + self.off.0) as f64 * u), T::of((p.1 + self.off.1) as f64 * u)]
    }
    pub fn all<T: Num>(&self, cs: &[Contour]) -> Vec<Vec<Pt<T>>> {
        cs.iter().map(|c| c.iter().map(|&p| self.to(p)).collect()).collect()
    }
    /// back to the integers; Err when the value is not the image of one
    pub fn back<T: Num>(&self, p: &Pt<T>) -> Result<P, String> {
        let u = 2f64.powi(-self.exp);
        let (x, y) = (p[0].to_f64() * u, p[1].to_f64() * u);
        if x.fract() != 0.0 || y.fract() != 0.0 || !x.is_finite() || !y.is_finite() {
            return Err(format!("the vertex {p:?} of the result is neither an input vertex nor an exact crossing"));
        }
        Ok((x as i64 - self.off.0, y as i64 - self.off.1))
    }
    pub fn back_shapes<T: Num>(&self, s: &[Vec<Vec<Pt<T>>>]) -> Result<Vec<Vec<Contour>>, String> {
        s.iter().map(|s| s.iter().map(|c| c.iter().map(|p| self.back(p)).collect()).collect()).collect()
    }
    pub fn back_paths<T: Num>(&self, s: &[Vec<Pt<T>>]) -> Result<Vec<Contour>, String> {
        s.iter().map(|c| c.iter().map(|p| self.back(p)).collect()).collect()
    }
}

/// an integer affine map of the lattice small enough for exact floats
pub fn small_affine(rng: &mut Rng, n: i64, bits: u32) -> Affine {
    let k = ((1i64 << bits) / (4 * n)).max(1);
    loop {
        let m = match rng.below(4) {
            0 => Affine::ID,
            1 => {
                let s = rng.log_range(k);
                Affine { a: s, b: 0, c: 0, d: if rng.bool() { s } else { -s }, tx: 0, ty: 0 }
            }
            2 => {
                let r = |rng: &mut Rng| rng.range(-6.min(k), 6.min(k));
                Affine { a: r(rng), b: r(rng), c: r(rng), d: r(rng), tx: 0, ty: 0 }
            }
            _ => {
                let r = |rng: &mut Rng| rng.range(-k, k);
                Affine { a: r(rng), b: r(rng), c: r(rng), d: r(rng), tx: 0, ty: 0 }
            }
        };
        if m.det() != 0 {
            return m;
        }
    }
}

pub struct Exact {
    pub sc: Scene,
    pub dy: Dyadic,
}

impl Exact {
    pub fn random<T: Num>(rng: &mut Rng, nmax: i64, max: usize) -> Exact {
        let mut sc = Scene::random(rng, nmax, max);
        Exact::of::<T>(rng, &mut sc)
    }
    pub fn of<T: Num>(rng: &mut Rng, sc: &mut Scene) -> Exact {
        sc.map = small_affine(rng, sc.n, T::BITS);
        Exact { sc: sc.clone(), dy: Dyadic::random::<T>(rng) }
    }
    pub fn subj<T: Num>(&self) -> Vec<Vec<Pt<T>>> {
        self.dy.all(&self.sc.int_subj())
    }
    pub fn clip<T: Num>(&self) -> Vec<Vec<Pt<T>>> {
        self.dy.all(&self.sc.int_clip())
    }
    pub fn show(&self) -> String {
        format!("value = (integer + {:?}) * 2^{}\n{}", self.dy.off, self.dy.exp, self.sc.show())
    }
    pub fn sig(&self) -> u64 {
        crate::rng::hash_str(&self.show())
    }
}

/// arbitrary float scenes
pub struct Free<T: Num> {
    pub subj: Vec<Vec<Pt<T>>>,
    pub clip: Vec<Vec<Pt<T>>>,
    /// half of the greater extent, and the greatest coordinate
    pub size: f64,
    pub mag: f64,
}

impl<T: Num> Free<T> {
    /// Bundles of long edges over each other within a few units of the internal grid can make
    /// splitting expensive (see DESIGN.md): at most two such pairs are let through.
    pub fn random(rng: &mut Rng, max: usize) -> Free<T> {
        loop {
            let f = Free::any(rng, max);
            if f.bundled() <= 2 {
                return f;
            }
        }
    }
    fn bundled(&self) -> usize {
        let u = self.size / (1u64 << 29) as f64;
        let mut es = edges_f(&self.subj);
        es.extend(edges_f(&self.clip));
        for e in es.iter_mut() {
            if e.0 > e.1 {
                *e = (e.1, e.0);
            }
        }
        let mut n = 0;
        for (i, &(a, b)) in es.iter().enumerate() {
            if a.0 == b.0 || a.1 == b.1 {
                continue;
            }
            let d = (b.0 - a.0, b.1 - a.1);
            let l = d.0.hypot(d.1);
            let d = (d.0 / l, d.1 / l);
            let at = |p: Pf| ((p.0 - a.0) * d.0 + (p.1 - a.1) * d.1, (p.0 - a.0) * -d.1 + (p.1 - a.1) * d.0);
            for &(p, q) in &es[..i] {
                if (p, q) == (a, b) {
                    continue;
                }
                let (x, y) = (at(p), at(q));
                let (lo, hi) = (x.0.min(y.0).max(0.0), x.0.max(y.0).min(l));
                if hi - lo < 3000.0 * u {
                    continue;
                }
                let h = |t: f64| (x.1 + (y.1 - x.1) * (t - x.0) / (y.0 - x.0)).abs();
                if h(lo).min(h(hi)) < 16.0 * u && h(lo).max(h(hi)) < 1000.0 * u {
                    n += 1;
                }
            }
        }
        n
    }
    fn any(rng: &mut Rng, max: usize) -> Free<T> {
        // shapes made of small integers keep their coincidences approximately under the map
        let g = if rng.chance(1, 3) {
            let n = rng.range(2, 9);
            let subj = lattice::side(rng, n, max, &[]);
            let clip = lattice::side(rng, n, max, &subj);
            general::Scene { size: 2 * n, subj, clip, off: (0, 0) }
        } else {
            let mut g = general::Scene::random(rng, if T::BITS < 25 { 1 << 16 } else { 1 << 24 }, max);
            let o = g.off;
            for c in g.subj.iter_mut().chain(g.clip.iter_mut()) {
                for p in c.iter_mut() {
                    *p = (p.0 - o.0, p.1 - o.1);
                }
            }
            g
        };
        let scale = 10f64.powf(rng.frange(-9.0, 9.0)) / g.size as f64;
        let an = match rng.below(3) {
            0 => 0.0,
            _ => rng.frange(0.0, 6.3),
        };
        let far = scale * g.size as f64 * match rng.below(4) {
            0 => 0.0,
            1 => 1.0,
            _ => 10f64.powf(rng.frange(-1.0, if T::BITS < 25 { 1.5 } else { 4.0 })),
        };
        let off = (rng.frange(-1.0, 1.0) * far, rng.frange(-1.0, 1.0) * far);
        let (s, k) = an.sin_cos();
        let to = |p: &P| -> Pt<T> {
            let (x, y) = (p.0 as f64 * scale, p.1 as f64 * scale);
            [T::of(x * k - y * s + off.0), T::of(x * s + y * k + off.1)]
        };
        let m = |cs: &[Contour]| -> Vec<Vec<Pt<T>>> { cs.iter().map(|c| c.iter().map(to).collect()).collect() };
        Free::of(m(&g.subj), m(&g.clip))
    }
    pub fn of(subj: Vec<Vec<Pt<T>>>, clip: Vec<Vec<Pt<T>>>) -> Free<T> {
        let (mut lo, mut hi) = ((f64::MAX, f64::MAX), (f64::MIN, f64::MIN));
        let mut mag: f64 = 0.0;
        for p in subj.iter().chain(&clip).flatten() {
            let q = pf(p);
            lo = (lo.0.min(q.0), lo.1.min(q.1));
            hi = (hi.0.max(q.0), hi.1.max(q.1));
            mag = mag.max(q.0.abs()).max(q.1.abs());
        }
        let size = if lo.0 <= hi.0 { (hi.0 - lo.0).max(hi.1 - lo.1) / 2.0 } else { 0.0 };
        Free { subj, clip, size, mag }
    }
    /// how far rounding may move the result: the integer grid has about 2^29 units to the half
    /// extent, crossings wander a few units, coordinates are rounded to the float type
    pub fn tol(&self) -> f64 {
        self.size * 20.0 / (1u64 << 29) as f64 + (self.mag + self.size) * T::EPS * 8.0
    }
    pub fn show(&self) -> String {
        format!("{} size {:e} greatest coordinate {:e}\nsubj {:?}\nclip {:?}", T::NAME, self.size, self.mag, self.subj, self.clip)
    }
    pub fn sig(&self) -> u64 {
        crate::rng::hash_str(&self.show())
    }
}

pub fn edges_f<T: Num>(cs: &[Vec<Pt<T>>]) -> Vec<(Pf, Pf)> {
    let mut v = vec![];
    for c in cs {
        for i in 0..c.len() {
            let (a, b) = (pf(&c[i]), pf(&c[(i + 1) % c.len()]));
            if a != b {
                v.push((a, b));
            }
        }
    }
    v
}

pub fn dist_all(es: &[(Pf, Pf)], q: Pf) -> f64 {
    es.iter().map(|e| dist_to_seg(q, e.0, e.1)).fold(f64::MAX, f64::min)
}

/// winding around a point that is not close to any edge
pub fn winding_f(es: &[(Pf, Pf)], q: Pf) -> i32 {
    let mut w = 0;
    for &(a, b) in es {
        if (a.1 > q.1) == (b.1 > q.1) {
            continue;
        }
        let c = (b.0 - a.0) * (q.1 - a.1) - (b.1 - a.1) * (q.0 - a.0);
        if a.1 <= q.1 {
            if c > 0.0 {
                w += 1;
            }
        } else if c < 0.0 {
            w -= 1;
        }
    }
    w
}

/// points to ask about: everywhere, and beside edges, vertices and crossings at some tolerances
pub fn probes_f(rng: &mut Rng, es: &[(Pf, Pf)], n: usize, tol: f64) -> Vec<Pf> {
    if es.is_empty() {
        return vec![];
    }
    let (mut lo, mut hi) = (es[0].0, es[0].0);
    for p in es.iter().flat_map(|e| [e.0, e.1]) {
        lo = (lo.0.min(p.0), lo.1.min(p.1));
        hi = (hi.0.max(p.0), hi.1.max(p.1));
    }
    let mut v = vec![];
    for _ in 0..n {
        let base = match rng.below(5) {
            0 => {
                let d = (hi.0 - lo.0, hi.1 - lo.1);
                v.push((lo.0 + d.0 * rng.frange(-0.1, 1.1), lo.1 + d.1 * rng.frange(-0.1, 1.1)));
                continue;
            }
            1 => rng.pick(es).0,
            2 => {
                let (a, b) = *rng.pick(es);
                let (c, d) = *rng.pick(es);
                let r = (b.0 - a.0, b.1 - a.1);
                let q = (d.0 - c.0, d.1 - c.1);
                let den = r.0 * q.1 - r.1 * q.0;
                let t = if den != 0.0 { ((c.0 - a.0) * q.1 - (c.1 - a.1) * q.0) / den } else { 0.5 };
                let t = if (0.0..=1.0).contains(&t) { t } else { rng.f64() };
                (a.0 + t * r.0, a.1 + t * r.1)
            }
            _ => {
                let (a, b) = *rng.pick(es);
                let t = rng.f64();
                (a.0 + t * (b.0 - a.0), a.1 + t * (b.1 - a.1))
            }
        };
        let d = tol * 10f64.powf(rng.frange(0.05, 3.0));
        let an = rng.frange(0.0, 6.3);
        v.push((base.0 + d * an.cos(), base.1 + d * an.sin()));
    }
    v
}
