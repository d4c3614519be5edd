//! Models of strokes and outlines: the region as a sum of simple polygons, each known between
//! a part that must be covered and a part that may be.
use crate::fl::*;
use crate::rng::Rng;
use i_overlay::mesh::style::{LineCap, LineJoin};
use std::f64::consts::PI;

pub type Poly = Vec<Pf>;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Join {
    Bevel,
    Miter(f64),
    Round(f64),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Cap {
    Butt,
    Round(f64),
    Square,
    Custom(Vec<Pf>),
}

impl Join {
    pub fn random(rng: &mut Rng) -> Join {
        let a = *rng.pick(&[0.0, -1.0, 0.02, 0.1, 0.3, 0.5, 0.785, 1.0, 1.57, 2.0, 3.0, 10.0]);
        match rng.below(3) {
            0 => Join::Bevel,
            1 => Join::Miter(a),
            _ => Join::Round(a),
        }
    }
    pub fn to<T: Num>(&self) -> LineJoin<T> {
        match self {
            Join::Bevel => LineJoin::Bevel,
            Join::Miter(a) => LineJoin::Miter(T::of(*a)),
            Join::Round(a) => LineJoin::Round(T::of(*a)),
        }
    }
    /// how far from the corner a join may reach, in units of the radius
    pub fn reach(&self) -> f64 {
        match self {
            Join::Miter(a) => 1.0 / (a.clamp(0.01 * PI, 0.99 * PI) / 2.0).sin(),
            _ => 1.0,
        }
    }
}

impl Cap {
    pub fn random(rng: &mut Rng) -> Cap {
        match rng.below(6) {
            0 => Cap::Butt,
            1 => Cap::Square,
            2 | 3 => Cap::Round(*rng.pick(&[0.0, 0.05, 0.1, 0.3, 0.5, 0.785, 2.0])),
            _ => {
                let v = |v: &[Pf]| Cap::Custom(v.to_vec());
                match rng.below(8) {
                    0 => v(&[(3.0, 0.0)]),
                    1 => v(&[(-1.0, 0.0)]),
                    2 => v(&[(0.0, -2.0), (4.0, 0.0), (0.0, 2.0)]),
                    3 => v(&[(-1.0, -3.0), (3.0, 0.0), (-1.0, 3.0)]),
                    4 => v(&[]),
                    5 => v(&[(2.0, -1.0), (1.0, 0.0), (2.0, 1.0)]),
                    6 => {
                        // a long stem
                        let l = rng.frange(1.0, 40.0);
                        v(&[(l, -0.5), (l, 0.5)])
                    }
                    _ => {
                        // a fan around the end
                        let n = rng.usize(1, 6);
                        let far = rng.frange(0.3, 6.0);
                        Cap::Custom(
                            (1..=n)
                                .map(|i| {
                                    let a = PI * (i as f64 / (n + 1) as f64 - 0.5);
                                    let l = rng.frange(0.3, far.max(0.4));
                                    (l * a.cos(), l * a.sin())
                                })
                                .collect(),
                        )
                    }
                }
            }
        }
    }
    pub fn to<T: Num>(&self) -> LineCap<Pt<T>, T> {
        match self {
            Cap::Butt => LineCap::Butt,
            Cap::Round(a) => LineCap::Round(T::of(*a)),
            Cap::Square => LineCap::Square,
            Cap::Custom(v) => LineCap::Custom(v.iter().map(|p| [T::of(p.0), T::of(p.1)]).collect()),
        }
    }
    pub fn reach(&self) -> f64 {
        match self {
            Cap::Square => 1.5,
            Cap::Custom(v) => v.iter().map(|p| p.0.hypot(p.1)).fold(1.0, f64::max),
            _ => 1.0,
        }
    }
}

/// one piece of the region: what it covers at least, and at most
pub struct Piece {
    pub must: Vec<Poly>,
    pub may: Poly,
}

#[derive(Default)]
pub struct Model {
    pub add: Vec<Piece>,
    pub sub: Vec<Piece>,
}

impl Model {
    pub fn exactly(&mut self, p: Poly) {
        if area(&p) >= 0.0 {
            self.add.push(Piece { must: vec![p.clone()], may: p });
        } else {
            self.sub.push(Piece { must: vec![p.clone()], may: p });
        }
    }
    pub fn edges(&self) -> Vec<(Pf, Pf)> {
        let mut v = vec![];
        for p in self.add.iter().chain(&self.sub).flat_map(|p| p.must.iter().chain([&p.may])) {
            for i in 0..p.len() {
                let (a, b) = (p[i], p[(i + 1) % p.len()]);
                if a != b {
                    v.push((a, b));
                }
            }
        }
        v
    }
    /// Some(inside), or None where the model leaves it open
    pub fn at(&self, q: Pf) -> Option<bool> {
        let must = |ps: &[Piece]| ps.iter().filter(|p| p.must.iter().any(|m| has(m, q))).count();
        let may = |ps: &[Piece]| ps.iter().filter(|p| has(&p.may, q) || p.must.iter().any(|m| has(m, q))).count();
        if must(&self.add) > may(&self.sub) {
            return Some(true);
        }
        if may(&self.add) <= must(&self.sub) {
            return Some(false);
        }
        None
    }
}

pub fn area(p: &[Pf]) -> f64 {
    if p.is_empty() {
        return 0.0;
    }
    let o = p[0];
    (0..p.len())
        .map(|i| {
            let (a, b) = (p[i], p[(i + 1) % p.len()]);
            (a.0 - o.0) * (b.1 - o.1) - (a.1 - o.1) * (b.0 - o.0)
        })
        .sum::<f64>()
        / 2.0
}

pub fn has(p: &[Pf], q: Pf) -> bool {
    let mut w = 0;
    for i in 0..p.len() {
        let (a, b) = (p[i], p[(i + 1) % p.len()]);
        if (a.1 > q.1) == (b.1 > q.1) {
            continue;
        }
        let c = (b.0 - a.0) * (q.1 - a.1) - (b.1 - a.1) * (q.0 - a.0);
        if a.1 <= q.1 {
            if c > 0.0 {
                w += 1;
            }
        } else if c < 0.0 {
            w -= 1;
        }
    }
    w != 0
}

pub fn add(a: Pf, b: Pf) -> Pf {
    (a.0 + b.0, a.1 + b.1)
}
pub fn mul(a: Pf, k: f64) -> Pf {
    (a.0 * k, a.1 * k)
}
fn dot(a: Pf, b: Pf) -> f64 {
    a.0 * b.0 + a.1 * b.1
}
pub fn unit(a: Pf, b: Pf) -> Pf {
    let d = (b.0 - a.0, b.1 - a.1);
    let l = d.0.hypot(d.1);
    (d.0 / l, d.1 / l)
}
pub fn left(d: Pf) -> Pf {
    (-d.1, d.0)
}

fn arc(p: Pf, r: f64, from: f64, sweep: f64) -> Poly {
    let n = (sweep.abs() / 0.02).ceil().max(2.0) as usize;
    (0..=n)
        .map(|i| {
            let a = from + sweep * i as f64 / n as f64;
            (p.0 + r * a.cos(), p.1 + r * a.sin())
        })
        .collect()
}

/// the wedge between the offset sides of two edges that meet in p, on the outside of the turn;
/// the sides are at r to the left of the directions when r is positive, else to the right
pub fn wedge(p: Pf, d0: Pf, d1: Pf, r: f64, join: Join) -> Piece {
    let (n0, n1) = (left(d0), left(d1));
    let (s, e) = (add(p, mul(n0, r)), add(p, mul(n1, r)));
    let bevel = vec![p, s, e];
    let l = r.abs();
    let theta = dot(d0, d1).clamp(-1.0, 1.0).acos();
    match join {
        Join::Bevel => Piece { must: vec![bevel.clone()], may: bevel },
        Join::Round(a) => {
            let a = a.clamp(0.01 * PI, 0.25 * PI);
            let from = (n0.1 * r.signum()).atan2(n0.0 * r.signum());
            let sweep = -theta * r.signum();
            let mut may = vec![p];
            // a circumscribed polygon
            may.extend(arc(p, l * 1.0001, from, sweep));
            let mut must = vec![p];
            must.extend(arc(p, l * (0.75 * a).cos(), from, sweep));
            Piece { must: vec![must, bevel], may }
        }
        Join::Miter(a) => {
            let a = a.clamp(0.01 * PI, 0.99 * PI);
            let inner = PI - theta;
            let cut = l / (a / 2.0).tan();
            let blunt = vec![p, s, add(s, mul(d0, cut)), add(e, mul(d1, -cut)), e];
            let t = l * (theta / 2.0).tan();
            let sharp = vec![p, s, add(s, mul(d0, t)), e];
            if theta > PI - 2e-4 {
                // as good as reversed
                Piece { must: vec![bevel], may: blunt }
            } else if inner > a * 1.001 {
                Piece { must: vec![sharp.clone()], may: sharp }
            } else if inner < a * 0.999 {
                Piece { must: vec![blunt.clone()], may: blunt }
            } else {
                let k = cut.max(t) * 1.01;
                Piece { must: vec![bevel], may: vec![p, s, add(s, mul(d0, k)), add(e, mul(d1, -k)), e] }
            }
        }
    }
}

fn cap(m: &mut Model, p: Pf, d: Pf, r: f64, c: &Cap) {
    let place = |v: Pf| (p.0 + r * (v.0 * d.0 - v.1 * d.1), p.1 + r * (v.0 * d.1 + v.1 * d.0));
    let full = |v: &[Pf]| -> Poly {
        let mut x = vec![place((0.0, -1.0))];
        x.extend(v.iter().map(|&v| place(v)));
        x.push(place((0.0, 1.0)));
        x
    };
    match c {
        Cap::Butt => {}
        Cap::Square => m.exactly(full(&[(1.0, -1.0), (1.0, 1.0)])),
        Cap::Custom(v) => {
            // simple by construction; the part of the polygon which runs clockwise is taken away
            let p = full(v);
            if area(&p).abs() > 1e-9 * r * r {
                m.exactly(p)
            }
        }
        Cap::Round(a) => {
            let a = a.clamp(0.01 * PI, 0.25 * PI);
            let from = (-d.0).atan2(d.1);
            let may = arc(p, r * 1.0001, from, PI);
            let must = arc(p, r * (0.75 * a).cos(), from, PI);
            m.add.push(Piece { must: vec![must, full(&[])], may });
        }
    }
}

pub fn dedup(path: &[Pf], closed: bool) -> Vec<Pf> {
    let mut v = path.to_vec();
    v.dedup();
    while closed && v.len() > 1 && v.first() == v.last() {
        v.pop();
    }
    v
}

/// the model of one stroked path
pub fn stroke(m: &mut Model, path: &[Pf], closed: bool, r: f64, join: Join, start: &Cap, end: &Cap) {
    let v = dedup(path, closed);
    let n = v.len();
    if n < 2 {
        return;
    }
    let k = if closed { n } else { n - 1 };
    let d: Vec<Pf> = (0..k).map(|i| unit(v[i], v[(i + 1) % n])).collect();
    for i in 0..k {
        let (a, b, t) = (v[i], v[(i + 1) % n], mul(left(d[i]), r));
        let u = (-t.0, -t.1);
        m.exactly(vec![add(a, u), add(b, u), add(b, t), add(a, t)]);
    }
    for i in 0..k {
        let j = (i + 1) % k;
        if !closed && i + 1 == k {
            break;
        }
        let turn = d[i].0 * d[j].1 - d[i].1 * d[j].0;
        // the outside of a left turn is to the right
        m.add.push(wedge(v[(i + 1) % n], d[i], d[j], if turn > 0.0 { -r } else { r }, join));
    }
    if !closed {
        cap(m, v[0], (-d[0].0, -d[0].1), r, start);
        cap(m, v[n - 1], d[k - 1], r, end);
    }
}

/// How an arbitrary path comes about: points are far apart compared to the grid, or equal.
pub fn path(rng: &mut Rng, max: usize) -> Vec<Pf> {
    let n = rng.usize(2, max);
    let mut v: Vec<Pf> = vec![];
    let kind = rng.below(6);
    let mut an = rng.frange(0.0, 6.3);
    let step = rng.frange(0.02, 1.0);
    let turn = rng.frange(-1.5, 1.5);
    let mut p = (rng.frange(0.0, 1.0), rng.frange(0.0, 1.0));
    let near = |v: &[Pf], p: Pf| v.last().map_or(false, |q: &Pf| *q != p && (q.0 - p.0).hypot(q.1 - p.1) < 0.004);
    while v.len() < n {
        let q = match kind {
            0 => (rng.frange(0.0, 1.0), rng.frange(0.0, 1.0)),
            // small integers: equal points, exact reversals, right angles
            1 => (rng.range(0, 4) as f64 * 0.25, rng.range(0, 4) as f64 * 0.25),
            2 => {
                // a curve
                an += turn * 0.3;
                p = add(p, (step * 0.3 * an.cos(), step * 0.3 * an.sin()));
                p
            }
            3 => {
                // sharp turns and steps of various lengths
                an += rng.frange(-3.2, 3.2);
                let l = 10f64.powf(rng.frange(-2.0, 0.0));
                p = add(p, (l * an.cos(), l * an.sin()));
                p
            }
            4 => {
                // right angles with unequal steps
                // a path that goes over itself again and again is slow to split (see DESIGN.md)
                let back = rng.chance(1, 10);
                an += if back { PI } else { *rng.pick(&[PI / 2.0, -PI / 2.0, 0.0]) };
                let l = rng.frange(0.01, 0.5);
                p = add(p, (l * an.cos().round(), l * an.sin().round()));
                p
            }
            _ => {
                // fine smooth path
                an += rng.frange(-0.4, 0.4);
                p = add(p, (0.03 * an.cos(), 0.03 * an.sin()));
                p
            }
        };
        if !near(&v, q) {
            v.push(q);
            if rng.chance(1, 12) {
                v.push(q);
            }
        }
    }
    v
}

/// Where unit-size figures are put: an angle, a scale and an offset.
pub struct Placing {
    pub scale: f64,
    cs: f64,
    sn: f64,
    off: Pf,
}

impl Placing {
    pub fn random<T: Num>(rng: &mut Rng) -> Placing {
        let scale = 10f64.powf(rng.frange(-6.0, 6.0));
        let an = if rng.chance(1, 3) { 0.0 } else { rng.frange(0.0, 6.3) };
        let far = match rng.below(3) {
            0 => 0.0,
            1 => scale,
            _ => scale * 10f64.powf(rng.frange(-1.0, if T::BITS < 25 { 1.0 } else { 4.0 })),
        };
        let scale = if rng.chance(1, 4) { 2f64.powi(scale.log2() as i32) } else { scale };
        Placing { scale, cs: an.cos(), sn: an.sin(), off: (rng.frange(-1.0, 1.0) * far, rng.frange(-1.0, 1.0) * far) }
    }
    pub fn to<T: Num>(&self, p: Pf) -> Pt<T> {
        let (x, y) = (p.0 * self.scale, p.1 * self.scale);
        [T::of(x * self.cs - y * self.sn + self.off.0), T::of(x * self.sn + y * self.cs + self.off.1)]
    }
}

/// rounding of a buffer of paths within these bounds that reaches `reach` beyond them
pub fn tolerance<T: Num>(paths: &[Vec<Pt<T>>], reach: f64) -> f64 {
    let f = Free::of(paths.to_vec(), vec![]);
    let e = f.size + 2.5 * reach;
    e * 40.0 / (1u64 << 28) as f64 + (f.mag + e) * T::EPS * 20.0
}

/// a contour offset outwards by r (inwards when negative); the contour is counterclockwise
pub fn outline(path: &[Pf], r: f64, join: Join) -> Model {
    let mut m = Model::default();
    let v = dedup(path, true);
    let n = v.len();
    if n < 3 {
        return m;
    }
    m.add.push(Piece { must: vec![v.clone()], may: v.clone() });
    let d: Vec<Pf> = (0..n).map(|i| unit(v[i], v[(i + 1) % n])).collect();
    let to = if r > 0.0 { &mut m.add } else { &mut m.sub };
    for i in 0..n {
        let (a, b, t) = (v[i], v[(i + 1) % n], mul(left(d[i]), -r));
        let q = vec![a, add(a, t), add(b, t), b];
        to.push(Piece { must: vec![q.clone()], may: q });
    }
    for i in 0..n {
        let j = (i + 1) % n;
        let turn = d[i].0 * d[j].1 - d[i].1 * d[j].0;
        let back = d[i].0 * d[j].0 + d[i].1 * d[j].1 < 0.0;
        if turn * r > 0.0 || back && turn.abs() < 1e-9 {
            to.push(wedge(v[j], d[i], d[j], -r, join));
        }
    }
    m
}

/// whether every contour's own region is known at q: outer contours add, holes take away
pub fn sum_at(outer: &[Model], holes: &[Model], q: Pf) -> Option<bool> {
    let count = |ms: &[Model]| {
        let mut n = (0, 0);
        for m in ms {
            match m.at(q) {
                Some(true) => n = (n.0 + 1, n.1 + 1),
                None => n.1 += 1,
                _ => {}
            }
        }
        n
    };
    let (a, b) = (count(outer), count(holes));
    if a.0 > b.1 {
        return Some(true);
    }
    if a.1 <= b.0 {
        return Some(false);
    }
    None
}
