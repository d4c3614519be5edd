//! Exact planar geometry used by the monitors; independent of the code under test.
use i_overlay::i_float::int::point::IntPoint;

pub type P = (i64, i64);
pub type Contour = Vec<P>;

pub fn ip(p: P) -> IntPoint {
    IntPoint::new(p.0 as i32, p.1 as i32)
}
pub fn to_int(c: &[P]) -> Vec<IntPoint> {
    c.iter().map(|&p| ip(p)).collect()
}
pub fn from_int(c: &[IntPoint]) -> Contour {
    c.iter().map(|p| (p.x as i64, p.y as i64)).collect()
}
pub fn cross(o: P, a: P, b: P) -> i128 {
    (a.0 - o.0) as i128 * (b.1 - o.1) as i128 - (a.1 - o.1) as i128 * (b.0 - o.0) as i128
}

/// twice the signed area, positive for counterclockwise (y up)
pub fn area2(c: &[P]) -> i128 {
    let mut s = 0i128;
    for i in 0..c.len() {
        let (a, b) = (c[i], c[(i + 1) % c.len()]);
        s += a.0 as i128 * b.1 as i128 - a.1 as i128 * b.0 as i128;
    }
    s
}

pub fn area2_all(cs: &[Contour]) -> i128 {
    cs.iter().map(|c| area2(c)).sum()
}

pub fn edges(cs: &[Contour]) -> Vec<(P, P)> {
    let mut v = Vec::new();
    for c in cs {
        for i in 0..c.len() {
            let (a, b) = (c[i], c[(i + 1) % c.len()]);
            if a != b {
                v.push((a, b));
            }
        }
    }
    v
}

/// winding number of contours around q given in coordinates multiplied by k;
/// None when q is on an edge
pub fn winding(es: &[(P, P)], q: P, k: i64) -> Option<i32> {
    let mut w = 0;
    for &(a, b) in es {
        let (ax, ay, bx, by) = (a.0 * k, a.1 * k, b.0 * k, b.1 * k);
        if (ay > q.1) == (by > q.1) {
            // may still touch
            if ay == q.1 && by == q.1 && q.0 >= ax.min(bx) && q.0 <= ax.max(bx) {
                return None;
            }
            if (ay == q.1 && ax == q.0) || (by == q.1 && bx == q.0) {
                return None;
            }
            continue;
        }
        let c = cross((ax, ay), (bx, by), q);
        if c == 0 {
            return None;
        }
        if ay <= q.1 {
            // upward edge: q left of it
            if c > 0 {
                w += 1;
            }
        } else if c < 0 {
            w -= 1;
        }
    }
    Some(w)
}

pub fn dist_to_seg(q: (f64, f64), a: (f64, f64), b: (f64, f64)) -> f64 {
    let (dx, dy) = (b.0 - a.0, b.1 - a.1);
    let l2 = dx * dx + dy * dy;
    let t = if l2 > 0.0 { (((q.0 - a.0) * dx + (q.1 - a.1) * dy) / l2).clamp(0.0, 1.0) } else { 0.0 };
    let (x, y) = (a.0 + t * dx - q.0, a.1 + t * dy - q.1);
    (x * x + y * y).sqrt()
}

pub fn f(p: P) -> (f64, f64) {
    (p.0 as f64, p.1 as f64)
}

/// q on the closed segment ab
pub fn on_seg(q: P, a: P, b: P) -> bool {
    cross(a, b, q) == 0 && q.0 >= a.0.min(b.0) && q.0 <= a.0.max(b.0) && q.1 >= a.1.min(b.1) && q.1 <= a.1.max(b.1)
}

/// the two segments share an interior point of both transversally (proper crossing)
pub fn proper_cross(a: P, b: P, c: P, d: P) -> bool {
    let d1 = cross(a, b, c).signum();
    let d2 = cross(a, b, d).signum();
    let d3 = cross(c, d, a).signum();
    let d4 = cross(c, d, b).signum();
    d1 * d2 < 0 && d3 * d4 < 0
}

/// segments are collinear and overlap in more than a point
pub fn overlap(a: P, b: P, c: P, d: P) -> bool {
    if cross(a, b, c) != 0 || cross(a, b, d) != 0 {
        return false;
    }
    let key = |p: P| if (b.0 - a.0).abs() >= (b.1 - a.1).abs() { p.0 } else { p.1 };
    let (l1, h1) = (key(a).min(key(b)), key(a).max(key(b)));
    let (l2, h2) = (key(c).min(key(d)), key(c).max(key(d)));
    l1.max(l2) < h1.min(h2)
}

pub fn show(cs: &[Contour]) -> String {
    let mut s = String::from("[");
    for (i, c) in cs.iter().enumerate() {
        if i > 0 {
            s.push_str(", ");
        }
        s.push('[');
        for (j, p) in c.iter().enumerate() {
            if j > 0 {
                s.push(' ');
            }
            s.push_str(&format!("({},{})", p.0, p.1));
        }
        s.push(']');
    }
    s.push(']');
    s
}

/// Integer affine map with an exact inverse on its lattice.
#[derive(Clone, Copy, Debug)]
pub struct Affine {
    pub a: i64,
    pub b: i64,
    pub c: i64,
    pub d: i64,
    pub tx: i64,
    pub ty: i64,
}

impl Affine {
    pub const ID: Affine = Affine { a: 1, b: 0, c: 0, d: 1, tx: 0, ty: 0 };
    pub fn det(&self) -> i64 {
        self.a * self.d - self.b * self.c
    }
    pub fn map(&self, p: P) -> P {
        (self.a * p.0 + self.b * p.1 + self.tx, self.c * p.0 + self.d * p.1 + self.ty)
    }
    pub fn map_all(&self, cs: &[Contour]) -> Vec<Contour> {
        cs.iter().map(|c| c.iter().map(|&p| self.map(p)).collect()).collect()
    }
    /// exact preimage, when it is a lattice point
    pub fn back(&self, p: P) -> Option<P> {
        let det = self.det() as i128;
        let (x, y) = ((p.0 - self.tx) as i128, (p.1 - self.ty) as i128);
        let u = self.d as i128 * x - self.b as i128 * y;
        let v = -(self.c as i128) * x + self.a as i128 * y;
        if u % det != 0 || v % det != 0 {
            return None;
        }
        Some(((u / det) as i64, (v / det) as i64))
    }
    pub fn sign(&self) -> i32 {
        self.det().signum() as i32
    }
}
