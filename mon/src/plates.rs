//! Many plates with many holes, islands in holes and holes in islands: results of up to tens of
//! thousands of contours, with the known place of each.
use crate::eng::*;
use crate::geo::*;
use crate::rng::Rng;
use i_overlay::core::solver::{Solver, Strategy};
use std::collections::HashMap;

pub struct Plates {
    pub contours: Vec<Contour>,
    /// the corners of each outer boundary, and those of the holes in it
    pub shapes: Vec<(Contour, Vec<Contour>)>,
    turn: u64,
}

fn square(x: i64, y: i64, s: i64) -> Contour {
    vec![(x, y), (x + s, y), (x + s, y + s), (x, y + s)]
}

/// another turn when it would lay down a great many edges: each of them is in every column of the
/// frag strategy, which takes gigabytes
pub fn upright(turn: u64, upright: bool, lying: bool) -> u64 {
    if upright && turn < 8 {
        turn & !4
    } else if lying && turn < 8 {
        turn | 4
    } else {
        turn
    }
}

/// one of eight turns and reflections, or these aslant; corners stay on whole points
pub fn turn((x, y): P, turn: u64) -> P {
    let (x, y) = if turn & 1 == 0 { (x, y) } else { (-x, y) };
    let (x, y) = if turn & 2 == 0 { (x, y) } else { (x, -y) };
    let (x, y) = if turn & 4 == 0 { (x, y) } else { (y, x) };
    if turn & 8 == 0 { (x, y) } else { (3 * x - 2 * y, x + 5 * y) }
}

pub fn turn_back((x, y): P, turn: u64) -> Option<P> {
    let (x, y) = if turn & 8 == 0 {
        (x, y)
    } else {
        let (u, v) = (5 * x + 2 * y, 3 * y - x);
        if u % 17 != 0 || v % 17 != 0 {
            return None;
        }
        (u / 17, v / 17)
    };
    let (x, y) = if turn & 4 == 0 { (x, y) } else { (y, x) };
    let (x, y) = if turn & 2 == 0 { (x, y) } else { (x, -y) };
    Some(if turn & 1 == 0 { (x, y) } else { (-x, y) })
}

pub fn turned(c: &[P], way: u64) -> Contour {
    let mut v: Contour = c.iter().map(|&p| turn(p, way)).collect();
    if area2(&v) < 0 {
        v.reverse();
    }
    v
}

/// how many contours a case may have: most cases are small, a few very large
pub fn most(rng: &mut Rng) -> usize {
    if rng.chance(1, 40) {
        90_000
    } else if rng.chance(1, 4) {
        6_000
    } else {
        300
    }
}

/// any solver; the list strategy takes too long for large inputs
pub fn solver(rng: &mut Rng, size: usize) -> Solver {
    let mut sv = fine_solver(rng);
    if size > 5_000 && sv.strategy == Strategy::List {
        sv.strategy = Strategy::Auto;
    }
    sv
}

fn key(c: &[P]) -> Contour {
    let mut v = c.to_vec();
    v.sort();
    v
}

/// `most` contours at the most, `deep` with islands
pub fn plates(rng: &mut Rng, most: usize) -> Plates {
    let mut turn = rng.below(16);
    let holes = 1 + rng.log_range(most as i64 / 2) as usize;
    let count = (most / (holes + 1)).max(1).min(1 + rng.log_range(most as i64) as usize);
    let side = (holes as f64).sqrt().ceil() as i64;
    let pitch = *rng.pick(&[10, 12, 20]);
    let size = side * pitch + 2;
    let across = if rng.chance(1, 4) { count as i64 } else { (count as f64).sqrt().ceil() as i64 };
    if across > 4_000 {
        turn = upright(turn, true, false);
    }
    let gap = rng.range(1, 7);
    let skew = rng.range(0, 3);
    let mut shapes = vec![];
    for i in 0..count as i64 {
        let (x, y) = ((i % across) * (size + gap), (i / across) * (size + gap + skew) + skew * (i % across));
        let mut own = vec![];
        let n = if rng.bool() { holes } else { rng.usize(0, holes) };
        for h in 0..n as i64 {
            let (hx, hy) = (x + 2 + (h % side) * pitch, y + 2 + (h / side) * pitch);
            own.push(turned(&square(hx, hy, 8), turn));
            match rng.below(6) {
                0 => shapes.push((turned(&square(hx + 1, hy + 1, 6), turn), vec![])),
                1 => shapes.push((turned(&square(hx + 1, hy + 1, 6), turn), vec![turned(&square(hx + 3, hy + 2, 2), turn)])),
                _ => {}
            }
        }
        shapes.push((turned(&square(x, y, size), turn), own));
    }
    let mut contours: Vec<Contour> = shapes.iter().flat_map(|(o, h)| std::iter::once(o).chain(h)).cloned().collect();
    // even-odd: the ways of the contours do not matter
    for c in contours.iter_mut() {
        if rng.bool() {
            c.reverse();
        }
    }
    if rng.bool() {
        rng.shuffle(&mut contours);
    }
    Plates { contours, shapes, turn }
}

impl Plates {
    pub fn of(shapes: Vec<(Contour, Vec<Contour>)>) -> Plates {
        Plates { contours: vec![], shapes, turn: 0 }
    }

    /// without the contours of less than this area, counted in whole units
    pub fn from_area(&self, least: usize) -> Plates {
        let keeps = |c: &Contour| area2(c).unsigned_abs() >> 1 >= least as u128;
        let s = self.shapes.iter().filter(|s| keeps(&s.0)).map(|s| (s.0.clone(), s.1.iter().filter(|h| keeps(h)).cloned().collect()));
        Plates::of(s.collect())
    }

    pub fn show(&self) -> String {
        format!("{} plates, {} contours, turn {}; first {}", self.shapes.len(), self.contours.len(), self.turn, show(&self.contours[..self.contours.len().min(20)]))
    }

    /// every plate with its own holes and no others
    pub fn judge(&self, out: &[Vec<Contour>], ccw: bool) -> Result<(), String> {
        if out.len() != self.shapes.len() {
            return Err(format!("{} shapes where there are {} plates", out.len(), self.shapes.len()));
        }
        let mut place: HashMap<Contour, usize> = HashMap::new();
        let mut owner: HashMap<Contour, usize> = HashMap::new();
        for (i, (o, hs)) in self.shapes.iter().enumerate() {
            place.insert(key(o), i);
            for h in hs {
                owner.insert(key(h), i);
            }
        }
        let mut seen = vec![false; out.len()];
        for s in out {
            let Some(&i) = s.first().and_then(|o| place.get(&key(o))) else {
                return Err(format!("a shape begins with {:?}, which is no plate", s.first()));
            };
            if std::mem::replace(&mut seen[i], true) {
                return Err(format!("the plate {:?} comes twice", s[0]));
            }
            if s.len() - 1 != self.shapes[i].1.len() {
                return Err(format!("the plate {:?} has {} holes instead of {}", s[0], s.len() - 1, self.shapes[i].1.len()));
            }
            for (j, c) in s.iter().enumerate() {
                if (area2(c) > 0) != (ccw == (j == 0)) {
                    return Err(format!("contour {j} of the plate {:?} runs the wrong way: {c:?}", s[0]));
                }
                if j > 0 && owner.get(&key(c)) != Some(&i) {
                    return Err(format!("the hole {c:?} is listed with the plate {:?}", s[0]));
                }
            }
            let mut hs: Vec<Contour> = s[1..].iter().map(|c| key(c)).collect();
            hs.sort();
            if hs.windows(2).any(|w| w[0] == w[1]) {
                return Err(format!("the plate {:?} has a hole twice", s[0]));
            }
        }
        Ok(())
    }
}
