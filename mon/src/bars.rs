//! Upright bars across lying ones: results of up to tens of thousands of parts or holes, each known.
use crate::check;
use crate::eng::*;
use crate::geo::*;
use crate::plates::{self, turned, Plates};
use crate::rng::Rng;
use i_overlay::core::fill_rule::FillRule;
use i_overlay::core::overlay_rule::OverlayRule;
use std::collections::HashSet;

type Span = (i64, i64);

pub struct Bars {
    pub xs: Vec<Span>,
    pub ys: Vec<Span>,
    pub wide: Span,
    pub high: Span,
    pub turn: u64,
}

fn spans(rng: &mut Rng, n: usize) -> (Vec<Span>, Span) {
    let (thick, gap, unit) = (rng.range(1, 9), rng.range(1, 9), if rng.bool() { 1 } else { rng.log_range(40) });
    let mut at = 0;
    let v: Vec<Span> = (0..n)
        .map(|_| {
            let a = at + rng.range(1, gap);
            at = a + rng.range(1, thick);
            (a * unit, at * unit)
        })
        .collect();
    let all = (-rng.log_range(100), at * unit + rng.log_range(100));
    (v, all)
}

fn block(x: Span, y: Span) -> Contour {
    vec![(x.0, y.0), (x.1, y.0), (x.1, y.1), (x.0, y.1)]
}

/// what is between the spans, and before and after them
fn between(v: &[Span], all: Span) -> Vec<Span> {
    let mut at = all.0;
    let mut r = vec![];
    for s in v {
        r.push((at, s.0));
        at = s.1;
    }
    r.push((at, all.1));
    r
}

/// about `most` parts at the most
pub fn bars(rng: &mut Rng, most: usize) -> Bars {
    let all = 4 + rng.log_range(most as i64) as usize;
    let n = match rng.below(4) {
        0 => 1 + rng.log_range(all as i64 / 2) as usize,
        _ => (all as f64).sqrt() as usize,
    };
    let ((xs, wide), (ys, high)) = (spans(rng, n), spans(rng, (all / n).max(1)));
    let long = |v: &[Span]| v.len() > 10_000;
    let turn = plates::upright(rng.below(16), long(&xs), long(&ys));
    Bars { xs, ys, wide, high, turn }
}

impl Bars {
    pub fn show(&self) -> String {
        format!("{} upright bars within {:?}, {} lying ones within {:?}, turn {}; first {:?} {:?}", self.xs.len(), self.wide, self.ys.len(), self.high, self.turn, &self.xs[..self.xs.len().min(10)], &self.ys[..self.ys.len().min(10)])
    }

    pub fn size(&self) -> usize {
        (self.xs.len() + 1) * (self.ys.len() + 1)
    }

    fn put(&self, c: Contour) -> Contour {
        turned(&c, self.turn)
    }

    /// all counterclockwise
    pub fn subj(&self) -> Vec<Contour> {
        self.xs.iter().map(|&x| self.put(block(x, self.high))).collect()
    }

    pub fn clip(&self) -> Vec<Contour> {
        self.ys.iter().map(|&y| self.put(block(self.wide, y))).collect()
    }

    fn blocks(&self, xs: &[Span], ys: &[Span]) -> Vec<Contour> {
        xs.iter().flat_map(|&x| ys.iter().map(move |&y| (x, y))).map(|(x, y)| self.put(block(x, y))).collect()
    }

    /// the shapes a rule makes, except those of Xor, which touch each other
    pub fn shapes(&self, rule: OverlayRule) -> Plates {
        let (gx, gy) = (between(&self.xs, self.wide), between(&self.ys, self.high));
        let lone = match rule {
            OverlayRule::Subject => self.subj(),
            OverlayRule::Clip => self.clip(),
            OverlayRule::Intersect => self.blocks(&self.xs, &self.ys),
            OverlayRule::Difference => self.blocks(&self.xs, &gy),
            OverlayRule::InverseDifference => self.blocks(&gx, &self.ys),
            OverlayRule::Union => {
                let holes = self.blocks(&gx[1..gx.len() - 1], &gy[1..gy.len() - 1]);
                let mut o: Contour = vec![];
                let (x, y) = ((self.xs[0].0, self.xs.last().unwrap().1), (self.ys[0].0, self.ys.last().unwrap().1));
                for s in &self.xs {
                    o.extend([(s.0, y.0), (s.0, self.high.0), (s.1, self.high.0), (s.1, y.0)]);
                }
                for s in &self.ys {
                    o.extend([(x.1, s.0), (self.wide.1, s.0), (self.wide.1, s.1), (x.1, s.1)]);
                }
                for s in self.xs.iter().rev() {
                    o.extend([(s.1, y.1), (s.1, self.high.1), (s.0, self.high.1), (s.0, y.1)]);
                }
                for s in self.ys.iter().rev() {
                    o.extend([(x.0, s.1), (self.wide.0, s.1), (self.wide.0, s.0), (x.0, s.0)]);
                }
                // the four corners between the outermost bars come twice
                o.dedup();
                if o.first() == o.last() {
                    o.pop();
                }
                return Plates::of(vec![(self.put(o), holes)]);
            }
            OverlayRule::Xor => panic!("judged by steps"),
        };
        Plates::of(lone.into_iter().map(|c| (c, vec![])).collect())
    }

    /// the parts of the upright bars which the lower sides of the lying ones cut
    pub fn parts(&self) -> Plates {
        let mut at = self.high.0;
        let mut ys = vec![];
        for y in self.ys.iter().map(|y| y.0).chain([self.high.1]) {
            ys.push((at, y));
            at = y;
        }
        Plates::of(self.blocks(&self.xs, &ys).into_iter().map(|c| (c, vec![])).collect())
    }

    fn one(&self, p: P) -> P {
        plates::turn(p, self.turn)
    }

    /// lines along the lower sides of the lying bars, this way or that, or one path along all of them
    pub fn lines(&self, rng: &mut Rng) -> Vec<Contour> {
        let join = rng.bool();
        let mut v: Vec<Contour> = vec![];
        for (i, y) in self.ys.iter().enumerate() {
            let mut l = vec![(self.wide.0, y.0), (self.wide.1, y.0)];
            if if join { i % 2 == 1 } else { rng.bool() } {
                l.reverse();
            }
            v.push(l);
        }
        let mut v: Vec<Contour> = if join { vec![v.concat()] } else { v };
        for c in v.iter_mut() {
            c.iter_mut().for_each(|p| *p = self.one(*p));
        }
        v
    }

    fn back(&self, p: P) -> Result<P, String> {
        plates::turn_back(p, self.turn).ok_or_else(|| format!("the vertex {p:?} lies on no crossing"))
    }

    /// directed pieces between all sides of the bars
    fn steps(&self, paths: &[Contour], closed: bool) -> Result<Vec<(P, P)>, String> {
        let lines = |v: &[Span], all: Span| {
            let mut l: Vec<i64> = v.iter().flat_map(|s| [s.0, s.1]).chain([all.0, all.1]).collect();
            l.sort();
            l
        };
        let (lx, ly) = (lines(&self.xs, self.wide), lines(&self.ys, self.high));
        let mut out = vec![];
        for c in paths {
            let b: Contour = c.iter().map(|&p| self.back(p)).collect::<Result<_, _>>()?;
            let n = b.len();
            for i in 0..if closed { n } else { n.saturating_sub(1) } {
                let (p, q) = (b[i], b[(i + 1) % n]);
                let flat = p.1 == q.1;
                if p == q || !flat && p.0 != q.0 {
                    return Err(format!("an edge from {:?} to {:?}", c[i], c[(i + 1) % n]));
                }
                let (s, e, l) = if flat { (p.0, q.0, &lx) } else { (p.1, q.1, &ly) };
                let (lo, hi) = (s.min(e), s.max(e));
                let (a, z) = (l.partition_point(|&v| v <= lo), l.partition_point(|&v| v < hi));
                let mut m = vec![lo];
                m.extend(&l[a..z]);
                m.push(hi);
                if s > e {
                    m.reverse();
                }
                let at = |v: i64| if flat { (v, p.1) } else { (p.0, v) };
                out.extend(m.windows(2).map(|w| (at(w[0]), at(w[1]))));
            }
        }
        Ok(out)
    }

    pub fn same(mut a: Vec<(P, P)>, mut b: Vec<(P, P)>) -> Result<(), String> {
        a.sort();
        b.sort();
        if a == b {
            return Ok(());
        }
        if let Some(w) = a.windows(2).find(|w| w[0] == w[1]) {
            return Err(format!("{:?} (before turning) comes twice", w[0]));
        }
        let (x, y): (HashSet<_>, HashSet<_>) = (a.iter().collect(), b.iter().collect());
        let (more, less): (Vec<_>, Vec<_>) = (x.difference(&y).take(3).collect(), y.difference(&x).take(3).collect());
        Err(format!("too much {more:?}, missing {less:?} (before turning), {} pieces instead of {}", a.len(), b.len()))
    }

    /// `straight`: the result may still have vertices along straight sides
    pub fn judge(&self, rule: OverlayRule, out: &[Vec<Contour>], ccw: bool, straight: bool) -> Result<(), String> {
        if rule == OverlayRule::Xor {
            let cs: Vec<Contour> = out
                .iter()
                .flatten()
                .map(|c| {
                    let mut c = c.clone();
                    if !ccw {
                        c.reverse();
                    }
                    c
                })
                .collect();
            let mut want = vec![];
            for r in [OverlayRule::Difference, OverlayRule::InverseDifference] {
                want.extend(self.shapes(r).shapes.into_iter().map(|s| s.0));
            }
            return Self::same(self.steps(&cs, true)?, self.steps(&want, true)?);
        }
        let s = self.shapes(rule);
        if straight {
            let o: Vec<Vec<Contour>> = out.iter().map(|s| s.iter().map(|c| check::straighten(c)).collect()).collect();
            return s.judge(&o, ccw);
        }
        s.judge(out, ccw)
    }

    /// `inside`: the pieces of the lines in the upright bars are asked, otherwise the others
    pub fn judge_clip(&self, lines: &[Contour], out: &[Contour], inside: bool) -> Result<(), String> {
        let all = self.steps(lines, false)?;
        let within: HashSet<i64> = self.xs.iter().map(|s| s.0).collect();
        let want = all.into_iter().filter(|(a, b)| (a.1 == b.1 && within.contains(&a.0.min(b.0))) == inside).collect();
        Self::same(self.steps(out, false)?, want)
    }
}

/// how the bars are given: shuffled, begun anywhere, with a fill rule which takes them
pub fn dress(rng: &mut Rng, sides: &mut [&mut Vec<Contour>]) -> FillRule {
    let fill = *rng.pick(&FILLS);
    let mix = rng.bool();
    for v in sides.iter_mut() {
        for c in v.iter_mut() {
            let at = rng.usize(0, c.len() - 1);
            c.rotate_left(at);
            let back = match fill {
                FillRule::Positive => false,
                FillRule::Negative => true,
                _ => rng.bool(),
            };
            if back {
                c.reverse();
            }
        }
        if mix {
            rng.shuffle(v);
        }
    }
    fill
}
