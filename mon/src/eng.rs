//! Helpers to call the code under test.
use crate::geo::*;
use crate::rng::Rng;
use i_overlay::core::fill_rule::FillRule;
use i_overlay::core::overlay::{ContourDirection, Overlay, ShapeType};
use i_overlay::core::overlay_rule::OverlayRule;
use i_overlay::core::solver::{MultithreadOptions, Precision, Solver, Strategy};
use i_overlay::i_shape::int::shape::IntShapes;

pub const FILLS: [FillRule; 4] = [FillRule::EvenOdd, FillRule::NonZero, FillRule::Positive, FillRule::Negative];
pub const RULES: [OverlayRule; 7] = [
    OverlayRule::Subject,
    OverlayRule::Clip,
    OverlayRule::Intersect,
    OverlayRule::Union,
    OverlayRule::Difference,
    OverlayRule::InverseDifference,
    OverlayRule::Xor,
];
pub const STRATEGIES: [Strategy; 4] = [Strategy::List, Strategy::Tree, Strategy::Frag, Strategy::Auto];

/// the definition of the fill rules: winding counted positive for counterclockwise contours
pub fn filled(rule: FillRule, w: i32) -> bool {
    match rule {
        FillRule::EvenOdd => w % 2 != 0,
        FillRule::NonZero => w != 0,
        FillRule::Positive => w > 0,
        FillRule::Negative => w < 0,
    }
}

/// the definition of the overlay rules as set operations
pub fn combine(rule: OverlayRule, s: bool, c: bool) -> bool {
    match rule {
        OverlayRule::Subject => s,
        OverlayRule::Clip => c,
        OverlayRule::Intersect => s && c,
        OverlayRule::Union => s || c,
        OverlayRule::Difference => s && !c,
        OverlayRule::InverseDifference => c && !s,
        OverlayRule::Xor => s != c,
    }
}

pub fn overlay(subj: &[Contour], clip: &[Contour]) -> Overlay {
    let s: Vec<_> = subj.iter().map(|c| to_int(c)).collect();
    let c: Vec<_> = clip.iter().map(|c| to_int(c)).collect();
    let mut o = Overlay::with_contours(&s, &c);
    let _ = &mut o;
    o
}

/// the same input through one of the other ways of adding it
pub fn overlay_via(rng: &mut Rng, subj: &[Contour], clip: &[Contour]) -> Overlay {
    let s: Vec<_> = subj.iter().map(|c| to_int(c)).collect();
    let c: Vec<_> = clip.iter().map(|c| to_int(c)).collect();
    match rng.below(6) {
        0 => Overlay::with_contours(&s, &c),
        1 => Overlay::with_shapes(&[s], &[c]),
        2 => {
            let s: Vec<_> = s.into_iter().map(|c| vec![c]).collect();
            let c: Vec<_> = c.into_iter().map(|c| vec![c]).collect();
            Overlay::with_shapes(&s, &c)
        }
        3 => {
            let mut o = Overlay::new(rng.usize(0, 64));
            for x in &c {
                o.add_contour(x, ShapeType::Clip);
            }
            for x in &s {
                o.add_path_iter(x.iter().cloned(), ShapeType::Subject);
            }
            o
        }
        4 => {
            let mut o = Overlay::new(0);
            o.add_contours(&s, ShapeType::Subject);
            o.add_shape(&c, ShapeType::Clip);
            o
        }
        _ => {
            if s.len() == 1 && c.len() == 1 {
                Overlay::with_contour(&s[0], &c[0])
            } else {
                let mut o = Overlay::new(1);
                o.add_shapes(&[c], ShapeType::Clip);
                o.add_shapes(&[s], ShapeType::Subject);
                o
            }
        }
    }
}

pub fn solver_of(strategy: Strategy) -> Solver {
    Solver { strategy, precision: Precision::HIGH, multithreading: Some(MultithreadOptions::default()) }
}

pub fn show_solver(s: &Solver) -> String {
    format!(
        "{:?} precision({},{}) par_sort {:?}",
        s.strategy,
        s.precision.start,
        s.precision.progression,
        s.multithreading.map(|m| m.par_sort_min_size)
    )
}

pub fn dir(rng: &mut Rng) -> ContourDirection {
    if rng.bool() { ContourDirection::CounterClockwise } else { ContourDirection::Clockwise }
}

pub fn is_ccw(d: ContourDirection) -> bool {
    d == ContourDirection::CounterClockwise
}

pub type Shapes = Vec<Vec<Contour>>;

pub fn shapes_of(s: &IntShapes) -> Shapes {
    s.iter().map(|sh| sh.iter().map(|c| from_int(c)).collect()).collect()
}

pub fn show_out(s: &Shapes) -> String {
    let mut t = String::from("result:\n");
    for (i, shape) in s.iter().enumerate() {
        t.push_str(&format!("  shape {i}: {}\n", show(shape)));
    }
    t
}

pub const PRECISIONS: [Precision; 6] =
    [Precision::ABSOLUTE, Precision::HIGH, Precision::MEDIUM_HIGH, Precision::MEDIUM, Precision::MEDIUM_LOW, Precision::LOW];

thread_local! {
    static SERIAL: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

/// whether calls made by this thread shall stay on it
pub fn set_serial(on: bool) {
    SERIAL.with(|s| s.set(on));
}

pub fn serial() -> bool {
    SERIAL.with(|s| s.get())
}

/// the solver of a strategy and a precision, as the library's own constants and constructors make it
pub fn named_solver(rng: &mut Rng, strategy: Strategy, precision: Precision) -> Solver {
    match strategy {
        Strategy::List if precision == Precision::HIGH && rng.bool() => Solver::LIST,
        Strategy::Tree if precision == Precision::HIGH && rng.bool() => Solver::TREE,
        Strategy::Frag if precision == Precision::HIGH && rng.bool() => Solver::FRAG,
        Strategy::Auto if precision == Precision::HIGH && rng.bool() => Solver::AUTO,
        Strategy::Auto if rng.bool() => Solver::with_precision(precision),
        _ => Solver::with_strategy_and_precision(strategy, precision),
    }
}

/// any solver, including one that sorts in parallel from tiny sizes on
pub fn any_solver(rng: &mut Rng, precision: Precision) -> Solver {
    let strategy = *rng.pick(&STRATEGIES);
    if !serial() && rng.chance(1, 12) {
        // as the library's own constants and constructors have it
        return named_solver(rng, strategy, precision);
    }
    let multithreading = match rng.below(24) {
        0 => Some(MultithreadOptions { par_sort_min_size: rng.usize(1, 40) }),
        1..=4 => Some(MultithreadOptions::default()),
        _ => None,
    };
    Solver { strategy, precision, multithreading: if serial() { None } else { multithreading } }
}

/// lattice coordinates never get rounded, so any of the finer precisions must be exact there
pub fn fine_solver(rng: &mut Rng) -> Solver {
    let p = match rng.below(6) {
        0 => Precision::ABSOLUTE,
        1 => Precision::MEDIUM,
        _ => Precision::HIGH,
    };
    any_solver(rng, p)
}

/// a solver for a scene of arbitrary slopes: the finest precision closes in on near-parallel
/// edges one unit at a time and rounds in each round, so it is used with short edges only
/// (see the known findings)
pub fn general_solver(rng: &mut Rng, size: i64) -> Solver {
    let p = if size < 256 && rng.chance(1, 2) {
        Precision::ABSOLUTE
    } else {
        *rng.pick(&[Precision::HIGH, Precision::HIGH, Precision::MEDIUM])
    };
    any_solver(rng, p)
}

pub fn run_overlay(s: &[Contour], k: &[Contour], rule: OverlayRule, fill: FillRule, d: ContourDirection, simplify: bool, min_area: usize, sv: Solver) -> Shapes {
    shapes_of(&overlay(s, k).overlay_custom(rule, fill, d, simplify, min_area, sv))
}
