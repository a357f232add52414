//! C25 intervals on the circle
use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use geokit::cs::s1::Interval;
use geokit::quantities::angle::Angle;
use geokit::units::angle::{AngleUnit, DEG, GRAD, RAD};
use proptest::prelude::*;
use proptest::sample::select;

/// Degrees; multiples of 180 that are odd only as +-180 themselves (further turns round either way).
fn ambiguous(d: f64) -> bool {
    let m = (d.abs() - 180.0).rem_euclid(360.0);
    d.abs() != 180.0 && m.min(360.0 - m) < 1e-6
}
fn at(d: f64) -> Angle {
    d * DEG
}
const TOL: f64 = 1e-11;
/// counter-clockwise angle in degrees from lo to hi
fn ccw(lo: f64, hi: f64) -> f64 {
    (hi - lo).rem_euclid(360.0)
}
fn same_place(a: f64, b: f64) -> bool {
    let m = (a - b).rem_euclid(360.0);
    m.min(360.0 - m) < 1e-9
}
fn invariants(what: &str, i: &Interval) -> Result<(), Bad> {
    let l = i.length().rad();
    ensure!(l >= 0.0 && l <= std::f64::consts::TAU + 1e-14, "{what}: length {l} rad");
    ensure!(!(i.is_empty() && i.is_full()), "{what} is both empty and full");
    ensure!(i == i && *i == i.clone(), "{what} does not equal itself");
    if i.is_empty() {
        ensure!(l == 0.0, "{what} is empty and has length {l}");
        ensure!(*i == Interval::empty(), "{what} is empty but not the empty interval");
    }
    if i.is_full() {
        ensure!((l - std::f64::consts::TAU).abs() < 1e-12, "{what} is full and has length {l}");
        ensure!(*i == Interval::full(), "{what} is full but not the full interval");
    }
    Ok(())
}

fn bounds(c: &(f64, f64)) -> R {
    let (lo, hi) = *c;
    if ambiguous(lo) || ambiguous(hi) {
        return reject();
    }
    let i = Interval::new(at(lo), at(hi));
    let what = format!("interval from {lo} to {hi} degrees, {i}");
    invariants(&what, &i)?;
    let l = i.length().rad().to_degrees();
    let (full, empty) = (lo == -180.0 && hi == 180.0, lo == 180.0 && hi == -180.0);
    ensure!(i.is_full() == full, "{what}: is_full {}", i.is_full());
    ensure!(i.is_empty() == empty, "{what}: is_empty {}", i.is_empty());
    if full || empty {
        return triv("full or empty");
    }
    let w = ccw(lo, hi);
    let tol = TOL * (1.0 + lo.abs() + hi.abs());
    if same_place(lo, hi) {
        if lo == hi || (lo.abs() == 180.0 && hi.abs() == 180.0) {
            ensure!(l == 0.0, "{what}: a single point has length {l} degrees");
            return nt("single point");
        }
        // bounds rounded in different turns: almost nothing or almost everything
        let near = tol + 2e-9;
        ensure!(l <= near || (l - 360.0).abs() <= near, "{what}: length {l} degrees, expected {w}");
        return triv("one place in two turns");
    }
    ensure!((l - w).abs() <= tol, "{what}: length {l} degrees, expected {w}");
    // the other way round completes the circle
    let r = Interval::new(at(hi), at(lo)).length().rad().to_degrees();
    ensure!((l + r - 360.0).abs() <= 2.0 * tol, "{what}: {l} degrees, and {r} degrees the other way");
    // -180 and 180 are one bound
    let flip = |d: f64| if d.abs() == 180.0 { -d } else { d };
    for (a, b) in [(flip(lo), hi), (lo, flip(hi)), (flip(lo), flip(hi))] {
        let j = Interval::new(at(a), at(b));
        ensure!(i == j, "{what} does not equal the interval from {a} to {b}, {j}");
    }
    // what it prints, when that can be read
    let t = i.to_string();
    let nums: Vec<f64> = t.split(|ch: char| !(ch.is_ascii_digit() || ch == '.' || ch == '-' || ch == 'e')).filter_map(|w| w.parse().ok()).collect();
    if nums.len() == 2 && t.matches("rad").count() == 2 {
        ensure!(same_place(nums[0].to_degrees(), lo) && same_place(nums[1].to_degrees(), hi), "{what} prints bounds {nums:?}");
        ensure!(nums.iter().all(|n| n.abs() <= std::f64::consts::PI), "{what} prints bounds {nums:?}");
    }
    if lo.abs() > 180.0 || hi.abs() > 180.0 {
        nt("beyond one turn")
    } else if lo.abs() == 180.0 || hi.abs() == 180.0 {
        nt("at 180 degrees")
    } else if lo > hi {
        nt("across 180 degrees")
    } else {
        nt("plain")
    }
}

/// Intervals are equal exactly when their bounds are the same places.
fn pairs(c: &(f64, f64, i32, i32, u8, f64)) -> R {
    let (lo, hi, m, n, which, d) = *c;
    if ambiguous(lo) || ambiguous(hi) || same_place(lo, hi) {
        return reject();
    }
    let i = Interval::new(at(lo), at(hi));
    // the same bounds in other turns: same length
    let (a, b) = (lo + 360.0 * m as f64, hi + 360.0 * n as f64);
    if !ambiguous(a) && !ambiguous(b) {
        let j = Interval::new(at(a), at(b));
        let (l, k) = (i.length().rad(), j.length().rad());
        ensure!((l - k).abs() < 1e-11 * (1.0 + a.abs() + b.abs()), "from {lo} to {hi} degrees the length is {l} rad, from {a} to {b} degrees {k} rad");
        ensure!(!j.is_empty() && !j.is_full(), "interval from {a} to {b} degrees: empty {} full {}", j.is_empty(), j.is_full());
        if a == lo && b == hi {
            ensure!(i == j, "{i} and {j} differ");
        }
    }
    // a bound moved: different
    let (a, b) = match which {
        0 => (lo + d, hi),
        1 => (lo, hi + d),
        _ => (lo + d, hi + d),
    };
    if !ambiguous(a) && !ambiguous(b) && !(same_place(a, lo) && same_place(b, hi)) {
        let j = Interval::new(at(a), at(b));
        ensure!(i != j && j != i, "interval from {lo} to {hi} degrees equals the one from {a} to {b} degrees");
    }
    ensure!(i != Interval::empty() && i != Interval::full(), "interval from {lo} to {hi} degrees equals the empty or full one");
    nt("pair")
}

fn single(c: &(f64, u8)) -> R {
    let (d, u) = *c;
    if ambiguous(d) {
        return reject();
    }
    let (p, q) = match u {
        0 => (d * DEG, d * DEG),
        1 => (d.to_radians() * RAD, d.to_radians() * RAD),
        _ => ((d / 0.9) * GRAD, (d / 0.9) * GRAD),
    };
    let (s, n) = (Interval::singleton(p), Interval::new(p, q));
    let what = format!("single point at {d} degrees, {s}");
    invariants(&what, &s)?;
    ensure!(s.length().rad() == 0.0 && !s.is_empty() && !s.is_full(), "{what}: length {}, empty {}, full {}", s.length(), s.is_empty(), s.is_full());
    invariants("interval with equal bounds", &n)?;
    ensure!(s == n, "{what} differs from the interval with both bounds there, {n}");
    ensure!(s != Interval::empty() && s != Interval::full(), "{what} equals the empty or full interval");
    if d.abs() == 180.0 {
        for x in [180.0, -180.0] {
            ensure!(s == Interval::singleton(at(x)) || u != 0, "the single points at {d} and {x} degrees differ");
        }
    }
    // on several turns
    let t = Interval::singleton(at(d + 360.0));
    if !ambiguous(d + 360.0) {
        ensure!(t.length().rad() == 0.0 && !t.is_empty() && !t.is_full(), "single point at {d} + 360 degrees, {t}");
    }
    nt(if d.abs() == 180.0 { "at 180 degrees" } else { "single point" })
}

fn deg() -> BoxedStrategy<f64> {
    prop_oneof![
        4 => (-180i32..=180).prop_map(|d| d as f64),
        4 => -180.0..180.0f64,
        3 => select(vec![180.0, -180.0]),
        2 => (-1080i32..1080).prop_map(|d| d as f64),
        1 => -1e4..1e4f64,
        1 => (select(vec![180.0, -180.0, 0.0, 90.0, -90.0]), logu(-5.5, 0.0)).prop_map(|(a, b)| a + b),
        1 => lit_near().prop_map(|v| if v.abs() > 1e4 { v % 360.0 } else { v }),
    ]
    .boxed()
}

pub fn property() -> Property {
    // the constants themselves
    Property {
        id: "C25",
        rule: "intervals that are neither full nor empty count; single points count",
        assumptions: &["bounds on the 180 degree meridian are written as 180 or -180 degrees: further turns of it round to either side", "lengths to 1e-11 relative of the bounds"],
        facets: vec![
            facet("bounds", 100_000, || prop_oneof![6 => (deg(), deg()), 1 => deg().prop_map(|d| (d, d)), 1 => (deg(), -3i32..3).prop_map(|(d, n)| (d, d + 360.0 * n as f64))].boxed(), bounds),
            facet("pairs", 60_000, || (deg(), deg(), -3i32..3, -3i32..3, 0..3u8, logu(-5.0, 2.0)).boxed(), pairs),
            facet("single", 40_000, || (deg(), 0..3u8).boxed(), single),
            facet("constants", 8, || Just(0u8).boxed(), |_| {
                let (e, f) = (Interval::empty(), Interval::full());
                invariants("empty interval", &e)?;
                invariants("full interval", &f)?;
                ensure!(e.is_empty() && f.is_full() && e != f, "empty and full intervals: {e}, {f}");
                nt("constants")
            }),
        ],
    }
}
