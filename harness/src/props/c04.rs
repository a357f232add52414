//! C04 quantities and units
use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use approx::AbsDiffEq;
use geokit::cs::azimuth::Azimuth;
use geokit::cs::geodetic::{Lat, Lon};
use geokit::quantities::angle::Angle;
use geokit::quantities::length::Length;
use geokit::quantities::scale::PPM;
use geokit::units::angle::{AngleUnit, DEG, GRAD, RAD, SEC};
use geokit::units::length::{LengthUnit, FT, M, US_FT};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::f64::consts::PI;

/// A unit: built in, or custom numerator / denominator.
#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub enum U {
    Builtin(u8),
    Custom(f64, f64),
}
fn unit(n: u8) -> BoxedStrategy<U> {
    prop_oneof![
        3 => (0..n).prop_map(U::Builtin),
        2 => (logpos(-4.0, 4.0), prop_oneof![Just(1.0), logpos(-3.0, 6.0)]).prop_map(|(a, b)| U::Custom(a, b)),
    ]
    .boxed()
}
fn lu(u: U) -> (LengthUnit, f64) {
    match u {
        U::Builtin(0) => (M, 1.0),
        U::Builtin(1) => (FT, 0.3048),
        U::Builtin(_) => (US_FT, 1200.0 / 3937.0),
        U::Custom(a, b) => (LengthUnit(a, b), a / b),
    }
}
fn au(u: U) -> (AngleUnit, f64) {
    match u {
        U::Builtin(0) => (RAD, 1.0),
        U::Builtin(1) => (DEG, PI / 180.0),
        U::Builtin(2) => (GRAD, PI / 200.0),
        U::Builtin(_) => (SEC, PI / 648_000.0),
        U::Custom(a, b) => (AngleUnit(a, b), a / b),
    }
}
fn close(got: f64, want: f64) -> bool {
    (got - want).abs() <= 4e-15 * want.abs()
}
fn close_sum(got: f64, want: f64, scale: f64) -> bool {
    (got - want).abs() <= 4e-15 * scale
}

type C = (f64, f64, f64, U, U);
fn lengths(c: &C) -> R {
    let (x, y, k, u, v) = *c;
    let ((u, us), (v, vs)) = (lu(u), lu(v));
    ensure!(close(u.m_per_unit(), us), "m_per_unit {} expected {us}", u.m_per_unit());
    let l = Length::new(x, u);
    ensure!(close(l.m(), x * us), "{x} units of {us} m = {} m", l.m());
    ensure!(close((x * u).m(), x * us) && close((u * x).m(), x * us), "products with the unit differ from the constructor");
    ensure!(close(l.val(u), x), "{x} reads back as {}", l.val(u));
    ensure!(close(l.val(M), l.m()), "value in metres");
    ensure!(close(l.val(v), x * us / vs), "{x} units of {us} m in units of {vs} m = {}", l.val(v));
    let m = Length::new(y, v);
    let (a, b) = (l.m(), m.m());
    let sc = a.abs() + b.abs();
    ensure!(close_sum((l + m).m(), a + b, sc), "sum of {a} and {b}: {}", (l + m).m());
    ensure!(close_sum((l - m).m(), a - b, sc), "difference of {a} and {b}: {}", (l - m).m());
    let mut t = l;
    t += m;
    ensure!(close_sum(t.m(), a + b, sc), "in-place sum of {a} and {b}");
    let mut t = l;
    t -= m;
    ensure!(close_sum(t.m(), a - b, sc), "in-place difference of {a} and {b}");
    ensure!(close((l * k).m(), a * k) && close((k * l).m(), a * k), "scaling {a} by {k}");
    let mut t = l;
    t *= k;
    ensure!(close(t.m(), a * k), "in-place scaling {a} by {k}");
    if k != 0.0 {
        ensure!(close((l / k).m(), a / k), "dividing {a} by {k}");
        let mut t = l;
        t /= k;
        ensure!(close(t.m(), a / k), "in-place dividing {a} by {k}");
    }
    if b != 0.0 {
        ensure!(close(l / m, a / b), "ratio of {a} and {b}: {}", l / m);
    }
    ensure!(l.abs().m() == a.abs(), "abs of {a}");
    ensure!((l < m) == (a < b) && (l > m) == (a > b) && (l == m) == (a == b) && (l <= m) == (a <= b), "ordering of {a} and {b}");
    ensure!(close(l.hypot(m).m(), a.hypot(b)), "hypot of {a} and {b}: {}", l.hypot(m).m());
    ensure!((l.atan2(m).rad() - a.atan2(b)).abs() <= 4e-15, "atan2 of {a} and {b}: {}", l.atan2(m).rad());
    // approximate equality
    let eps = Length::new(k.abs(), M);
    let d = (a - b).abs();
    if (d - k.abs()).abs() > 1e-9 * (sc + k.abs()) {
        ensure!(l.abs_diff_eq(&m, eps) == (d <= k.abs()), "abs_diff_eq of {a}, {b} within {k}");
        ensure!(l.abs_diff_ne(&m, eps) == (d > k.abs()), "abs_diff_ne of {a}, {b} within {k}");
    }
    ensure!(Length::TINY.m() == 1e-4 && Length::SMALL.m() == 1e-3 && Length::ZERO.m() == 0.0, "length constants");
    ensure!(Length::default_epsilon() == Length::TINY && <Length as AbsDiffEq>::default_epsilon() == Length::TINY, "default length tolerance");
    if x != 0.0 && y != 0.0 {
        nt("lengths")
    } else {
        triv("zero")
    }
}

fn angles(c: &C) -> R {
    let (x, y, k, u, v) = *c;
    let ((u, us), (v, vs)) = (au(u), au(v));
    ensure!(close(u.rad_per_unit(), us), "rad_per_unit {} expected {us}", u.rad_per_unit());
    let l = Angle::new(x, u);
    ensure!(close(l.rad(), x * us), "{x} units of {us} rad = {} rad", l.rad());
    ensure!(close((x * u).rad(), x * us) && close((u * x).rad(), x * us), "products with the unit differ from the constructor");
    ensure!(close(l.val(u), x), "{x} reads back as {}", l.val(u));
    ensure!(close(l.val(RAD), l.rad()), "value in radians");
    ensure!(close(l.val(v), x * us / vs), "{x} units of {us} rad in units of {vs} rad = {}", l.val(v));
    let m = Angle::new(y, v);
    let (a, b) = (l.rad(), m.rad());
    let sc = a.abs() + b.abs();
    ensure!(close_sum((l + m).rad(), a + b, sc) && close_sum((l - m).rad(), a - b, sc), "sum or difference of {a} and {b}");
    ensure!((l < m) == (a < b) && (l > m) == (a > b) && (l == m) == (a == b) && (l >= m) == (a >= b), "ordering of {a} and {b}");
    let eps = Angle::new(k.abs(), RAD);
    let d = (a - b).abs();
    if (d - k.abs()).abs() > 1e-9 * (sc + k.abs()) {
        ensure!(l.abs_diff_eq(&m, eps) == (d <= k.abs()), "abs_diff_eq of {a}, {b} within {k}");
    }
    let consts = [
        (Angle::TINY, 1e-12), (Angle::SMALL, 1e-9), (Angle::ZERO, 0.0), (Angle::PI_2, PI / 2.0), (Angle::PI, PI),
        (Angle::TWO_PI, 2.0 * PI), (Angle::M_PI_2, -PI / 2.0), (Angle::M_PI, -PI),
        (Angle::default_epsilon(), 1e-12), (<Angle as AbsDiffEq>::default_epsilon(), 1e-12),
        (Lon::default_epsilon(), 1e-12), (Lat::default_epsilon(), 1e-12), (Azimuth::default_epsilon(), 1e-12),
    ];
    for (i, (g, w)) in consts.iter().enumerate() {
        ensure!(g.rad() == *w, "angle constant {i}: {} expected {w}", g.rad());
    }
    // arc length: length * angle, and back
    let r = Length::new(y, M);
    let arc = (r * l).length().m();
    ensure!(close(arc, y * a), "arc of {a} rad on radius {y}: {arc}");
    ensure!(close((l * r).length().m(), y * a), "arc of {a} rad on radius {y} (angle first)");
    if y != 0.0 && (y * a).abs() < 1e280 {
        let back = ((r * l) / r).rad();
        ensure!(close(back, a), "arc / radius = {back}, expected {a}");
    }
    if x != 0.0 && y != 0.0 {
        nt("angles")
    } else {
        triv("zero")
    }
}

fn ppm(k: &f64) -> R {
    let p = PPM(*k);
    ensure!((p.factor() - (1.0 + k * 1e-6)).abs() <= 1e-15 * (1.0 + k.abs() * 1e-6), "PPM({k}).factor() = {}", p.factor());
    ensure!((p.inv_factor() - (1.0 - k * 1e-6)).abs() <= 1e-15 * (1.0 + k.abs() * 1e-6), "PPM({k}).inv_factor() = {}", p.inv_factor());
    nt("ppm")
}

/// chains of unit conversions and quantity operations stay on the base-unit model
fn chain(c: &(f64, Vec<(U, f64, u8)>)) -> R {
    let mut l = Length::new(c.0, M);
    let mut model = c.0;
    let mut mag = c.0.abs();
    for (u, x, op) in &c.1 {
        let (u, us) = lu(*u);
        match op {
            0 => {
                l = l + Length::new(*x, u);
                model += x * us;
                mag += (x * us).abs();
            }
            1 => {
                l -= *x * u;
                model -= x * us;
                mag += (x * us).abs();
            }
            2 => {
                // out to the unit and back
                l = l.val(u) * u;
            }
            3 => {
                let f = x.clamp(-10.0, 10.0);
                l *= f;
                model *= f;
                mag *= f.abs();
            }
            _ => {
                let f = if x.abs() < 0.1 { 2.0 } else { x.clamp(-10.0, 10.0) };
                l /= f;
                model /= f;
                mag /= f.abs();
            }
        }
        ensure!((l.m() - model).abs() <= 1e-14 * (mag + 1e-300) * c.1.len() as f64, "after chain: {} m, expected {model} m", l.m());
    }
    nt("chain")
}

pub fn property() -> Property {
    Property {
        id: "C04",
        rule: "both quantities are non-zero (unit checks), every scale factor and chain counts",
        assumptions: &["relative rounding of 4e-15 per operation; approximate equality is judged away from the exact boundary (C07 checks the boundary)"],
        facets: vec![
            facet("length", 120_000, || (real(), real(), real(), unit(3), unit(3)).boxed(), lengths),
            facet("angle", 120_000, || (real(), real(), real(), unit(4), unit(4)).boxed(), angles),
            facet("ppm", 20_000, || prop_oneof![3 => -100.0..100.0f64, 2 => real()].boxed(), ppm),
            facet("chain", 40_000, || (real(), proptest::collection::vec((unit(3), real(), 0..5u8), 1..10)).boxed(), chain),
        ],
    }
}
