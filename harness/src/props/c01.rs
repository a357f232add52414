//! C01 ranges of angular values
use crate::crsgen::{ang_size, ang_unit, angu};
use crate::engine::*;
use crate::gen::*;
use crate::{ensure};
use geokit::cs::azimuth::Azimuth;
use geokit::cs::geodetic::{Lat, Lon};
use geokit::geodesy::PrimeMeridian;
use geokit::quantities::angle::Angle;
use geokit::units::angle::{DEG, RAD};
use proptest::prelude::*;
use std::f64::consts::{FRAC_PI_2, PI, TAU};

/// any finite angle in radians: in range, at multiples of a quarter turn, many turns away
pub fn any_angle() -> BoxedStrategy<f64> {
    prop_oneof![
        4 => lon(),
        3 => (-40i32..=40, tiny(), -4i64..5).prop_map(|(k, t, u)| ulps(k as f64 * FRAC_PI_2 + t, u)),
        2 => (-2000i32..2000, lon()).prop_map(|(k, l)| k as f64 * TAU + l),
        2 => (-14400i32..14400, tiny()).prop_map(|(d, t)| (d as f64 * 0.25) * D2R + t),
        2 => logu(-12.0, 14.0),
        1 => logu(9.0, 300.0),
        1 => lit_near(),
        1 => (-100_000i32..100_000).prop_map(|k| k as f64 * PI),
    ]
    .boxed()
}

fn same_dir(got: f64, v: f64) -> bool {
    let tol = 4e-15 + 1e-15 * v.abs();
    (got.sin() - v.sin()).abs() <= tol && (got.cos() - v.cos()).abs() <= tol
}

/// half open (-pi, pi]
fn check_half_open(name: &str, got: f64, v: f64) -> Result<(), Bad> {
    ensure!(got > -PI && got <= PI, "{name}({v:e}) = {got:e} is outside (-pi, pi]");
    ensure!(same_dir(got, v), "{name}({v:e}) = {got:e} changes the direction");
    if v > -PI && v <= PI {
        ensure!((got - v).abs() <= 1e-15, "{name}({v:e}) = {got:e} changed an in-range value");
    }
    Ok(())
}
fn check_closed(name: &str, got: f64, v: f64) -> Result<(), Bad> {
    ensure!(got >= -PI && got <= PI, "{name}({v:e}) = {got:e} is outside [-pi, pi]");
    ensure!(same_dir(got, v), "{name}({v:e}) = {got:e} changes the direction");
    if (-PI..=PI).contains(&v) {
        ensure!((got - v).abs() <= 1e-15, "{name}({v:e}) = {got:e} changed an in-range value");
    }
    Ok(())
}
fn check_lat(name: &str, got: f64, v: f64, tol: f64) -> Result<(), Bad> {
    ensure!(got >= -FRAC_PI_2 && got <= FRAC_PI_2, "{name}({v:e}) = {got:e} is outside [-pi/2, pi/2]");
    let want = v.clamp(-FRAC_PI_2, FRAC_PI_2);
    ensure!((got - want).abs() <= tol, "{name}({v:e}) = {got:e}, expected {want:e}");
    Ok(())
}

fn wrap(c: &(f64, u8)) -> R {
    let (rad, u) = *c;
    let unit = ang_unit(u);
    let qty = rad / ang_size(u);
    // what the supplied quantity denotes
    let a = Angle::new(qty, unit);
    let v = a.rad();
    ensure!((v - rad).abs() <= 4e-16 * rad.abs() * 4.0, "{qty} in unit {u} denotes {v} rad, expected {rad}");
    check_closed("Lon::new", Lon::new(a).angle().rad(), v)?;
    check_closed("Lon::rad", Lon::rad(v).angle().rad(), v)?;
    check_half_open("Lon::normalized", Lon::new(a).normalized().angle().rad(), v)?;
    check_half_open("Azimuth::new", Azimuth::new(a).angle().rad(), v)?;
    check_half_open("Azimuth::rad", Azimuth::rad(v).angle().rad(), v)?;
    check_half_open("Angle::normalized", a.normalized().rad(), v)?;
    let mut b = a;
    b.normalize();
    check_half_open("Angle::normalize", b.rad(), v)?;
    check_lat("Lat::new", Lat::new(a).angle().rad(), v, 1e-15)?;
    check_half_open("PrimeMeridian lon normalized", PrimeMeridian::new("x", Lon::new(a)).lon().normalized().angle().rad(), v)?;
    let p = PrimeMeridian::new("x", Lon::new(a)).lon().angle().rad();
    ensure!((-PI..=PI).contains(&p) && same_dir(p, v), "prime meridian at {v:e} reports longitude {p:e}");
    // degree constructors
    let d = v / D2R;
    let vd = (d * DEG).rad();
    check_closed("Lon::deg", Lon::deg(d).angle().rad(), vd)?;
    check_half_open("Azimuth::deg", Azimuth::deg(d).angle().rad(), vd)?;
    check_lat("Lat::deg", Lat::deg(d).angle().rad(), vd, 1e-15)?;
    // idempotent
    let l = Lon::new(a);
    ensure!((Lon::new(l.angle()).angle().rad() - l.angle().rad()).abs() <= 1e-15, "Lon::new is not idempotent at {v}");
    let k = Lon::const_new(l.angle());
    ensure!((k.angle().rad() - l.angle().rad()).abs() <= 1e-15 && k == l, "Lon::const_new({}) is {k:?}", l.angle().rad());
    let n = a.normalized();
    ensure!((n.normalized().rad() - n.rad()).abs() <= 1e-15, "normalized is not idempotent at {v}");
    if v.abs() > PI {
        nt("wrapped")
    } else if v.abs() > PI - 1e-6 {
        nt("antimeridian")
    } else if v.abs() >= FRAC_PI_2 {
        nt("beyond pole")
    } else {
        triv("in range")
    }
}

fn diff(c: &(f64, f64)) -> R {
    let (x, y) = *c;
    let (a, b) = (Angle::new(x, RAD), Angle::new(y, RAD));
    let tol = 6e-15 + 1e-15 * (x.abs() + y.abs());
    let d = a.diff_to(b).rad();
    ensure!(d > -PI && d <= PI, "diff_to({x}, {y}) = {d} outside (-pi, pi]");
    ensure!(adiff(x + d, y) <= tol, "{x} + diff_to = {} does not reach {y}", x + d);
    if adiff(x, y) < PI - tol && (y - x).abs() < PI {
        ensure!((d - (y - x)).abs() <= tol, "diff_to({x}, {y}) = {d}");
    }
    let (la, lb) = (Lon::new(a), Lon::new(b));
    let d = (lb - la).rad();
    ensure!(d > -PI && d <= PI, "Lon {x} to {y}: difference {d} outside (-pi, pi]");
    ensure!(adiff(x + d, y) <= tol, "Lon difference {d} does not take {x} to {y}");
    let (za, zb) = (Azimuth::new(a), Azimuth::new(b));
    let d = (zb - za).rad();
    ensure!(d > -PI && d <= PI, "Azimuth {x} to {y}: difference {d} outside (-pi, pi]");
    ensure!(adiff(x + d, y) <= tol, "Azimuth difference {d} does not take {x} to {y}");
    if (y - x).abs() > PI {
        nt("wraps")
    } else if adiff(x, y) > PI - 1e-6 {
        nt("opposite")
    } else {
        triv("plain")
    }
}

pub fn property() -> Property {
    Property {
        id: "C01",
        rule: "the angle lies outside the target range, within 1e-6 rad of its boundary, or (differences) the short way crosses the antimeridian",
        assumptions: &[
            "any finite magnitude up to 1e300 rad; sine/cosine compared within 4e-15 + 1e-15*|angle|",
            "values already in range may change by at most 1e-15 rad",
        ],
        facets: vec![
            facet("wrap", 200_000, || (any_angle(), angu()).boxed(), wrap),
            facet("diff", 200_000, || prop_oneof![
                3 => (any_angle(), any_angle()),
                2 => (any_angle(), tiny(), -3i32..4).prop_map(|(x, t, k)| (x, x + PI * k as f64 + t)),
            ].boxed(), diff),
        ],
    }
}
