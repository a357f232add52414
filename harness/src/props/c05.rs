//! C05 geodetic axes
use crate::crsgen::*;
use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use geokit::cs::geodetic::GeodeticAxes;
use geokit::units::angle::RAD;
use geokit::units::length::M;
use proptest::prelude::*;
use std::f64::consts::{FRAC_PI_2, PI, TAU};

const SENTINEL: f64 = -987654.25;

/// axes, longitude (rad, possibly several turns), latitude (rad, possibly beyond the poles),
/// height (m), junk for undeclared slots
type C = (GAx, f64, f64, f64, f64);

fn read(c: &C) -> R {
    let (ax, lon, lat, h, junk) = *c;
    let axes = ax.build();
    ensure!(axes.dim() == ax.dim(), "{axes:?} reports dimension {}", axes.dim());
    let mut user = ax.to_user(lon, lat, h);
    let tight = user.clone();
    user.resize(5, junk);
    let llh = axes.normalize(&user);
    let (wlon, wlat, wh) = ax.from_user(&user);
    let lt = 8e-15 + 4e-15 * wlon.abs();
    ensure!(adiff(llh.lon.angle().rad(), wlon) <= lt, "{axes:?} {user:?}: longitude {} rad, expected {wlon}", llh.lon.angle().rad());
    ensure!(llh.lon.angle().rad().abs() <= PI, "{axes:?} {user:?}: longitude out of range");
    let wl = wlat.clamp(-FRAC_PI_2, FRAC_PI_2);
    ensure!((llh.lat.angle().rad() - wl).abs() <= 4e-15, "{axes:?} {user:?}: latitude {} rad, expected {wl}", llh.lat.angle().rad());
    if ax.dim() == 2 {
        ensure!(llh.height.m() == 0.0, "{axes:?} {user:?}: 2D height {}", llh.height);
    } else {
        ensure!((llh.height.m() - wh).abs() <= 4e-15 * wh.abs(), "{axes:?} {user:?}: height {} expected {wh} m", llh.height);
    }
    // exactly `dim` coordinates are enough
    let again = axes.normalize(&tight);
    ensure!(again == llh, "{axes:?}: coordinates beyond the dimension matter");
    // and back
    let mut out = vec![SENTINEL; 5];
    axes.denormalize(llh, &mut out);
    for (i, v) in out.iter().enumerate().skip(ax.dim()) {
        ensure!(*v == SENTINEL, "{axes:?}: undeclared slot {i} was written");
    }
    let in_range = wlon.abs() <= PI && wlat.abs() <= FRAC_PI_2;
    let turn = TAU / ax.ang();
    let dl = (out[ax.lon_ix()] - user[ax.lon_ix()]).abs();
    let dl = if wlon.abs() < PI - 1e-9 { dl } else { (dl / turn - (dl / turn).round()).abs() * turn };
    ensure!(dl * ax.ang() <= 2.0 * lt, "{axes:?}: longitude {} came back as {}", user[ax.lon_ix()], out[ax.lon_ix()]);
    ensure!(out[ax.lon_ix()].abs() * ax.ang() <= PI * (1.0 + 1e-15), "{axes:?}: longitude {} written outside half a turn", out[ax.lon_ix()]);
    ensure!((out[ax.lat_ix()] * ax.ang() - wl).abs() <= 8e-15, "{axes:?}: latitude {} came back as {}", user[ax.lat_ix()], out[ax.lat_ix()]);
    if ax.dim() == 3 {
        ensure!((out[2] - user[2]).abs() <= 8e-15 * user[2].abs(), "{axes:?}: height {} came back as {}", user[2], out[2]);
    }
    if !in_range {
        nt("wrapped or clamped")
    } else if lon != 0.0 && lat != 0.0 && lon != lat {
        nt("in range")
    } else {
        triv("degenerate")
    }
}

/// Two conventions for the same position, written by one and read by the other.
fn cross(c: &(GAx, GAx, f64, f64, f64)) -> R {
    let (a, b, lon, lat, h) = *c;
    let llh = mkllh(lon, lat, h);
    let mut u = vec![SENTINEL; 3];
    a.build().denormalize(llh, &mut u);
    let want = a.to_user(lon, lat, h);
    for i in 0..a.dim() {
        ensure!((u[i] - want[i]).abs() <= 1e-14 * want[i].abs().max(1e-3), "{:?}: slot {i} of ({lon}, {lat}, {h}) is {}, expected {}", a, u[i], want[i]);
    }
    let x = a.build().normalize(&u);
    let mut v = vec![SENTINEL; 3];
    b.build().denormalize(x, &mut v);
    let hb = if a.dim() == 3 { h } else { 0.0 };
    let want = b.to_user(lon, lat, hb);
    for i in 0..b.dim() {
        let turn = if i == b.lon_ix() { TAU / b.ang() } else { f64::INFINITY };
        let d = (v[i] - want[i]).abs();
        let d = if d > turn / 2.0 { (d - turn).abs() } else { d };
        ensure!(d <= 2e-14 * want[i].abs().max(1e-3), "{a:?} -> {b:?}: slot {i} of ({lon}, {lat}, {h}) is {}, expected {}", v[i], want[i]);
    }
    // default axes are the normalized ones
    ensure!(GeodeticAxes::default() == GeodeticAxes::EastNorthUp { angle_unit: RAD, height_unit: M }, "default axes");
    if a == b {
        triv("same")
    } else {
        nt("different conventions")
    }
}

fn wide_lon() -> BoxedStrategy<f64> {
    prop_oneof![4 => lon(), 1 => (lon(), -4i32..=4).prop_map(|(l, k)| l + k as f64 * TAU), 1 => -20.0..20.0f64].boxed()
}
fn wide_lat() -> BoxedStrategy<f64> {
    prop_oneof![5 => lat(), 1 => -4.0..4.0f64].boxed()
}

pub fn property() -> Property {
    Property {
        id: "C05",
        rule: "longitude, latitude are non-zero and different, or the input is out of range; both conventions differ (cross)",
        assumptions: &["longitudes compared modulo a turn when at or beyond the antimeridian; rounding 4e-15 relative"],
        facets: vec![
            facet("read-write", 200_000, || (gax(), wide_lon(), wide_lat(), metres(), real()).boxed(), read),
            facet("cross", 100_000, || (gax(), gax(), lon(), lat(), metres()).boxed(), cross),
        ],
    }
}
