//! C11 geocentric to geodetic
use super::c10::any_height;
use crate::crsgen::{mkxyz, v3};
use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::oracle::{self, Ell};
use proptest::prelude::*;
use std::f64::consts::{FRAC_PI_2, PI};

/// closest geocentric distance claimed
fn r_min(ell: &Ell) -> f64 {
    (0.16 * ell.a).max(2.5 * ell.a * ell.e2 / (1.0 - ell.e2))
}
fn tol(ell: &Ell, r: f64) -> f64 {
    1e-5 * (r / 6.4e6).max(ell.a / 6.4e6).max(1.0)
}

fn round(c: &(DatumSpec, f64, f64, f64)) -> R {
    let (d, lon, lat, h) = c;
    let ell = d.ell.ell();
    let datum = d.build();
    let p = mkllh(*lon, *lat, *h);
    let xyz = datum.llh_to_xyz(p);
    let x = v3(xyz);
    let r = oracle::norm(x);
    // below the surface the point must still be reached along the normal from the right side
    if *h < 0.0 && (r < r_min(&ell) || *h < -(ell.b - r_min(&ell))) {
        return reject();
    }
    let q = datum.xyz_to_llh(xyz);
    let (ql, qp, qh) = (q.lon.angle().rad(), q.lat.angle().rad(), q.height.m());
    ensure!(ql.is_finite() && qp.is_finite() && qh.is_finite(), "{x:?} on {d:?} gives {q}");
    ensure!(ql.abs() <= PI && qp.abs() <= FRAC_PI_2, "{x:?} gives out-of-range {q}");
    let t = tol(&ell, r);
    let rho = x[0].hypot(x[1]);
    ensure!(adiff(ql, *lon) * rho <= t, "({lon}, {lat}, {h}) on {d:?} comes back as {q}: longitude");
    ensure!((qp - lat).abs() * r <= t, "({lon}, {lat}, {h}) on {d:?} comes back as {q}: latitude off by {:e} m", (qp - lat).abs() * r);
    ensure!((qh - h).abs() <= t, "({lon}, {lat}, {h}) on {d:?} comes back as {q}: height off by {:e} m", (qh - h).abs());
    let y = v3(datum.llh_to_xyz(q));
    ensure!(oracle::dist(x, y) <= t, "({lon}, {lat}, {h}) on {d:?}: position moves by {:e} m", oracle::dist(x, y));
    if *h < -1e5 {
        nt("deep")
    } else if *h > 1e6 {
        nt("far")
    } else if lat.abs() > FRAC_PI_2 - 1e-6 {
        nt("pole")
    } else {
        nt("near surface")
    }
}

/// raw geocentric points
type X = (DatumSpec, f64, f64, f64, u8);
fn points(c: &X) -> R {
    let (d, theta, phi, s, snap) = c;
    let ell = d.ell.ell();
    let r = r_min(&ell) * s;
    let mut x = [r * phi.cos() * theta.cos(), r * phi.cos() * theta.sin(), r * phi.sin()];
    match snap {
        1 => x = [r, 0.0, 0.0],
        2 => x = [-r, 0.0, 0.0],
        3 => x = [0.0, r, 0.0],
        4 => x = [0.0, -r, 0.0],
        5 => x = [0.0, 0.0, r],
        6 => x = [0.0, 0.0, -r],
        7 => x[2] = 0.0,
        8 => x[1] = 0.0,
        9 => x[0] = 0.0,
        10 => x[1] = -0.0,
        _ => {}
    }
    let r = oracle::norm(x);
    if r < r_min(&ell) * 0.999 {
        return reject();
    }
    let datum = d.build();
    let q = datum.xyz_to_llh(mkxyz(x));
    let (ql, qp, qh) = (q.lon.angle().rad(), q.lat.angle().rad(), q.height.m());
    ensure!(ql.is_finite() && qp.is_finite() && qh.is_finite(), "{x:?} on {d:?} gives {q}");
    ensure!(ql.abs() <= PI && qp.abs() <= FRAC_PI_2, "{x:?} gives out-of-range {q}");
    let t = tol(&ell, r);
    let (ol, op, oh) = oracle::xyz_to_llh(&ell, x);
    let rho = x[0].hypot(x[1]);
    ensure!(adiff(ql + d.pm.lon(), ol) * rho <= t, "{x:?} on {d:?} gives {q}: expected Greenwich longitude {ol}");
    let slack = super::c10::cat_slack(d);
    ensure!((qp - op).abs() * r <= t + slack, "{x:?} on {d:?} gives latitude {qp}, expected {op}");
    ensure!((qh - oh).abs() <= t + slack, "{x:?} on {d:?} gives height {qh}, expected {oh}");
    let y = v3(datum.llh_to_xyz(q));
    ensure!(oracle::dist(x, y) <= t, "{x:?} on {d:?} comes back as {y:?} ({:e} m)", oracle::dist(x, y));
    if *snap > 0 && *snap < 7 {
        nt("on an axis")
    } else if *snap > 0 && *snap < 11 {
        nt("in a coordinate plane")
    } else {
        nt("general")
    }
}

pub fn property() -> Property {
    Property {
        id: "C11",
        rule: "every position inside the claimed domain counts",
        assumptions: &[
            "geocentric distance at least max(0.16 a, 2.5 a e2/(1-e2)) and inverse flattening at least 10",
            "tolerance 1e-5 m, growing with the distance from the centre",
        ],
        facets: vec![
            facet("round-trip", 200_000, || (datum(10.0), lon(), lat(), any_height()).boxed(), round),
            facet("points", 200_000, || (datum(10.0), lon(), lat(), prop_oneof![1 => Just(1.0), 4 => 1.0..12.0f64, 2 => logpos(0.0, 3.5)], prop_oneof![3 => Just(0u8), 2 => 1..11u8]).boxed(), points),
        ],
    }
}
