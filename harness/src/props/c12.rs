//! C12 Mercator 1SP / 2SP
use crate::crsgen::*;
use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::oracle;
use geokit::cs::cartesian::projected::ENH;
use geokit::units::length::M;
use proptest::prelude::*;
use std::f64::consts::PI;

pub fn mkenh(e: f64, n: f64, h: f64) -> ENH {
    ENH { easting: e * M, northing: n * M, height: h * M }
}
fn ell_spec() -> BoxedStrategy<EllSpec> {
    prop_oneof![5 => ell(150.0), 1 => ell(10.0)].boxed()
}
fn merc() -> BoxedStrategy<ProjSpec> {
    (any::<bool>(), lon(), prop_oneof![3 => lat_within(1.4), 1 => lat_within(1.5707)], k0s(), falses(), falses())
        .prop_map(|(two, lon0, lat0, k0, fe, fnn)| {
            if two {
                ProjSpec::Merc2 { lon0, lat0, fe, fnn }
            } else {
                ProjSpec::Merc1 { lon0, k0, fe, fnn }
            }
        })
        .boxed()
}
/// positions short of the poles
pub fn lat_open() -> BoxedStrategy<f64> {
    let m = PI / 2.0 - 1e-9;
    lat().prop_map(move |l| l.clamp(-m, m)).boxed()
}
/// difference of eastings up to a full turn when the position is opposite the origin
pub fn turn_diff(d: f64, turn: f64, dl: f64) -> f64 {
    if PI - dl.abs() < 1e-9 && (d.abs() - turn).abs() < 0.5 * turn {
        d.abs() - turn
    } else {
        d
    }
}
/// a position is reported with a longitude within a half turn and a latitude within a quarter turn
pub fn in_range(q: &geokit::cs::geodetic::LLH) -> Result<(), Bad> {
    let (lo, la) = (q.lon.angle().rad(), q.lat.angle().rad());
    ensure!(lo.abs() <= PI + 1e-12 && la.abs() <= PI / 2.0 + 1e-12, "an unprojected position is out of range: lon {lo}, lat {la}");
    Ok(())
}
pub fn class(dl: f64, lat: f64) -> R {
    if PI - dl.abs() < 0.1 {
        nt("opposite the origin")
    } else if lat < 0.0 {
        nt("south")
    } else {
        nt("north")
    }
}

pub fn forward_inverse(c: &(EllSpec, ProjSpec, f64, f64)) -> R {
    let (es, ps, lon, lat) = c;
    let ell = es.ell();
    let p = ps.build().applied_to(&es.build());
    let g = match p.proj(mkllh(*lon, *lat, 0.0)) {
        Ok(g) => g,
        Err(e) => crate::fail!("projecting ({lon}, {lat}) with {ps:?} failed: {e:?}"),
    };
    let (e, n) = ps.exact(&ell, *lon, *lat);
    let dl = oracle::norm_lon(lon - ps.lon0());
    let turn = 2.0 * PI * ell.a * ps.k0(&ell);
    let tol = ps.tol(&ell, *lon, *lat);
    let de = turn_diff(g.easting.m() - e, turn, dl);
    let dn = g.northing.m() - n;
    ensure!(de.abs() <= tol, "easting of ({lon}, {lat}) with {ps:?} on {es:?} is {}, expected {e}", g.easting.m());
    margin("merc forward", de.abs().max(dn.abs()) / tol, || format!("{es:?} {ps:?} {lon} {lat}"));
    ensure!(dn.abs() <= tol, "northing of ({lon}, {lat}) with {ps:?} on {es:?} is {}, expected {n}", g.northing.m());
    let q = match p.unproj(g) {
        Ok(q) => q,
        Err(e) => crate::fail!("unprojecting the projection of ({lon}, {lat}) with {ps:?} failed: {e:?}"),
    };
    in_range(&q)?;
    let m = (adiff(q.lon.angle().rad(), *lon) * lat.cos() * ell.a).hypot((q.lat.angle().rad() - lat) * ell.a);
    let itol = ps.inv_tol(&ell, *lon, *lat);
    margin("merc round trip", m / itol, || format!("{es:?} {ps:?} {lon} {lat}"));
    ensure!(m <= itol, "round trip of ({lon}, {lat}) with {ps:?} on {es:?} gives {q:?}, {m} m away (allowed {itol})");
    class(dl, *lat)
}

/// map coordinates of the world rectangle
fn inverse(c: &(EllSpec, ProjSpec, f64, f64)) -> R {
    let (es, ps, u, psi) = c;
    let ell = es.ell();
    let ka = ps.k0(&ell) * ell.a;
    let (fe, fnn) = ps.falses();
    let p = ps.build().applied_to(&es.build());
    let q = match p.unproj(mkenh(fe + ka * u, fnn + ka * psi, 0.0)) {
        Ok(q) => q,
        Err(e) => crate::fail!("unprojecting with {ps:?} at {u}, {psi} radii failed: {e:?}"),
    };
    let (wl, wp) = (ps.lon0() + u, oracle::inv_isometric(&ell, *psi));
    in_range(&q)?;
    let m = (adiff(q.lon.angle().rad(), wl) * wp.cos() * ell.a).hypot((q.lat.angle().rad() - wp) * ell.a);
    let itol = ps.inv_tol(&ell, wl, wp);
    ensure!(m <= itol, "unprojecting with {ps:?} on {es:?} at {u}, {psi} radii from the origin gives {q:?}, expected lon {wl}, lat {wp}: {m} m away (allowed {itol})");
    class(*u, wp)
}

/// true scale on both standard parallels
fn true_scale(c: &(EllSpec, f64, f64, f64, bool, f64)) -> R {
    let (es, lon0, lat0, dlon, north, sgn) = c;
    let ell = es.ell();
    let ps = ProjSpec::Merc2 { lon0: *lon0, lat0: *lat0, fe: 0.0, fnn: 0.0 };
    let p = ps.build().applied_to(&es.build());
    let lat = if *north { lat0.abs() } else { -lat0.abs() };
    let s2 = lat.sin().powi(2);
    let nn = ell.a / (1.0 - ell.e2 * s2).sqrt() * lat.cos();
    let mm = ell.a * (1.0 - ell.e2) / (1.0 - ell.e2 * s2).powf(1.5);
    let d = 1e-3 * sgn;
    let h = 1e-5 * lat.cos();
    let pr = |lo: f64, la: f64| p.proj(mkllh(lo, la, 0.0)).map(|r| (r.easting.m(), r.northing.m()));
    let (Ok(a), Ok(b), Ok(u), Ok(v)) = (
        pr(lon0 + dlon, lat),
        pr(lon0 + dlon + d, lat),
        pr(lon0 + dlon, lat + h),
        pr(lon0 + dlon, lat - h),
    ) else {
        crate::fail!("projection failed near the standard parallel {lat0}")
    };
    let along = (b.0 - a.0) / (d * nn);
    let across = (u.1 - v.1) / (2.0 * h * mm);
    ensure!((along - 1.0).abs() < 1e-8, "scale along parallel {lat} of a two-parallel Mercator on ±{lat0} ({es:?}) is {along}");
    ensure!((across - 1.0).abs() < 1e-6, "scale across parallel {lat} of a two-parallel Mercator on ±{lat0} ({es:?}) is {across}");
    if lat0.abs() < 1e-3 {
        triv("equator")
    } else {
        nt(if *north { "northern parallel" } else { "southern parallel" })
    }
}

pub fn property() -> Property {
    Property {
        id: "C12",
        rule: "every (ellipsoid, parameters, position) counts; true scale when the parallel is not the equator",
        assumptions: &[
            "forward tolerance 1e-6 m (scaled with size) plus rounding near the poles; positions at least 1e-9 rad short of the poles",
            "inverse tolerance 1e-5 m plus 0.3*a*e^10, the truncation order of the published inverse series",
        ],
        facets: vec![
            facet("forward-inverse", 200_000, || (ell_spec(), merc(), lon(), lat_open()).boxed(), forward_inverse),
            facet("inverse", 100_000, || (ell_spec(), merc(), -PI..=PI, prop_oneof![4 => -3.2..3.2f64, 1 => -8.0..8.0f64, 1 => tiny()]).boxed(), inverse),
            facet("true-scale", 40_000, || (ell_spec(), lon(), lat_within(1.57), -3.0..3.0f64, any::<bool>(), prop_oneof![Just(1.0), Just(-1.0)]).boxed(), true_scale),
        ],
    }
}
