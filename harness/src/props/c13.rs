//! C13 transverse Mercator
use super::c12::mkenh;
use crate::crsgen::*;
use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::oracle;
use proptest::prelude::*;
use std::f64::consts::{FRAC_PI_2, FRAC_PI_4};

pub fn ell_spec() -> BoxedStrategy<EllSpec> {
    prop_oneof![6 => ell(150.0), 1 => ell(20.0)].boxed()
}
pub fn lat0s() -> BoxedStrategy<f64> {
    prop_oneof![1 => Just(0.0), 1 => Just(FRAC_PI_2), 1 => Just(-FRAC_PI_2), 5 => lat()].boxed()
}
pub fn dlons() -> BoxedStrategy<f64> {
    prop_oneof![
        2 => Just(0.0),
        5 => -0.06..0.06f64,
        5 => -FRAC_PI_4..=FRAC_PI_4,
        1 => tiny().prop_map(|t| t.clamp(-0.7, 0.7)),
        2 => (-45i32..=45).prop_map(|d| d as f64 * D2R),
    ]
    .boxed()
}
fn tm() -> BoxedStrategy<ProjSpec> {
    (lon(), lat0s(), k0s(), falses(), falses())
        .prop_map(|(lon0, lat0, k0, fe, fnn)| ProjSpec::Tm { lon0, lat0, k0, fe, fnn })
        .boxed()
}
pub fn ground(ell: &oracle::Ell, q: &geokit::cs::geodetic::LLH, lon: f64, lat: f64) -> f64 {
    // chord between the two positions: no trouble with longitudes at the poles
    oracle::dist(
        oracle::llh_to_xyz(ell, q.lon.angle().rad(), q.lat.angle().rad(), 0.0),
        oracle::llh_to_xyz(ell, lon, lat, 0.0),
    )
}
fn cls(dlon: f64, lat: f64, lat0: f64) -> R {
    if FRAC_PI_2 - lat.abs() < 1e-6 {
        nt("pole")
    } else if dlon.abs() > 0.1 {
        nt("wide")
    } else if lat0 != 0.0 && lat0 * lat < 0.0 {
        nt("narrow, other hemisphere than the origin")
    } else {
        nt("narrow")
    }
}

pub fn fwd_inv(es: &EllSpec, ps: &ProjSpec, dlon: f64, lat: f64) -> Result<(), Bad> {
    let ell = es.ell();
    let lon = ps.lon0() + dlon;
    let p = ps.build().applied_to(&es.build());
    let g = match p.proj(mkllh(lon, lat, 0.0)) {
        Ok(g) => g,
        Err(e) => crate::fail!("projecting ({lon}, {lat}) with {ps:?} failed: {e:?}"),
    };
    let (e, n) = ps.exact(&ell, lon, lat);
    let tol = ps.tol(&ell, lon, lat);
    let (de, dn) = (g.easting.m() - e, g.northing.m() - n);
    margin("tm forward", de.abs().max(dn.abs()) / tol, || format!("{es:?} {ps:?} {dlon} {lat}"));
    ensure!(de.abs() <= tol && dn.abs() <= tol, "({lon}, {lat}), {dlon} from the central meridian, with {ps:?} on {es:?} projects to ({}, {}), expected ({e}, {n}), off by ({de:e}, {dn:e}), allowed {tol:e}", g.easting.m(), g.northing.m());
    let q = match p.unproj(g) {
        Ok(q) => q,
        Err(e) => crate::fail!("unprojecting the projection of ({lon}, {lat}) with {ps:?} failed: {e:?}"),
    };
    super::c12::in_range(&q)?;
    let m = ground(&ell, &q, lon, lat);
    let itol = ps.inv_tol(&ell, lon, lat);
    margin("tm round trip", m / itol, || format!("{es:?} {ps:?} {dlon} {lat}"));
    ensure!(m <= itol, "round trip of ({lon}, {lat}) with {ps:?} on {es:?} gives {q:?}, {m} m away (allowed {itol:e})");
    // unprojecting the exact coordinates
    let q = match p.unproj(mkenh(e, n, 0.0)) {
        Ok(q) => q,
        Err(e) => crate::fail!("unprojecting the exact projection of ({lon}, {lat}) with {ps:?} failed: {e:?}"),
    };
    super::c12::in_range(&q)?;
    let m = ground(&ell, &q, lon, lat);
    margin("tm inverse", m / itol, || format!("{es:?} {ps:?} {dlon} {lat}"));
    ensure!(m <= itol, "unprojecting ({e}, {n}) with {ps:?} on {es:?} gives {q:?}, {m} m away from ({lon}, {lat}) (allowed {itol:e})");
    Ok(())
}
fn exact(c: &(EllSpec, ProjSpec, f64, f64)) -> R {
    let (es, ps, dlon, lat) = c;
    fwd_inv(es, ps, *dlon, *lat)?;
    let lat0 = if let ProjSpec::Tm { lat0, .. } = ps { *lat0 } else { 0.0 };
    cls(*dlon, *lat, lat0)
}

fn origin(c: &(EllSpec, ProjSpec, f64)) -> R {
    let (es, ps, t) = c;
    let ell = es.ell();
    let ProjSpec::Tm { lon0, lat0, k0, fe, fnn } = *ps else { return reject() };
    let p = ps.build().applied_to(&es.build());
    let tol = ps.tol(&ell, lon0, lat0);
    let Ok(g) = p.proj(mkllh(lon0, lat0, 0.0)) else { crate::fail!("the origin of {ps:?} does not project") };
    ensure!((g.easting.m() - fe).abs() <= tol && (g.northing.m() - fnn).abs() <= tol, "the origin of {ps:?} on {es:?} projects to {g:?}");
    let Ok(q) = p.unproj(mkenh(fe, fnn, 0.0)) else { crate::fail!("the false origin of {ps:?} does not unproject") };
    ensure!(ground(&ell, &q, lon0, lat0) <= ps.inv_tol(&ell, lon0, lat0), "the false origin of {ps:?} on {es:?} unprojects to {q:?}");
    // true to scale on the central meridian: northing is k0 times the arc, easting constant
    let Ok(g) = p.proj(mkllh(lon0, *t, 0.0)) else { crate::fail!("({lon0}, {t}) does not project with {ps:?}") };
    let arc = oracle::marc(&ell, oracle::C::re(*t)).0 - oracle::marc(&ell, oracle::C::re(lat0)).0;
    let tol = ps.tol(&ell, lon0, *t);
    ensure!((g.easting.m() - fe).abs() <= tol, "central meridian at lat {t} has easting {} with {ps:?}", g.easting.m());
    ensure!((g.northing.m() - fnn - k0 * arc).abs() <= tol, "central meridian at lat {t} has northing {} with {ps:?} on {es:?}, expected {}", g.northing.m(), fnn + k0 * arc);
    nt(if lat0 == 0.0 { "equator" } else if lat0.abs() == FRAC_PI_2 { "pole" } else if lat0 < 0.0 { "south" } else { "north" })
}

fn mirror(c: &(EllSpec, ProjSpec, f64, f64)) -> R {
    let (es, ps, dlon, lat) = c;
    let ell = es.ell();
    let ProjSpec::Tm { lon0, lat0, k0, fe, fnn } = *ps else { return reject() };
    let p = ps.build().applied_to(&es.build());
    let pr = |dl: f64, la: f64| p.proj(mkllh(lon0 + dl, la, 0.0)).map(|g| (g.easting.m() - fe, g.northing.m() - fnn));
    let (Ok(a), Ok(b), Ok(s)) = (pr(*dlon, *lat), pr(-dlon, *lat), pr(*dlon, -lat)) else {
        crate::fail!("({dlon}, {lat}) or a mirror image does not project with {ps:?}")
    };
    let tol = 2.0 * ps.tol(&ell, lon0 + dlon, *lat);
    ensure!((a.0 + b.0).abs() <= tol && (a.1 - b.1).abs() <= tol, "mirror images about the central meridian at ±{dlon}, {lat} with {ps:?} project to {a:?} and {b:?}");
    // about the equator: northings counted from the equator are opposite
    let m0 = k0 * oracle::marc(&ell, oracle::C::re(lat0)).0;
    ensure!((a.0 - s.0).abs() <= tol && (a.1 + m0 + s.1 + m0).abs() <= tol, "mirror images about the equator at {dlon}, ±{lat} with {ps:?} project to {a:?} and {s:?}");
    if *dlon == 0.0 || *lat == 0.0 {
        triv("on an axis")
    } else {
        cls(*dlon, *lat, lat0)
    }
}

/// positions beyond a pole: mirror images, about the pole, of positions on the near side
fn over(c: &(EllSpec, ProjSpec, f64, f64)) -> R {
    let (es, ps, dlon, lat) = c;
    let ell = es.ell();
    let ProjSpec::Tm { lon0, lat0, k0, fnn, .. } = *ps else { return reject() };
    if lat.abs() < 1e-9 {
        return reject(); // the far side of the equator is as near to one pole as to the other
    }
    let p = ps.build().applied_to(&es.build());
    let (near, far) = (lon0 + dlon, lon0 + dlon.signum() * std::f64::consts::PI - dlon);
    let Ok(g) = p.proj(mkllh(far, *lat, 0.0)) else { crate::fail!("({far}, {lat}), beyond the pole, does not project with {ps:?} on {es:?}") };
    let (e, n) = ps.exact(&ell, near, *lat);
    let pole = fnn + k0 * (oracle::marc(&ell, oracle::C::re(FRAC_PI_2.copysign(*lat))).0 - oracle::marc(&ell, oracle::C::re(lat0)).0);
    let n = 2.0 * pole - n;
    let tol = 2.0 * ps.tol(&ell, near, *lat);
    let (de, dn) = (g.easting.m() - e, g.northing.m() - n);
    margin("tm beyond the pole", de.abs().max(dn.abs()) / tol, || format!("{es:?} {ps:?} {dlon} {lat}"));
    ensure!(de.abs() <= tol && dn.abs() <= tol, "({far}, {lat}), beyond the pole, with {ps:?} on {es:?} projects to ({}, {}), expected ({e}, {n}), off by ({de:e}, {dn:e}), allowed {tol:e}", g.easting.m(), g.northing.m());
    let itol = 2.0 * ps.inv_tol(&ell, near, *lat);
    for m in [mkenh(g.easting.m(), g.northing.m(), 0.0), mkenh(e, n, 0.0)] {
        let Ok(q) = p.unproj(m) else { crate::fail!("{m:?}, beyond the pole, does not unproject with {ps:?} on {es:?}") };
        super::c12::in_range(&q)?;
        let d = ground(&ell, &q, far, *lat);
        margin("tm beyond the pole, inverse", d / itol, || format!("{es:?} {ps:?} {dlon} {lat}"));
        ensure!(d <= itol, "({far}, {lat}), beyond the pole, with {ps:?} on {es:?} comes back from {m:?} as {q:?}, {d} m away (allowed {itol:e})");
    }
    cls(*dlon, *lat, lat0)
}

pub fn property() -> Property {
    Property {
        id: "C13",
        rule: "every (ellipsoid, parameters, position) counts; mirror images when off both axes",
        assumptions: &[
            "forward tolerance 1e-6 m (scaled with size and k0) plus 4*a*n^5*cosh(10*eta), the first neglected order of the JHS series",
            "inverse tolerance 1e-5 m plus the same series term",
            "the exact projection is computed by quadrature of the complex meridian arc",
        ],
        facets: vec![
            facet("exact", 100_000, || (ell_spec(), tm(), dlons(), lat()).boxed(), exact),
            facet("origin", 40_000, || (ell_spec(), tm(), lat()).boxed(), origin),
            facet("mirror", 60_000, || (ell_spec(), tm(), dlons(), lat()).boxed(), mirror),
            facet("beyond-pole", 60_000, || (ell_spec(), tm(), dlons(), lat()).boxed(), over),
        ],
    }
}
