//! C15 Web Mercator
use super::c12::{class, forward_inverse, lat_open, mkenh, turn_diff};
use crate::crsgen::*;
use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use proptest::prelude::*;
use std::f64::consts::{FRAC_PI_2, PI};

fn web() -> BoxedStrategy<ProjSpec> {
    (lon(), prop_oneof![2 => Just(0.0), 1 => lat()], falses(), falses())
        .prop_map(|(lon0, lat0, fe, fnn)| ProjSpec::Web { lon0, lat0, fe, fnn })
        .boxed()
}
fn ell_spec() -> BoxedStrategy<EllSpec> {
    prop_oneof![3 => ell(150.0), 1 => ell(5.0)].boxed()
}
fn inverse(c: &(EllSpec, ProjSpec, f64, f64)) -> R {
    let (es, ps, u, psi) = c;
    let a = es.ell().a;
    let (fe, fnn) = ps.falses();
    let p = ps.build().applied_to(&es.build());
    let Ok(q) = p.unproj(mkenh(fe + a * u, fnn + a * psi, 0.0)) else { crate::fail!("unprojecting with {ps:?} at {u}, {psi} radii failed") };
    // gudermannian
    let wp = psi.sinh().atan();
    super::c12::in_range(&q)?;
    let m = (adiff(q.lon.angle().rad(), ps.lon0() + u) * wp.cos() * a).hypot((q.lat.angle().rad() - wp) * a);
    let tol = 1e-6 * (a / 6.4e6).max(1.0) + 8e-15 * (fe.abs() + fnn.abs());
    ensure!(m <= tol, "unprojecting with {ps:?} on {es:?} at {u}, {psi} radii gives {q:?}, expected lon {}, lat {wp}: {m} m away", ps.lon0() + u);
    class(*u, wp)
}
/// only the semi-major axis matters
fn sphere(c: &(EllSpec, ProjSpec, f64, f64)) -> R {
    let (es, ps, lon, lat) = c;
    let a = es.ell().a;
    let s = EllSpec::Sphere(a);
    let (Ok(g), Ok(w)) = (
        ps.build().applied_to(&es.build()).proj(mkllh(*lon, *lat, 0.0)),
        ps.build().applied_to(&s.build()).proj(mkllh(*lon, *lat, 0.0)),
    ) else {
        crate::fail!("({lon}, {lat}) does not project with {ps:?}")
    };
    let tol = ps.tol(&es.ell(), *lon, *lat);
    ensure!((g.easting.m() - w.easting.m()).abs() <= tol && (g.northing.m() - w.northing.m()).abs() <= tol, "({lon}, {lat}) with {ps:?}: {g:?} on {es:?}, {w:?} on the sphere of the same semi-major axis");
    // the northern edge of the standard map is a square: lat 85.0511... has |N| = pi a
    let edge = PI.sinh().atan();
    let (fe, fnn) = ps.falses();
    let p = ps.build().applied_to(&es.build());
    for sg in [1.0, -1.0] {
        let Ok(g) = p.proj(mkllh(ps.lon0() + sg * FRAC_PI_2, sg * edge, 0.0)) else { crate::fail!("map edge does not project") };
        ensure!((g.northing.m() - fnn - sg * PI * a).abs() <= 1e-5 * (a / 6.4e6).max(1.0) && turn_diff(g.easting.m() - fe - sg * a * FRAC_PI_2, 2.0 * PI * a, 0.0).abs() <= 1e-5 * (a / 6.4e6).max(1.0), "the edge of the square map with {ps:?} on {es:?} is at {g:?}");
    }
    if matches!(es, EllSpec::Sphere(_)) {
        triv("already a sphere")
    } else {
        nt("ellipsoid against sphere")
    }
}

pub fn property() -> Property {
    Property {
        id: "C15",
        rule: "every (ellipsoid, parameters, position) counts; sphere comparison when the ellipsoid is not one",
        assumptions: &["tolerance 1e-6 m (scaled with size) plus rounding near the poles; positions at least 1e-9 rad short of the poles", "the origin latitude parameter is not used by Web Mercator (EPSG 1024: latitude of natural origin is 0)"],
        facets: vec![
            facet("forward-inverse", 200_000, || (ell_spec(), web(), lon(), lat_open()).boxed(), forward_inverse),
            facet("inverse", 100_000, || (ell_spec(), web(), -PI..=PI, prop_oneof![4 => -3.2..3.2f64, 1 => -8.0..8.0f64, 1 => tiny()]).boxed(), inverse),
            facet("sphere", 60_000, || (ell_spec(), web(), lon(), lat_open()).boxed(), sphere),
        ],
    }
}
