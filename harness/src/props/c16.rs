//! C16 totality, aliasing, height, false origin, scaling
use super::c12::{mkenh, turn_diff};
use super::c13::ground;
use crate::crsgen::*;
use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::oracle;
use proptest::prelude::*;
use std::f64::consts::{FRAC_PI_2, PI};

fn any_proj() -> BoxedStrategy<ProjSpec> {
    (raw_proj(PI), lon()).prop_map(|(r, l)| r.resolve(l)).boxed()
}
fn heights() -> BoxedStrategy<f64> {
    prop_oneof![2 => height_mild(), 1 => logu(-10.0, 12.0)].boxed()
}
fn anywhere() -> BoxedStrategy<f64> {
    prop_oneof![4 => metres(), 2 => -1e8..1e8f64, 2 => logu(0.0, 20.0), 1 => logu(20.0, 300.0), 1 => Just(0.0)].boxed()
}

fn forward_total(c: &(EllSpec, ProjSpec, f64, f64, f64)) -> R {
    let (es, ps, lon, lat, h) = c;
    let p = ps.build().applied_to(&es.build());
    match p.proj(mkllh(*lon, *lat, *h)) {
        Err(_) => {
            // refusing is only for positions the projection really cannot map
            let dl = oracle::norm_lon(lon - ps.lon0()).abs();
            let ok = if ps.is_tm() { dl > 50.0 * D2R && lat.abs() < 45.0 * D2R } else { lat.abs() > 89.9 * D2R };
            ensure!(ok, "projecting ({lon}, {lat}) with {ps:?} on {es:?} is refused");
            nt("refused")
        }
        Ok(g) => {
            // a few roundings away from a pole, another order of operations may overflow the isometric latitude
            let hair = FRAC_PI_2 - lat.abs();
            ensure!(hair > 0.0 && hair < 4e-15 || g.easting.m().is_finite() && g.northing.m().is_finite(), "({lon}, {lat}) with {ps:?} on {es:?} projects to {g:?}");
            ensure!(g.height.m().to_bits() == h.to_bits() || g.height.m() == *h, "height {h} becomes {} with {ps:?}", g.height.m());
            nt(ps.name())
        }
    }
}
fn inverse_total(c: &(EllSpec, ProjSpec, f64, f64, f64)) -> R {
    let (es, ps, e, n, h) = c;
    let p = ps.build().applied_to(&es.build());
    match p.unproj(mkenh(*e, *n, *h)) {
        Err(_) => {
            let ell = es.ell();
            let (fe, fnn) = ps.falses();
            let k0a = ps.k0(&ell) * ell.a;
            let ok = (e - fe).abs() > 0.9 * k0a || (n - fnn).abs() > 2.0 * k0a;
            ensure!(ok, "unprojecting ({e}, {n}) with {ps:?} on {es:?} is refused");
            nt("refused")
        }
        Ok(q) => {
            let (lo, la) = (q.lon.angle().rad(), q.lat.angle().rad());
            ensure!(lo.is_finite() && la.is_finite() && lo.abs() <= PI && la.abs() <= FRAC_PI_2, "({e}, {n}) with {ps:?} on {es:?} unprojects to {q:?}");
            ensure!(q.height.m() == *h, "height {h} becomes {} with {ps:?}", q.height.m());
            nt(ps.name())
        }
    }
}

/// two clearly different positions with the same map coordinates
fn alias(c: &(EllSpec, ProjSpec, f64, f64)) -> R {
    let (es, ps, lon, lat) = c;
    let ell = es.ell();
    if ps.is_tm() {
        // near the two points of the equator 90 degrees away the map is infinite: no claim there
        let dl = oracle::norm_lon(lon - ps.lon0());
        let sing = (dl.sin() * lat.cos()).abs().clamp(0.0, 1.0).acos();
        if sing < 20.0 * D2R {
            return reject();
        }
    }
    let p = ps.build().applied_to(&es.build());
    let Ok(g) = p.proj(mkllh(*lon, *lat, 0.0)) else { return nt("refused") };
    let Ok(q) = p.unproj(g) else { return nt("not unprojectable") };
    let (lo, la) = (q.lon.angle().rad(), q.lat.angle().rad());
    let far = ground(&ell, &q, *lon, *lat) > 0.01 * ell.a;
    if far {
        if let Ok(g2) = p.proj(mkllh(lo, la, 0.0)) {
            let d = (g2.easting.m() - g.easting.m()).hypot(g2.northing.m() - g.northing.m());
            ensure!(d > 10.0 * ell.a / 6.4e6, "({lon}, {lat}) and ({lo}, {la}), far apart, both project to {g:?} with {ps:?} on {es:?}");
        }
        return nt("not inverted");
    }
    if ps.is_tm() {
        nt("transverse, inverted")
    } else {
        nt("mercator, inverted")
    }
}
/// direct search for aliases: reflections of a position
fn alias_mirror(c: &(EllSpec, ProjSpec, f64, f64)) -> R {
    let (es, ps, lon, lat) = c;
    let ell = es.ell();
    let dl = oracle::norm_lon(lon - ps.lon0());
    if ps.is_tm() {
        let sing = (dl.sin() * lat.cos()).abs().clamp(0.0, 1.0).acos();
        if sing < 20.0 * D2R {
            return reject();
        }
    }
    let p = ps.build().applied_to(&es.build());
    let Ok(g) = p.proj(mkllh(*lon, *lat, 0.0)) else { return triv("refused") };
    let here = oracle::llh_to_xyz(&ell, *lon, *lat, 0.0);
    let mut n = 0;
    for (l2, la2) in [
        (ps.lon0() - dl, *lat),
        (*lon, -lat),
        (ps.lon0() - dl, -lat),
        (ps.lon0() + PI - dl, *lat),
        (ps.lon0() + PI + dl, *lat),
        (ps.lon0() + PI - dl, -lat),
        (ps.lon0() + PI + dl, -lat),
        (ps.lon0() + FRAC_PI_2 - dl, *lat),
    ] {
        let there = oracle::llh_to_xyz(&ell, l2, la2, 0.0);
        if oracle::dist(here, there) < 0.01 * ell.a {
            continue;
        }
        n += 1;
        if let Ok(g2) = p.proj(mkllh(l2, la2, 0.0)) {
            let d = (g2.easting.m() - g.easting.m()).hypot(g2.northing.m() - g.northing.m());
            ensure!(d > 10.0 * ell.a / 6.4e6, "({lon}, {lat}) and ({l2}, {la2}), far apart, both project to {g:?} with {ps:?} on {es:?}");
        }
    }
    if n > 0 {
        nt("mirror images")
    } else {
        triv("no distinct image")
    }
}

fn with(ps: &ProjSpec, dfe: f64, dfn: f64, km: f64) -> Option<ProjSpec> {
    Some(match *ps {
        ProjSpec::Merc1 { lon0, k0, fe, fnn } => ProjSpec::Merc1 { lon0, k0: k0 * km, fe: fe + dfe, fnn: fnn + dfn },
        ProjSpec::Merc2 { lon0, lat0, fe, fnn } if km == 1.0 => ProjSpec::Merc2 { lon0, lat0, fe: fe + dfe, fnn: fnn + dfn },
        ProjSpec::Tm { lon0, lat0, k0, fe, fnn } => ProjSpec::Tm { lon0, lat0, k0: k0 * km, fe: fe + dfe, fnn: fnn + dfn },
        ProjSpec::Web { lon0, lat0, fe, fnn } if km == 1.0 => ProjSpec::Web { lon0, lat0, fe: fe + dfe, fnn: fnn + dfn },
        _ => return None,
    })
}
fn in_domain(ps: &ProjSpec, lon: f64, lat: f64) -> bool {
    let dl = oracle::norm_lon(lon - ps.lon0());
    if ps.is_tm() {
        dl.abs() < 1.0
    } else {
        lat.abs() < 1.57
    }
}
/// shift of the false origin, and the same map point seen from both
fn false_origin(c: &(EllSpec, ProjSpec, f64, f64, f64, f64)) -> R {
    let (es, ps, lon, lat, dfe, dfn) = c;
    let Some(p2) = with(ps, *dfe, *dfn, 1.0) else { return reject() };
    if !in_domain(ps, *lon, *lat) {
        return reject();
    }
    let e = es.build();
    let (a, b) = (ps.build().applied_to(&e), p2.build().applied_to(&e));
    let (Ok(ga), Ok(gb)) = (a.proj(mkllh(*lon, *lat, 0.0)), b.proj(mkllh(*lon, *lat, 0.0))) else {
        crate::fail!("({lon}, {lat}) does not project with {ps:?}")
    };
    let tol = 4e-15 * (ga.easting.m().abs() + ga.northing.m().abs() + dfe.abs() + dfn.abs() + 1e7 + 3.0 * es.ell().a * ps.k0(&es.ell()).max(1.0)) + 1e-9;
    let (de, dn) = (gb.easting.m() - ga.easting.m() - dfe, gb.northing.m() - ga.northing.m() - dfn);
    ensure!(de.abs() <= tol && dn.abs() <= tol, "moving the false origin of {ps:?} by ({dfe}, {dfn}) moves ({lon}, {lat}) from {ga:?} to {gb:?}");
    let (Ok(qa), Ok(qb)) = (a.unproj(ga), b.unproj(mkenh(ga.easting.m() + dfe, ga.northing.m() + dfn, 0.0))) else {
        crate::fail!("{ga:?} does not unproject with {ps:?}")
    };
    let m = ground(&es.ell(), &qa, qb.lon.angle().rad(), qb.lat.angle().rad());
    let k = ps.k0(&es.ell()).min(1.0);
    ensure!(m <= 50.0 * tol / k + 1e-7 * es.ell().a / 6.4e6, "the same map point seen from two false origins unprojects to {qa:?} and {qb:?} with {ps:?}");
    nt(ps.name())
}
fn scaling(c: &(EllSpec, ProjSpec, f64, f64, f64, f64)) -> R {
    let (es, ps, lon, lat, km, sm) = c;
    if !in_domain(ps, *lon, *lat) {
        return reject();
    }
    let ell = es.ell();
    let e = es.build();
    let (fe, fnn) = ps.falses();
    let Ok(ga) = ps.build().applied_to(&e).proj(mkllh(*lon, *lat, 0.0)) else { crate::fail!("({lon}, {lat}) does not project with {ps:?}") };
    let (xa, ya) = (ga.easting.m() - fe, ga.northing.m() - fnn);
    let base = 8e-15 * (xa.abs() + ya.abs() + fe.abs() + fnn.abs() + ell.a * ps.k0(&ell)) / lat.cos().max(1e-3);
    let dl = oracle::norm_lon(lon - ps.lon0());
    if let Some(p2) = with(ps, 0.0, 0.0, *km) {
        let Ok(gb) = p2.build().applied_to(&e).proj(mkllh(*lon, *lat, 0.0)) else { crate::fail!("({lon}, {lat}) does not project with {p2:?}") };
        let (xb, yb) = (gb.easting.m() - fe, gb.northing.m() - fnn);
        let tol = base * (1.0 + km) + 1e-9;
        ensure!((turn_diff(xb - km * xa, 2.0 * PI * ell.a * p2.k0(&ell), dl)).abs() <= tol && (yb - km * ya).abs() <= tol,
            "scale factor times {km}: ({lon}, {lat}) with {ps:?} goes from ({xa}, {ya}) to ({xb}, {yb}) off the false origin");
    }
    // a proportionally larger ellipsoid
    let big = match es {
        EllSpec::Sphere(r) => EllSpec::Sphere(r * sm),
        EllSpec::Ainvf(a, f) => EllSpec::Ainvf(a * sm, *f),
        EllSpec::Ab(a, b) => EllSpec::Ab(a * sm, b * sm),
        EllSpec::Cat(_) => EllSpec::Ab(e.a().m() * sm, e.b().m() * sm),
    };
    let Ok(gb) = ps.build().applied_to(&big.build()).proj(mkllh(*lon, *lat, 0.0)) else { crate::fail!("({lon}, {lat}) does not project with {ps:?} on {big:?}") };
    let (xb, yb) = (gb.easting.m() - fe, gb.northing.m() - fnn);
    // the flattening of the copy is recomputed from the axes
    let tol = base * (1.0 + sm) + 1e-9 + 2e-8 * sm * (ell.a / 6.4e6);
    let tol = if ps.is_tm() { tol * 4.0 } else { tol };
    ensure!((turn_diff(xb - sm * xa, 2.0 * PI * ell.a * sm * ps.k0(&ell), dl)).abs() <= tol && (yb - sm * ya).abs() <= tol,
        "ellipsoid {sm} times larger: ({lon}, {lat}) with {ps:?} goes from ({xa}, {ya}) on {es:?} to ({xb}, {yb}) on {big:?}, off the false origin (allowed {tol:e})");
    nt(ps.name())
}

pub fn property() -> Property {
    let e = || prop_oneof![5 => ell(150.0), 1 => ell(5.0)].boxed();
    let near = || (raw_proj(0.9), lon(), lat()).prop_map(|(r, l, p)| (r.resolve(l), l, p)).boxed();
    let _ = near;
    Property {
        id: "C16",
        rule: "every (ellipsoid, projection, position or map coordinate) counts; aliases when a distinct mirror image exists",
        assumptions: &[
            "aliasing is not claimed within 20 degrees of the two singular points of transverse Mercator (equator, 90 degrees from the central meridian)",
            "a refusal is accepted for transverse Mercator only beyond 50 degrees from the central meridian (map: 0.9 radii), for Mercator only within 0.1 degree of a pole",
        ],
        facets: vec![
            facet("forward-total", 200_000, move || (e(), any_proj(), lon(), lat(), heights()).boxed(), forward_total),
            facet("inverse-total", 200_000, move || (e(), any_proj(), anywhere(), anywhere(), heights()).boxed(), inverse_total),
            facet("alias", 100_000, || (ell(150.0), any_proj(), lon(), lat()).boxed(), alias),
            facet("alias-mirror", 60_000, || (ell(150.0), any_proj(), lon(), lat()).boxed(), alias_mirror),
            facet("false-origin", 100_000, || (ell(150.0), (raw_proj(0.9), lon(), lat())).prop_map(|(e, (r, l, p))| (e, r.resolve(l), l, p))
                .prop_flat_map(|(e, r, l, p)| (Just(e), Just(r), Just(l), Just(p), falses(), falses())).boxed(), false_origin),
            facet("scaling", 100_000, || (ell(150.0), raw_proj(0.9), lon(), lat(), 0.3..3.0f64, 0.05..12.0f64)
                .prop_map(|(e, r, l, p, k, s)| (e, r.resolve(l), l, p, k, s)).boxed(), scaling),
        ],
    }
}
