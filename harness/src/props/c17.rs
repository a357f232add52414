//! C17 direct geodesics
use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::oracle::{self, Ell};
use geokit::cs::azimuth::Azimuth;
use geokit::geodesy::geodesics::{karney::KarneyGeodesicSolver, rapp::RappIterativeGeodisicSolver, vincenty::VincentyGeodesicSolver, Geodesic, GeodesicSolver};
use geokit::geodesy::Ellipsoid;
use geokit::quantities::angle::Angle;
use geokit::units::angle::RAD;
use geokit::units::length::M;
use proptest::prelude::*;
use std::f64::consts::PI;

pub const SOLVERS: [&str; 3] = ["karney", "vincenty", "rapp"];
pub fn direct(k: usize, e: &Ellipsoid, lon: f64, lat: f64, az: f64, s: f64) -> Result<Geodesic, &'static str> {
    let p = (mklon(lon), mklat(lat));
    let a = Azimuth::new(Angle::new(az, RAD));
    match k {
        0 => KarneyGeodesicSolver::new(e).solve_direct(p, a, s * M),
        1 => VincentyGeodesicSolver::new(e).solve_direct(p, a, s * M),
        _ => RappIterativeGeodisicSolver::new(e).solve_direct(p, a, s * M),
    }
}
/// truncation of the published series of each method, in radians per radian travelled
pub fn series(k: usize, ell: &Ell) -> f64 {
    let f = ell.f;
    match k {
        0 => 0.08 * f.powi(7),
        1 => VINC * f.powi(4),
        _ => RAPP * f.powi(5),
    }
}
pub const VINC: f64 = 0.1;
pub const RAPP: f64 = 1.0;
/// metres
pub fn pos_tol(k: usize, ell: &Ell, s: f64) -> f64 {
    let sig = s.abs() / ell.a;
    let conv = if k == 1 { 1e-12 } else { 1e-13 };
    ell.a * (conv + (series(k, ell) + 1e-15) * (1.0 + sig))
}
fn rd(g: &Geodesic) -> (f64, f64, f64) {
    (g.p2.0.angle().rad(), g.p2.1.angle().rad(), g.alpha2.angle().rad())
}

pub fn start() -> BoxedStrategy<(f64, f64)> {
    (lon(), lat()).boxed()
}
/// fraction of the circumference
pub fn travel() -> BoxedStrategy<f64> {
    prop_oneof![
        1 => Just(0.0),
        5 => 0.0..1.0f64,
        3 => logpos(-12.0, -1.0),
        1 => (0i32..=8).prop_map(|k| k as f64 / 8.0),
        1 => (lit_near()).prop_map(|v| (v.abs() / 4e7).min(1.0)),
        1 => prop_oneof![Just(1000.0), Just(10_000.0), Just(999.9), Just(1000.1)].prop_map(|v: f64| v / 4e7),
    ]
    .boxed()
}
pub fn earth() -> BoxedStrategy<EllSpec> {
    ell(150.0)
}

/// much flatter than the Earth: the high order terms of the series show
pub fn flat() -> BoxedStrategy<EllSpec> {
    prop_oneof![
        2 => (1e6..7.2e7f64, 15.0..150.0f64).prop_map(|(a, f)| EllSpec::Ainvf(a, f)),
        1 => (Just(6_378_137.0), 20.0..60.0f64).prop_map(|(a, f): (f64, f64)| EllSpec::Ab(a, a - a / f)),
    ]
    .boxed()
}

fn one(c: &(usize, EllSpec, f64, f64, f64, f64)) -> R {
    let (k, es, lon, lat, az, u) = c;
    let ell = es.ell();
    let e = es.build();
    let s = u * 2.0 * PI * ell.a;
    let who = SOLVERS[*k];
    let g = match direct(*k, &e, *lon, *lat, *az, s) {
        Ok(g) => g,
        Err(m) => crate::fail!("{who}: direct from ({lon}, {lat}) azimuth {az} for {s} m on {es:?} fails: {m}"),
    };
    ensure!(g.p1 == (mklon(*lon), mklat(*lat)) && g.alpha1 == Azimuth::new(Angle::new(*az, RAD)) && g.s == s * M,
        "{who}: direct from ({lon}, {lat}) azimuth {az} for {s} m reports start {:?}, azimuth {:?}, length {:?}", g.p1, g.alpha1, g.s);
    let w = oracle::direct(&ell, *lon, *lat, *az, s);
    let (l2, p2, a2) = rd(&g);
    let pos = oracle::llh_to_xyz(&ell, l2, p2, 0.0);
    let d = oracle::dist(pos, w.pos);
    let tol = pos_tol(*k, &ell, s);
    margin(["k pos", "v pos", "r pos"][*k], d / tol, || format!("{c:?} off {d:e} tol {tol:e}"));
    ensure!(d <= tol, "{who}: direct from ({lon}, {lat}) azimuth {az} for {s} m on {es:?} ends at ({l2}, {p2}), {d:e} m from the true end ({}, {}) (allowed {tol:e})", oracle::norm_lon(w.lon), w.lat);
    let h = oracle::heading(l2, p2, a2);
    let dh = oracle::dist(h, w.head);
    let htol = 2.0 * tol / ell.a + 1e-12 + 2e-15 / p2.cos().max(1e-16);
    margin(["k az", "v az", "r az"][*k], dh / htol, || format!("{c:?} off {dh:e} tol {htol:e}"));
    ensure!(dh <= htol, "{who}: direct from ({lon}, {lat}) azimuth {az} for {s} m on {es:?} ends with azimuth {a2} at lon {l2}, expected {} at {}: headings differ by {dh:e} rad (allowed {htol:e})", w.az, w.lon);
    class(*lat, *az, s)
}
pub fn class(lat: f64, az: f64, s: f64) -> R {
    if s == 0.0 {
        return triv("zero length");
    }
    let merid = az.sin().abs() < 1e-9;
    if PI / 2.0 - lat.abs() < 1e-6 {
        nt("from a pole")
    } else if merid {
        nt("meridian")
    } else if lat.abs() < 1e-9 && az.cos().abs() < 1e-9 {
        nt("equator")
    } else if s < 1e4 {
        nt("short")
    } else {
        nt("general")
    }
}

fn legs(c: &(usize, EllSpec, f64, f64, f64, f64, f64)) -> R {
    let (k, es, lon, lat, az, u, cut) = c;
    let ell = es.ell();
    let e = es.build();
    let who = SOLVERS[*k];
    let s = u * 2.0 * PI * ell.a;
    let s1 = s * cut;
    let (Ok(a), Ok(w)) = (direct(*k, &e, *lon, *lat, *az, s1), direct(*k, &e, *lon, *lat, *az, s)) else {
        crate::fail!("{who}: direct fails from ({lon}, {lat})")
    };
    let (l, p, al) = rd(&a);
    let Ok(b) = direct(*k, &e, l, p, al, s - s1) else { crate::fail!("{who}: direct fails from ({l}, {p})") };
    let (bl, bp, ba) = rd(&b);
    let (wl, wp, wa) = rd(&w);
    let d = oracle::dist(oracle::llh_to_xyz(&ell, bl, bp, 0.0), oracle::llh_to_xyz(&ell, wl, wp, 0.0));
    // rounding of coordinates and azimuth next to a pole turns the direction
    let polar = 4e-15 / p.cos().min(wp.cos()).max(1e-16);
    if polar > 1e-6 {
        return triv("turning point too near a pole");
    }
    let tol = 4.0 * pos_tol(*k, &ell, s) + ell.a * (polar + 1e-14);
    margin(["k legs", "v legs", "r legs"][*k], d / tol, || format!("{c:?} off {d:e} tol {tol:e}"));
    ensure!(d <= tol, "{who}: from ({lon}, {lat}) azimuth {az} on {es:?}, {s1} m and then {} m end {d:e} m from where {s} m end (allowed {tol:e})", s - s1);
    let dh = oracle::dist(oracle::heading(bl, bp, ba), oracle::heading(wl, wp, wa));
    ensure!(dh <= 2.0 * tol / ell.a + 2e-15 / lat.cos().min(wp.cos()).max(1e-16), "{who}: from ({lon}, {lat}) azimuth {az} on {es:?}, two legs of {s1} and {} m and one leg of {s} m end with headings {dh:e} rad apart", s - s1);
    // and back along the reverse azimuth
    let back = oracle::norm_lon(wa + PI).clamp(-PI, PI);
    let Ok(r) = direct(*k, &e, wl, wp, back, s) else { crate::fail!("{who}: direct fails from ({wl}, {wp})") };
    let (rl, rp, ra) = rd(&r);
    let d = oracle::dist(oracle::llh_to_xyz(&ell, rl, rp, 0.0), oracle::llh_to_xyz(&ell, *lon, *lat, 0.0));
    ensure!(d <= tol, "{who}: from ({lon}, {lat}) azimuth {az} on {es:?} for {s} m and back along the reverse azimuth ends {d:e} m from the start (allowed {tol:e})");
    let hs = oracle::heading(*lon, *lat, *az);
    let hr = oracle::heading(rl, rp, ra);
    let dh = oracle::norm([hs[0] + hr[0], hs[1] + hr[1], hs[2] + hr[2]]);
    ensure!(dh <= 2.0 * tol / ell.a + 2e-15 / lat.cos().min(wp.cos()).max(1e-16), "{who}: coming back to ({lon}, {lat}) after {s} m the azimuth is {ra}, not opposite to {az} ({dh:e} rad)");
    class(*lat, *az, s)
}

pub fn property() -> Property {
    Property {
        id: "C17",
        rule: "every geodesic of non-zero length counts",
        assumptions: &[
            "position tolerance a*(2e-12 (Vincenty) or 2e-13) plus the truncation order of each method's series per radian travelled (Karney f^7, Vincenty f^4, Rapp f^5)",
            "the oracle integrates the exact geodesic equations numerically; negative lengths are not claimed",
        ],
        facets: vec![
            facet("end", 60_000, || (0..3usize, earth(), lon(), lat(), az(), travel()).boxed(), one),
            facet("flattened", 30_000, || (0..3usize, flat(), lon(), lat(), az(), travel()).boxed(), one),
            facet("legs-and-back", 60_000, || (0..3usize, earth(), lon(), lat(), az(), travel(), 0.0..=1.0f64).boxed(), legs),
        ],
    }
}
