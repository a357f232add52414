//! C07 approximate equality
use crate::crsgen::*;
use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use approx::AbsDiffEq;
use geokit::cs::azimuth::Azimuth;
use geokit::cs::cartesian::geocentric::{approx_eq_xyz, GeocentricAxes, XYZ};
use geokit::cs::cartesian::projected::{ProjectedTolerance, ENH};
use geokit::cs::cartesian::CartesianTolerance;
use geokit::cs::geodetic::{approx_eq_llh, GeodeticTolerance, LLH};
use geokit::geodesy::geodesics::{check_direct, check_inverse, DirectErrors, Geodesic, InverseErrors};
use geokit::quantities::angle::Angle;
use geokit::quantities::length::Length;
use geokit::units::angle::RAD;
use geokit::units::length::M;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::f64::consts::{FRAC_PI_2, PI};

fn tolg(lon: f64, lat: f64, h: f64) -> GeodeticTolerance {
    GeodeticTolerance { lon: Angle::new(lon, RAD), lat: Angle::new(lat, RAD), height: Length::new(h, M) }
}
/// difference as a multiple of the tolerance
fn mult() -> BoxedStrategy<f64> {
    prop_oneof![
        3 => Just(0.0),
        3 => -0.999..0.999f64,
        2 => proptest::sample::select(vec![0.99, -0.99, 1.01, -1.01]),
        2 => (any::<bool>(), 1.001..3.0f64).prop_map(|(s, m)| if s { m } else { -m }),
        1 => (any::<bool>(), logpos(0.5, 6.0)).prop_map(|(s, m)| if s { m } else { -m }),
    ]
    .boxed()
}
fn atol() -> BoxedStrategy<f64> {
    prop_oneof![2 => Just(1e-12), 2 => Just(1e-9), 3 => logpos(-11.0, 0.3), 1 => Just(0.0)].boxed()
}
fn ltol() -> BoxedStrategy<f64> {
    prop_oneof![2 => Just(1e-4), 2 => Just(1e-3), 3 => logpos(-5.0, 5.0), 1 => Just(0.0)].boxed()
}
/// Some(within) unless too close to the boundary to call
fn within(d: f64, tol: f64, slack: f64) -> Option<bool> {
    if d == 0.0 {
        return Some(true);
    }
    if (d - tol).abs() <= slack {
        None
    } else {
        Some(d <= tol)
    }
}
fn all(v: &[Option<bool>]) -> Option<bool> {
    if v.iter().any(|x| *x == Some(false)) {
        Some(false)
    } else if v.iter().any(|x| x.is_none()) {
        None
    } else {
        Some(true)
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct G {
    p: (f64, f64, f64),
    m: (f64, f64, f64),
    t: (f64, f64, f64),
}
fn g() -> BoxedStrategy<G> {
    ((lon(), lat(), metres()), (mult(), mult(), mult()), (atol(), atol(), ltol()))
        .prop_map(|(p, m, t)| G { p, m, t })
        .boxed()
}
fn step(m: f64, t: f64, unit: f64) -> f64 {
    if t == 0.0 {
        m * unit
    } else {
        m * t
    }
}
fn geodetic(c: &G) -> R {
    let (lon, lat, h) = c.p;
    let a = mkllh(lon, lat, h);
    let b = mkllh(lon + step(c.m.0, c.t.0, 1e-6), (lat + step(c.m.1, c.t.1, 1e-6)).clamp(-FRAC_PI_2, FRAC_PI_2), h + step(c.m.2, c.t.2, 1e-3));
    let tol = tolg(c.t.0, c.t.1, c.t.2);
    let sl = 4e-15;
    let want_lon = within(adiff(a.lon.angle().rad(), b.lon.angle().rad()), c.t.0, sl);
    let want_lat = within((a.lat.angle().rad() - b.lat.angle().rad()).abs(), c.t.1, sl);
    let want_h = within((a.height.m() - b.height.m()).abs(), c.t.2, 1e-15 * h.abs());
    let show = || format!("{a} and {b} within lon {} lat {} h {}", c.t.0, c.t.1, c.t.2);
    let got = a.approx_eq(&b, tol);
    ensure!(got == b.approx_eq(&a, tol), "approx_eq is not symmetric for {}", show());
    ensure!(got == approx_eq_llh(a, b, tol), "approx_eq_llh and approx_eq disagree for {}", show());
    ensure!(a.approx_eq(&a, tol) && approx_eq_llh(b, b, tol), "approx_eq is not reflexive at {}", show());
    if let Some(w) = all(&[want_lon, want_lat, want_h]) {
        ensure!(got == w, "approx_eq = {got}, expected {w}: {}", show());
    }
    // per component
    let e0 = Angle::new(c.t.0, RAD);
    let e1 = Angle::new(c.t.1, RAD);
    if let Some(w) = want_lon {
        ensure!(a.lon.abs_diff_eq(&b.lon, e0) == w && b.lon.abs_diff_eq(&a.lon, e0) == w, "longitude equality, expected {w}: {}", show());
        let (y, z) = (Azimuth::new(a.lon.angle()), Azimuth::new(b.lon.angle()));
        ensure!(y.abs_diff_eq(&z, e0) == w && z.abs_diff_eq(&y, e0) == w, "azimuth equality, expected {w}: {}", show());
    }
    if let Some(w) = want_lat {
        ensure!(a.lat.abs_diff_eq(&b.lat, e1) == w, "latitude equality, expected {w}: {}", show());
    }
    if let Some(w) = want_h {
        ensure!(a.height.abs_diff_eq(&b.height, Length::new(c.t.2, M)) == w, "height equality, expected {w}: {}", show());
    }
    if got {
        nt("equal")
    } else if want_lon == Some(false) && want_lat != Some(false) && want_h != Some(false) {
        nt("longitude only differs")
    } else {
        nt("different")
    }
}

/// everything a multiple of 2^-20: differences are exact, so the boundary itself is decided
fn dyadic(c: &((i32, i32, i32), (i32, i32, i32), (u8, u8, u8))) -> R {
    let (p, t, m) = *c;
    let q = (1u32 << 20) as f64;
    let f = |k: i32| k as f64 / q;
    // difference = tol + {-1, 0, +1} steps, or none at all
    let d = |t: i32, m: u8| match m {
        0 => 0,
        1 => t - 1,
        2 => t,
        3 => t + 1,
        4 => -t,
        5 => -t - 1,
        _ => 1 - t,
    };
    let dd = (d(t.0, m.0), d(t.1, m.1), d(t.2, m.2));
    let a = mkllh(f(p.0), f(p.1), f(p.2));
    let b = mkllh(f(p.0 + dd.0), f(p.1 + dd.1), f(p.2 + dd.2));
    let ok = (dd.0.abs() <= t.0, dd.1.abs() <= t.1, dd.2.abs() <= t.2);
    let tol = tolg(f(t.0), f(t.1), f(t.2));
    let got = a.approx_eq(&b, tol);
    let w = ok.0 && ok.1 && ok.2;
    ensure!(got == w, "LLH approx_eq = {got}, expected {w}: steps {dd:?} tolerance {t:?}");
    ensure!(approx_eq_llh(b, a, tol) == w, "approx_eq_llh, expected {w}: steps {dd:?} tolerance {t:?}");
    ensure!(a.lon.abs_diff_eq(&b.lon, tol.lon) == ok.0 && Azimuth::new(a.lon.angle()).abs_diff_eq(&Azimuth::new(b.lon.angle()), tol.lon) == ok.0, "longitude boundary: step {} tolerance {}", dd.0, t.0);
    // plain angles (turns count) and lengths
    let turn = (p.2 as i64 % 64) as f64 * 4.0;
    let (u, v, et) = (Angle::new(f(p.0) + turn, RAD), Angle::new(f(p.0 + dd.0) + turn, RAD), Angle::new(f(t.0), RAD));
    ensure!(u.abs_diff_eq(&v, et) == ok.0 && v.abs_diff_eq(&u, et) == ok.0 && u.abs_diff_eq(&u, et), "plain angle boundary: step {} tolerance {}", dd.0, t.0);
    let far = Angle::new(u.rad() + 8.0, RAD);
    ensure!(u.abs_diff_eq(&far, et) == (t.0 as f64 / q >= 8.0), "plain angles 8 rad apart, tolerance {}", f(t.0));
    let (u, v, et) = (Length::new(f(p.2), M), Length::new(f(p.2 + dd.2), M), Length::new(f(t.2), M));
    ensure!(u.abs_diff_eq(&v, et) == ok.2 && v.abs_diff_eq(&u, et) == ok.2 && u.abs_diff_eq(&u, et), "length boundary: step {} tolerance {}", dd.2, t.2);
    // cartesian: one tolerance for all
    let ct = CartesianTolerance { all: Length::new(f(t.0), M) };
    let x = XYZ { x: f(p.0) * M, y: f(p.1) * M, z: f(p.2) * M };
    let ddx = (d(t.0, m.0), d(t.0, m.1), d(t.0, m.2));
    let y = XYZ { x: f(p.0 + ddx.0) * M, y: f(p.1 + ddx.1) * M, z: f(p.2 + ddx.2) * M };
    let w = ddx.0.abs() <= t.0 && ddx.1.abs() <= t.0 && ddx.2.abs() <= t.0;
    ensure!(x.approx_eq(y, ct) == w && y.approx_eq(x, ct) == w && approx_eq_xyz(x, y, ct) == w, "XYZ approx_eq, expected {w}: steps {ddx:?} tolerance {}", t.0);
    ensure!(x.approx_eq(x, ct), "XYZ approx_eq is not reflexive");
    // projected: horizontal and height
    let pt = ProjectedTolerance { horiz: Length::new(f(t.0), M), height: Length::new(f(t.2), M) };
    let e = ENH { easting: f(p.0) * M, northing: f(p.1) * M, height: f(p.2) * M };
    let ddp = (d(t.0, m.0), d(t.0, m.1), d(t.2, m.2));
    let g = ENH { easting: f(p.0 + ddp.0) * M, northing: f(p.1 + ddp.1) * M, height: f(p.2 + ddp.2) * M };
    let w = ddp.0.abs() <= t.0 && ddp.1.abs() <= t.0 && ddp.2.abs() <= t.2;
    ensure!(e.approx_eq(g, pt) == w && g.approx_eq(e, pt) == w, "ENH approx_eq, expected {w}: steps {ddp:?} tolerances {} {}", t.0, t.2);
    ensure!(e.approx_eq(e, pt), "ENH approx_eq is not reflexive");
    nt("boundary")
}

/// Raw coordinates in a reference system: plainly per axis, tolerance in axis units.
fn raw(c: &(RawKind, (i32, i32, i32), (i32, i32, i32), (u8, u8, u8))) -> R {
    let (k, p, t, m) = c;
    let spec = CrsSpec {
        datum: DatumSpec { ell: EllSpec::Cat(crate::tables::index_of("WGS84")), pm: PmSpec::Cat(0) },
        kind: match k {
            RawKind::Geoc => Kind::Geoc,
            RawKind::Geog(a) => Kind::Geog(*a),
            RawKind::Proj(a) => Kind::Proj(*a, ProjSpec::UtmN(31)),
        },
    };
    let obj = spec.build();
    let crs = obj.as_crs();
    let dim = crs.dim();
    ensure!(dim == spec.dim(), "dimension {dim} of {spec:?}");
    let q = 1024.0;
    let d = |t: i32, m: u8| match m {
        0 => 0,
        1 => t - 1,
        2 => t,
        3 => t + 1,
        4 => -t,
        5 => -t - 1,
        6 => 360 * 1024,
        _ => 1 - t,
    };
    let (p, t, m) = ([p.0, p.1, p.2], [t.0, t.1, t.2], [m.0, m.1, m.2]);
    let dd: Vec<i32> = (0..3).map(|i| d(t[i], m[i])).collect();
    let a: Vec<f64> = (0..dim).map(|i| p[i] as f64 / q).collect();
    let b: Vec<f64> = (0..dim).map(|i| (p[i] + dd[i]) as f64 / q).collect();
    let tol: Vec<f64> = t.iter().map(|x| *x as f64 / q).collect();
    let w = (0..dim).all(|i| dd[i].abs() <= t[i]);
    ensure!(crs.approx_eq(&a, &b, &tol) == w, "{} approx_eq of {a:?} {b:?} tolerance {tol:?}, expected {w}", spec.name());
    ensure!(crs.approx_eq(&b, &a, &tol[..dim]) == w, "{} approx_eq of {b:?} {a:?} tolerance {tol:?}, expected {w}", spec.name());
    ensure!(crs.approx_eq(&a, &a, &[0.0, 0.0, 0.0]), "{} approx_eq is not reflexive at {a:?}", spec.name());
    nt(spec.name())
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum RawKind {
    Geoc,
    Geog(GAx),
    Proj(PAx),
}
fn raw_kind() -> BoxedStrategy<RawKind> {
    prop_oneof![Just(RawKind::Geoc), gax().prop_map(RawKind::Geog), pax().prop_map(RawKind::Proj)].boxed()
}

fn close(g: f64, w: f64) -> bool {
    (g - w).abs() <= 4e-15 * w.abs()
}
/// tolerances expressed in axes
fn axes_tol(c: &(GAx, PAx, (f64, f64, f64))) -> R {
    let (ga, pa, (x, y, z)) = *c;
    let t = ga.build().denormalize_tol(tolg(x, y, z));
    ensure!(t.len() == ga.dim(), "{ga:?}: tolerance {t:?} has the wrong length");
    ensure!(close(t[ga.lon_ix()], x / ga.ang()), "{ga:?}: longitude tolerance {x} rad written as {t:?}");
    ensure!(close(t[ga.lat_ix()], y / ga.ang()), "{ga:?}: latitude tolerance {y} rad written as {t:?}");
    if ga.dim() == 3 {
        ensure!(close(t[2], z / ga.len()), "{ga:?}: height tolerance {z} m written as {t:?}");
    }
    let s = pa.sizes();
    let t = pa.build().denormalize_tol(ProjectedTolerance { horiz: x * M, height: z * M });
    ensure!(t.len() == pa.dim(), "{pa:?}: tolerance {t:?} has the wrong length");
    ensure!(close(t[0], x / s[0]) && close(t[1], x / s[1]), "{pa:?}: horizontal tolerance {x} m written as {t:?}");
    if pa.dim() == 3 {
        ensure!(close(t[2], z / s[2]), "{pa:?}: height tolerance {z} m written as {t:?}");
    }
    let t = GeocentricAxes::XYZ.denormalize_tol(CartesianTolerance { all: x * M });
    ensure!(t.len() == 3 && t.iter().all(|v| close(*v, x)), "geocentric tolerance {x} written as {t:?}");
    // predefined sizes
    for (n, g, w) in [
        ("tiny", GeodeticTolerance::tiny(), (1e-12, 1e-4)),
        ("small", GeodeticTolerance::small(), (1e-9, 1e-3)),
        ("default", GeodeticTolerance::default(), (1e-12, 1e-4)),
    ] {
        ensure!(g.lon.rad() == w.0 && g.lat.rad() == w.0 && g.height.m() == w.1, "GeodeticTolerance {n}: {g:?}");
    }
    ensure!(CartesianTolerance::tiny().all.m() == 1e-4 && CartesianTolerance::small().all.m() == 1e-3 && CartesianTolerance::default().all.m() == 1e-4, "CartesianTolerance sizes");
    let (pt, ps) = (ProjectedTolerance::tiny(), ProjectedTolerance::small());
    ensure!(pt.horiz.m() == 1e-4 && pt.height.m() == 1e-4 && ps.horiz.m() == 1e-3 && ps.height.m() == 1e-3, "ProjectedTolerance sizes");
    nt("tolerance")
}

/// geodesic result checkers with the default bounds
fn checkers(c: &((f64, f64, f64), (f64, f64, f64), (f64, f64, f64, f64, f64))) -> R {
    let ((lon, lat, az1), (az2, s, junk), (m0, m1, m2, m3, m4)) = *c;
    let base = Geodesic { p1: (mklon(junk), mklat(lat)), alpha1: Azimuth::rad(az1), p2: (mklon(lon), mklat(lat)), alpha2: Azimuth::rad(az2), s: s * M };
    let ad = 1e-12;
    let mut g = base;
    g.p2 = (mklon(lon + m0 * ad), mklat(lat + m1 * ad));
    g.alpha2 = Azimuth::rad(az2 + m2 * ad);
    let dl = |a: geokit::cs::geodetic::Lon, b: geokit::cs::geodetic::Lon| adiff(a.angle().rad(), b.angle().rad());
    let sl = 4e-15;
    let w = all(&[
        within(dl(g.p2.0, base.p2.0), ad, sl),
        within((g.p2.1.angle().rad() - base.p2.1.angle().rad()).abs(), ad, sl),
        within(adiff(g.alpha2.angle().rad(), base.alpha2.angle().rad()), ad, sl),
    ]);
    if let Some(w) = w {
        for (x, y) in [(&g, &base), (&base, &g)] {
            let ok = panics(|| check_direct(x, y, &DirectErrors::default())).is_ok();
            ensure!(ok == w, "check_direct accepts = {ok}, expected {w}: lon {} lat {} azimuth {} times 1e-12", m0, m1, m2);
        }
    }
    let mut g = base;
    g.alpha1 = Azimuth::rad(az1 + m3 * ad);
    g.alpha2 = Azimuth::rad(az2 + m2 * ad);
    g.s = (s + m4 * 1e-4) * M;
    let w = all(&[
        within(adiff(g.alpha1.angle().rad(), base.alpha1.angle().rad()), ad, sl),
        within(adiff(g.alpha2.angle().rad(), base.alpha2.angle().rad()), ad, sl),
        within((g.s.m() - base.s.m()).abs(), 1e-4, 1e-15 * s.abs()),
    ]);
    if let Some(w) = w {
        for (x, y) in [(&g, &base), (&base, &g)] {
            let ok = panics(|| check_inverse(x, y, &InverseErrors::default())).is_ok();
            ensure!(ok == w, "check_inverse accepts = {ok}, expected {w}: azimuths {} {} times 1e-12, distance {} times 1e-4", m3, m2, m4);
        }
    }
    // identical results are always accepted
    ensure!(panics(|| check_direct(&base, &base, &DirectErrors::default())).is_ok(), "check_direct refuses identical results");
    ensure!(panics(|| check_inverse(&base, &base, &InverseErrors::default())).is_ok(), "check_inverse refuses identical results");
    nt("checker")
}

fn dy3(n: i32) -> BoxedStrategy<(i32, i32, i32)> {
    (-n..n, -n..n, -n..n).boxed()
}

pub fn property() -> Property {
    let _ = PI;
    let _: Option<LLH> = None;
    Property {
        id: "C07",
        rule: "every case compares two positions with a difference placed relative to the tolerance on each axis",
        assumptions: &[
            "differences closer to the tolerance than rounding (4e-15 rad, 1e-15 relative) are decided only in the exact dyadic facet",
            "the geodesic checkers' bounds are constructible only through Default (1e-12 rad, 1e-4 m)",
        ],
        facets: vec![
            facet("geodetic", 150_000, g, geodetic),
            facet("boundary", 150_000, || (dy3(1 << 20), (0..1000i32, 0..1000i32, 0..1000i32), (0..7u8, 0..7u8, 0..7u8)).boxed(), dyadic),
            facet("raw", 100_000, || (raw_kind(), dy3(80 * 1024), (0..1000i32, 0..1000i32, 0..1000i32), (0..8u8, 0..8u8, 0..8u8)).boxed(), raw),
            facet("axes-tolerance", 40_000, || (gax(), pax(), (logpos(-13.0, 1.0), logpos(-13.0, 1.0), logpos(-6.0, 3.0))).boxed(), axes_tol),
            facet("checkers", 40_000, || ((lon(), lat_within(1.5), az()), (az(), 0.0..2e7f64, lon()), (mult(), mult(), mult(), mult(), mult())).boxed(), checkers),
        ],
    }
}
