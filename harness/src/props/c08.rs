//! C08 ellipsoid parameters
use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use geokit::geodesy::Ellipsoid;
use geokit::units::length::{FT, M};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::f64::consts::FRAC_PI_2;

/// very general valid shapes
fn shape() -> BoxedStrategy<EllSpec> {
    prop_oneof![
        4 => ell(3.0),
        2 => (logpos(-2.0, 9.0), 1.05..20.0f64).prop_map(|(a, f)| EllSpec::Ainvf(a, f)),
        1 => (logpos(-2.0, 9.0), logpos(0.03, 9.0)).prop_map(|(a, f)| EllSpec::Ainvf(a, f)),
        2 => (logpos(-2.0, 9.0), 0.05..1.0f64).prop_map(|(a, r)| EllSpec::Ab(a, a * r)),
        1 => (logpos(-2.0, 9.0), logpos(-9.0, -1.0)).prop_map(|(a, r)| EllSpec::Ab(a, a * (1.0 - r))),
        1 => logpos(-2.0, 9.0).prop_map(EllSpec::Sphere),
    ]
    .boxed()
}

fn check(c: &(EllSpec, f64)) -> R {
    let (spec, lat) = c;
    let e = spec.build();
    let w = spec.ell_pub();
    let amp = w.a / w.b;
    let at = |g: f64, want: f64, tol: f64, what: &str| -> Result<(), Bad> {
        ensure!(g == want || (g - want).abs() <= tol, "{spec:?}: {what} = {g:e}, expected {want:e}");
        Ok(())
    };
    // catalogue values carry the table's decimal precision
    let (la, ra) = if let EllSpec::Cat(_) = spec { (1e-5, 1e-8) } else { (0.0, 0.0) };
    at(e.a().m(), w.a, 2e-15 * w.a + la, "a")?;
    at(e.b().m(), w.b, 2e-15 * w.a + la, "b")?;
    let (a, b) = (e.a().m(), e.b().m());
    at(e.a_sq(), a * a, 2e-15 * a * a, "a_sq")?;
    at(e.b_sq(), b * b, 2e-15 * b * b, "b_sq")?;
    at(e.f(), w.f, 2e-15 + ra * w.f, "f")?;
    at(e.n(), w.n(), 2e-15 + ra * w.f, "n")?;
    at(e.e_sq(), w.e2, 4e-15 + ra * w.e2, "e_sq")?;
    at(e.e() * e.e(), e.e_sq(), 8e-15 * e.e_sq(), "e squared")?;
    let ep2 = w.e2 / (1.0 - w.e2);
    at(e.e_prime_sq(), ep2, 8e-15 * (1.0 + ep2) * amp * amp + ra * ep2, "e_prime_sq")?;
    at(e.e_prime() * e.e_prime(), e.e_prime_sq(), 8e-15 * e.e_prime_sq(), "e_prime squared")?;
    ensure!(e.e() >= 0.0 && e.e_prime() >= 0.0, "{spec:?}: negative eccentricity");
    // defining identities between the reported values
    at(e.f() * a, a - b, 2e-15 * a + la, "f * a versus a - b")?;
    at((1.0 - e.f()) * a, b, 2e-15 * a + la, "(1 - f) a versus b")?;
    at((1.0 - e.e_sq()) * (1.0 + e.e_prime_sq()), 1.0, 1e-14 * amp * amp, "(1 - e2)(1 + e'2)")?;
    let sphere = w.a == w.b;
    ensure!(e.is_spherical() == sphere, "{spec:?}: is_spherical = {}", e.is_spherical());
    if sphere {
        ensure!(e.invf().is_infinite() && e.f() == 0.0 && e.e_sq() == 0.0, "{spec:?}: invf of a sphere = {}", e.invf());
    } else {
        at(e.invf(), 1.0 / w.f, (1e-14 + ra + 2e-15 / w.f) / w.f, "invf")?;
        at(e.invf() * e.f(), 1.0, 1e-15, "invf * f")?;
    }
    // latitudes and radii from the geometry of the ellipse
    let (s, c) = lat.sin_cos();
    let p = mklat(*lat);
    let (ba, bb) = (w.b / w.a, w.b * w.b / (w.a * w.a));
    let lt = 1e-15 * 8.0 * amp * amp + ra * 1e-2;
    let beta = (ba * s).atan2(c);
    at(e.reduced_latitude(p).rad(), beta, lt, "reduced latitude")?;
    let psi = (bb * s).atan2(c);
    at(e.geocentric_latitude(p).rad(), psi, lt, "geocentric latitude")?;
    let ww = (w.a * c).hypot(w.b * s);
    let n = w.a * (w.a / ww);
    let m = w.a * (w.a / ww) * (w.b / ww) * (w.b / ww);
    let rt = 8e-15 * amp * amp + 2e-9 * ra / 1e-8 * w.f * 10.0;
    at(e.prime_vertical_radius(p).m(), n, rt * n + la, "prime vertical radius")?;
    at(e.prime_meridional_radius(p).m(), m, 3.0 * rt * m + la, "meridional radius")?;
    at(e.conformal_sphere_radius(p).m(), (m * n).sqrt(), 3.0 * rt * n.max(m) + la, "conformal sphere radius")?;
    if sphere {
        nt("sphere")
    } else if w.f > 0.02 {
        nt("strongly flattened")
    } else {
        nt("Earth-like")
    }
}

fn constructors(c: &(f64, f64, bool)) -> R {
    let (a, invf, feet) = *c;
    let e = if feet { Ellipsoid::from_ainvf("x", (a / 0.3048) * FT, invf) } else { Ellipsoid::from_ainvf("x", a * M, invf) };
    let b = a * (1.0 - 1.0 / invf);
    let g = if feet { Ellipsoid::from_ab("y", (a / 0.3048) * FT, (b / 0.3048) * FT) } else { Ellipsoid::from_ab("y", a * M, b * M) };
    ensure!(e.name() == "x" && g.name() == "y", "names {} {}", e.name(), g.name());
    let r = 1e-15 * 16.0;
    ensure!((e.a().m() - g.a().m()).abs() <= r * a, "a differs: {} {}", e.a(), g.a());
    ensure!((e.b().m() - g.b().m()).abs() <= r * a, "b differs: {} {}", e.b(), g.b());
    ensure!((e.f() - g.f()).abs() <= r, "f differs: {} {}", e.f(), g.f());
    ensure!((e.e_sq() - g.e_sq()).abs() <= 2.0 * r, "e_sq differs: {} {}", e.e_sq(), g.e_sq());
    ensure!((e.n() - g.n()).abs() <= r, "n differs: {} {}", e.n(), g.n());
    ensure!(e.is_spherical() == g.is_spherical(), "is_spherical differs for a {a} invf {invf}");
    nt("both constructors")
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub enum Build {
    Ab(f64, f64),
    Ainvf(f64, f64),
}
fn refuse(c: &Build) -> R {
    let (ok, built) = match *c {
        Build::Ab(a, b) => (b > 0.0 && a >= b, panics(|| Ellipsoid::from_ab("x", a * M, b * M))),
        Build::Ainvf(a, f) => (a > 0.0 && f > 1.0, panics(|| Ellipsoid::from_ainvf("x", a * M, f))),
    };
    ensure!(built.is_ok() == ok, "{c:?} {}", if ok { "was refused" } else { "was accepted" });
    if ok {
        triv("valid")
    } else {
        nt("invalid")
    }
}
fn maybe_bad() -> BoxedStrategy<f64> {
    prop_oneof![2 => Just(0.0), 2 => logu(-3.0, 8.0), 1 => -1.0..2.0f64, 1 => proptest::sample::select(vec![1.0, -1.0, 6378137.0, -6378137.0, 0.5, 1.0000001, 0.9999999])].boxed()
}

pub fn property() -> Property {
    Property {
        id: "C08",
        rule: "every shape with a latitude counts; refusals count when the axes or flattening are impossible",
        assumptions: &[
            "inverse flattening at least 1.05 (generated shapes), 1e9 at most; tolerances scale with (a/b)^2",
            "from_ainvf with an infinite inverse flattening is not claimed",
        ],
        facets: vec![
            facet("shape", 150_000, || (shape(), prop_oneof![5 => lat(), 1 => Just(FRAC_PI_2)]).boxed(), check),
            facet("constructors", 60_000, || (logpos(-1.0, 9.0), prop_oneof![1.05..400.0f64, logpos(0.03, 7.0)], any::<bool>()).boxed(), constructors),
            facet("refusal", 40_000, || prop_oneof![
                (maybe_bad(), maybe_bad()).prop_map(|(a, b)| Build::Ab(a, b)),
                (logpos(0.0, 7.0), -1e-6..1e-6f64).prop_map(|(a, d)| Build::Ab(a, a * (1.0 + d))),
                (maybe_bad(), maybe_bad()).prop_map(|(a, b)| Build::Ainvf(a, b)),
            ].boxed(), refuse),
        ],
    }
}
