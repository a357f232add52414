//! C03 DMS decomposition and text forms
use super::c01::any_angle;
use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use geokit::cs::azimuth::Azimuth;
use geokit::cs::cartesian::{geocentric::XYZ, projected::ENH};
use geokit::cs::geodetic::{Lat, Lon};
use geokit::cs::s1::Interval;
use geokit::geodesy::geodesics::Geodesic;
use geokit::geodesy::{Ellipsoid, GeodeticDatum, PrimeMeridian};
use geokit::quantities::angle::Angle;
use geokit::units::angle::RAD;
use geokit::units::length::M;
use proptest::prelude::*;
use std::f64::consts::{FRAC_PI_2, PI};

/// Every number written in a text, in order (signs and exponents included; "inf" counts).
pub fn numbers(s: &str) -> Vec<f64> {
    let b: Vec<char> = s.chars().collect();
    let mut out = vec![];
    let mut i = 0;
    while i < b.len() {
        let prev_word = i > 0 && (b[i - 1].is_alphanumeric() || b[i - 1] == '_');
        let neg = b[i] == '-' && i + 1 < b.len();
        let st = i;
        let j = if neg { i + 1 } else { i };
        if !prev_word && b[j].is_ascii_digit() {
            i = j;
            while i < b.len()
                && (b[i].is_ascii_digit()
                    || b[i] == '.'
                    || (matches!(b[i], 'e' | 'E') && i + 1 < b.len() && (b[i + 1].is_ascii_digit() || b[i + 1] == '-'))
                    || (b[i] == '-' && matches!(b[i - 1], 'e' | 'E')))
            {
                i += 1;
            }
            let t: String = b[st..i].iter().collect();
            if let Ok(v) = t.trim_end_matches('.').parse() {
                out.push(v);
            }
            continue;
        }
        if !prev_word && b[j..].starts_with(&['i', 'n', 'f']) && b.get(j + 3).is_none_or(|c| !c.is_alphanumeric()) {
            out.push(if neg { f64::NEG_INFINITY } else { f64::INFINITY });
            i = j + 3;
            continue;
        }
        i += 1;
    }
    out
}
fn dms_value(d: f64, m: f64, s: f64) -> f64 {
    let v = d.abs() + m / 60.0 + s / 3600.0;
    if d.is_sign_negative() {
        -v
    } else {
        v
    }
}
const SEC_TOL: f64 = 1e-6 / 3600.0 * D2R;

fn tol(v: f64) -> f64 {
    SEC_TOL + 4e-15 * v.abs()
}

fn dms_angle() -> BoxedStrategy<f64> {
    prop_oneof![
        2 => any_angle(),
        // whole minutes / seconds with tiny offsets (arc seconds)
        4 => (any::<bool>(), 0..400i32, 0..60i32, 0..=60i32, prop_oneof![Just(0.0), logu(-12.0, -0.5)]).prop_map(|(n, d, m, s, t)| {
            let v = (d as f64 + m as f64 / 60.0 + (s as f64 + t) / 3600.0) * D2R;
            if n { -v } else { v }
        }),
        3 => (any::<bool>(), 0..180i32, 0..60i32, 0.0..60.0f64).prop_map(|(n, d, m, s)| {
            let v = (d as f64 + m as f64 / 60.0 + s / 3600.0) * D2R;
            if n { -v } else { v }
        }),
        2 => (any::<bool>(), 0..181i32, 0..60i32, -3i64..4).prop_map(|(n, d, m, u)| {
            let v = ulps((d as f64 + m as f64 / 60.0) * D2R, u);
            if n { -v } else { v }
        }),
        1 => logu(-14.0, -4.0),
    ]
    .boxed()
}

fn decompose(v: &f64) -> R {
    let v = *v;
    let a = Angle::new(v, RAD);
    let x = a.dms();
    let (d, m, s) = (x.deg(), x.min(), x.sec());
    ensure!(d.fract() == 0.0, "{v} rad: degrees part {d} is not whole");
    ensure!(m.fract() == 0.0 && (0.0..=59.0).contains(&m), "{v} rad: minutes part {m} is not a whole number in 0..59");
    ensure!((0.0..60.0).contains(&s), "{v} rad: seconds part {s} outside [0, 60)");
    ensure!(v == 0.0 || d.is_sign_negative() == (v < 0.0), "{v} rad: degrees part {d} does not carry the sign");
    let back = dms_value(d, m, s) * D2R;
    ensure!((back - v).abs() <= tol(v), "{v} rad decomposes into {d}d {m}m {s}s = {back} rad");
    // printed form
    let txt = format!("{x}");
    let n = numbers(&txt);
    ensure!(n.len() == 3, "DMS text {txt:?} does not hold three numbers");
    let back = dms_value(n[0], n[1], n[2]) * D2R;
    ensure!((back - v).abs() <= tol(v), "DMS text {txt:?} of {v} rad denotes {back} rad");
    ensure!(n[0].fract() == 0.0 && n[1].fract() == 0.0 && n[1] < 60.0 && n[2] < 60.0, "DMS text {txt:?} of {v} rad has sixty minutes or seconds");
    // rebuild through the constructors
    let l = Lon::new(a);
    let x = l.angle().dms();
    if x.deg() > -180.0 && x.deg() <= 180.0 {
        let r = Lon::dms(x.deg(), x.min(), x.sec());
        ensure!(adiff(r.angle().rad(), l.angle().rad()) <= tol(1.0), "Lon::dms of {l} gives {r}");
        let z = Azimuth::new(l.angle());
        let x = z.angle().dms();
        if x.deg() > -180.0 {
            let r = Azimuth::dms(x.deg(), x.min(), x.sec());
            ensure!(adiff(r.angle().rad(), z.angle().rad()) <= tol(1.0), "Azimuth::dms of {z} gives {r}");
        }
    }
    let p = Lat::new(a);
    let x = p.angle().dms();
    let r = Lat::dms(x.deg(), x.min(), x.sec());
    ensure!((r.angle().rad() - p.angle().rad()).abs() <= tol(1.0), "Lat::dms of {p} gives {r}");
    if v < 0.0 && v > -D2R {
        nt("negative below one degree")
    } else if (v.abs() / D2R * 60.0 - (v.abs() / D2R * 60.0).round()).abs() < 1e-6 {
        nt("near a whole minute")
    } else {
        nt("general")
    }
}

fn compose(c: &(bool, i32, i32, f64)) -> R {
    let (neg, d, m, s) = *c;
    let sd = if neg { -(d as f64) } else { d as f64 };
    let want = dms_value(sd, m as f64, s) * D2R;
    if sd > -180.0 && sd <= 180.0 {
        let l = Lon::dms(sd, m as f64, s).angle().rad();
        ensure!((-PI..=PI).contains(&l) && adiff(l, want) <= 1e-14, "Lon::dms({sd}, {m}, {s}) = {l} rad, expected {want}");
        let z = Azimuth::dms(sd, m as f64, s).angle().rad();
        ensure!(z > -PI && z <= PI && adiff(z, want) <= 1e-14, "Azimuth::dms({sd}, {m}, {s}) = {z} rad, expected {want}");
    }
    if sd.abs() <= 90.0 {
        let p = Lat::dms(sd, m as f64, s).angle().rad();
        let w = want.clamp(-FRAC_PI_2, FRAC_PI_2);
        ensure!((p - w).abs() <= 1e-14, "Lat::dms({sd}, {m}, {s}) = {p} rad, expected {w}");
    }
    if neg {
        nt("negative")
    } else {
        nt("positive")
    }
}

fn text(v: &f64) -> R {
    let v = *v;
    let a = Angle::new(v, RAD);
    let rel = 1e-14 * v.abs() + 1e-300;
    let one = |t: String| -> Result<f64, Bad> {
        let n = numbers(&t);
        ensure!(n.len() == 1, "{t:?} should hold one number");
        Ok(n[0])
    };
    let x = one(format!("{a}"))?;
    ensure!((x - v).abs() <= rel, "radian text {x} of {v}");
    let x = one(format!("{a:e}"))?;
    ensure!((x - v).abs() <= rel, "exponent radian text {x} of {v}");
    let x = one(format!("{}", a.deg()))?;
    ensure!((x * D2R - v).abs() <= rel, "degree text {x} of {v} rad");
    let x = one(format!("{:e}", a.deg()))?;
    ensure!((x * D2R - v).abs() <= rel, "exponent degree text {x} of {v} rad");
    let l = Lon::new(a);
    let x = one(format!("{l}"))?;
    ensure!((x * D2R - l.angle().rad()).abs() <= 1e-14, "longitude text {x} of {} rad", l.angle().rad());
    let p = Lat::new(a);
    let x = one(format!("{p}"))?;
    ensure!((x * D2R - p.angle().rad()).abs() <= 1e-14, "latitude text {x} of {} rad", p.angle().rad());
    let z = Azimuth::new(a);
    let n = numbers(&format!("{z}"));
    ensure!(n.len() == 3, "azimuth text {z}");
    ensure!((dms_value(n[0], n[1], n[2]) * D2R - z.angle().rad()).abs() <= tol(1.0), "azimuth text {z} of {} rad", z.angle().rad());
    let len = v * M;
    let x = one(format!("{len}"))?;
    ensure!((x - v).abs() <= rel, "length text {x} of {v}");
    nt("text")
}

type Comp = ((f64, f64, f64), (f64, f64, f64), (f64, f64, f64));
fn expect(what: &str, txt: &str, want: &[f64], tols: &[f64]) -> Result<(), Bad> {
    let n = numbers(txt);
    ensure!(n.len() == want.len(), "{what}: {txt:?} should hold {} numbers", want.len());
    for (i, (g, w)) in n.iter().zip(want).enumerate() {
        ensure!(g == w || (g - w).abs() <= tols[i], "{what}: number {} of {txt:?} is {g}, expected {w}", i + 1);
    }
    Ok(())
}
fn compound(c: &Comp) -> R {
    let ((lon1, lat1, az1), (lon2, lat2, az2), (h, s, a)) = *c;
    let (l1, p1, z1) = (mklon(lon1), mklat(lat1), Azimuth::rad(az1));
    let (l2, p2, z2) = (mklon(lon2), mklat(lat2), Azimuth::rad(az2));
    let deg = |x: f64| x / D2R;
    let dt = 1e-12;
    expect("LLH", &format!("{}", mkllh(lon1, lat1, h)), &[deg(lon1), deg(lat1), h], &[dt, dt, 1e-14 * h.abs()])?;
    let e = |x: f64| 1e-14 * x.abs();
    expect("XYZ", &format!("{}", XYZ { x: h * M, y: s * M, z: a * M }), &[h, s, a], &[e(h), e(s), e(a)])?;
    expect("ENH", &format!("{}", ENH { easting: h * M, northing: s * M, height: a * M }), &[h, s, a], &[e(h), e(s), e(a)])?;
    expect("Interval", &format!("{}", Interval::new(Angle::new(lon1 * 0.999, RAD), Angle::new(lon2 * 0.999, RAD))), &[lon1 * 0.999, lon2 * 0.999], &[4e-15, 4e-15])?;
    let g = Geodesic { p1: (l1, p1), alpha1: z1, p2: (l2, p2), alpha2: z2, s: s * M };
    let n = numbers(&format!("{g}"));
    ensure!(n.len() == 12, "geodesic text {g} should hold 12 numbers");
    let at = 1e-6 / 3600.0 + 1e-12;
    for (k, want, what, t) in [
        (n[0], deg(lon1), "start longitude", dt),
        (n[1], deg(lat1), "start latitude", dt),
        (dms_value(n[2], n[3], n[4]), deg(z1.angle().rad()), "start azimuth", at),
        (n[5], deg(lon2), "end longitude", dt),
        (n[6], deg(lat2), "end latitude", dt),
        (dms_value(n[7], n[8], n[9]), deg(z2.angle().rad()), "end azimuth", at),
        (n[11], s, "length", e(s)),
    ] {
        ensure!((k - want).abs() <= t, "geodesic text {:?}: {what} reads {k}, expected {want}", format!("{g}"));
    }
    ensure!(adiff(n[10], lon2 - lon1) <= 1e-14, "geodesic text {g}: longitude difference {}", n[10]);
    // geodetic objects
    let pm = PrimeMeridian::new("Alpha", l1);
    let t = format!("{pm}");
    let n = numbers(&t);
    ensure!(n.len() == 3 && t.contains("Alpha"), "prime meridian text {t:?}");
    ensure!(adiff(dms_value(n[0], n[1], n[2]) * D2R, l1.angle().rad()) <= at * D2R, "prime meridian text {t:?} of {} deg", deg(lon1));
    let (aa, bb) = (6.4e6 + s.abs().min(1e6), 6.3e6 + h.abs().min(1e5) * 0.5);
    let ell = Ellipsoid::from_ab("Beta", aa * M, bb * M);
    let t = format!("{ell}");
    let invf = aa / (aa - bb);
    expect("Ellipsoid", &t, &[aa, bb, invf], &[1e-8, 1e-8, 1e-9 * invf])?;
    ensure!(t.contains("Beta"), "ellipsoid text {t:?}");
    let dtm = GeodeticDatum::new("Gamma", ell, pm);
    let t = format!("{dtm}");
    let n = numbers(&t);
    ensure!(n.len() == 6 && t.contains("Gamma") && t.contains("Beta") && t.contains("Alpha"), "datum text {t:?}");
    ensure!((n[0] - aa).abs() < 1e-8 && (n[1] - bb).abs() < 1e-8, "datum text {t:?}");
    ensure!(adiff(dms_value(n[3], n[4], n[5]) * D2R, l1.angle().rad()) <= at * D2R, "datum text {t:?}");
    nt("compound")
}

pub fn property() -> Property {
    Property {
        id: "C03",
        rule: "every case decomposes or prints and reads back at least one angle",
        assumptions: &[
            "display precision: 1e-6 arc second for DMS, full double precision for decimal forms",
            "debug assertions of the dms constructors define their domain: degrees in (-180, 180] (latitude [-90, 90]), minutes 0..59, seconds [0, 60)",
        ],
        facets: vec![
            facet("decompose", 200_000, dms_angle, decompose),
            facet("compose", 80_000, || (any::<bool>(), prop_oneof![3 => 0..=180i32, 1 => Just(0), 1 => Just(90), 1 => Just(179)], 0..60i32, prop_oneof![
                2 => 0.0..60.0f64, 1 => (0..60i32).prop_map(|s| s as f64), 1 => Just(59.99999999999999)]).boxed(), compose),
            facet("text", 60_000, dms_angle, text),
            facet("compound", 40_000, || ((lon(), lat(), az()), (lon(), lat(), az()), (metres(), metres(), metres())).boxed(), compound),
        ],
    }
}
