//! C20 transformations between reference systems
use super::c12::mkenh;
use crate::crsgen::*;
use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::oracle;
use geokit::transformations::{xyz::{CrsXYZTransformation, XYZIdentity}, CrsTransformation};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

/// A system with the shift of its datum to the reference.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Sys {
    pub crs: CrsSpec,
    pub shift: Shift,
}
impl Sys {
    /// tolerance in metres for interpreting or writing coordinates here
    pub fn tol(&self, lon: f64, lat: f64) -> f64 {
        let a = self.crs.datum.ell.ell().a;
        2.0 * self.crs.tol(lon, lat) + self.shift.second_order(1.2 * a)
    }
    pub fn mercator(&self) -> bool {
        matches!(&self.crs.kind, Kind::Proj(_, p) if !p.is_tm())
    }
}
/// raw system (central meridians follow the point)
pub fn raw_sys() -> BoxedStrategy<(RawCrs, Shift)> {
    (raw_crs(250.0), shift()).boxed()
}
/// make datums comparable in size: transformations between an Earth and a Moon sized datum leave
/// the domain of Earth heights
pub fn earthlike(d: &DatumSpec) -> DatumSpec {
    let mut d = d.clone();
    d.ell = match d.ell {
        EllSpec::Ainvf(a, f) if !(6.3e6..6.45e6).contains(&a) => EllSpec::Ainvf(6.378e6, f),
        EllSpec::Sphere(r) if !(6.3e6..6.45e6).contains(&r) => EllSpec::Sphere(6.371e6),
        e => e,
    };
    d
}
pub fn resolve(raw: &(RawCrs, Shift), lon: f64) -> Sys {
    let mut r = raw.0.clone();
    r.datum = earthlike(&r.datum);
    Sys { crs: r.resolve(lon), shift: raw.1.clone() }
}
pub fn to3d(s: &Sys) -> Sys {
    let mut s = s.clone();
    s.crs.kind = match s.crs.kind {
        Kind::Geog(GAx::En(a)) => Kind::Geog(GAx::Enu(a, 1)),
        Kind::Geog(GAx::Ne(a)) | Kind::Geog(GAx::Nw(a)) => Kind::Geog(GAx::Neu(a, 2)),
        Kind::Proj(PAx::En(h), p) => Kind::Proj(PAx::Enu(h, 0), p),
        k => k,
    };
    s
}
/// lon, lat, height of a physical point of `from` in `to`'s datum
pub fn model(from: &Sys, to: &Sys, p: [f64; 3]) -> [f64; 3] {
    let x = oracle::llh_to_xyz(&from.crs.datum.ell.ell(), p[0], p[1], p[2]);
    let y = to.shift.from_ref(from.shift.to_ref(x));
    let (l, f, h) = oracle::xyz_to_llh(&to.crs.datum.ell.ell(), y);
    [l, f, h]
}
pub fn tf<'a>(a: &Sys, b: &Sys) -> CrsXYZTransformation<'a> {
    transformation(a.crs.build(), b.crs.build(), a.shift.build(), b.shift.build())
}
pub fn clamp_lat(p: [f64; 3], merc: bool) -> [f64; 3] {
    if merc {
        [p[0], p[1].clamp(-1.5, 1.5), p[2]]
    } else {
        p
    }
}

fn forward(c: &(Sys, Sys, [f64; 3])) -> R {
    let (a, b, p) = c;
    let mut p = clamp_lat(*p, a.mercator() || b.mercator());
    if a.crs.dim() == 2 {
        p[2] = 0.0;
    }
    let src = a.crs.user(p[0], p[1], p[2]);
    let w = model(a, b, p);
    let mut got = vec![f64::NAN; b.crs.dim()];
    if let Err(e) = tf(a, b).fwd(&src, &mut got) {
        crate::fail!("{:?} to {:?}: {src:?} fails with {e:?}", a, b);
    }
    let e = b.crs.err(&got, w[0], w[1], w[2]);
    let tol = a.tol(p[0], p[1]) + b.tol(w[0], w[1]) + 1e-14 * p[2].abs();
    margin("fwd", e / tol, || format!("{c:?} off {e:e} tol {tol:e}"));
    ensure!(e <= tol, "{:?} to {:?}: {src:?} becomes {got:?}, expected {:?}, {e:e} m away (allowed {tol:e})", a, b, b.crs.user(w[0], w[1], w[2]));
    let shifted = a.shift != Shift::None || b.shift != Shift::None;
    match (shifted, a.crs.datum == b.crs.datum) {
        (false, true) => nt("same datum"),
        (false, false) => nt("other datum, no shift"),
        (true, _) if a.shift == b.shift => nt("same shift"),
        _ => nt("datum shift"),
    }
}

/// equal systems, no shift
fn identity(c: &(Sys, [f64; 3])) -> R {
    let (a, p) = c;
    let p = clamp_lat(*p, a.mercator());
    let src = a.crs.user(p[0], p[1], p[2]);
    let t = transformation(a.crs.build(), a.crs.build(), XYZIdentity, XYZIdentity);
    let mut got = vec![f64::NAN; src.len()];
    if let Err(e) = t.fwd(&src, &mut got) {
        crate::fail!("{:?} to itself: {src:?} fails with {e:?}", a.crs);
    }
    let h = if a.crs.dim() == 2 { 0.0 } else { p[2] };
    let e = a.crs.err(&got, p[0], p[1], h);
    let tol = 2.0 * a.crs.tol(p[0], p[1]);
    ensure!(e <= tol, "{:?} to itself: {src:?} becomes {got:?}, {e:e} m away", a.crs);
    nt(a.crs.name())
}

/// errors of projections are reported, not swallowed
fn errors(c: &(Sys, Sys, f64, f64, [f64; 3])) -> R {
    let (a, b, e, n, p) = c;
    let mut cls = "no projection";
    if let Kind::Proj(ax, ps) = &a.crs.kind {
        let s = ax.sizes();
        let src: Vec<f64> = [e / s[0], n / s[1], 0.0][..ax.dim()].to_vec();
        let datum = a.crs.datum.build();
        let un = ps.build().applied_to(datum.ellipsoid()).unproj(mkenh(e / s[0] * s[0], n / s[1] * s[1], 0.0));
        let geoc = CrsSpec { datum: a.crs.datum.clone(), kind: Kind::Geoc };
        let t = transformation(a.crs.build(), geoc.build(), XYZIdentity, XYZIdentity);
        let mut out = [f64::NAN; 3];
        let r = t.fwd(&src, &mut out);
        ensure!(un.is_err() == r.is_err(), "map coordinates ({e}, {n}): unprojecting with {ps:?} gives {un:?}, transforming gives {r:?}");
        let mut back = [f64::NAN; 3];
        let t2 = transformation(geoc.build(), a.crs.build(), XYZIdentity, XYZIdentity);
        let r = t2.bwd(&src, &mut back);
        ensure!(un.is_err() == r.is_err(), "map coordinates ({e}, {n}): unprojecting with {ps:?} gives {un:?}, transforming backward gives {r:?}");
        if r.is_ok() {
            ensure!(out.iter().chain(&back).all(|v| v.is_finite()), "map coordinates ({e}, {n}) with {ps:?} transform to {out:?} / {back:?}");
        }
        cls = if un.is_err() { "map coordinates refused" } else { "map coordinates accepted" };
    }
    if let Kind::Proj(ax, ps) = &b.crs.kind {
        let datum = b.crs.datum.build();
        let x = oracle::llh_to_xyz(&b.crs.datum.ell.ell(), p[0], p[1], 0.0);
        let pr = ps.build().applied_to(datum.ellipsoid()).proj(datum.xyz_to_llh(mkxyz(x)));
        let geoc = CrsSpec { datum: b.crs.datum.clone(), kind: Kind::Geoc };
        let t = transformation(geoc.build(), b.crs.build(), XYZIdentity, XYZIdentity);
        let mut out = vec![f64::NAN; ax.dim()];
        let r = t.fwd(&x, &mut out);
        ensure!(pr.is_err() == r.is_err(), "position {x:?}: projecting with {ps:?} gives {pr:?}, transforming gives {r:?}");
        if r.is_ok() {
            ensure!(std::f64::consts::FRAC_PI_2 - p[1].abs() < 4e-15 || out.iter().all(|v| v.is_finite()), "position {x:?} with {ps:?} transforms to {out:?}");
        }
        if pr.is_err() {
            cls = "position refused";
        }
    }
    if cls == "no projection" {
        triv(cls)
    } else {
        nt(cls)
    }
}

pub fn point() -> BoxedStrategy<[f64; 3]> {
    (lon(), lat(), height_mild()).prop_map(|(a, b, c)| [a, b, c]).boxed()
}
fn err_point() -> BoxedStrategy<[f64; 3]> {
    prop_oneof![
        2 => point(),
        1 => (lon(), any::<bool>()).prop_map(|(l, s)| [l, if s { std::f64::consts::FRAC_PI_2 } else { -std::f64::consts::FRAC_PI_2 }, 0.0]),
    ]
    .boxed()
}
/// sometimes the same datum or shift on both sides
pub fn related(a: &(RawCrs, Shift), b: &(RawCrs, Shift), rel: u8) -> (RawCrs, Shift) {
    let mut b = b.clone();
    if rel & 1 != 0 {
        b.0.datum = a.0.datum.clone();
    }
    if rel & 2 != 0 {
        b.1 = a.1.clone();
    }
    b
}

pub fn property() -> Property {
    Property {
        id: "C20",
        rule: "every (source, destination, position) counts; error cases when a projection is involved",
        assumptions: &[
            "tolerance: twice that of each side's projection or geodetic conversion (1e-5 m), plus the second-order terms of seven-parameter shifts, whose reverse is the published first-order formula",
            "2D sources carry height 0; Earth-sized datums; latitudes up to 85.9 degrees when a Mercator projection is involved; transverse Mercator within 3.5 degrees of the central meridian",
        ],
        facets: vec![
            facet("forward", 100_000, || (raw_sys(), raw_sys(), 0..6u8, point()).prop_map(|(a, b, rel, p)| {
                let b = related(&a, &b, rel);
                (resolve(&a, p[0]), resolve(&b, p[0]), p)
            }).boxed(), forward),
            facet("identity", 40_000, || (raw_sys(), point()).prop_map(|(a, p)| (resolve(&a, p[0]), p)).boxed(), identity),
            facet("errors", 60_000, || (raw_sys(), raw_sys(), prop_oneof![2 => metres(), 2 => logu(6.0, 12.0)], prop_oneof![2 => metres(), 1 => logu(6.0, 12.0)], err_point())
                .prop_map(|(a, b, e, n, p)| (resolve(&a, p[0]), resolve(&b, p[0]), e, n, p)).boxed(), errors),
        ],
    }
}
