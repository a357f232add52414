//! Coordinate systems, projections, datum shifts and reference systems as generated specs,
//! each with the object under test (`build*`) and an independent interpretation.
use crate::gen::*;
use crate::oracle::{self, Ell, V3};
use geokit::crs::{geocentric::GeocentricCrs, geographic::GeographicCrs, projected::ProjectedCrs, Crs};
use geokit::cs::cartesian::{geocentric::{GeocentricAxes, XYZ}, projected::ProjectedAxes};
use geokit::cs::geodetic::GeodeticAxes;
use geokit::projections::ProjectionSpec;
use geokit::transformations::xyz::{CrsXYZTransformation, XYZTransformation};
use geokit::units::angle::{AngleUnit, DEG, GRAD, RAD, SEC};
use geokit::units::length::{LengthUnit, FT, M, US_FT};
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::f64::consts::PI;

pub const N_ANG: u8 = 6;
pub fn ang_unit(i: u8) -> AngleUnit {
    [RAD, DEG, GRAD, SEC, AngleUnit(PI, 10_800.0), AngleUnit(PI, 3200.0)][i as usize]
}
/// radians per unit, by definition
pub fn ang_size(i: u8) -> f64 {
    [1.0, PI / 180.0, PI / 200.0, PI / 648_000.0, PI / 10_800.0, PI / 3200.0][i as usize]
}
pub const N_LEN: u8 = 6;
pub fn len_unit(i: u8) -> LengthUnit {
    [M, FT, US_FT, LengthUnit(1000.0, 1.0), LengthUnit(1852.0, 1.0), LengthUnit(1.0, 100.0)][i as usize]
}
pub fn len_size(i: u8) -> f64 {
    [1.0, 0.3048, 1200.0 / 3937.0, 1000.0, 1852.0, 0.01][i as usize]
}
pub fn angu() -> BoxedStrategy<u8> {
    prop_oneof![3 => Just(1u8), 4 => 0..N_ANG].boxed()
}
pub fn lenu() -> BoxedStrategy<u8> {
    prop_oneof![2 => Just(0u8), 4 => 0..N_LEN].boxed()
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum GAx {
    Enu(u8, u8),
    Neu(u8, u8),
    En(u8),
    Ne(u8),
    Nw(u8),
}
impl GAx {
    pub fn build(&self) -> GeodeticAxes {
        match *self {
            GAx::Enu(a, l) => GeodeticAxes::EastNorthUp { angle_unit: ang_unit(a), height_unit: len_unit(l) },
            GAx::Neu(a, l) => GeodeticAxes::NorthEastUp { angle_unit: ang_unit(a), height_unit: len_unit(l) },
            GAx::En(a) => GeodeticAxes::EastNorth { angle_unit: ang_unit(a) },
            GAx::Ne(a) => GeodeticAxes::NorthEast { angle_unit: ang_unit(a) },
            GAx::Nw(a) => GeodeticAxes::NorthWest { angle_unit: ang_unit(a) },
        }
    }
    pub fn dim(&self) -> usize {
        match self {
            GAx::Enu(..) | GAx::Neu(..) => 3,
            _ => 2,
        }
    }
    pub fn ang(&self) -> f64 {
        match *self {
            GAx::Enu(a, _) | GAx::Neu(a, _) | GAx::En(a) | GAx::Ne(a) | GAx::Nw(a) => ang_size(a),
        }
    }
    pub fn len(&self) -> f64 {
        match *self {
            GAx::Enu(_, l) | GAx::Neu(_, l) => len_size(l),
            _ => 1.0,
        }
    }
    pub fn lon_ix(&self) -> usize {
        match self {
            GAx::Enu(..) | GAx::En(..) => 0,
            _ => 1,
        }
    }
    pub fn lat_ix(&self) -> usize {
        1 - self.lon_ix()
    }
    pub fn lon_sign(&self) -> f64 {
        if let GAx::Nw(_) = self {
            -1.0
        } else {
            1.0
        }
    }
    /// radians / metres to user coordinates
    pub fn to_user(&self, lon: f64, lat: f64, h: f64) -> Vec<f64> {
        let mut v = vec![0.0; self.dim()];
        v[self.lon_ix()] = self.lon_sign() * lon / self.ang();
        v[self.lat_ix()] = lat / self.ang();
        if self.dim() == 3 {
            v[2] = h / self.len();
        }
        v
    }
    pub fn from_user(&self, v: &[f64]) -> (f64, f64, f64) {
        (
            self.lon_sign() * v[self.lon_ix()] * self.ang(),
            v[self.lat_ix()] * self.ang(),
            if self.dim() == 3 { v[2] * self.len() } else { 0.0 },
        )
    }
}
pub fn gax() -> BoxedStrategy<GAx> {
    (0..5u8, angu(), lenu())
        .prop_map(|(k, a, l)| match k {
            0 => GAx::Enu(a, l),
            1 => GAx::Neu(a, l),
            2 => GAx::En(a),
            3 => GAx::Ne(a),
            _ => GAx::Nw(a),
        })
        .boxed()
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum PAx {
    Enu(u8, u8),
    En(u8),
}
impl PAx {
    pub fn build(&self) -> ProjectedAxes {
        match *self {
            PAx::Enu(h, v) => ProjectedAxes::EastNorthUp { horiz_unit: len_unit(h), height_unit: len_unit(v) },
            PAx::En(h) => ProjectedAxes::EastNorth { horiz_unit: len_unit(h) },
        }
    }
    pub fn dim(&self) -> usize {
        match self {
            PAx::Enu(..) => 3,
            PAx::En(..) => 2,
        }
    }
    pub fn sizes(&self) -> [f64; 3] {
        match *self {
            PAx::Enu(h, v) => [len_size(h), len_size(h), len_size(v)],
            PAx::En(h) => [len_size(h), len_size(h), 1.0],
        }
    }
}
pub fn pax() -> BoxedStrategy<PAx> {
    (any::<bool>(), lenu(), lenu())
        .prop_map(|(d, h, v)| if d { PAx::Enu(h, v) } else { PAx::En(h) })
        .boxed()
}

// ------------------------------------------------------------------ projections

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum ProjSpec {
    Merc1 { lon0: f64, k0: f64, fe: f64, fnn: f64 },
    Merc2 { lon0: f64, lat0: f64, fe: f64, fnn: f64 },
    UtmN(u8),
    UtmS(u8),
    Tm { lon0: f64, lat0: f64, k0: f64, fe: f64, fnn: f64 },
    Web { lon0: f64, lat0: f64, fe: f64, fnn: f64 },
}
pub fn utm_lon0(zone: u8) -> f64 {
    (6.0 * zone as f64 - 183.0) * D2R
}
impl ProjSpec {
    pub fn build(&self) -> ProjectionSpec {
        match *self {
            ProjSpec::Merc1 { lon0, k0, fe, fnn } => ProjectionSpec::Mercator1SP {
                lon0: mklon(lon0), k0, false_easting: fe * M, false_northing: fnn * M },
            ProjSpec::Merc2 { lon0, lat0, fe, fnn } => ProjectionSpec::Mercator2SP {
                lon0: mklon(lon0), lat0: mklat(lat0), false_easting: fe * M, false_northing: fnn * M },
            ProjSpec::UtmN(zone) => ProjectionSpec::UTMNorth { zone },
            ProjSpec::UtmS(zone) => ProjectionSpec::UTMSouth { zone },
            ProjSpec::Tm { lon0, lat0, k0, fe, fnn } => ProjectionSpec::TransverseMercator {
                lon0: mklon(lon0), lat0: mklat(lat0), k0, false_easting: fe * M, false_northing: fnn * M },
            ProjSpec::Web { lon0, lat0, fe, fnn } => ProjectionSpec::WebMercator {
                lon0: mklon(lon0), lat0: mklat(lat0), false_easting: fe * M, false_northing: fnn * M },
        }
    }
    pub fn lon0(&self) -> f64 {
        match *self {
            ProjSpec::Merc1 { lon0, .. } | ProjSpec::Merc2 { lon0, .. } | ProjSpec::Tm { lon0, .. } | ProjSpec::Web { lon0, .. } => lon0,
            ProjSpec::UtmN(z) | ProjSpec::UtmS(z) => utm_lon0(z),
        }
    }
    pub fn falses(&self) -> (f64, f64) {
        match *self {
            ProjSpec::Merc1 { fe, fnn, .. } | ProjSpec::Merc2 { fe, fnn, .. } | ProjSpec::Tm { fe, fnn, .. } | ProjSpec::Web { fe, fnn, .. } => (fe, fnn),
            ProjSpec::UtmN(_) => (5e5, 0.0),
            ProjSpec::UtmS(_) => (5e5, 1e7),
        }
    }
    pub fn is_tm(&self) -> bool {
        matches!(self, ProjSpec::UtmN(_) | ProjSpec::UtmS(_) | ProjSpec::Tm { .. })
    }
    pub fn k0(&self, ell: &Ell) -> f64 {
        match *self {
            ProjSpec::Merc1 { k0, .. } | ProjSpec::Tm { k0, .. } => k0,
            ProjSpec::Merc2 { lat0, .. } => lat0.cos() / (1.0 - ell.e2 * lat0.sin().powi(2)).sqrt(),
            ProjSpec::UtmN(_) | ProjSpec::UtmS(_) => 0.9996,
            ProjSpec::Web { .. } => 1.0,
        }
    }
    pub fn name(&self) -> &'static str {
        match self {
            ProjSpec::Merc1 { .. } => "mercator 1SP",
            ProjSpec::Merc2 { .. } => "mercator 2SP",
            ProjSpec::UtmN(_) => "UTM north",
            ProjSpec::UtmS(_) => "UTM south",
            ProjSpec::Tm { .. } => "transverse mercator",
            ProjSpec::Web { .. } => "web mercator",
        }
    }
    /// Exact easting and northing of a position away from the poles (Mercator family).
    pub fn exact(&self, ell: &Ell, lon: f64, lat: f64) -> (f64, f64) {
        let dl = oracle::norm_lon(lon - self.lon0());
        let (fe, fnn) = self.falses();
        let k0 = self.k0(ell);
        match *self {
            ProjSpec::Merc1 { .. } | ProjSpec::Merc2 { .. } => {
                (fe + k0 * ell.a * dl, fnn + k0 * ell.a * oracle::isometric(ell, lat))
            }
            ProjSpec::Web { .. } => (fe + ell.a * dl, fnn + ell.a * lat.tan().asinh()),
            ProjSpec::Tm { lat0, .. } => {
                let (e, n) = oracle::tm(ell, lat, dl);
                let m0 = oracle::marc(ell, oracle::C::re(lat0)).0;
                (fe + k0 * e, fnn + k0 * (n - m0))
            }
            ProjSpec::UtmN(_) | ProjSpec::UtmS(_) => {
                let (e, n) = oracle::tm(ell, lat, dl);
                (fe + k0 * e, fnn + k0 * n)
            }
        }
    }
    /// Bound in metres on |implementation - exact| at a position, from the truncation order of
    /// the published series (with margin) and floating point rounding.
    pub fn tol(&self, ell: &Ell, lon: f64, lat: f64) -> f64 {
        let k0 = self.k0(ell).max(1.0);
        let (fe, fnn) = self.falses();
        let base = 1e-6 * (ell.a / 6.4e6).max(1.0) * k0 + 1e-15 * 8.0 * (fe.abs() + fnn.abs());
        if self.is_tm() {
            let dl = oracle::norm_lon(lon - self.lon0());
            let (_, eta) = oracle::gauss_schreiber(ell, lat, dl);
            base + TM_SERIES * k0 * ell.a * ell.n().powi(5) * ((10.0 * eta).cosh() + self.lat0_terms())
        } else {
            base + 4e-15 * k0 * ell.a / lat.cos().abs().max(1e-300)
        }
    }
    fn lat0_terms(&self) -> f64 {
        match self {
            ProjSpec::Tm { lat0, .. } if *lat0 != 0.0 => 1.0,
            _ => 0.0,
        }
    }
    /// Same for the inverse, in metres on the ground.
    pub fn inv_tol(&self, ell: &Ell, lon: f64, lat: f64) -> f64 {
        let k0 = self.k0(ell);
        let (fe, fnn) = self.falses();
        let rounding = 1e-15 * 8.0 * (fe.abs() + fnn.abs()) / k0;
        let base = 1e-5 * (ell.a / 6.4e6).max(1.0) + rounding;
        if self.is_tm() {
            let dl = oracle::norm_lon(lon - self.lon0());
            let (_, eta) = oracle::gauss_schreiber(ell, lat, dl);
            base + rounding * 10.0 * eta.cosh() + TM_SERIES * ell.a * ell.n().powi(5) * ((10.0 * eta).cosh() + self.lat0_terms())
        } else if let ProjSpec::Web { .. } = self {
            base
        } else {
            base + MERC_SERIES * ell.a * ell.e2.powi(5)
        }
    }
}
pub const TM_SERIES: f64 = 4.0;
pub const MERC_SERIES: f64 = 0.3;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct RawProj {
    pub kind: u8,
    pub off: f64,
    pub wide: f64,
    pub lat0: f64,
    pub k0: f64,
    pub fe: f64,
    pub fnn: f64,
    pub dz: i32,
}
impl RawProj {
    /// A projection whose central meridian is near `lon` (radians, datum's own origin) for the
    /// transverse family.
    pub fn resolve(&self, lon: f64) -> ProjSpec {
        let near = oracle::norm_lon(lon - self.off).clamp(-PI, PI);
        let zone = || {
            let z = ((lon / D2R + 180.0) / 6.0).floor() as i32 + self.dz;
            (z.rem_euclid(60) + 1) as u8
        };
        let (lat0, k0, fe, fnn) = (self.lat0, self.k0, self.fe, self.fnn);
        match self.kind {
            0 => ProjSpec::Merc1 { lon0: self.wide, k0, fe, fnn },
            1 => ProjSpec::Merc2 { lon0: self.wide, lat0: lat0.clamp(-1.4, 1.4), fe, fnn },
            2 => ProjSpec::UtmN(zone()),
            3 => ProjSpec::UtmS(zone()),
            4 => ProjSpec::Tm { lon0: near, lat0, k0, fe, fnn },
            _ => ProjSpec::Web { lon0: self.wide, lat0, fe, fnn },
        }
    }
}
pub fn k0s() -> BoxedStrategy<f64> {
    prop_oneof![
        2 => Just(1.0),
        2 => proptest::sample::select(vec![0.9996, 0.9996012717, 0.997, 0.994, 0.99975]),
        3 => 0.9..1.1f64,
        1 => 0.2..3.0f64,
        1 => logu(-9.0, -1.0).prop_map(|d| 1.0 + d),
        1 => logpos(-2.0, 0.6),
    ]
    .boxed()
}
pub fn falses() -> BoxedStrategy<f64> {
    prop_oneof![
        2 => Just(0.0),
        3 => (-20i32..=20).prop_map(|k| k as f64 * 5e5),
        3 => -1e7..1e7f64,
        1 => lit_near().prop_map(|v| v.clamp(-1e8, 1e8)),
        1 => logu(-6.0, 8.0),
    ]
    .boxed()
}
/// `span`: how far (radians) from the central meridian transverse projections are used
pub fn raw_proj(span: f64) -> BoxedStrategy<RawProj> {
    (
        0..6u8,
        prop_oneof![4 => -span..=span, 1 => Just(0.0), 1 => tiny().prop_map(move |t| t.clamp(-span, span))],
        lon(),
        lat(),
        k0s(),
        falses(),
        falses(),
        prop_oneof![4 => Just(0), 1 => -1..=1],
    )
        .prop_map(|(kind, off, wide, lat0, k0, fe, fnn, dz)| RawProj { kind, off, wide, lat0, k0, fe, fnn, dz })
        .boxed()
}

// ------------------------------------------------------------------ datum shifts

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Shift {
    None,
    Trans([f64; 3]),
    /// coordinate-frame convention?, rotations in radians, translation in metres, ppm
    Helmert(bool, [f64; 3], [f64; 3], f64),
}
fn rot(cf: bool, r: &[f64; 3], v: V3) -> V3 {
    // small-angle rotation part R v: position vector = r × v, coordinate frame = -(r × v)
    let s = if cf { -1.0 } else { 1.0 };
    [
        s * (r[1] * v[2] - r[2] * v[1]),
        s * (r[2] * v[0] - r[0] * v[2]),
        s * (r[0] * v[1] - r[1] * v[0]),
    ]
}
impl Shift {
    pub fn to_ref(&self, v: V3) -> V3 {
        match self {
            Shift::None => v,
            Shift::Trans(t) => [v[0] + t[0], v[1] + t[1], v[2] + t[2]],
            Shift::Helmert(cf, r, t, ppm) => {
                let m = 1.0 + ppm * 1e-6;
                let d = rot(*cf, r, v);
                [0, 1, 2].map(|i| m * (v[i] + d[i]) + t[i])
            }
        }
    }
    /// Exact inverse of `to_ref` (fixed point iteration).
    pub fn from_ref(&self, v: V3) -> V3 {
        match self {
            Shift::None => v,
            Shift::Trans(t) => [v[0] - t[0], v[1] - t[1], v[2] - t[2]],
            Shift::Helmert(cf, r, t, ppm) => {
                let m = 1.0 + ppm * 1e-6;
                let w = [0, 1, 2].map(|i| (v[i] - t[i]) / m);
                let mut x = w;
                for _ in 0..40 {
                    let d = rot(*cf, r, x);
                    x = [0, 1, 2].map(|i| w[i] - d[i]);
                }
                x
            }
        }
    }
    /// Bound on the error of the published (first-order) reverse formula at a position.
    pub fn second_order(&self, norm: f64) -> f64 {
        match self {
            Shift::Helmert(_, r, t, ppm) => {
                let rr = oracle::norm(*r);
                let s = ppm.abs() * 1e-6;
                let tt = oracle::norm(*t);
                2.0 * ((norm + tt) * (rr + s) * (rr + s) + tt * (rr + s)) + 1e-8
            }
            _ => 0.0,
        }
    }
    pub fn is_first_order(&self) -> bool {
        matches!(self, Shift::Helmert(..))
    }
    #[cfg(geokit_verif)]
    pub fn build(&self) -> ShiftObj {
        use geokit::quantities::angle::Angle;
        use geokit::quantities::scale::PPM;
        use geokit::transformations::xyz::{verif, RotationConvention, XYZIdentity};
        ShiftObj(match self {
            Shift::None => Box::new(XYZIdentity),
            Shift::Trans(t) => verif::translation(t.map(|x| x * M)),
            Shift::Helmert(cf, r, t, ppm) => verif::helmert(
                if *cf { RotationConvention::CoordinateFrame } else { RotationConvention::PositionVector },
                r.map(|x| Angle::new(x, RAD)),
                t.map(|x| x * M),
                PPM(*ppm),
            ),
        })
    }
    #[cfg(not(geokit_verif))]
    pub fn build(&self) -> ShiftObj {
        ShiftObj(Box::new(ModelShift(self.clone())))
    }
    /// The model itself as a shift (the trait is public).
    pub fn build_model(&self) -> ShiftObj {
        ShiftObj(Box::new(ModelShift(self.clone())))
    }
}
pub const HAS_HOOK: bool = cfg!(geokit_verif);

struct ModelShift(Shift);
impl XYZTransformation for ModelShift {
    fn to_ref(&self, src: XYZ) -> XYZ {
        mkxyz(self.0.to_ref(v3(src)))
    }
    fn from_ref(&self, dst: XYZ) -> XYZ {
        mkxyz(self.0.from_ref(v3(dst)))
    }
}
pub struct ShiftObj(pub Box<dyn XYZTransformation>);
impl XYZTransformation for ShiftObj {
    fn to_ref(&self, src: XYZ) -> XYZ {
        self.0.to_ref(src)
    }
    fn from_ref(&self, dst: XYZ) -> XYZ {
        self.0.from_ref(dst)
    }
}
pub fn v3(p: XYZ) -> V3 {
    [p.x.m(), p.y.m(), p.z.m()]
}
pub fn mkxyz(v: V3) -> XYZ {
    XYZ { x: v[0] * M, y: v[1] * M, z: v[2] * M }
}

fn small3(s: f64) -> BoxedStrategy<[f64; 3]> {
    let c = move || prop_oneof![1 => Just(0.0), 4 => -s..=s, 1 => logu(-6.0, 0.0).prop_map(move |k| k * s)];
    (c(), c(), c()).prop_map(|(a, b, c)| [a, b, c]).boxed()
}
pub fn shift() -> BoxedStrategy<Shift> {
    prop_oneof![
        2 => Just(Shift::None),
        4 => small3(1000.0).prop_map(Shift::Trans),
        2 => (any::<bool>(), small3(5e-5), small3(500.0), prop_oneof![1 => Just(0.0), 3 => -20.0..20.0f64])
            .prop_map(|(c, r, t, p)| Shift::Helmert(c, r, t, p)),
        1 => (any::<bool>(), small3(1e-6), small3(10.0), -0.5..0.5f64)
            .prop_map(|(c, r, t, p)| Shift::Helmert(c, r, t, p)),
    ]
    .boxed()
}

// ------------------------------------------------------------------ reference systems

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Kind {
    Geoc,
    Geog(GAx),
    Proj(PAx, ProjSpec),
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct CrsSpec {
    pub datum: DatumSpec,
    pub kind: Kind,
}
pub enum CrsObj {
    Geoc(GeocentricCrs),
    Geog(GeographicCrs),
    Proj(ProjectedCrs),
}
impl CrsObj {
    pub fn as_crs(&self) -> &dyn Crs {
        match self {
            CrsObj::Geoc(c) => c,
            CrsObj::Geog(c) => c,
            CrsObj::Proj(c) => c,
        }
    }
}
/// The transformation between two systems, built from the library's own types.
pub fn transformation<'a>(src: CrsObj, dst: CrsObj, to_ref: impl XYZTransformation + 'a, from_ref: impl XYZTransformation + 'a) -> CrsXYZTransformation<'a> {
    macro_rules! pick {
        ($s:expr) => {
            match dst {
                CrsObj::Geoc(d) => CrsXYZTransformation::new($s, d, to_ref, from_ref),
                CrsObj::Geog(d) => CrsXYZTransformation::new($s, d, to_ref, from_ref),
                CrsObj::Proj(d) => CrsXYZTransformation::new($s, d, to_ref, from_ref),
            }
        };
    }
    match src {
        CrsObj::Geoc(s) => pick!(s),
        CrsObj::Geog(s) => pick!(s),
        CrsObj::Proj(s) => pick!(s),
    }
}
impl CrsSpec {
    pub fn build(&self) -> CrsObj {
        self.build_id("crs")
    }
    pub fn build_id(&self, id: &str) -> CrsObj {
        self.build_with(id, self.datum.build())
    }
    pub fn build_with(&self, id: &str, datum: geokit::geodesy::GeodeticDatum) -> CrsObj {
        let id = smol_str::SmolStr::new(id);
        match &self.kind {
            Kind::Geoc => CrsObj::Geoc(GeocentricCrs { id, datum, axes: GeocentricAxes::XYZ }),
            Kind::Geog(a) => CrsObj::Geog(GeographicCrs { id, datum, axes: a.build() }),
            Kind::Proj(a, p) => CrsObj::Proj(ProjectedCrs { id, datum, axes: a.build(), projection: p.build() }),
        }
    }
    pub fn dim(&self) -> usize {
        match &self.kind {
            Kind::Geoc => 3,
            Kind::Geog(a) => a.dim(),
            Kind::Proj(a, _) => a.dim(),
        }
    }
    pub fn name(&self) -> &'static str {
        match &self.kind {
            Kind::Geoc => "geocentric",
            Kind::Geog(a) if a.dim() == 2 => "geographic 2D",
            Kind::Geog(_) => "geographic 3D",
            Kind::Proj(_, p) => p.name(),
        }
    }
    /// User coordinates of a physical point given by Greenwich longitude, latitude and height on
    /// this system's datum. 2D systems drop the height.
    pub fn user(&self, lon_gw: f64, lat: f64, h: f64) -> Vec<f64> {
        let ell = self.datum.ell.ell();
        let lon = oracle::norm_lon(lon_gw - self.datum.pm.lon());
        match &self.kind {
            Kind::Geoc => oracle::llh_to_xyz(&ell, lon_gw, lat, h).to_vec(),
            Kind::Geog(a) => a.to_user(lon, lat, h),
            Kind::Proj(a, p) => {
                let (e, n) = p.exact(&ell, lon, lat);
                let s = a.sizes();
                let mut v = vec![e / s[0], n / s[1]];
                if a.dim() == 3 {
                    v.push(h / s[2]);
                }
                v
            }
        }
    }
    /// Distance in metres (physical, approximate for tiny distances) between user coordinates
    /// and those of the given physical point.
    pub fn err(&self, got: &[f64], lon_gw: f64, lat: f64, h: f64) -> f64 {
        let ell = self.datum.ell.ell();
        let want = self.user(lon_gw, lat, h);
        match &self.kind {
            Kind::Geoc => oracle::dist([got[0], got[1], got[2]], [want[0], want[1], want[2]]),
            Kind::Geog(a) => {
                let (lo, la, hh) = a.from_user(got);
                let (wlo, wla, wh) = a.from_user(&want);
                let m = (adiff(lo, wlo) * lat.cos() * ell.a).hypot((la - wla) * ell.a);
                m.hypot(hh - wh)
            }
            Kind::Proj(a, p) => {
                let s = a.sizes();
                // local scale: map metres to ground metres
                let k = match p {
                    ProjSpec::Merc1 { .. } | ProjSpec::Merc2 { .. } | ProjSpec::Web { .. } => p.k0(&ell) / lat.cos(),
                    _ => p.k0(&ell),
                };
                // eastings one full turn apart denote the same meridian
                let turn = 2.0 * PI * ell.a * p.k0(&ell);
                let mut de = (got[0] - want[0]) * s[0];
                if !p.is_tm() && (de.abs() - turn).abs() < (1e-4 * turn).max(1.0) {
                    de = de.abs() - turn;
                }
                let dn = (got[1] - want[1]) * s[1];
                let dh = if a.dim() == 3 { (got[2] - want[2]) * s[2] } else { 0.0 };
                (de / k).hypot(dn / k).hypot(dh)
            }
        }
    }
    /// tolerance in metres for an implementation value at this point
    pub fn tol(&self, lon_gw: f64, lat: f64) -> f64 {
        let ell = self.datum.ell.ell();
        let lon = oracle::norm_lon(lon_gw - self.datum.pm.lon());
        match &self.kind {
            Kind::Proj(_, p) => p.tol(&ell, lon, lat).max(p.inv_tol(&ell, lon, lat)) / p.k0(&ell).min(1.0),
            _ => 1e-5 * (ell.a / 6.4e6).max(1.0),
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct RawCrs {
    pub datum: DatumSpec,
    pub kind: u8,
    pub g: GAx,
    pub p: PAx,
    pub proj: RawProj,
}
impl RawCrs {
    pub fn resolve(&self, lon_gw: f64) -> CrsSpec {
        let lon = oracle::norm_lon(lon_gw - self.datum.pm.lon());
        let kind = match self.kind {
            0 => Kind::Geoc,
            1 | 2 => Kind::Geog(self.g),
            _ => Kind::Proj(self.p, self.proj.resolve(lon)),
        };
        CrsSpec { datum: self.datum.clone(), kind }
    }
}
pub fn raw_crs(finv_min: f64) -> BoxedStrategy<RawCrs> {
    (datum(finv_min), 0..6u8, gax(), pax(), raw_proj(0.06))
        .prop_map(|(datum, kind, g, p, proj)| RawCrs { datum, kind, g, p, proj })
        .boxed()
}
