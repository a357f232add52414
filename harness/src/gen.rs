//! Generators. All random choices are made by proptest strategies.
use crate::oracle::Ell;
use crate::tables;
use geokit::geodesy::{Ellipsoid, GeodeticDatum, PrimeMeridian};
use geokit::quantities::angle::Angle;
use geokit::cs::geodetic::{Lat, Lon, LLH};
use geokit::units::angle::RAD;
use geokit::units::length::M;
use proptest::prelude::*;
use proptest::sample::select;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::f64::consts::{FRAC_PI_2, PI, TAU};
use std::sync::OnceLock;

pub const D2R: f64 = PI / 180.0;

/// The (non-test) sources under test, comments removed.
fn sources() -> &'static Vec<String> {
    static S: OnceLock<Vec<String>> = OnceLock::new();
    S.get_or_init(|| {
        let root = std::env::var("GEOKIT_SRC").unwrap_or_else(|_| "/repo/geokit/src".into());
        let mut files = vec![];
        fn walk(p: &std::path::Path, out: &mut Vec<std::path::PathBuf>) {
            if let Ok(rd) = std::fs::read_dir(p) {
                let mut es: Vec<_> = rd.flatten().map(|e| e.path()).collect();
                es.sort();
                for e in es {
                    if e.is_dir() {
                        walk(&e, out);
                    } else if e.extension().is_some_and(|x| x == "rs") {
                        out.push(e);
                    }
                }
            }
        }
        walk(std::path::Path::new(&root), &mut files);
        files
            .iter()
            .map(|f| {
                let s = std::fs::read_to_string(f).unwrap_or_default();
                let s = s.split("#[cfg(test)]").next().unwrap_or("").to_string();
                s.lines().map(|l| l.split("//").next().unwrap_or("")).collect::<Vec<_>>().join("\n")
            })
            .collect()
    })
}

/// Short texts quoted in the sources: names that code might treat specially.
pub fn quoted() -> &'static Vec<String> {
    static L: OnceLock<Vec<String>> = OnceLock::new();
    L.get_or_init(|| {
        let mut v: Vec<String> = ["WGS84", "WGS 84", "Greenwich", "same", ""].iter().map(|s| s.to_string()).collect();
        for s in sources() {
            for l in s.lines() {
                for (i, t) in l.split('"').enumerate() {
                    if i % 2 == 1 && t.len() <= 24 && !t.contains(['{', '\\']) {
                        v.push(t.to_string());
                    }
                }
            }
        }
        v.sort();
        v.dedup();
        v
    })
}
/// a name: often one quoted in the sources
pub fn a_name() -> BoxedStrategy<String> {
    prop_oneof![
        4 => (0..quoted().len()).prop_map(|i| quoted()[i].clone()),
        1 => select(vec!["WGS84".to_string(), "same".to_string()]),
    ]
    .boxed()
}

/// Numeric literals found in the (non-test) sources under test: thresholds and special
/// values written in the code become part of the generated domain.
pub fn literals() -> &'static Vec<f64> {
    static L: OnceLock<Vec<f64>> = OnceLock::new();
    L.get_or_init(|| {
        let mut v: Vec<f64> = vec![];
        for s in sources() {
            for line in s.lines() {
                let b: Vec<char> = line.chars().collect();
                let mut i = 0;
                while i < b.len() {
                    if b[i].is_ascii_digit()
                        && (i == 0 || !(b[i - 1].is_alphanumeric() || b[i - 1] == '_' || b[i - 1] == '.'))
                    {
                        let st = i;
                        while i < b.len()
                            && (b[i].is_ascii_digit()
                                || b[i] == '_'
                                || b[i] == '.'
                                || ((b[i] == 'e' || b[i] == 'E') && i + 1 < b.len())
                                || ((b[i] == '-' || b[i] == '+') && (b[i - 1] == 'e' || b[i - 1] == 'E')))
                        {
                            i += 1;
                        }
                        let t: String = b[st..i].iter().filter(|c| **c != '_').collect();
                        let t = t.trim_end_matches(['.', 'e', 'E']);
                        if let Ok(x) = t.parse::<f64>() {
                            if x.is_finite() && x.abs() < 1e12 {
                                v.push(x);
                            }
                        }
                    } else {
                        i += 1;
                    }
                }
            }
        }
        v.sort_by(|a, b| a.partial_cmp(b).unwrap());
        v.dedup();
        if v.is_empty() {
            v.push(1.0);
        }
        v
    })
}

pub fn ulps(x: f64, n: i64) -> f64 {
    let mut y = x;
    for _ in 0..n.abs() {
        y = if n > 0 { y.next_up() } else { y.next_down() };
    }
    if y.is_finite() {
        y
    } else {
        x
    }
}

/// A small offset: 0, ulp-scale to 0.1, either sign.
pub fn tiny() -> BoxedStrategy<f64> {
    prop_oneof![
        3 => Just(0.0),
        4 => (any::<bool>(), -17i32..0, 1u32..10u32).prop_map(|(s, e, m)| {
            let v = m as f64 * 10f64.powi(e);
            if s { v } else { -v }
        }),
    ]
    .boxed()
}

/// log-uniform magnitude in 10^lo..10^hi with random sign
pub fn logu(lo: f64, hi: f64) -> BoxedStrategy<f64> {
    (any::<bool>(), lo..hi)
        .prop_map(|(s, e)| if s { 10f64.powf(e) } else { -(10f64.powf(e)) })
        .boxed()
}
pub fn logpos(lo: f64, hi: f64) -> BoxedStrategy<f64> {
    (lo..hi).prop_map(|e| 10f64.powf(e)).boxed()
}

fn lit() -> BoxedStrategy<f64> {
    (select(literals().clone()), any::<bool>())
        .prop_map(|(v, s)| if s { v } else { -v })
        .boxed()
}

/// A literal of the sources, possibly nudged by a small relative or absolute amount.
pub fn lit_near() -> BoxedStrategy<f64> {
    (lit(), prop_oneof![Just(0.0), Just(1e-9), Just(-1e-9), -1e-3..1e-3, tiny()], -3i64..4)
        .prop_map(|(v, d, u)| ulps(v + d, u))
        .prop_map(|v| if v.abs() < 1e-30 { 0.0 } else { v })
        .boxed()
}

fn fold_lon(x: f64) -> f64 {
    if x.abs() <= PI {
        x
    } else {
        let y = x - (x / TAU).round() * TAU;
        y.clamp(-PI, PI)
    }
}
fn fold_lat(x: f64) -> f64 {
    if x.abs() <= FRAC_PI_2 {
        x
    } else {
        fold_lon(x).sin().asin()
    }
}

/// Longitude in radians within [-pi, pi], boundary heavy.
pub fn lon() -> BoxedStrategy<f64> {
    prop_oneof![
        6 => -PI..=PI,
        3 => (-180i32..=180).prop_map(|d| d as f64 * D2R),
        4 => (select(vec![-180.0, -135.0, -90.0, -45.0, 0.0, 45.0, 90.0, 135.0, 180.0]), tiny(), -2i64..3)
            .prop_map(|(d, t, u)| ulps((d * D2R + t).clamp(-PI, PI), u).clamp(-PI, PI)),
        1 => (-60i32..=60, tiny()).prop_map(|(k, t)| fold_lon((k * 3) as f64 * D2R + t)),
        1 => lit_near().prop_map(|v| fold_lon(v * D2R)),
        1 => lit_near().prop_map(fold_lon),
        1 => select(vec![PI, -PI, 0.0, -0.0, FRAC_PI_2, -FRAC_PI_2]),
    ]
    .boxed()
}

/// Latitude in radians within [-pi/2, pi/2], boundary heavy.
pub fn lat() -> BoxedStrategy<f64> {
    prop_oneof![
        6 => -FRAC_PI_2..=FRAC_PI_2,
        3 => (-90i32..=90).prop_map(|d| d as f64 * D2R),
        4 => (select(vec![-90.0, -60.0, -45.0, 0.0, 30.0, 45.0, 90.0]), tiny(), -2i64..3)
            .prop_map(|(d, t, u)| ulps((d * D2R + t).clamp(-FRAC_PI_2, FRAC_PI_2), u).clamp(-FRAC_PI_2, FRAC_PI_2)),
        2 => (any::<bool>(), logpos(-10.0, -1.0)).prop_map(|(s, d)| { let l = FRAC_PI_2 - d; if s { l } else { -l } }),
        1 => lit_near().prop_map(|v| fold_lat(v * D2R)),
        1 => lit_near().prop_map(fold_lat),
        1 => select(vec![FRAC_PI_2, -FRAC_PI_2, 0.0, -0.0]),
    ]
    .boxed()
}

/// Latitudes at least `m` radians from the poles.
pub fn lat_within(max_abs: f64) -> BoxedStrategy<f64> {
    lat().prop_map(move |l| l.clamp(-max_abs, max_abs)).boxed()
}

pub fn az() -> BoxedStrategy<f64> {
    prop_oneof![
        5 => -PI..=PI,
        3 => (select(vec![-180.0, -90.0, 0.0, 90.0, 180.0]), tiny()).prop_map(|(d, t)| fold_lon(d * D2R + t)),
        2 => (-24i32..=24).prop_map(|k| k as f64 * 7.5 * D2R),
        1 => lit_near().prop_map(|v| fold_lon(v * D2R)),
    ]
    .boxed()
}

/// Ellipsoidal heights in metres (Earth-like), mild.
pub fn height_mild() -> BoxedStrategy<f64> {
    prop_oneof![
        2 => Just(0.0),
        4 => -1.2e4..3.0e4f64,
        1 => logu(-6.0, 5.0),
        1 => lit_near().prop_map(|v| v.clamp(-1e5, 1e6)),
    ]
    .boxed()
}

/// A length in metres of any magnitude relevant to maps.
pub fn metres() -> BoxedStrategy<f64> {
    prop_oneof![
        2 => Just(0.0),
        4 => -2e7..2e7f64,
        2 => (-1000i32..1000).prop_map(|k| k as f64 * 1000.0),
        2 => logu(-6.0, 8.0),
        1 => lit_near(),
    ]
    .boxed()
}

/// finite general float over many magnitudes
pub fn real() -> BoxedStrategy<f64> {
    prop_oneof![
        3 => -1000.0..1000.0f64,
        2 => (-1000i32..1000).prop_map(|k| k as f64),
        3 => logu(-8.0, 9.0),
        1 => (-400i32..400).prop_map(|k| k as f64 * 0.25),
        2 => lit_near(),
        1 => select(vec![0.0, -0.0, 1.0, -1.0]),
    ]
    .prop_map(|v| if v.abs() < 1e-30 { 0.0 } else { v })
    .boxed()
}

// ---------------------------------------------------------------- ellipsoids and datums

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum EllSpec {
    Cat(usize),
    Ainvf(f64, f64),
    Ab(f64, f64),
    Sphere(f64),
}

impl EllSpec {
    pub fn build(&self) -> Ellipsoid {
        match self {
            EllSpec::Cat(i) => tables::ellipsoids()[*i].1.clone(),
            EllSpec::Ainvf(a, f) => Ellipsoid::from_ainvf("gen", *a * M, *f),
            EllSpec::Ab(a, b) => Ellipsoid::from_ab("gen", *a * M, *b * M),
            EllSpec::Sphere(r) => Ellipsoid::from_ab("sphere", *r * M, *r * M),
        }
    }
    /// Published values for the catalogue.
    pub fn ell_pub(&self) -> Ell {
        match self {
            EllSpec::Cat(i) => tables::published(*i),
            _ => self.ell(),
        }
    }
    /// Parameters for the oracles. For the catalogue, the axes of the object itself: whether
    /// those are the published ones is decided by C08 and C09.
    pub fn ell(&self) -> Ell {
        match self {
            EllSpec::Cat(i) => {
                let e = &tables::ellipsoids()[*i].1;
                Ell::from_ab(e.a().m(), e.b().m())
            }
            EllSpec::Ainvf(a, f) => Ell::from_ainvf(*a, *f),
            EllSpec::Ab(a, b) => Ell::from_ab(*a, *b),
            EllSpec::Sphere(r) => Ell::from_ab(*r, *r),
        }
    }
    pub fn kind(&self) -> &'static str {
        match self {
            EllSpec::Cat(_) => "catalogue",
            EllSpec::Sphere(_) => "sphere",
            _ => "custom",
        }
    }
}

/// Earth-like ellipsoids: catalogue, custom flattening between `finv_min` and a near-sphere, spheres.
pub fn ell(finv_min: f64) -> BoxedStrategy<EllSpec> {
    let n = tables::ellipsoids().len();
    prop_oneof![
        3 => select(vec![tables::index_of("WGS84"), tables::index_of("GRS80"), tables::index_of("INTL"), tables::index_of("AIRY"), tables::index_of("SPHERE")]).prop_map(EllSpec::Cat),
        5 => (0..n).prop_map(EllSpec::Cat),
        2 => (6.3e6..6.4e6f64, finv_min..400.0).prop_map(|(a, f)| EllSpec::Ainvf(a, f)),
        1 => (1e6..7.2e7f64, finv_min..2000.0).prop_map(|(a, f)| EllSpec::Ainvf(a, f)),
        1 => (6.37e6..6.39e6f64, 0.0..2.0e4f64).prop_map(move |(a, d)| EllSpec::Ab(a, (a - d).max(a * (1.0 - 1.0 / finv_min)))),
        1 => (6.3e6..6.4e6f64).prop_map(EllSpec::Sphere),
        // of any size
        1 => (0.0..10.0f64, finv_min..2000.0).prop_map(|(k, f)| EllSpec::Ainvf(10f64.powf(k), f)),
        // hardly different from a sphere
        1 => (6.3e6..6.4e6f64, 3.0..12.0f64).prop_map(|(a, k)| EllSpec::Ainvf(a, 10f64.powf(k))),
        1 => (6.37e6..6.39e6f64, -6.0..4.0f64).prop_map(|(a, k)| EllSpec::Ab(a, a - 10f64.powf(k))),
        1 => select(vec![6_371_000.0, 6_378_137.0, 1_737_400.0]).prop_map(EllSpec::Sphere),
    ]
    .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum PmSpec {
    Cat(usize),
    Custom(f64),
}
impl PmSpec {
    pub fn build(&self) -> PrimeMeridian {
        match self {
            PmSpec::Cat(i) => tables::prime_meridians()[*i].1.clone(),
            PmSpec::Custom(l) => PrimeMeridian::new("gen", mklon(*l)),
        }
    }
    pub fn lon(&self) -> f64 {
        match self {
            // the published table is exact to 1e-5 degrees; C09 checks it. Use the object's own value here.
            PmSpec::Cat(i) => tables::prime_meridians()[*i].1.lon().angle().rad(),
            PmSpec::Custom(l) => *l,
        }
    }
}
pub fn pm() -> BoxedStrategy<PmSpec> {
    let n = tables::prime_meridians().len();
    prop_oneof![
        2 => Just(PmSpec::Cat(0)),
        4 => (0..n).prop_map(PmSpec::Cat),
        2 => lon().prop_map(PmSpec::Custom),
    ]
    .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct DatumSpec {
    pub ell: EllSpec,
    pub pm: PmSpec,
}
impl DatumSpec {
    pub fn build(&self) -> GeodeticDatum {
        GeodeticDatum::new("gen", self.ell.build(), self.pm.build())
    }
    pub fn build_named(&self, id: &str) -> GeodeticDatum {
        GeodeticDatum::new(id, self.ell.build(), self.pm.build())
    }
}
pub fn datum(finv_min: f64) -> BoxedStrategy<DatumSpec> {
    (ell(finv_min), pm()).prop_map(|(ell, pm)| DatumSpec { ell, pm }).boxed()
}

pub fn mklon(rad: f64) -> Lon {
    Lon::new(Angle::new(rad, RAD))
}
pub fn mklat(rad: f64) -> Lat {
    Lat::new(Angle::new(rad, RAD))
}
pub fn mkllh(lon: f64, lat: f64, h: f64) -> LLH {
    LLH { lon: mklon(lon), lat: mklat(lat), height: h * M }
}
/// shortest angular distance
pub fn adiff(a: f64, b: f64) -> f64 {
    let d = a - b;
    let r = d - (d / TAU).round() * TAU;
    r.abs()
}
