//! Catalogue objects of the crate and, independently, the published parameters
//! (PROJ / EPSG listings).
use crate::oracle::Ell;
use geokit::geodesy::{ellipsoid::consts as ec, geodetic_datum::consts as dc, prime_meridian::consts as pc};
use geokit::geodesy::{Ellipsoid, GeodeticDatum, PrimeMeridian};
use std::sync::OnceLock;

#[derive(Clone, Copy, Debug)]
pub enum Pub {
    Rf(f64, f64),
    B(f64, f64),
}

macro_rules! cat {
    ($( $name:ident : $p:expr ),+ $(,)?) => {
        pub fn ellipsoids() -> &'static Vec<(&'static str, Ellipsoid)> {
            static T: OnceLock<Vec<(&'static str, Ellipsoid)>> = OnceLock::new();
            T.get_or_init(|| vec![ $( (stringify!($name), ec::$name) ),+ ])
        }
        const PUB: &[Pub] = &[ $( $p ),+ ];
    };
}
use Pub::{Rf, B};
cat! {
    AIRY: Rf(6377563.396, 299.3249646),
    ANDRAE: Rf(6377104.43, 300.0),
    DANISH: Rf(6377019.2563, 300.0),
    APL_4_9: Rf(6378137.0, 298.25),
    AUST_SA: Rf(6378160.0, 298.25),
    BESSEL: Rf(6377397.155, 299.1528128),
    BESS_NAM: Rf(6377483.865, 299.1528128),
    CLRK66: B(6378206.4, 6356583.8),
    CLRK80: Rf(6378249.145, 293.4663),
    CLRK80IGN: Rf(6378249.2, 293.4660212936269),
    CPM: Rf(6375738.7, 334.29),
    DELMBR: Rf(6376428.0, 311.5),
    ENGELIS: Rf(6378136.05, 298.2566),
    EVRST30: Rf(6377276.345, 300.8017),
    EVRST48: Rf(6377304.063, 300.8017),
    EVRST56: Rf(6377301.243, 300.8017),
    EVRST69: Rf(6377295.664, 300.8017),
    EVRSTSS: Rf(6377298.556, 300.8017),
    FSCHR60: Rf(6378166.0, 298.3),
    FSCHR68: Rf(6378150.0, 298.3),
    GSK2011: Rf(6378136.5, 298.2564151),
    GRS67: Rf(6378160.0, 298.2471674270),
    GRS80: Rf(6378137.0, 298.257222101),
    IAU76: Rf(6378140.0, 298.257),
    HELMERT: Rf(6378200.0, 298.3),
    HOUGH: Rf(6378270.0, 297.0),
    INTL: Rf(6378388.0, 297.0),
    KAULA: Rf(6378163.0, 298.24),
    KRASS: Rf(6378245.0, 298.3),
    LERCH: Rf(6378139.0, 298.257),
    MPRTS: Rf(6397300.0, 191.0),
    MERIT: Rf(6378137.0, 298.257),
    MOD_AIRY: B(6377340.189, 6356034.446),
    FSCHR60M: Rf(6378155.0, 298.3),
    NWL9D: Rf(6378145.0, 298.25),
    NEW_INTL: B(6378157.5, 6356772.2),
    PLESSIS: B(6376523.0, 6355863.0),
    PZ90: Rf(6378136.0, 298.25784),
    SEASIA: B(6378155.0, 6356773.3205),
    SGS85: Rf(6378136.0, 298.257),
    WALBECK: B(6376896.0, 6355834.8467),
    WGS60: Rf(6378165.0, 298.3),
    WGS66: Rf(6378145.0, 298.25),
    WGS72: Rf(6378135.0, 298.26),
    WGS84: Rf(6378137.0, 298.257223563),
    SPHERE: B(6370997.0, 6370997.0),
}

pub fn published(i: usize) -> Ell {
    match PUB[i] {
        Rf(a, f) => Ell::from_ainvf(a, f),
        B(a, b) => Ell::from_ab(a, b),
    }
}
pub fn index_of(name: &str) -> usize {
    ellipsoids().iter().position(|e| e.0 == name).unwrap()
}

pub fn prime_meridians() -> &'static Vec<(&'static str, PrimeMeridian)> {
    static T: OnceLock<Vec<(&'static str, PrimeMeridian)>> = OnceLock::new();
    T.get_or_init(|| {
        vec![
            ("GREENWICH", pc::GREENWICH),
            ("LISBON", pc::LISBON),
            ("PARIS", pc::PARIS),
            ("BOGOTA", pc::BOGOTA),
            ("MADRID", pc::MADRID),
            ("ROME", pc::ROME),
            ("BERN", pc::BERN),
            ("JAKARTA", pc::JAKARTA),
            ("FERRO", pc::FERRO),
            ("BRUSSELS", pc::BRUSSELS),
            ("STOCKHOLM", pc::STOCKHOLM),
            ("ATHENS", pc::ATHENS),
            ("OSLO", pc::OSLO),
            ("COPENHAGEN", pc::COPENHAGEN),
        ]
    })
}
/// Published Greenwich longitudes: (sign, degrees, minutes, seconds).
const PM: &[(f64, f64, f64, f64)] = &[
    (1.0, 0.0, 0.0, 0.0),
    (-1.0, 9.0, 7.0, 54.862),
    (1.0, 2.0, 20.0, 14.025),
    (-1.0, 74.0, 4.0, 51.3),
    (-1.0, 3.0, 41.0, 16.58),
    (1.0, 12.0, 27.0, 8.4),
    (1.0, 7.0, 26.0, 22.5),
    (1.0, 106.0, 48.0, 27.79),
    (-1.0, 17.0, 40.0, 0.0),
    (1.0, 4.0, 22.0, 4.71),
    (1.0, 18.0, 3.0, 29.8),
    (1.0, 23.0, 42.0, 58.815),
    (1.0, 10.0, 43.0, 22.5),
    (1.0, 12.0, 34.0, 40.35),
];
pub fn published_pm_deg(i: usize) -> f64 {
    let (s, d, m, sec) = PM[i];
    s * (d + m / 60.0 + sec / 3600.0)
}

/// (constant, expected id, expected ellipsoid name in the catalogue)
pub fn datums() -> &'static Vec<(GeodeticDatum, &'static str, &'static str)> {
    static T: OnceLock<Vec<(GeodeticDatum, &'static str, &'static str)>> = OnceLock::new();
    T.get_or_init(|| {
        vec![
            (dc::WGS84, "WGS84", "WGS84"),
            (dc::GGRS87, "GGRS87", "GRS80"),
            (dc::NAD83, "NAD83", "GRS80"),
            (dc::RNB72, "RNB72", "INTL"),
        ]
    })
}
