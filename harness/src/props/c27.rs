//! C27 equality and identity
use crate::crsgen::*;
use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::oracle;
use crate::tables;
use geokit::crs::geocentric::GeocentricCrs;
use geokit::crs::geographic::GeographicCrs;
use geokit::crs::projected::ProjectedCrs;
use geokit::crs::Crs;
use geokit::cs::cartesian::geocentric::GeocentricAxes;
use geokit::geodesy::{Ellipsoid, GeodeticDatum, PrimeMeridian};
use geokit::quantities::length::Length;
use geokit::units::length::M;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};
use std::f64::consts::PI;

/// ==, != and their mirror images agree with `want`
macro_rules! same {
    ($a:expr, $b:expr, $want:expr, $($t:tt)*) => {{
        let (a, b, w) = (&$a, &$b, $want);
        ensure!((a == b) == w && (b == a) == w && (a != b) == !w && (b != a) == !w, "{} and {}: a==b {} b==a {} a!=b {} b!=a {} ({})",
            format!("{a:?}"), format!("{b:?}"), a == b, b == a, a != b, b != a, format!($($t)*));
        ensure!(a == a && !(a != a) && *a == a.clone() && a.clone() == *a, "{a:?} does not equal itself or its copy");
    }};
}

fn name() -> BoxedStrategy<String> {
    prop_oneof![
        3 => select(vec!["WGS84", "wgs84", "WGS 84", "GRS80", "", "Greenwich", "EPSG:4326", "EPSG:43260", "a", "b"]).prop_map(|s| s.to_string()),
        2 => "[A-Za-z0-9 :_-]{0,40}",
        1 => "\\PC{0,8}",
    ]
    .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
struct E {
    name: String,
    a: f64,
    /// b when `ab`, else inverse flattening
    k: f64,
    ab: bool,
}
impl E {
    fn build(&self) -> Ellipsoid {
        if self.ab {
            Ellipsoid::from_ab(&self.name, self.a * M, self.k * M)
        } else {
            Ellipsoid::from_ainvf(&self.name, self.a * M, self.k)
        }
    }
}
fn e() -> BoxedStrategy<E> {
    (name(), prop_oneof![2 => select(vec![6378137.0, 6377397.155, 6378206.4, 1.0]), 1 => logpos(-2.0, 9.0)], prop_oneof![2 => select(vec![298.257223563, 298.257222101, 294.978698214]), 1 => logpos(0.2, 6.0)], any::<bool>())
        .prop_map(|(name, a, f, ab)| E { name, a, k: if ab { a * (1.0 - 1.0 / f) } else { f }, ab })
        .boxed()
}

fn ellipsoids(c: &(E, E, u8, f64)) -> R {
    let (x, y, how, d) = c;
    let (p, q) = (x.build(), y.build());
    for (s, o) in [(x, &p), (y, &q)] {
        ensure!(o.name() == s.name, "name {:?} becomes {:?}", s.name, o.name());
        ensure!(o.a().m() == s.a, "semi-major axis {} becomes {}", s.a, o.a());
        if s.ab {
            ensure!(o.b().m() == s.k, "semi-minor axis {} becomes {}", s.k, o.b());
        } else {
            ensure!(o.invf() == s.k, "inverse flattening {} becomes {}", s.k, o.invf());
        }
    }
    // one ingredient of x changed
    let mut z = x.clone();
    let want = match how {
        0 => {
            z.name = y.name.clone();
            true
        }
        1 => {
            z.a = x.a * (1.0 + d);
            z.a == x.a
        }
        2 => {
            z.k = x.k * if x.ab { 1.0 - d } else { 1.0 + d };
            z.k == x.k
        }
        3 => {
            z.a = x.a * (1.0 + d);
            z.k = x.k * if x.ab { 1.0 + d } else { 1.0 };
            z.a == x.a && z.k == x.k
        }
        _ => {
            z = y.clone();
            z.name = x.name.clone();
            p.a() == q.a() && p.b() == q.b() && p.invf() == q.invf()
        }
    };
    // a tiny change of the flattening may leave the axes as they are, but not the flattening
    let r = z.build();
    let w2 = p.a() == r.a() && p.b() == r.b() && p.invf() == r.invf();
    ensure!(w2 == want || *d < 1e-14, "{x:?} and {z:?}: axes and flattening {} equal", if w2 { "are" } else { "are not" });
    same!(p, r, w2, "ellipsoids changed by {how}");
    same!(p, q, p.a() == q.a() && p.b() == q.b() && p.invf() == q.invf(), "ellipsoids");
    nt(if w2 { "equal" } else { "different" })
}

fn meridians(c: &(String, String, f64, f64, f64)) -> R {
    let (n, m, l, k, d) = c;
    let mk = |n: &str, l: f64| PrimeMeridian::new(n, mklon(l));
    let (p, q) = (mk(n, *l), mk(m, *k));
    ensure!(p.name() == n, "name {n:?} becomes {:?}", p.name());
    ensure!(adiff(p.lon().angle().rad(), *l) < 1e-15 * 4.0, "longitude {l} becomes {}", p.lon());
    same!(p, mk(m, *l), true, "meridians with other names");
    let diff = adiff(*l, *k);
    if diff == 0.0 && l == k {
        same!(p, q, true, "meridians at {l}");
    } else if diff > 1e-15 {
        same!(p, q, false, "meridians at {l} and {k}");
    }
    let j = (l + d).clamp(-PI, PI);
    if adiff(j, *l) > 2e-15 && (j - l).abs() > 2e-15 {
        same!(p, mk(n, j), false, "meridians at {l} and {j}");
    }
    nt("meridians")
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
struct D {
    id: String,
    e: E,
    pm: (String, f64),
}
impl D {
    fn pm(&self) -> PrimeMeridian {
        PrimeMeridian::new(&self.pm.0, mklon(self.pm.1))
    }
    fn build(&self) -> GeodeticDatum {
        GeodeticDatum::new(&self.id, self.e.build(), self.pm())
    }
}
fn dat() -> BoxedStrategy<D> {
    (name(), e(), (name(), prop_oneof![2 => Just(0.0), 1 => lon()])).prop_map(|(id, e, pm)| D { id, e, pm }).boxed()
}
/// changes one ingredient; returns whether the datums stay equal
fn vary(x: &D, y: &D, how: u8, d: f64) -> (D, bool) {
    let mut z = x.clone();
    match how {
        0 => z.id = y.id.clone(),
        1 => z.e.a *= 1.0 + d,
        2 => z.e.k *= if z.e.ab { 1.0 - d } else { 1.0 + d },
        3 => z.pm.1 = (z.pm.1 + d).clamp(-PI, PI),
        4 => z.e.name = y.e.name.clone(),
        5 => z.pm.0 = y.pm.0.clone(),
        6 => z.e = y.e.clone(),
        7 => z.pm = y.pm.clone(),
        8 => z = y.clone(),
        9 => z.id.push('x'),
        10 => z.id = z.id.to_uppercase(),
        _ => {}
    }
    if z.e.ab && z.e.k > z.e.a {
        z.e.k = z.e.a;
    }
    let want = x.id == z.id && x.e.build() == z.e.build() && x.pm() == z.pm();
    (z, want)
}
fn datums(c: &(D, D, u8, f64)) -> R {
    let (x, y, how, d) = c;
    let (z, want) = vary(x, y, *how, *d);
    let (p, q) = (x.build(), z.build());
    ensure!(p.id() == x.id && *p.ellipsoid() == x.e.build() && p.ellipsoid().name() == x.e.name && *p.prime_meridian() == x.pm() && p.prime_meridian().name() == x.pm.0, "datum of {x:?} has id {:?}, ellipsoid {}, prime meridian {}", p.id(), p.ellipsoid(), p.prime_meridian());
    ensure!(p.ellipsoid().a().m() == x.e.a, "datum's ellipsoid has semi-major axis {}, not {}", p.ellipsoid().a(), x.e.a);
    same!(p, q, want, "datums of {x:?} and {z:?}");
    let s = GeodeticDatum::new_static("A datum", x.e.build(), x.pm());
    ensure!(s.id() == "A datum" && *s.ellipsoid() == x.e.build() && *s.prime_meridian() == x.pm(), "static datum of {x:?} is {s:?}");
    same!(s, GeodeticDatum::new("A datum", x.e.build(), x.pm()), true, "static and other datum of {x:?}");
    same!(s, p, x.id == "A datum", "static datum and the one of {x:?}");
    nt(if want { "equal" } else { "different" })
}

fn axes_differ<A: PartialEq + std::fmt::Debug + Clone>(a: &A, b: &A, same: bool) -> Result<(), Bad> {
    same!(*a, *b, same, "axes");
    Ok(())
}

fn proj_vary(p: &ProjSpec, k: u8, d: f64) -> ProjSpec {
    let mut q = p.clone();
    let mv = |x: f64| x + d * (1.0 + x.abs());
    let ml = |x: f64| (x * 0.9 + d).clamp(-3.0, 3.0);
    match &mut q {
        ProjSpec::Merc1 { lon0, k0, fe, fnn } => match k % 4 {
            0 => *lon0 = ml(*lon0),
            1 => *k0 = mv(*k0),
            2 => *fe = mv(*fe),
            _ => *fnn = mv(*fnn),
        },
        ProjSpec::Merc2 { lon0, lat0, fe, fnn } => match k % 4 {
            0 => *lon0 = ml(*lon0),
            1 => *lat0 = (*lat0 * 0.9 + d).clamp(-1.4, 1.4),
            2 => *fe = mv(*fe),
            _ => *fnn = mv(*fnn),
        },
        ProjSpec::Tm { lon0, lat0, k0, fe, fnn } => match k % 5 {
            0 => *lon0 = ml(*lon0),
            1 => *lat0 = (*lat0 * 0.9 + d).clamp(-1.4, 1.4),
            2 => *k0 = mv(*k0),
            3 => *fe = mv(*fe),
            _ => *fnn = mv(*fnn),
        },
        ProjSpec::Web { lon0, lat0, fe, fnn } => match k % 4 {
            0 => *lon0 = ml(*lon0),
            1 => *lat0 = (*lat0 * 0.9 + d).clamp(-1.4, 1.4),
            2 => *fe = mv(*fe),
            _ => *fnn = mv(*fnn),
        },
        ProjSpec::UtmN(z) if k % 2 == 0 => *z = *z % 60 + 1,
        ProjSpec::UtmS(z) if k % 2 == 0 => *z = *z % 60 + 1,
        ProjSpec::UtmN(z) => q = ProjSpec::UtmS(*z),
        ProjSpec::UtmS(z) => q = ProjSpec::UtmN(*z),
    }
    q
}

type Sys = (String, D, GAx, PAx, RawProj);
fn systems(c: &(Sys, Sys, u8, u8, f64)) -> R {
    let (x, y, how, k, d) = c;
    let mut z = x.clone();
    let pa = x.4.resolve(0.3);
    let mut pb = pa.clone();
    match how {
        0 => z.0 = y.0.clone(),
        1..=9 => z.1 = vary(&x.1, &y.1, *k, *d).0,
        10 | 11 => z.2 = y.2,
        12 | 13 => z.3 = y.3,
        14 => pb = y.4.resolve(0.3),
        15 | 16 => pb = proj_vary(&pa, *k, *d),
        17 => z.0.push(' '),
        _ => {}
    }
    let id_eq = x.0 == z.0;
    let da = vary(&x.1, &z.1, 8, 0.0).1;
    // units are compared as given
    let gx = x.2 == z.2;
    let px = x.3 == z.3;
    let pr = pa == pb;
    let (d1, d2) = (x.1.build(), z.1.build());
    let s = |t: &str| smol_str::SmolStr::new(t);
    let (a, b) = (GeocentricCrs { id: s(&x.0), datum: d1.clone(), axes: GeocentricAxes::XYZ }, GeocentricCrs { id: s(&z.0), datum: d2.clone(), axes: GeocentricAxes::XYZ });
    same!(a, b, id_eq && da, "geocentric systems");
    ensure!(a.id() == x.0 && a.dim() == 3, "geocentric system {:?} has id {:?} and dimension {}", x.0, a.id(), a.dim());
    let (a, b) = (GeographicCrs { id: s(&x.0), datum: d1.clone(), axes: x.2.build() }, GeographicCrs { id: s(&z.0), datum: d2.clone(), axes: z.2.build() });
    axes_differ(&a.axes, &b.axes, gx)?;
    same!(a, b, id_eq && da && gx, "geographic systems");
    ensure!(a.id() == x.0 && a.dim() == x.2.dim(), "geographic system {:?} has id {:?} and dimension {}", x.0, a.id(), a.dim());
    let (a, b) = (
        ProjectedCrs { id: s(&x.0), datum: d1.clone(), axes: x.3.build(), projection: pa.build() },
        ProjectedCrs { id: s(&z.0), datum: d2.clone(), axes: z.3.build(), projection: pb.build() },
    );
    axes_differ(&a.axes, &b.axes, px)?;
    // parameters that differ only by rounding when built are left out
    let turn = pa.lon0() != pb.lon0() && adiff(pa.lon0(), pb.lon0()) < 1e-14;
    if !pr && pa.build() == pb.build() && (*d < 1e-13 || turn) {
        return triv("projection parameters round alike");
    }
    same!(a.projection, b.projection, pr, "projections {pa:?} and {pb:?}");
    same!(a, b, id_eq && da && px && pr, "projected systems");
    ensure!(a.id() == x.0 && a.dim() == x.3.dim(), "projected system {:?} has id {:?} and dimension {}", x.0, a.id(), a.dim());
    nt(match (id_eq, da, gx && px, pr) {
        (true, true, true, true) => "equal",
        (false, true, true, true) => "identifier differs",
        (true, false, true, true) => "datum differs",
        (true, true, false, true) => "axes differ",
        (true, true, true, false) => "projection differs",
        _ => "several differ",
    })
}

pub fn property() -> Property {
    let sys = || (name(), dat(), gax(), pax(), raw_proj(0.06)).boxed();
    let d = || prop_oneof![4 => logpos(-13.0, -0.5), 1 => logpos(-16.0, -13.0)].boxed();
    Property {
        id: "C27",
        rule: "all pairs count except projections whose parameters round to the same value",
        assumptions: &["accessors return the numbers given at construction bit for bit"],
        facets: vec![
            facet("ellipsoids", 100_000, move || (e(), e(), 0..5u8, d()).boxed(), ellipsoids),
            facet("meridians", 60_000, move || (name(), name(), lon(), prop_oneof![Just(0.0), lon()], logu(-14.0, -0.5)).boxed(), meridians),
            facet("datums", 100_000, move || (dat(), dat(), 0..12u8, d()).boxed(), datums),
            facet("systems", 100_000, move || (sys(), sys(), 0..19u8, 0..12u8, d()).boxed(), systems),
        ],
    }
}
