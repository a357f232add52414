//! C10 geodetic to geocentric
use crate::crsgen::v3;
use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::oracle;
use proptest::prelude::*;

pub fn any_height() -> BoxedStrategy<f64> {
    prop_oneof![
        2 => Just(0.0),
        4 => height_mild(),
        2 => -6.3e6..1e8f64,
        2 => logu(-6.0, 9.0),
        1 => metres(),
    ]
    .boxed()
}
/// very flattened shapes are allowed here: the forward formula is closed
pub fn wide_datum() -> BoxedStrategy<DatumSpec> {
    prop_oneof![
        4 => datum(10.0),
        1 => (datum(10.0), 1e3..1e8f64, 1.05..20.0f64).prop_map(|(d, a, f)| DatumSpec { ell: EllSpec::Ainvf(a, f), pm: d.pm }),
    ]
    .boxed()
}
/// table precision of catalogue ellipsoids
pub fn cat_slack(d: &DatumSpec) -> f64 {
    let _ = d;
    0.0
}

fn forward(c: &(DatumSpec, f64, f64, f64)) -> R {
    let (d, lon, lat, h) = c;
    let datum = d.build();
    let ell = d.ell.ell();
    let g = v3(datum.llh_to_xyz(mkllh(*lon, *lat, *h)));
    let w = oracle::llh_to_xyz(&ell, lon + d.pm.lon(), *lat, *h);
    let amp = ell.a / ell.b;
    let tol = 8e-15 * (ell.a * amp * amp + h.abs()) + cat_slack(d);
    let e = oracle::dist(g, w);
    ensure!(e <= tol, "({lon}, {lat}, {h}) on {d:?}: {g:?}, expected {w:?} (off by {e:e} m)");
    // metamorphic: raising the height by dh moves by dh along the normal
    let dh = 1000.0;
    let g2 = v3(datum.llh_to_xyz(mkllh(*lon, *lat, h + dh)));
    let dl = lon + d.pm.lon();
    let up = [lat.cos() * dl.cos(), lat.cos() * dl.sin(), lat.sin()];
    let mv = oracle::sub(g2, g);
    for i in 0..3 {
        ensure!((mv[i] - dh * up[i]).abs() <= 4.0 * tol + 1e-9, "raising ({lon}, {lat}, {h}) by {dh} m moves by {mv:?}, expected along {up:?}");
    }
    // the position does not depend on which turn the longitude is written in
    let g3 = v3(datum.llh_to_xyz(mkllh(lon + 2.0 * std::f64::consts::PI, *lat, *h)));
    ensure!(oracle::dist(g3, g) <= 2.0 * tol + 1e-8, "longitude {lon} plus a turn moves the position by {} m", oracle::dist(g3, g));
    let pm = d.pm.lon() != 0.0;
    match (ell.f == 0.0, pm) {
        (true, true) => nt("sphere, other meridian"),
        (true, false) => nt("sphere"),
        (false, true) => nt("ellipsoid, other meridian"),
        (false, false) => nt("ellipsoid"),
    }
}

/// Same physical point described with two prime meridians
fn meridian_change(c: &(DatumSpec, PmSpec, f64, f64, f64)) -> R {
    let (d, pm2, lon, lat, h) = c;
    let d2 = DatumSpec { ell: d.ell.clone(), pm: pm2.clone() };
    let lon2 = lon + d.pm.lon() - pm2.lon();
    let a = v3(d.build().llh_to_xyz(mkllh(*lon, *lat, *h)));
    let b = v3(d2.build().llh_to_xyz(mkllh(lon2, *lat, *h)));
    let ell = d.ell.ell();
    let amp = ell.a / ell.b;
    let tol = 2e-14 * (ell.a * amp + h.abs());
    ensure!(oracle::dist(a, b) <= tol, "({lon}, {lat}, {h}) from meridian {:?} and ({lon2}) from {pm2:?} differ by {} m", d.pm, oracle::dist(a, b));
    if d.pm == *pm2 {
        triv("same meridian")
    } else {
        nt("two meridians")
    }
}

pub fn property() -> Property {
    Property {
        id: "C10",
        rule: "every (datum, position) counts; meridian changes count when the meridians differ",
        assumptions: &["tolerance 8e-15*(a*(a/b)^2 + |h|)"],
        facets: vec![
            facet("forward", 200_000, || (wide_datum(), lon(), lat(), any_height()).boxed(), forward),
            facet("meridian-change", 60_000, || (wide_datum(), pm(), lon(), lat(), any_height()).boxed(), meridian_change),
        ],
    }
}
