//! C09 built-in objects against published values
use crate::crsgen::v3;
use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::{oracle, tables};
use geokit::geodesy::GeodeticDatum;
use proptest::prelude::*;

type P = (usize, f64, f64, f64);

fn ellipsoids(c: &P) -> R {
    let (i, lon, lat, h) = *c;
    let (name, e) = &tables::ellipsoids()[i];
    let w = tables::published(i);
    ensure!((e.a().m() - w.a).abs() <= 1e-6, "{name}: a = {} expected {}", e.a(), w.a);
    ensure!((e.b().m() - w.b).abs() <= 1e-5, "{name}: b = {} expected {}", e.b(), w.b);
    if w.f == 0.0 {
        ensure!(e.is_spherical() && e.f() == 0.0, "{name} should be a sphere, invf = {}", e.invf());
    } else {
        ensure!(!e.is_spherical(), "{name} should not be a sphere");
        let invf = 1.0 / w.f;
        ensure!((e.invf() - invf).abs() <= 1e-11 * invf, "{name}: inverse flattening {} expected {invf}", e.invf());
        ensure!((e.f() - w.f).abs() <= 1e-13, "{name}: flattening {} expected {}", e.f(), w.f);
    }
    let d = GeodeticDatum::new("d", e.clone(), tables::prime_meridians()[0].1.clone());
    let g = v3(d.llh_to_xyz(mkllh(lon, lat, h)));
    let x = oracle::llh_to_xyz(&w, lon, lat, h);
    ensure!(oracle::dist(g, x) <= 3e-5, "{name}: position of ({lon}, {lat}, {h}) is {g:?}, expected {x:?}");
    nt("ellipsoid")
}
fn meridians(c: &P) -> R {
    let (i, lon, lat, h) = *c;
    let (name, p) = &tables::prime_meridians()[i];
    let w = tables::published_pm_deg(i);
    let g = p.lon().angle().rad() / D2R;
    // Copenhagen is catalogued as 12.57788 or 12°34'40.35", which differ
    let tol = if *name == "COPENHAGEN" { 1e-5 } else { 1e-10 };
    ensure!((g - w).abs() <= tol, "{name}: Greenwich longitude {g} deg, expected {w}");
    let we = tables::index_of("WGS84");
    let d = GeodeticDatum::new("d", tables::ellipsoids()[we].1.clone(), p.clone());
    let ell = tables::published(we);
    let g = v3(d.llh_to_xyz(mkllh(lon, lat, h)));
    let x = oracle::llh_to_xyz(&ell, lon + w * D2R, lat, h);
    ensure!(oracle::dist(g, x) <= tol * D2R * 1.01 * (ell.a + h.abs()) + 1e-5, "{name}: position of ({lon}, {lat}, {h}) is {g:?}, expected {x:?}");
    nt("prime meridian")
}
fn datums(c: &P) -> R {
    let (i, lon, lat, h) = *c;
    let (d, id, en) = &tables::datums()[i];
    ensure!(d.id() == *id, "datum id {} expected {id}", d.id());
    let k = tables::index_of(en);
    let w = tables::published(k);
    ensure!(*d.ellipsoid() == tables::ellipsoids()[k].1, "{id}: ellipsoid {} expected {en}", d.ellipsoid());
    ensure!(*d.prime_meridian() == tables::prime_meridians()[0].1, "{id}: prime meridian {}", d.prime_meridian());
    let g = v3(d.llh_to_xyz(mkllh(lon, lat, h)));
    let x = oracle::llh_to_xyz(&w, lon, lat, h);
    ensure!(oracle::dist(g, x) <= 3e-5, "{id}: position of ({lon}, {lat}, {h}) is {g:?}, expected {x:?}");
    nt("datum")
}
fn pts(n: usize) -> BoxedStrategy<P> {
    (0..n, lon(), lat(), -1e5..1e6f64).boxed()
}

pub fn property() -> Property {
    Property {
        id: "C09",
        rule: "every case checks one catalogue entry's parameters and a geocentric position computed with it",
        assumptions: &[
            "published values transcribed by hand in tables.rs from EPSG / PROJ lists; axes to 1e-5 m, inverse flattening to 1e-11 relative, prime meridians to 1e-10 degree (Copenhagen, published in two roundings, to 1e-5)",
        ],
        facets: vec![
            facet("ellipsoids", 60_000, || pts(tables::ellipsoids().len()), ellipsoids),
            facet("meridians", 30_000, || pts(tables::prime_meridians().len()), meridians),
            facet("datums", 20_000, || pts(tables::datums().len()), datums),
        ],
    }
}
