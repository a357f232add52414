//! C14 UTM
use super::c13::{ell_spec, fwd_inv};
use crate::crsgen::*;
use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use proptest::prelude::*;

fn utm(zone: u8, south: bool) -> ProjSpec {
    if south {
        ProjSpec::UtmS(zone)
    } else {
        ProjSpec::UtmN(zone)
    }
}
fn around() -> BoxedStrategy<f64> {
    prop_oneof![
        2 => Just(0.0),
        5 => -0.0525..0.0525f64,
        2 => -0.3..0.3f64,
        2 => (-3i32..=3).prop_map(|d| d as f64 * D2R),
    ]
    .boxed()
}

fn exact(c: &(EllSpec, u8, bool, f64, f64)) -> R {
    let (es, zone, south, dlon, lat) = c;
    fwd_inv(es, &utm(*zone, *south), *dlon, *lat)?;
    nt(match (south, *lat < 0.0) {
        (true, true) => "south zone, south",
        (true, false) => "south zone, north",
        (false, true) => "north zone, south",
        (false, false) => "north zone, north",
    })
}

/// same as the transverse Mercator with the standard parameters
fn as_tm(c: &(EllSpec, u8, bool, f64, f64, f64)) -> R {
    let (es, zone, south, dlon, lat, h) = c;
    let e = es.build();
    let us = utm(*zone, *south);
    let u = us.build().applied_to(&e);
    let tm = ProjSpec::Tm { lon0: utm_lon0(*zone), lat0: 0.0, k0: 0.9996, fe: 5e5, fnn: if *south { 1e7 } else { 0.0 } };
    let t = tm.build().applied_to(&e);
    let p = mkllh(us.lon0() + dlon, *lat, *h);
    let (Ok(a), Ok(b)) = (u.proj(p), t.proj(p)) else { crate::fail!("zone {zone} does not project {dlon}, {lat}") };
    let tol = 1e-6 * (es.ell().a / 6.4e6).max(1.0);
    ensure!((a.easting.m() - b.easting.m()).abs() <= tol && (a.northing.m() - b.northing.m()).abs() <= tol && a.height == b.height,
        "zone {zone} (south {south}) at {dlon}, {lat} on {es:?}: UTM gives {a:?}, the transverse Mercator {b:?}");
    let (Ok(qa), Ok(qb)) = (u.unproj(a), t.unproj(a)) else { crate::fail!("zone {zone} does not unproject {a:?}") };
    ensure!(adiff(qa.lon.angle().rad(), qb.lon.angle().rad()) * lat.cos() < 1e-11 && adiff(qa.lat.angle().rad(), qb.lat.angle().rad()) < 1e-11,
        "zone {zone} (south {south}) {a:?} unprojects to {qa:?}, with the transverse Mercator to {qb:?}");
    nt("pair")
}

fn relations(c: &(EllSpec, u8, f64, f64)) -> R {
    let (es, zone, dlon, lat) = c;
    let e = es.build();
    let tol = 1e-5 * (es.ell().a / 6.4e6).max(1.0);
    let lon = utm_lon0(*zone) + dlon;
    let pr = |s: ProjSpec, lo: f64, la: f64| s.build().applied_to(&e).proj(mkllh(lo, la, 0.0)).map(|g| (g.easting.m(), g.northing.m()));
    let next = if *zone == 60 { 1 } else { zone + 1 };
    let (Ok(n), Ok(s), Ok(sm), Ok(nx)) = (
        pr(ProjSpec::UtmN(*zone), lon, *lat),
        pr(ProjSpec::UtmS(*zone), lon, *lat),
        pr(ProjSpec::UtmS(*zone), lon, -lat),
        pr(ProjSpec::UtmN(next), lon + 6.0 * D2R, *lat),
    ) else {
        crate::fail!("zone {zone} does not project {dlon}, {lat}")
    };
    ensure!((s.0 - n.0).abs() <= tol && (s.1 - n.1 - 1e7).abs() <= tol, "zone {zone} at {dlon}, {lat}: north {n:?}, south {s:?}");
    ensure!((sm.1 + n.1 - 1e7).abs() <= tol, "zone {zone} at {dlon}: northing {} at {lat} north and {} at its mirror image in the south grid", n.1, sm.1);
    ensure!((nx.0 - n.0).abs() <= tol && (nx.1 - n.1).abs() <= tol, "zones {zone} and {next} six degrees apart: {n:?} and {nx:?}");
    // zone 1 starts at 180 W: its west edge and the east edge of zone 60 are the same meridian
    let (Ok(w), Ok(ea)) = (pr(ProjSpec::UtmN(1), -180.0 * D2R, *lat), pr(ProjSpec::UtmN(60), 180.0 * D2R, *lat)) else {
        crate::fail!("zones 1 and 60 do not project the antimeridian")
    };
    ensure!((w.0 + ea.0 - 1e6).abs() <= tol && (w.1 - ea.1).abs() <= tol && (w.0 < 5e5 || lat.cos() < 1e-6), "zone 1 and zone 60 disagree on the antimeridian at {lat}: {w:?} {ea:?}");
    nt("zone relations")
}

pub fn property() -> Property {
    Property {
        id: "C14",
        rule: "every (ellipsoid, zone, hemisphere, position) counts",
        assumptions: &["as C13; zones 1..60"],
        facets: vec![
            facet("exact", 60_000, || (ell_spec(), 1..=60u8, any::<bool>(), around(), lat()).boxed(), exact),
            facet("as-tm", 60_000, || (ell_spec(), 1..=60u8, any::<bool>(), around(), lat(), height_mild()).boxed(), as_tm),
            facet("relations", 60_000, || (ell_spec(), 1..=60u8, around(), lat()).boxed(), relations),
        ],
    }
}
