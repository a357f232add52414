//! C06 cartesian and projected axes, straight-line distance
use crate::crsgen::*;
use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use geokit::cs::cartesian::geocentric::{GeocentricAxes, XYZ};
use geokit::cs::cartesian::projected::ENH;
use geokit::units::length::M;
use proptest::prelude::*;

const SENTINEL: f64 = -987654.25;
type V = (f64, f64, f64);

fn axes(c: &(PAx, V, f64)) -> R {
    let (ax, (x, y, z), junk) = *c;
    let s = ax.sizes();
    let a = ax.build();
    ensure!(a.dim() == ax.dim(), "{a:?} reports dimension {}", a.dim());
    let mut user = vec![x, y, z, junk, junk];
    if ax.dim() == 2 {
        user[2] = junk;
    }
    let e = a.normalize(&user);
    let close = |g: f64, w: f64| (g - w).abs() <= 4e-15 * w.abs();
    ensure!(close(e.easting.m(), x * s[0]), "{a:?} {user:?}: easting {}", e.easting);
    ensure!(close(e.northing.m(), y * s[1]), "{a:?} {user:?}: northing {}", e.northing);
    if ax.dim() == 3 {
        ensure!(close(e.height.m(), z * s[2]), "{a:?} {user:?}: height {}", e.height);
    } else {
        ensure!(e.height.m() == 0.0, "{a:?} {user:?}: 2D height {}", e.height);
    }
    ensure!(a.normalize(&user[..ax.dim()]) == e, "{a:?}: coordinates beyond the dimension matter");
    let mut out = vec![SENTINEL; 5];
    a.denormalize(e, &mut out);
    for i in 0..ax.dim() {
        ensure!(close(out[i], user[i]), "{a:?}: slot {i} {} came back as {}", user[i], out[i]);
    }
    for (i, v) in out.iter().enumerate().skip(ax.dim()) {
        ensure!(*v == SENTINEL, "{a:?}: undeclared slot {i} was written");
    }
    let mut out = vec![SENTINEL; ax.dim()];
    a.denormalize(ENH { easting: x * M, northing: y * M, height: z * M }, &mut out);
    for i in 0..ax.dim() {
        let w = [x, y, z][i] / s[i];
        ensure!(close(out[i], w), "{a:?}: slot {i} of ({x}, {y}, {z}) m written as {}, expected {w}", out[i]);
    }
    if x != y && y != z && x != 0.0 && y != 0.0 {
        nt(if ax.dim() == 3 { "3D" } else { "2D" })
    } else {
        triv("degenerate")
    }
}

fn geocentric(c: &(V, f64)) -> R {
    let ((x, y, z), junk) = *c;
    let a = GeocentricAxes::XYZ;
    ensure!(a.dim() == 3, "geocentric dimension {}", a.dim());
    let p = a.normalize(&[x, y, z, junk]);
    ensure!(p.x.m() == x && p.y.m() == y && p.z.m() == z, "({x}, {y}, {z}) normalizes to {p}");
    let mut out = [SENTINEL; 5];
    a.denormalize(p, &mut out);
    ensure!(out == [x, y, z, SENTINEL, SENTINEL], "({x}, {y}, {z}) comes back as {out:?}");
    if x != y && y != z {
        nt("geocentric")
    } else {
        triv("degenerate")
    }
}

fn hyp3(d: [f64; 3]) -> f64 {
    let m = d.iter().fold(0f64, |a, b| a.max(b.abs()));
    if m == 0.0 {
        return 0.0;
    }
    m * d.iter().map(|x| (x / m) * (x / m)).sum::<f64>().sqrt()
}

fn distance(c: &(V, V)) -> R {
    let (p, q) = *c;
    let want = hyp3([p.0 - q.0, p.1 - q.1, p.2 - q.2]);
    let xyz = |v: V| XYZ { x: v.0 * M, y: v.1 * M, z: v.2 * M };
    let enh = |v: V| ENH { easting: v.0 * M, northing: v.1 * M, height: v.2 * M };
    for (what, d, r, zero) in [
        ("XYZ", xyz(p).dist_to(xyz(q)).m(), xyz(q).dist_to(xyz(p)).m(), xyz(p).dist_to(xyz(p)).m()),
        ("ENH", enh(p).dist_to(enh(q)).m(), enh(q).dist_to(enh(p)).m(), enh(p).dist_to(enh(p)).m()),
    ] {
        ensure!((d - want).abs() <= 1e-14 * want, "{what} distance {p:?} to {q:?} = {d}, expected {want}");
        ensure!((r - d).abs() <= 1e-14 * want, "{what} distance is not symmetric: {d} and {r}");
        ensure!(zero == 0.0, "{what} distance of {p:?} to itself is {zero}");
        ensure!(d >= 0.0, "{what} distance {d} is negative");
    }
    if want > 0.0 {
        nt("distinct")
    } else {
        triv("same point")
    }
}
fn coord() -> BoxedStrategy<f64> {
    prop_oneof![4 => metres(), 1 => logu(-150.0, 150.0), 1 => Just(0.0)].prop_map(|v| if v.abs() < 1e-200 { 0.0 } else { v }).boxed()
}
fn v() -> BoxedStrategy<V> {
    (coord(), coord(), coord()).boxed()
}

pub fn property() -> Property {
    Property {
        id: "C06",
        rule: "coordinates are pairwise different and non-zero (axes), points differ (distance)",
        assumptions: &["relative rounding 4e-15 per conversion, 1e-14 for distances; magnitudes from 1e-280 to 1e280"],
        facets: vec![
            facet("projected-axes", 150_000, || (pax(), (real(), real(), real()), real()).boxed(), axes),
            facet("geocentric-axes", 60_000, || ((real(), real(), real()), real()).boxed(), geocentric),
            facet("distance", 150_000, || prop_oneof![
                3 => (v(), v()),
                2 => (v(), (tiny(), tiny(), tiny())).prop_map(|(p, d)| (p, (p.0 + d.0, p.1 + d.1, p.2 + d.2))),
                1 => (v(), v(), -280.0..280.0f64).prop_map(|(p, q, e)| {
                    // the same figure at any magnitude
                    let m = [p.0, p.1, p.2, q.0, q.1, q.2].iter().fold(0f64, |a, b| a.max(b.abs()));
                    let f = 10f64.powf(e) / if m > 0.0 { m } else { 1.0 };
                    ((p.0 * f, p.1 * f, p.2 * f), (q.0 * f, q.1 * f, q.2 * f))
                }),
                1 => (v(), 0..3u8, coord()).prop_map(|(p, k, x)| { let mut q = p; match k { 0 => q.0 = x, 1 => q.1 = x, _ => q.2 = x }; (p, q) }),
            ].boxed(), distance),
        ],
    }
}
