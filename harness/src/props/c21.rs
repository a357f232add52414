//! C21 backward undoes forward, exchange, chains
use super::c20::*;
use crate::crsgen::*;
use crate::engine::*;
use crate::ensure;
use crate::oracle;
use geokit::transformations::CrsTransformation;
use proptest::prelude::*;

fn merc(v: &[&Sys]) -> bool {
    v.iter().any(|s| s.mercator())
}
fn cls(a: &Sys, b: &Sys) -> R {
    match (&a.shift, &b.shift) {
        (Shift::None, Shift::None) => nt("no shift"),
        (Shift::Helmert(..), _) | (_, Shift::Helmert(..)) => nt("seven-parameter"),
        _ => nt("translation"),
    }
}
/// tolerance of going there and back between two systems
fn rt_tol(a: &Sys, b: &Sys, p: [f64; 3], w: [f64; 3]) -> f64 {
    2.0 * (a.tol(p[0], p[1]) + b.tol(w[0], w[1])) + 1e-14 * p[2].abs()
}

fn round_trip(c: &(Sys, Sys, [f64; 3], bool)) -> R {
    let (a, b, p, keep2d) = c;
    // coordinates start in `a`, pass through a 3D `b`
    let b = &to3d(b);
    let a = &(if *keep2d { a.clone() } else { to3d(a) });
    let mut p = clamp_lat(*p, merc(&[a, b]));
    if a.crs.dim() == 2 {
        p[2] = 0.0;
    }
    let w = model(a, b, p);
    let tol = rt_tol(a, b, p, w);
    let start = a.crs.user(p[0], p[1], p[2]);
    // forward then backward with a as source
    let t = tf(a, b);
    let mut mid = vec![f64::NAN; b.crs.dim()];
    let mut end = vec![f64::NAN; a.crs.dim()];
    if let Err(e) = t.fwd(&start, &mut mid).and_then(|_| t.bwd(&mid, &mut end)) {
        crate::fail!("{a:?} to {b:?}: {start:?} forward and backward fails: {e:?}");
    }
    let e = a.crs.err(&end, p[0], p[1], p[2]);
    margin("fwd bwd", e / tol, || format!("{c:?} off {e:e} tol {tol:e}"));
    ensure!(e <= tol, "{a:?} to {b:?}: {start:?} forward is {mid:?}, backward {end:?}, {e:e} m from the start (allowed {tol:e})");
    // backward then forward with a as destination
    let t = tf(b, a);
    let mut mid2 = vec![f64::NAN; b.crs.dim()];
    let mut end2 = vec![f64::NAN; a.crs.dim()];
    if let Err(e) = t.bwd(&start, &mut mid2).and_then(|_| t.fwd(&mid2, &mut end2)) {
        crate::fail!("{b:?} to {a:?}: {start:?} backward and forward fails: {e:?}");
    }
    let e = a.crs.err(&end2, p[0], p[1], p[2]);
    ensure!(e <= tol, "{b:?} to {a:?}: {start:?} backward is {mid2:?}, forward {end2:?}, {e:e} m from the start (allowed {tol:e})");
    // exchange: forward of (a, b) is backward of (b, a)
    let x = [mid.clone(), mid2.clone()].map(|m| b.crs.err(&m, w[0], w[1], w[2]));
    let btol = a.tol(p[0], p[1]) + b.tol(w[0], w[1]);
    ensure!(x[0] <= btol && x[1] <= btol, "{a:?} to {b:?} gives {mid:?} from {start:?}, backward of the exchanged transformation gives {mid2:?} ({x:?} m from the expected position)");
    let same: f64 = mid.iter().zip(&mid2).map(|(u, v)| (u - v).abs() / (1.0 + u.abs())).fold(0.0, f64::max);
    ensure!(same <= 1e-9, "{a:?} to {b:?} gives {mid:?} from {start:?}, backward of the exchanged transformation gives {mid2:?}");
    cls(a, b)
}

/// 2D to 2D on one datum without shift
fn flat(c: &(Sys, Sys, [f64; 3])) -> R {
    let (a, b, p) = c;
    let (mut a, mut b) = (a.clone(), b.clone());
    b.crs.datum = a.crs.datum.clone();
    a.shift = Shift::None;
    b.shift = Shift::None;
    let mut p = clamp_lat(*p, merc(&[&a, &b]));
    p[2] = 0.0;
    let (a, b) = (&a, &b);
    let start = a.crs.user(p[0], p[1], p[2]);
    let t = tf(a, b);
    let mut mid = vec![f64::NAN; b.crs.dim()];
    let mut end = vec![f64::NAN; a.crs.dim()];
    if let Err(e) = t.fwd(&start, &mut mid).and_then(|_| t.bwd(&mid, &mut end)) {
        crate::fail!("{a:?} to {b:?}: {start:?} forward and backward fails: {e:?}");
    }
    let tol = rt_tol(a, b, p, p);
    let (m, e) = (b.crs.err(&mid, p[0], p[1], 0.0), a.crs.err(&end, p[0], p[1], 0.0));
    ensure!(m <= tol, "{a:?} to {b:?}: {start:?} is {mid:?}, {m:e} m off");
    ensure!(e <= tol, "{a:?} to {b:?}: {start:?} forward is {mid:?}, backward {end:?}, {e:e} m from the start");
    nt(if a.crs.dim() == 2 && b.crs.dim() == 2 { "2D to 2D" } else { "with a 3D side" })
}

/// A walk through several systems, each hop forward or backward, against going directly.
fn chain(c: &(Vec<Sys>, Vec<(usize, bool)>, [f64; 3])) -> R {
    let (sys, hops, p) = c;
    let sys: Vec<Sys> = sys.iter().map(to3d).collect();
    let p = clamp_lat(*p, sys.iter().any(|s| s.mercator()));
    let mut at = 0usize;
    let mut cur = sys[0].crs.user(p[0], p[1], p[2]);
    let mut tol = sys[0].tol(p[0], p[1]);
    for (to, fwd) in hops {
        let to = to % sys.len();
        let (a, b) = (&sys[at], &sys[to]);
        let mut out = vec![f64::NAN; b.crs.dim()];
        let r = if *fwd { tf(a, b).fwd(&cur, &mut out) } else { tf(b, a).bwd(&cur, &mut out) };
        if let Err(e) = r {
            crate::fail!("{a:?} to {b:?}: {cur:?} fails: {e:?}");
        }
        at = to;
        cur = out;
        let w = model(&sys[0], &sys[at], p);
        tol += a.tol(w[0], w[1]) + b.tol(w[0], w[1]);
        let e = sys[at].crs.err(&cur, w[0], w[1], w[2]);
        ensure!(e <= tol, "after hops {hops:?} through {sys:?} starting at {p:?}: at {cur:?} in system {at}, {e:e} m from the expected position (allowed {tol:e})");
    }
    // directly
    let mut out = vec![f64::NAN; sys[at].crs.dim()];
    let start = sys[0].crs.user(p[0], p[1], p[2]);
    if let Err(e) = tf(&sys[0], &sys[at]).fwd(&start, &mut out) {
        crate::fail!("{:?} to {:?}: {start:?} fails: {e:?}", sys[0], sys[at]);
    }
    let w = model(&sys[0], &sys[at], p);
    let e = sys[at].crs.err(&out, w[0], w[1], w[2]);
    ensure!(e <= tol, "directly from {:?} to {:?}: {start:?} becomes {out:?}, {e:e} m off", sys[0], sys[at]);
    if hops.len() < 2 {
        triv("single hop")
    } else {
        nt("chain")
    }
}

pub fn property() -> Property {
    Property {
        id: "C21",
        rule: "round trips all count; chains when they have at least two hops",
        assumptions: &[
            "as C20; intermediate systems are 3D where heights must survive",
            "seven-parameter shifts invert to second order only",
        ],
        facets: vec![
            facet("round-trip", 80_000, || (raw_sys(), raw_sys(), 0..6u8, point(), any::<bool>()).prop_map(|(a, b, rel, p, k)| {
                let b = related(&a, &b, rel);
                (resolve(&a, p[0]), resolve(&b, p[0]), p, k)
            }).boxed(), round_trip),
            facet("flat", 40_000, || (raw_sys(), raw_sys(), point()).prop_map(|(a, mut b, p)| {
                b.0.datum = a.0.datum.clone();
                (resolve(&a, p[0]), resolve(&b, p[0]), p)
            }).boxed(), flat),
            facet("chain", 30_000, || (prop::collection::vec(raw_sys(), 2..5), prop::collection::vec((0..12usize, any::<bool>()), 1..7), point())
                .prop_map(|(v, h, p)| (v.iter().map(|r| resolve(r, p[0])).collect(), h, p)).boxed(), chain),
        ],
    }
}
