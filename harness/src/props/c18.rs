//! C18 inverse geodesics
use super::c17::{flat, earth, series, SOLVERS};
use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::oracle::{self, Ell};
use geokit::geodesy::geodesics::{rapp::RappIterativeGeodisicSolver, vincenty::VincentyGeodesicSolver, Geodesic, GeodesicSolver};
use geokit::geodesy::Ellipsoid;
use proptest::prelude::*;
use std::f64::consts::{FRAC_PI_2, PI};

pub type Pt = (f64, f64);
pub fn inverse(k: usize, e: &Ellipsoid, p: Pt, q: Pt) -> Result<Geodesic, &'static str> {
    let (a, b) = ((mklon(p.0), mklat(p.1)), (mklon(q.0), mklat(q.1)));
    match k {
        1 => VincentyGeodesicSolver::new(e).solve_inverse(a, b),
        _ => RappIterativeGeodisicSolver::new(e).solve_inverse(a, b),
    }
}
fn cl(l: f64) -> f64 {
    oracle::norm_lon(l).clamp(-PI, PI)
}
fn clat(l: f64) -> f64 {
    l.clamp(-FRAC_PI_2, FRAC_PI_2)
}
/// second point of a pair given the first
pub fn pairs() -> BoxedStrategy<(Pt, Pt)> {
    let any2 = (lon(), lat(), lon(), lat()).prop_map(|(a, b, c, d)| ((a, b), (c, d)));
    let near = (lon(), lat(), logpos(-13.0, -1.0), az(), any::<bool>()).prop_map(|(l, p, d, a, wide)| {
        let dl = d * a.sin() / if wide { p.cos().max(1e-9) } else { 1.0 };
        ((l, p), (cl(l + dl), clat(p + d * a.cos())))
    });
    let merid = (lon(), lat(), lat()).prop_map(|(l, p, q)| ((l, p), (l, q)));
    let over = (lon(), lat(), lat()).prop_map(|(l, p, q)| ((l, p), (if l > 0.0 { l - PI } else { l + PI }, q)));
    let over2 = (prop_oneof![Just(0.0), Just(FRAC_PI_2), Just(-FRAC_PI_2), Just(PI)], lat(), lat())
        .prop_map(|(l, p, q)| ((l, p), (if l > 0.0 { l - PI } else { l + PI }, q)));
    let par = (lon(), lat(), lon()).prop_map(|(l, p, m)| ((l, p), (m, p)));
    let equ = (lon(), lon()).prop_map(|(l, m)| ((l, 0.0), (m, 0.0)));
    let anti = (lon(), lat(), logpos(-8.0, -0.5), az()).prop_map(|(l, p, d, a)| ((l, p), (cl(l + PI + d * a.sin()), clat(-p + d * a.cos()))));
    let same = (lon(), lat()).prop_map(|(l, p)| ((l, p), (l, p)));
    let same2 = (prop_oneof![Just((PI, -PI)), Just((-PI, PI)), Just((0.0, -0.0))], lat()).prop_map(|((l, m), p)| ((l, p), (m, p)));
    let pole = (any::<bool>(), lon(), lon(), lat()).prop_map(|(s, l, m, p)| ((l, if s { FRAC_PI_2 } else { -FRAC_PI_2 }), (m, p)));
    let pole2 = (any::<bool>(), lon(), lon(), lat()).prop_map(|(s, l, m, p)| ((m, p), (l, if s { FRAC_PI_2 } else { -FRAC_PI_2 })));
    prop_oneof![6 => any2, 4 => near, 2 => merid, 2 => over, 1 => over2, 2 => par, 2 => equ, 2 => anti, 1 => same, 1 => same2, 1 => pole, 1 => pole2].boxed()
}
pub fn sep(ell: &Ell, p: Pt, q: Pt) -> f64 {
    // separation on the auxiliary sphere
    let u = |p: Pt| {
        let x = oracle::llh_to_xyz(ell, p.0, p.1, 0.0);
        [x[0] / ell.a, x[1] / ell.a, x[2] / ell.b]
    };
    let (a, b) = (u(p), u(q));
    let c = [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]];
    oracle::norm(c).atan2(oracle::dot(a, b))
}
/// nearly antipodal: no result is promised
pub fn antipodal(ell: &Ell, p: Pt, q: Pt) -> bool {
    PI - sep(ell, p, q) < (4.0 * PI * ell.f).max(1e-3)
}
pub fn len_tol(k: usize, ell: &Ell) -> f64 {
    ell.a * (if k == 1 { 2e-12 } else { 2e-13 } + 2.0 * series(k, ell))
}

fn one(c: &(usize, EllSpec, (Pt, Pt))) -> R {
    let (k, es, (p, q)) = c;
    let ell = es.ell();
    let e = es.build();
    let who = SOLVERS[*k];
    let sg = sep(&ell, *p, *q);
    let anti = antipodal(&ell, *p, *q);
    let g = match inverse(*k, &e, *p, *q) {
        Ok(g) => g,
        Err(m) => {
            ensure!(anti, "{who}: inverse from {p:?} to {q:?} on {es:?} fails: {m} (separation {} degrees)", sg / D2R);
            return nt("nearly antipodal, refused");
        }
    };
    ensure!(g.p1 == (mklon(p.0), mklat(p.1)) && g.p2 == (mklon(q.0), mklat(q.1)), "{who}: inverse from {p:?} to {q:?} reports {:?} to {:?}", g.p1, g.p2);
    let (a1, a2, s) = (g.alpha1.angle().rad(), g.alpha2.angle().rad(), g.s.m());
    ensure!(a1.is_finite() && a2.is_finite() && s.is_finite() && s >= 0.0, "{who}: inverse from {p:?} to {q:?} on {es:?} gives azimuths {a1}, {a2}, length {s}");
    let (px, qx) = (oracle::llh_to_xyz(&ell, p.0, p.1, 0.0), oracle::llh_to_xyz(&ell, q.0, q.1, 0.0));
    let chord = oracle::dist(px, qx);
    let tol = len_tol(*k, &ell);
    // no amount of azimuth error matters to a zero length
    ensure!(s >= chord * (1.0 - 1e-12) - tol, "{who}: inverse from {p:?} to {q:?} on {es:?} is {s} m, less than the straight line {chord} m");
    let ge = oracle::great_ellipse_len(&ell, px, qx);
    // near the antipode the azimuth is ill-conditioned, and with it the length found
    let slack = if anti { 1e-9 * ell.a } else { 0.0 };
    margin(if anti { ["", "v len anti", "r len anti"][*k] } else { ["", "v len", "r len"][*k] }, (s - ge) / (tol + slack), || format!("{c:?}"));
    ensure!(s <= ge + tol + slack, "{who}: inverse from {p:?} to {q:?} on {es:?} is {s} m, longer than the great ellipse, {ge} m");
    if chord <= 2e-15 * ell.a {
        ensure!(s <= 4e-15 * ell.a + 1e-9, "{who}: coincident points {p:?} and {q:?} are {s} m apart");
        return nt("coincident");
    }
    let w = oracle::direct(&ell, p.0, p.1, a1, s);
    let d = oracle::dist(w.pos, qx);
    // rounding of the coordinates turns the azimuth of short lines
    let ltol = 2.0 * tol + if anti { ell.a / 6.4e6 } else { 0.0 };
    margin(if anti { ["", "v land anti", "r land anti"][*k] } else { ["", "v land", "r land"][*k] }, d / ltol, || format!("{c:?} off {d:e} tol {ltol:e}"));
    ensure!(d <= ltol, "{who}: inverse from {p:?} to {q:?} on {es:?} gives azimuth {a1} and {s} m, which ends {d:e} m from the target (allowed {ltol:e}; separation {} degrees)", sg / D2R);
    let h = oracle::heading(q.0, q.1, a2);
    let dh = oracle::dist(h, w.head);
    let htol = 4.0 * ltol / ell.a / sg.sin().max(1e-3) + 2e-15 / sg.sin().max(1e-16) + 1e-12;
    margin(if anti { ["", "v head anti", "r head anti"][*k] } else { ["", "v head", "r head"][*k] }, dh / htol, || format!("{c:?} off {dh:e} tol {htol:e}"));
    ensure!(dh <= htol, "{who}: inverse from {p:?} to {q:?} on {es:?} gives end azimuth {a2}, headings differ by {dh:e} rad (allowed {htol:e}; separation {} degrees)", sg / D2R);
    if anti {
        return nt("nearly antipodal, solved");
    }
    let Ok(r) = inverse(*k, &e, *q, *p) else { crate::fail!("{who}: inverse from {p:?} to {q:?} works, but fails from {q:?} to {p:?}") };
    ensure!((r.s.m() - s).abs() <= 2.0 * tol, "{who}: {s} m from {p:?} to {q:?} and {} m back", r.s.m());
    let opp = |pt: Pt, a: f64, b: f64| {
        let (x, y) = (oracle::heading(pt.0, pt.1, a), oracle::heading(pt.0, pt.1, b));
        oracle::norm([x[0] + y[0], x[1] + y[1], x[2] + y[2]])
    };
    let (b1, b2) = (r.alpha1.angle().rad(), r.alpha2.angle().rad());
    ensure!(opp(*q, a2, b1) <= 2.0 * htol && opp(*p, a1, b2) <= 2.0 * htol, "{who}: azimuths {a1}, {a2} from {p:?} to {q:?} and {b1}, {b2} back are not opposite");
    let dl = adiff(p.0, q.0);
    if s < 1e4 {
        nt("short")
    } else if dl < 1e-12 {
        nt("meridian")
    } else if PI - dl < 1e-12 {
        nt("over a pole")
    } else if p.1 == 0.0 && q.1 == 0.0 {
        nt("equator")
    } else {
        nt("general")
    }
}

/// Along meridians and the equator the longitude series play no part: the length is good to the length series alone.
fn axial(c: &(usize, EllSpec, f64, f64, f64, u8)) -> R {
    let (k, es, lon, p, q, kind) = c;
    let ell = es.ell();
    let e = es.build();
    let who = SOLVERS[*k];
    let half = |l: f64| if l > 0.0 { l - PI } else { l + PI };
    let arc = |p: f64| oracle::marc(&ell, oracle::C::re(p)).0;
    let (a, b, want, sg) = match kind {
        0 => ((*lon, *p), (*lon, *q), (arc(*q) - arc(*p)).abs(), (q - p).abs()),
        1 => {
            // over the nearer pole
            let sg = PI - (p + q).abs();
            ((*lon, *p), (half(*lon), *q), 2.0 * arc(FRAC_PI_2) - (arc(*p) + arc(*q)).abs(), sg)
        }
        _ => {
            let m = cl(lon + 2.0 * p);
            let d = adiff(*lon, m);
            ((*lon, 0.0), (m, 0.0), ell.a * d, d)
        }
    };
    if antipodal(&ell, a, b) || PI - sg < 4.0 * PI * ell.f {
        return reject();
    }
    let g = match inverse(*k, &e, a, b) {
        Ok(g) => g,
        Err(m) => crate::fail!("{who}: inverse from {a:?} to {b:?} on {es:?} fails: {m}"),
    };
    let f = ell.f;
    let tr = match (kind, k) {
        (2, _) => 0.0,
        (_, 1) => 0.25 * f.powi(4),
        _ => 0.016 * (ell.e2 / (1.0 - ell.e2)).powi(5) * (1.0 + sg),
    };
    let conv = if *kind == 2 && *k == 1 { 4e-12 } else { 3e-14 };
    let tol = ell.a * (conv + tr);
    let d = (g.s.m() - want).abs();
    margin(["v m", "v over", "v eq", "r m", "r over", "r eq"][(*k - 1) * 3 + *kind as usize], d / tol, || format!("{c:?} off {d:e} tol {tol:e}"));
    ensure!(d <= tol, "{who}: inverse from {a:?} to {b:?} on {es:?} is {} m, the arc is {want} m (allowed {tol:e})", g.s.m());
    nt(["meridian", "over a pole", "equator"][*kind as usize])
}

pub fn property() -> Property {
    Property {
        id: "C18",
        rule: "every pair of points counts",
        assumptions: &[
            "the result is followed with the direct oracle and must land on the second point; its length must not exceed the great ellipse arc nor be less than the chord",
            "nearly antipodal means within 4*pi*f (2.4 degrees on Earth) of antipodal on the auxiliary sphere: refusal accepted there",
            "Karney's inverse is unimplemented in the crate and is not claimed",
        ],
        facets: vec![
            facet("inverse", 80_000, || (1..3usize, earth(), pairs()).boxed(), one),
            facet("axial", 40_000, || (1..3usize, prop_oneof![1 => earth(), 1 => flat(), 1 => (1e6..1e7f64, 200.0..800.0f64).prop_map(|(a, f)| EllSpec::Ainvf(a, f))], lon(), lat(), lat(), 0..3u8).boxed(), axial),
            facet("flattened", 30_000, || (1..3usize, flat(), pairs()).boxed(), one),
        ],
    }
}
