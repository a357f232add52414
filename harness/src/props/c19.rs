//! C19 distances of reference systems
use super::c17::travel;
use super::c18::{antipodal, len_tol, pairs, Pt};
use crate::crsgen::*;
use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::oracle;
use proptest::prelude::*;
use std::f64::consts::PI;

type P3 = [f64; 3];

fn geo_crs(d: &DatumSpec, a: GAx) -> CrsSpec {
    CrsSpec { datum: d.clone(), kind: Kind::Geog(a) }
}
fn gax2() -> BoxedStrategy<GAx> {
    gax().prop_map(|a| match a {
        GAx::Enu(a, _) => GAx::En(a),
        GAx::Neu(a, _) => GAx::Ne(a),
        o => o,
    }).boxed()
}
fn gax3() -> BoxedStrategy<GAx> {
    (any::<bool>(), angu(), lenu()).prop_map(|(k, a, l)| if k { GAx::Enu(a, l) } else { GAx::Neu(a, l) }).boxed()
}

/// 2D geographic: the end of a geodesic of known length
fn geodesic(c: &(DatumSpec, GAx, f64, f64, f64, f64)) -> R {
    let (d, ax, lon, lat, az, u) = c;
    let ell = d.ell.ell();
    let s = u * PI * ell.b;
    let w = oracle::direct(&ell, *lon, *lat, *az, s);
    let (p, q): (Pt, Pt) = ((*lon, *lat), (oracle::norm_lon(w.lon), w.lat));
    if antipodal(&ell, p, q) {
        return reject();
    }
    let crs = geo_crs(d, *ax);
    let o = crs.build();
    let (a, b) = (ax.to_user(p.0, p.1, 0.0), ax.to_user(q.0, q.1, 0.0));
    let Ok(g) = o.as_crs().dist(&a, &b) else { crate::fail!("{crs:?}: distance from {a:?} to {b:?} fails") };
    let tol = 2.0 * len_tol(1, &ell) + 4e-15 * ell.a;
    ensure!((g.m() - s).abs() <= tol, "{crs:?}: distance from {a:?} to {b:?} is {} m, expected {s} m (allowed {tol:e})", g.m());
    nt("geographic 2D")
}

fn straight(c: &(DatumSpec, GAx, P3, P3)) -> R {
    let (d, ax, p, q) = c;
    let ell = d.ell.ell();
    let crs = geo_crs(d, *ax);
    let o = crs.build();
    let (a, b) = (ax.to_user(p[0], p[1], p[2]), ax.to_user(q[0], q[1], q[2]));
    let Ok(g) = o.as_crs().dist(&a, &b) else { crate::fail!("{crs:?}: distance from {a:?} to {b:?} fails") };
    let w = oracle::dist(oracle::llh_to_xyz(&ell, p[0], p[1], p[2]), oracle::llh_to_xyz(&ell, q[0], q[1], q[2]));
    let tol = 2e-14 * (ell.a + p[2].abs() + q[2].abs());
    ensure!((g.m() - w).abs() <= tol, "{crs:?}: distance from {a:?} to {b:?} is {} m, expected {w} m", g.m());
    nt("geographic 3D")
}

/// geocentric and projected: Euclidean distance in metres
fn cartesian(c: &(RawCrs, bool, P3, P3)) -> R {
    let (raw, geoc, p, q) = c;
    let mut crs = raw.resolve(0.0);
    crs.kind = if *geoc { Kind::Geoc } else { Kind::Proj(raw.p, raw.proj.resolve(0.0)) };
    let o = crs.build();
    let n = crs.dim();
    let size = match &crs.kind {
        Kind::Proj(a, _) => a.sizes(),
        _ => [1.0; 3],
    };
    let (a, b) = (&p[..n], &q[..n]);
    let Ok(g) = o.as_crs().dist(a, b) else { crate::fail!("{crs:?}: distance from {a:?} to {b:?} fails") };
    let mut sq = 0.0;
    let mut big = 0.0f64;
    for i in 0..n {
        sq += ((q[i] - p[i]) * size[i]).powi(2);
        big = big.max(p[i].abs() * size[i]).max(q[i].abs() * size[i]);
    }
    let w = sq.sqrt();
    ensure!((g.m() - w).abs() <= 1e-14 * big + 1e-14 * w, "{crs:?}: distance from {a:?} to {b:?} is {} m, expected {w} m", g.m());
    nt(match (geoc, n) {
        (true, _) => "geocentric",
        (_, 2) => "projected 2D",
        _ => "projected 3D",
    })
}

/// metric axioms on triples, and independence of how a position is written
fn axioms(c: &(RawCrs, GAx, u8, [P3; 3], i32)) -> R {
    let (raw, ax2, kind, pts, turns) = c;
    let mut crs = raw.resolve(0.0);
    crs.kind = match kind {
        0 => Kind::Geoc,
        1 | 2 => Kind::Geog(raw.g),
        _ => Kind::Proj(raw.p, raw.proj.resolve(0.0)),
    };
    let ell = crs.datum.ell.ell();
    let user = |p: &P3| -> Vec<f64> {
        match &crs.kind {
            Kind::Geog(a) => a.to_user(p[0], p[1], p[2]),
            k => {
                // any coordinates do
                let n = if let Kind::Proj(a, _) = k { a.dim() } else { 3 };
                [p[0] * ell.a, p[1] * ell.a, p[2]][..n].to_vec()
            }
        }
    };
    let is2d = crs.dim() == 2 && matches!(crs.kind, Kind::Geog(_));
    let us: Vec<Vec<f64>> = pts.iter().map(user).collect();
    let o = crs.build();
    let tol = if is2d { 2.0 * len_tol(1, &ell) } else { 0.0 } + 4e-14 * (ell.a + pts.iter().map(|p| p[2].abs()).fold(0.0, f64::max));
    let mut d = [[0.0f64; 3]; 3];
    for i in 0..3 {
        for j in 0..3 {
            if is2d && antipodal(&ell, (pts[i][0], pts[i][1]), (pts[j][0], pts[j][1])) {
                return triv("a pair is nearly antipodal");
            }
            match o.as_crs().dist(&us[i], &us[j]) {
                Ok(l) => d[i][j] = l.m(),
                Err(m) => crate::fail!("{crs:?}: distance from {:?} to {:?} fails: {m}", us[i], us[j]),
            }
            ensure!(d[i][j] >= 0.0 && d[i][j].is_finite(), "{crs:?}: distance from {:?} to {:?} is {}", us[i], us[j], d[i][j]);
        }
        ensure!(d[i][i] <= 1e-12 * ell.a / 6.4e6, "{crs:?}: distance from {:?} to itself is {} m", us[i], d[i][i]);
    }
    let tol = tol + 2e-14 * d.iter().flatten().fold(0.0f64, |a, b| a.max(*b));
    for i in 0..3 {
        for j in 0..i {
            ensure!((d[i][j] - d[j][i]).abs() <= tol, "{crs:?}: {} m from {:?} to {:?}, {} m back", d[i][j], us[i], us[j], d[j][i]);
        }
    }
    for (i, j, k) in [(0, 1, 2), (1, 2, 0), (0, 2, 1)] {
        ensure!(d[i][k] <= d[i][j] + d[j][k] + 2.0 * tol, "{crs:?}: {} m from {:?} to {:?}, but {} + {} m by way of {:?}", d[i][k], us[i], us[k], d[i][j], d[j][k], us[j]);
    }
    // written otherwise
    if let Kind::Geog(a) = &crs.kind {
        let mut v = us[0].clone();
        v[a.lon_ix()] += *turns as f64 * 2.0 * PI / a.ang();
        let Ok(g) = o.as_crs().dist(&v, &us[1]) else { crate::fail!("{crs:?}: distance from {v:?} to {:?} fails", us[1]) };
        let ttol = tol + 1e-13 * ell.a;
        ensure!((g.m() - d[0][1]).abs() <= ttol, "{crs:?}: {} m from {:?} to {:?} but {} m from {v:?}", d[0][1], us[0], us[1], g.m());
        // another axis convention of the same dimension
        let a2 = match (a.dim(), *ax2) {
            (2, GAx::Enu(u, _)) => GAx::En(u),
            (2, GAx::Neu(u, _)) => GAx::Ne(u),
            (3, GAx::En(u)) => GAx::Enu(u, 1),
            (3, GAx::Ne(u)) | (3, GAx::Nw(u)) => GAx::Neu(u, 2),
            (_, x) => x,
        };
        let c2 = geo_crs(&crs.datum, a2);
        let (x, y) = (a2.to_user(pts[0][0], pts[0][1], pts[0][2]), a2.to_user(pts[1][0], pts[1][1], pts[1][2]));
        let Ok(g) = c2.build().as_crs().dist(&x, &y) else { crate::fail!("{c2:?}: distance from {x:?} to {y:?} fails") };
        ensure!((g.m() - d[0][1]).abs() <= ttol, "{} m from {:?} to {:?} with {a:?} but {} m from {x:?} to {y:?} with {a2:?}", d[0][1], us[0], us[1], g.m());
    }
    // coordinates of another dimension have no distance
    if *turns == 1 && pts[0][1].to_bits() % 32 == 0 {
        let n = us[0].len();
        for k in [1usize, 2, 3, 4] {
            if k == n {
                continue;
            }
            let mut w = us[1].clone();
            w.resize(k, 0.25);
            for (x, y) in [(&us[0], &w), (&w, &us[0]), (&w, &w)] {
                let r = panics(|| o.as_crs().dist(x, y).map(|l| l.m()));
                ensure!(!matches!(r, Ok(Ok(_))), "{crs:?} of dimension {n}: {x:?} to {y:?} has a distance, {r:?}");
                let r = panics(|| o.as_crs().approx_eq(x, y, &[1e-3; 4]));
                ensure!(r.is_err(), "{crs:?} of dimension {n}: {x:?} and {y:?} compare {r:?}");
            }
        }
    }
    if d[0][1] == 0.0 || d[1][2] == 0.0 || d[0][2] == 0.0 {
        triv("coincident points")
    } else {
        nt(crs.name())
    }
}

pub fn property() -> Property {
    let p3 = || (lon(), lat(), height_mild()).prop_map(|(a, b, c)| [a, b, c]).boxed();
    let m3 = || (metres(), metres(), metres()).prop_map(|(a, b, c)| [a, b, c]).boxed();
    let trip = move || {
        prop_oneof![
            3 => (p3(), p3(), p3()).prop_map(|(a, b, c)| [a, b, c]),
            2 => (pairs(), p3()).prop_map(|((p, q), r)| [[p.0, p.1, r[2]], [q.0, q.1, 0.0], r]),
        ]
        .boxed()
    };
    Property {
        id: "C19",
        rule: "every pair counts; triples when no two points coincide",
        assumptions: &["2D geographic distances: Vincenty's accuracy (see C18), pairs within 4*pi*f of antipodal excluded", "Euclidean distances to 1e-14 relative of the coordinates"],
        facets: vec![
            facet("geodesic", 60_000, || (datum(150.0), gax2(), lon(), lat(), az(), travel()).boxed(), geodesic),
            facet("straight", 100_000, move || (datum(20.0), gax3(), p3(), p3()).boxed(), straight),
            facet("cartesian", 100_000, move || (raw_crs(150.0), any::<bool>(), m3(), m3()).boxed(), cartesian),
            facet("axioms", 100_000, move || (raw_crs(150.0), gax(), 0..6u8, trip(), -2..=2i32).boxed(), axioms),
        ],
    }
}
