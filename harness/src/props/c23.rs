//! C23 line strings and curves
use super::c18::antipodal;
use crate::crsgen::*;
use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::oracle;
use geokit::crs::Crs;
use geokit::geometry::coordinate::curve::line_string::{LineString, LineStringBuilder};
use geokit::geometry::coordinate::curve::{CurveInterpolation, CurveSegment, ParameterizedCurve};
use geokit::geometry::primitive::curve::{Curve, CurveBuilder};
use geokit::units::length::M;
use proptest::prelude::*;
use proptest::sample::select;

type P3 = [f64; 3];
/// How the next position is made: 0 anywhere, 1 a step from the previous one, 2 the previous one
/// again, 3 an earlier one again.
pub type Step = (u8, P3, usize);

/// Positions in the system's own coordinates.
pub fn positions(crs: &CrsSpec, steps: &[Step]) -> Vec<Vec<f64>> {
    let mut phys: Vec<P3> = vec![];
    for (k, v, n) in steps {
        let p = match (k, phys.last()) {
            (1, Some(q)) => [q[0] + v[0] * 1e-3, q[1] + v[1] * 1e-3, q[2] + v[2]],
            (2, Some(q)) => *q,
            (3, Some(_)) => phys[n % phys.len()],
            _ => *v,
        };
        phys.push([p[0].clamp(-3.0, 3.0), p[1].clamp(-1.5, 1.5), p[2]]);
    }
    phys.iter()
        .map(|p| match &crs.kind {
            Kind::Geog(a) => a.to_user(p[0], p[1], p[2]),
            k => {
                let n = if let Kind::Proj(a, _) = k { a.dim() } else { 3 };
                // decimal coordinates, many of them short
                let q = |x: f64| (x * 1e6 * 16.0).round() / 16.0;
                [q(p[0]), q(p[1]), p[2]][..n].to_vec()
            }
        })
        .collect()
}

/// Independent distance in metres and its tolerance (2D geographic: the system's own distance,
/// which C19 decides).
fn seg_len(crs: &CrsSpec, o: &dyn Crs, a: &[f64], b: &[f64]) -> Option<(f64, f64)> {
    let ell = crs.datum.ell.ell();
    match &crs.kind {
        Kind::Geog(ax) if ax.dim() == 2 => {
            let (p, q) = (ax.from_user(a), ax.from_user(b));
            if antipodal(&ell, (p.0, p.1), (q.0, q.1)) {
                return None;
            }
            o.dist(a, b).ok().map(|l| (l.m(), 0.0))
        }
        Kind::Geog(ax) => {
            let (p, q) = (ax.from_user(a), ax.from_user(b));
            let d = oracle::dist(oracle::llh_to_xyz(&ell, p.0, p.1, p.2), oracle::llh_to_xyz(&ell, q.0, q.1, q.2));
            Some((d, 2e-14 * (ell.a + p.2.abs() + q.2.abs())))
        }
        k => {
            let sz = if let Kind::Proj(a, _) = k { a.sizes() } else { [1.0; 3] };
            let d = a.iter().zip(b).enumerate().map(|(i, (x, y))| ((x - y) * sz[i]).powi(2)).sum::<f64>().sqrt();
            let big = a.iter().zip(b).enumerate().map(|(i, (x, y))| x.abs().max(y.abs()) * sz[i]).fold(0.0, f64::max);
            Some((d, 1e-14 * big))
        }
    }
}

pub fn build_line(o: &dyn Crs, ps: &[Vec<f64>], close: bool) -> Result<LineString, &'static str> {
    let mut b = LineStringBuilder::with_line(o, ps[0].clone(), ps[1].clone())?;
    for p in &ps[2..] {
        b = b.line_to(p)?;
    }
    if close {
        b.close()
    } else {
        Ok(b.build())
    }
}

struct Model<'a> {
    ps: &'a [Vec<f64>],
    /// segment lengths and the tolerance of each
    len: Vec<(f64, f64)>,
}
impl Model<'_> {
    fn total(&self) -> (f64, f64) {
        let t: f64 = self.len.iter().map(|l| l.0).sum();
        (t, self.len.iter().map(|l| l.1).sum::<f64>() + 1e-14 * self.len.len() as f64 * t)
    }
    /// None when `got` is an acceptable position at arc length s
    fn at(&self, s: f64, got: &[f64]) -> Option<String> {
        let (t, tol) = self.total();
        let tol = tol + 1e-13 * t;
        let mut cum = 0.0;
        let mut best = String::new();
        for (i, (l, _)) in self.len.iter().enumerate() {
            if s >= cum - tol && s <= cum + l + tol {
                let (a, b) = (&self.ps[i], &self.ps[i + 1]);
                // the range of proportions that are right up to rounding
                let (lo, hi) = if *l > 0.0 {
                    (((s - cum - tol) / l).clamp(0.0, 1.0), ((s - cum + tol) / l).clamp(0.0, 1.0))
                } else {
                    (0.0, 1.0)
                };
                let ok = got.len() == a.len()
                    && got.iter().enumerate().all(|(k, g)| {
                        let (x, y) = (a[k] + lo * (b[k] - a[k]), a[k] + hi * (b[k] - a[k]));
                        let u = 1e-14 * (a[k].abs() + b[k].abs()) + 1e-300;
                        *g >= x.min(y) - u && *g <= x.max(y) + u
                    });
                if ok {
                    return None;
                }
                best = format!("segment {i} from {a:?} to {b:?} at {}", (lo + hi) / 2.0);
            }
            cum += l;
        }
        Some(best)
    }
}

fn check_param(what: &str, c: &dyn ParameterizedCurve, o: &dyn Crs, m: &Model, fr: &[f64]) -> Result<bool, Bad> {
    let (t, tol) = m.total();
    let (first, last) = (&m.ps[0], &m.ps[m.ps.len() - 1]);
    let n = first.len();
    ensure!(c.coord_dim() == n, "{what}: coordinate dimension {} for positions of {n} coordinates", c.coord_dim());
    ensure!(c.start() == &first[..], "{what}: starts at {:?}, not at {first:?}", c.start());
    ensure!(c.end() == &last[..], "{what}: ends at {:?}, not at {last:?}", c.end());
    let len = c.length(o);
    ensure!((len.m() - t).abs() <= tol, "{what}: length {} m, expected {t} m", len.m());
    let p0 = c.param(o, 0.0 * M);
    ensure!(&p0[..] == &first[..], "{what}: position at 0 is {p0:?}, not the start {first:?}");
    if len.m() > 0.0 {
        let pe = c.param(o, len);
        ensure!(&pe[..] == &last[..], "{what}: position at its length {} m is {pe:?}, not the end {last:?}", len.m());
    }
    // arc lengths: fractions, and the places where segments meet, a little off them too
    let mut ss: Vec<f64> = fr.iter().map(|f| f * len.m()).collect();
    let mut cum = 0.0;
    // every meeting place of shapes of ordinary size, some of those of very long ones
    let every = 1 + m.len.len() / 400;
    for (i, (l, _)) in m.len.iter().enumerate() {
        if every > 1 && i % (every * 8) != 0 && i + 4 < m.len.len() {
            cum += l;
            continue;
        }
        for f in fr.iter().take(2) {
            ss.push(cum + f * l);
        }
        ss.push(cum);
        ss.push(cum.next_up());
        ss.push(cum.next_down());
        ss.push(cum + 1e-9 * l);
        cum += l;
    }
    for s in ss {
        if !(s >= 0.0 && s <= len.m()) {
            continue;
        }
        let p = c.param(o, s * M);
        if let Some(w) = m.at(s, &p) {
            crate::fail!("{what} of length {} m with {} positions {:?}: position at {s} m is {p:?}, expected {w}", len.m(), m.ps.len(), &m.ps[..m.ps.len().min(40)]);
        }
    }
    // beyond the end
    for s in [len.m() * (1.0 + 1e-9) + 1e-9, len.m() * 1.5 + 1.0, len.m() * 1e3 + 1e6] {
        ensure!(panics(|| c.param(o, s * M)).is_err(), "{what} of length {} m accepts the arc length {s} m", len.m());
    }
    Ok(t > 0.0)
}

fn wrong_dim(p: &[f64], n: usize) -> Vec<f64> {
    let mut v = p.to_vec();
    v.resize(n, 0.5);
    v
}

type Line = (RawCrs, Vec<Step>, bool, Vec<f64>, usize);
fn line(c: &Line) -> R {
    let (raw, steps, close, fr, at) = c;
    let crs = raw.resolve(0.0);
    let obj = crs.build();
    let o = obj.as_crs();
    let n = crs.dim();
    let ps = positions(&crs, steps);
    let mut full = ps.clone();
    if *close {
        full.push(ps[0].clone());
    }
    let mut len = vec![];
    for w in full.windows(2) {
        match seg_len(&crs, o, &w[0], &w[1]) {
            Some(l) => len.push(l),
            None => return reject(),
        }
    }
    let m = Model { ps: &full, len };
    // wrong dimensions are refused at every stage, and trying leaves a copy of the builder usable
    for k in [0usize, 1, 2, 3, 4] {
        if k == n {
            continue;
        }
        let bad = wrong_dim(&ps[0], k);
        for (a, b) in [(bad.clone(), bad.clone()), (ps[0].clone(), bad.clone()), (bad.clone(), ps[0].clone()), (bad.clone(), wrong_dim(&ps[0], 2 * n - k.min(2 * n)))] {
            let r = panics(|| LineStringBuilder::with_line(o, a.clone(), b.clone()).is_ok());
            ensure!(!matches!(r, Ok(true)), "{crs:?}: a line from {a:?} to {b:?} is accepted");
        }
    }
    let Ok(mut b) = LineStringBuilder::with_line(o, ps[0].clone(), ps[1].clone()) else {
        crate::fail!("{crs:?}: a line from {:?} to {:?} is refused", ps[0], ps[1])
    };
    for (i, p) in ps[2..].iter().enumerate() {
        if i == at % ps.len() {
            for k in [0usize, 1, 2, 3, 4, 2 * n] {
                if k != n {
                    let bad = wrong_dim(p, k);
                    let b2 = b.clone();
                    let r = panics(|| b2.line_to(bad.clone()).is_ok());
                    ensure!(!matches!(r, Ok(true)), "{crs:?}: a line to {bad:?} is accepted");
                }
            }
            // a copy of the builder goes its own way
            let b2 = b.clone();
            let q: Vec<f64> = p.iter().map(|x| x * 0.5).collect();
            let _ = panics(|| b2.line_to(q).map(|x| x.close()));
        }
        b = match b.line_to(p) {
            Ok(b) => b,
            Err(e) => crate::fail!("{crs:?}: the line to {p:?} is refused: {e}"),
        };
    }
    let l = if *close {
        match b.close() {
            Ok(l) => l,
            Err(e) => crate::fail!("{crs:?}: closing {ps:?} is refused: {e}"),
        }
    } else {
        b.build()
    };
    ensure!(matches!(l.interpolation(), CurveInterpolation::Linear), "a line string is not linear");
    let moved = check_param(if *close { "closed line string" } else { "line string" }, &l, o, &m, fr)?;
    if !moved {
        return triv("no length");
    }
    if m.len.iter().any(|l| l.0 == 0.0) {
        nt("repeated positions")
    } else if *close {
        nt("closed")
    } else {
        nt(crs.name())
    }
}

type Multi = (RawCrs, Vec<Step>, Vec<usize>, bool, Vec<f64>, (usize, f64, f64));
fn multi(c: &Multi) -> R {
    let (raw, steps, cuts, close, fr, (coord, off, other)) = c;
    let crs = raw.resolve(0.0);
    let obj = crs.build();
    let o = obj.as_crs();
    let n = crs.dim();
    let ps = positions(&crs, steps);
    // the segments share their end positions
    let mut cut: Vec<usize> = cuts.iter().map(|k| 1 + k % (ps.len() - 1)).filter(|k| *k < ps.len() - 1).collect();
    cut.sort();
    cut.dedup();
    cut.push(ps.len() - 1);
    let mut full = ps.clone();
    if *close {
        full.push(ps[0].clone());
    }
    let mut len = vec![];
    for w in full.windows(2) {
        match seg_len(&crs, o, &w[0], &w[1]) {
            Some(l) => len.push(l),
            None => return reject(),
        }
    }
    let m = Model { ps: &full, len };
    let mut from = 0;
    let mut segs = vec![];
    for (i, to) in cut.iter().enumerate() {
        match build_line(o, &ps[from..=*to], false) {
            Ok(s) => segs.push(s),
            Err(e) => crate::fail!("{crs:?}: line string {:?} is refused: {e}", &ps[from..=*to]),
        }
        from = *to;
        if *close && i + 1 == cut.len() {
            match build_line(o, &[ps[from].clone(), ps[0].clone()], false) {
                Ok(s) => segs.push(s),
                Err(e) => crate::fail!("{crs:?}: line string is refused: {e}"),
            }
        }
    }
    // a system of the other dimension
    let alien = CrsSpec {
        datum: crs.datum.clone(),
        kind: if n == 2 { Kind::Geoc } else { Kind::Proj(PAx::En(0), ProjSpec::Web { lon0: 0.0, lat0: 0.0, fe: 0.0, fnn: 0.0 }) },
    };
    let aobj = alien.build();
    let ad = alien.dim();
    let ap = |p: &[f64]| wrong_dim(p, ad);
    let alien_line = LineStringBuilder::with_line(aobj.as_crs(), ap(&ps[0]), ap(&ps[1])).map(|b| b.build()).ok();
    if let Some(a) = &alien_line {
        let r = panics(|| CurveBuilder::with_seg(o, a.clone()).is_ok());
        ensure!(!matches!(r, Ok(true)), "{crs:?} of dimension {n}: a first segment of dimension {ad} is accepted");
    }
    let mut it = segs.iter();
    let Ok(mut b) = CurveBuilder::with_seg(o, it.next().unwrap().clone()) else { crate::fail!("{crs:?}: first segment refused") };
    let mut last: Vec<f64> = segs[0].end().to_vec();
    for s in it.map(Some).chain([None]) {
        if let Some(a) = &alien_line {
            let line = LineStringBuilder::with_line(aobj.as_crs(), ap(&last), ap(&ps[0])).map(|b| b.build()).unwrap_or(a.clone());
            let r = panics(|| b.clone().append_segment(line).is_ok());
            ensure!(!matches!(r, Ok(true)), "{crs:?} of dimension {n}: a segment of dimension {ad} is accepted");
        }
        // a segment that starts a little off in one coordinate
        let mut q = last.clone();
        let k = coord % n;
        q[k] += off * (1.0 + q[k].abs());
        if q[k] != last[k] {
            let q2: Vec<f64> = q.iter().zip(&last).map(|(x, y)| x + (y - x) * other).collect();
            for to in [&last, &q2] {
                if let Ok(g) = LineStringBuilder::with_line(o, q.clone(), to.clone()).map(|b| b.build()) {
                    let r = panics(|| b.clone().append_segment(g).is_ok());
                    ensure!(!matches!(r, Ok(true)), "{crs:?}: a segment starting at {q:?} is accepted after one ending at {last:?}");
                }
            }
        }
        if let Some(s) = s {
            b = match b.append_segment(s.clone()) {
                Ok(b) => b,
                Err(e) => crate::fail!("{crs:?}: segment starting at {:?} after one ending at {last:?} is refused: {e}", s.start()),
            };
            last = s.end().to_vec();
        }
    }
    let curve = b.build();
    let moved = check_param("curve", &curve, o, &m, fr)?;
    // a line string along the same positions is at the same places
    if let Ok(l) = build_line(o, &full, false) {
        for f in fr {
            let s = f * curve.length(o).m().min(l.length(o).m());
            let p = l.param(o, s * M);
            if let Some(w) = m.at(s, &p) {
                crate::fail!("line string {full:?}: position at {s} m is {p:?}, expected {w}");
            }
        }
    }
    if !moved {
        triv("no length")
    } else if segs.len() == 1 {
        nt("one segment")
    } else if m.len.iter().any(|l| l.0 == 0.0) {
        nt("several segments, repeated positions")
    } else {
        nt("several segments")
    }
}

/// Very long shapes: a walk of thousands of positions, as one line string or as a curve of many
/// segments.
type Long = (RawCrs, usize, usize, u64, bool, Vec<f64>);
fn long(c: &Long) -> R {
    let (raw, n, per, seed, close, fr) = c;
    let crs = raw.resolve(0.0);
    let obj = crs.build();
    let o = obj.as_crs();
    let mut z = *seed;
    let mut rnd = || {
        z = z.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        ((z >> 40) as f64) / (1u64 << 24) as f64 * 2.0 - 1.0
    };
    let walk: Vec<Step> = (0..*n).map(|i| (if i == 0 { 0 } else { 1 }, [rnd(), rnd(), rnd()], 0)).collect();
    let ps = positions(&crs, &walk);
    let mut full = ps.clone();
    if *close {
        full.push(ps[0].clone());
    }
    let mut len = vec![];
    for w in full.windows(2) {
        match seg_len(&crs, o, &w[0], &w[1]) {
            Some(l) => len.push(l),
            None => return reject(),
        }
    }
    let m = Model { ps: &full, len };
    match build_line(o, &ps, *close) {
        Ok(l) => check_param("long line string", &l, o, &m, fr)?,
        Err(e) => crate::fail!("{crs:?}: a line string of {n} positions is refused: {e}"),
    };
    let mut b: Option<CurveBuilder> = None;
    let mut from = 0;
    let mut segs = 0;
    while from + 1 < full.len() {
        let to = (from + per).min(full.len() - 1);
        let Ok(s) = build_line(o, &full[from..=to], false) else { crate::fail!("{crs:?}: a line string is refused") };
        let r = match b {
            None => CurveBuilder::with_seg(o, s),
            Some(b) => b.append_segment(s),
        };
        b = match r {
            Ok(b) => Some(b),
            Err(e) => crate::fail!("{crs:?}: segment {segs} that starts where the last one ends is refused: {e}"),
        };
        segs += 1;
        from = to;
    }
    if !check_param("long curve", &b.unwrap().build(), o, &m, fr)? {
        return triv("no length");
    }
    nt(if segs > 1000 { "thousands of segments" } else { "thousands of positions" })
}

pub fn steps(max: usize) -> BoxedStrategy<Vec<Step>> {
    let x = || prop_oneof![3 => -3.0..3.0f64, 2 => (-30i32..30).prop_map(|k| k as f64 * 0.1), 1 => Just(0.0), 1 => lit_near().prop_map(|v| v.clamp(-3.0, 3.0))];
    let h = || prop_oneof![2 => Just(0.0), 2 => -100.0..3e4f64, 1 => (-10i32..10).prop_map(|k| k as f64)];
    let step = (prop_oneof![3 => Just(0u8), 3 => Just(1u8), 1 => Just(2u8), 1 => Just(3u8)], (x(), x(), h()).prop_map(|(a, b, c)| [a, b * 0.5, c]), 0..8usize);
    // most are short, a few have hundreds of positions
    prop_oneof![120 => prop::collection::vec(step.clone(), 2..max), 1 => prop::collection::vec(step, 2..300)].boxed()
}
pub fn cuts() -> BoxedStrategy<Vec<usize>> {
    prop_oneof![
        12 => prop::collection::vec(0..10usize, 0..4),
        1 => prop::collection::vec(0..300usize, 0..150),
    ]
    .boxed()
}
fn fracs() -> BoxedStrategy<Vec<f64>> {
    prop::collection::vec(prop_oneof![3 => 0.0..=1.0f64, 1 => select(vec![0.0, 1.0, 0.5, 0.25, 1e-9, 1.0 - 1e-9, 1e-300])], 4).boxed()
}

pub fn property() -> Property {
    Property {
        id: "C23",
        rule: "shapes with a positive length count",
        assumptions: &[
            "2D geographic segment lengths are the system's own distance (decided by C19), nearly antipodal neighbours excluded",
            "at a total length of zero only the start is checked; negative arc lengths are not claimed",
            "positions are matched to 1e-13 of the total length",
        ],
        facets: vec![
            facet("line", 60_000, || (raw_crs(150.0), steps(9), any::<bool>(), fracs(), 0..4usize).boxed(), line),
            facet("curve", 40_000, || (raw_crs(150.0), steps(10), cuts(), any::<bool>(), fracs(), (0..3usize, logu(-12.0, 0.0), 0.0..1.0f64)).boxed(), multi),
            facet("long", 8, || (raw_crs(150.0), prop_oneof![3 => 1000..5000usize, 2 => 5000..70_000usize], prop_oneof![2 => 1..4usize, 1 => 4..400usize], any::<u64>(), any::<bool>(), fracs()).boxed(), long),
        ],
    }
}
