//! C24 geometry types and boundaries
use super::c23::{build_line, positions, steps, Step};
use crate::crsgen::*;
use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use geokit::geometry::coordinate::curve::{CurveSegment, ParameterizedCurve};
use geokit::geometry::primitive::curve::{Curve, CurveBoundary, CurveBuilder};
use geokit::geometry::primitive::point::Point;
use geokit::geometry::primitive::Boundary;
use geokit::geometry::{Geometry, GeometryType};
use proptest::prelude::*;
use std::any::Any;

fn is_point(what: &str, p: &Point, want: &[f64]) -> Result<(), Bad> {
    ensure!(&p[..] == want, "{what}: coordinates {:?}, expected {want:?}", &p[..]);
    let r: &[f64] = p.as_ref();
    ensure!(r == want, "{what}: as_ref gives {r:?}, expected {want:?}");
    ensure!(p.geometry_type() == GeometryType::Point(want.len()), "{what}: type {:?} with {} coordinates", p.geometry_type(), want.len());
    ensure!(p.is_cycle() && p.is_simple(), "{what}: a point is a simple cycle");
    ensure!(p.boundary().is_none(), "{what}: a point has a boundary");
    Ok(())
}

fn point(c: &(Vec<f64>, usize, f64)) -> R {
    let (v, ix, d) = c;
    let r = panics(|| Point::new(v));
    if v.len() != 2 && v.len() != 3 {
        ensure!(r.is_err(), "a point of {} coordinates is accepted", v.len());
        return triv("refused");
    }
    let Ok(p) = r else { crate::fail!("Point::new({v:?}) panics") };
    is_point("point", &p, v)?;
    ensure!(p == Point::new(v), "points at {v:?} are not equal");
    // a copy, modified
    let mut w = v.clone();
    let k = ix % v.len();
    w[k] += d * (1.0 + w[k].abs());
    let mut q = p;
    q[k] = w[k];
    is_point("original of a modified copy", &p, v)?;
    is_point("modified copy", &q, &w)?;
    ensure!((p == q) == (v == &w), "points at {v:?} and {w:?} compare {}", p == q);
    let mut q2 = p.clone();
    {
        let m: &mut [f64] = q2.as_mut();
        ensure!(m.len() == v.len(), "as_mut of a point at {v:?} has {} coordinates", m.len());
        m.copy_from_slice(&w);
    }
    is_point("original of a modified clone", &p, v)?;
    is_point("modified clone", &q2, &w)?;
    // the source array is not tied to the point
    let mut src = v.clone();
    let p3 = Point::new(&src);
    src[k] = 12345.678;
    is_point("point made from an array modified since", &p3, v)?;
    // dimension is part of the identity
    if v.len() == 2 {
        ensure!(Point::new(&[v[0], v[1], 0.0]) != p, "the 3D point at {v:?} and height 0 equals the 2D point");
    }
    nt(if v.len() == 2 { "2D" } else { "3D" })
}

fn bound(what: &str, b: &CurveBoundary, a: &[f64], z: &[f64]) -> Result<(), Bad> {
    is_point(&format!("{what} start"), &b.start, a)?;
    is_point(&format!("{what} end"), &b.end, z)?;
    ensure!(b.geometry_type() == GeometryType::Point(a.len()), "{what} has type {:?}", b.geometry_type());
    ensure!(b.is_cycle() && b.boundary().is_none(), "{what} is not a cycle or has a boundary itself");
    Ok(())
}

type Case = (RawCrs, Vec<Step>, Vec<usize>, (u8, usize, f64));
fn curve(c: &Case) -> R {
    let (raw, steps, cuts, (closing, coord, off)) = c;
    let crs = raw.resolve(0.0);
    let obj = crs.build();
    let o = obj.as_crs();
    let n = crs.dim();
    let mut ps = positions(&crs, steps);
    // closing: 0 leave, 1 exactly, 2 almost
    let mut end = ps[0].clone();
    match closing {
        0 => {}
        1 => ps.push(end),
        _ => {
            let k = coord % n;
            end[k] += off * (1.0 + end[k].abs());
            ps.push(end);
        }
    }
    let mut cut: Vec<usize> = cuts.iter().map(|k| 1 + k % (ps.len() - 1)).filter(|k| *k < ps.len() - 1).collect();
    cut.sort();
    cut.dedup();
    cut.push(ps.len() - 1);
    let mut from = 0;
    let mut b: Option<CurveBuilder> = None;
    let mut prefix: Option<(Curve, Vec<f64>)> = None;
    for to in &cut {
        // positions whose distance cannot be computed are not the subject here
        let Ok(s) = build_line(o, &ps[from..=*to], false) else { return reject() };
        bound("segment boundary", &s.curve_boundary(), &ps[from], &ps[*to])?;
        b = Some(match b {
            None => match CurveBuilder::with_seg(o, s) {
                Ok(b) => b,
                Err(e) => crate::fail!("{crs:?}: first segment refused: {e}"),
            },
            Some(b) => {
                if prefix.is_none() {
                    prefix = Some((b.clone().build(), ps[from].clone()));
                }
                match b.append_segment(s) {
                    Ok(b) => b,
                    Err(e) => crate::fail!("{crs:?}: connected segment refused: {e}"),
                }
            }
        });
        from = *to;
    }
    let cv = b.unwrap().build();
    let check = |what: &str, cv: &Curve, z: &[f64]| -> Result<(), Bad> {
        let a = &ps[0];
        ensure!(cv.geometry_type() == GeometryType::Curve(n), "{what} in {n} dimensions has type {:?}", cv.geometry_type());
        ensure!(cv.coord_dim() == n, "{what} in {n} dimensions has coordinate dimension {}", cv.coord_dim());
        let closed = &a[..] == z;
        ensure!(cv.is_cycle() == closed, "{what} from {a:?} to {z:?}: is_cycle is {}", cv.is_cycle());
        ensure!(cv.is_simple(), "{what} is not simple");
        match cv.boundary() {
            None => ensure!(closed, "{what} from {a:?} to {z:?} has no boundary"),
            Some(bd) => {
                ensure!(!closed, "closed {what} at {a:?} has a boundary");
                ensure!(bd.geometry_type() == GeometryType::Point(n), "boundary of {what} has type {:?}", bd.geometry_type());
                ensure!(bd.is_cycle() && bd.boundary().is_none(), "boundary of {what} is not a cycle or has a boundary itself");
                let any: Box<dyn Any> = bd;
                match any.downcast_ref::<CurveBoundary>() {
                    Some(cb) => bound("curve boundary", cb, a, z)?,
                    None => crate::fail!("boundary of {what} is no curve boundary"),
                }
            }
        }
        Ok(())
    };
    check("curve", &cv, ps.last().unwrap())?;
    check("copy of a curve", &cv.clone(), ps.last().unwrap())?;
    if let Some((p, z)) = &prefix {
        check("curve built before its builder's copy went on", p, z)?;
    }
    match (closing, n) {
        (1, 2) => nt("closed 2D"),
        (1, _) => nt("closed 3D"),
        (2.., _) => nt("almost closed"),
        (_, 2) => nt("open 2D"),
        _ => nt("open 3D"),
    }
}

pub fn property() -> Property {
    Property {
        id: "C24",
        rule: "points of 2 or 3 coordinates and all curves count",
        assumptions: &["start and end are compared as coordinates, not as places (180 and -180 degrees differ)"],
        facets: vec![
            facet("point", 60_000, || (prop_oneof![4 => prop::collection::vec(real(), 2..4), 1 => prop::collection::vec(prop_oneof![real(), logu(-322.0, 300.0)], 2..4), 1 => prop::collection::vec(real(), 0..7)], 0..3usize, logu(-15.0, 2.0)).boxed(), point),
            facet("curve", 60_000, || (raw_crs(150.0), steps(8), super::c23::cuts(), (0..3u8, 0..3usize, logu(-13.0, -2.0))).boxed(), curve),
        ],
    }
}
