//! C29 results depend on the inputs alone
use super::c12::mkenh;
use super::c17;
use super::c18;
use super::c20::{self, Sys};
use crate::crsgen::*;
use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use geokit::crs::Crs;
use geokit::cs::azimuth::Azimuth;
use geokit::geodesy::geodesics::{karney::KarneyGeodesicSolver, rapp::RappIterativeGeodisicSolver, vincenty::VincentyGeodesicSolver, Geodesic, GeodesicSolver};
use geokit::geodesy::{Ellipsoid, GeodeticDatum, PrimeMeridian};
use geokit::geometry::coordinate::curve::{line_string::LineStringBuilder, ParameterizedCurve};
use geokit::projections::Projection;
use geokit::quantities::angle::Angle;
use geokit::transformations::{xyz::CrsXYZTransformation, CrsTransformation};
use geokit::units::angle::{DEG, RAD};
use geokit::units::length::M;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::sync::atomic::{AtomicU64, Ordering};

/// The objects a history works with.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct World {
    /// what things are called in the shared run
    names: Vec<String>,
    /// ellipsoids of the solvers and projections, with the false origin etc. of each
    ells: Vec<EllSpec>,
    projs: Vec<ProjSpec>,
    datums: Vec<DatumSpec>,
    systems: Vec<Sys>,
}
/// One call.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Direct(u8, u8, f64, f64, f64, f64),
    Inverse(u8, u8, c18::Pt, c18::Pt),
    Proj(u8, u8, f64, f64, f64),
    Unproj(u8, u8, f64, f64, f64),
    Xyz(u8, f64, f64, f64),
    Llh(u8, [f64; 3]),
    Fwd(u8, u8, [f64; 3]),
    Bwd(u8, u8, [f64; 3]),
    Dist(u8, [f64; 3], [f64; 3]),
    Line(u8, [f64; 3], [f64; 3], f64),
    Radii(u8, f64),
    Text(f64),
}

/// Names given to what is built: from a short list, or never used before.
#[derive(Clone, Copy)]
enum Names<'w> {
    Given(&'w [String]),
    Fresh,
}
static N: AtomicU64 = AtomicU64::new(0);
fn name(n: Names, i: usize) -> String {
    match n {
        Names::Given(v) => v[i % v.len()].clone(),
        Names::Fresh => format!("n{}", N.fetch_add(1, Ordering::Relaxed)),
    }
}
fn ellipsoid(s: &EllSpec, n: Names, i: usize) -> Ellipsoid {
    let id = name(n, i);
    match s {
        EllSpec::Cat(k) => {
            let e = &crate::tables::ellipsoids()[*k].1;
            if e.is_spherical() {
                Ellipsoid::from_ab(&id, e.a(), e.b())
            } else {
                Ellipsoid::from_ainvf(&id, e.a(), e.invf())
            }
        }
        EllSpec::Ainvf(a, f) => Ellipsoid::from_ainvf(&id, *a * M, *f),
        EllSpec::Ab(a, b) => Ellipsoid::from_ab(&id, *a * M, *b * M),
        EllSpec::Sphere(r) => Ellipsoid::from_ab(&id, *r * M, *r * M),
    }
}
fn gdatum(s: &DatumSpec, n: Names, i: usize) -> GeodeticDatum {
    GeodeticDatum::new(&name(n, i), ellipsoid(&s.ell, n, i + 1), PrimeMeridian::new(&name(n, i + 2), mklon(s.pm.lon())))
}
fn system(s: &CrsSpec, n: Names, i: usize) -> CrsObj {
    s.build_with(&name(n, i + 3), gdatum(&s.datum, n, i))
}

/// Everything built once.
struct Built {
    ells: Vec<Ellipsoid>,
    datums: Vec<GeodeticDatum>,
    systems: Vec<CrsObj>,
}
fn build(w: &World, n: Names) -> Built {
    Built {
        ells: w.ells.iter().enumerate().map(|(i, e)| ellipsoid(e, n, i)).collect(),
        datums: w.datums.iter().enumerate().map(|(i, d)| gdatum(d, n, i)).collect(),
        systems: w.systems.iter().enumerate().map(|(i, s)| system(&s.crs, n, i)).collect(),
    }
}
/// Solvers, projections and transformations kept and used over and over.
struct Kept<'a> {
    karney: Vec<KarneyGeodesicSolver<'a>>,
    vincenty: Vec<VincentyGeodesicSolver<'a>>,
    rapp: Vec<RappIterativeGeodisicSolver<'a>>,
    projs: Vec<Vec<Box<dyn Projection + 'a>>>,
    tfs: Vec<Vec<CrsXYZTransformation<'a>>>,
}
fn keep<'a>(w: &World, b: &'a Built, n: Names) -> Kept<'a> {
    Kept {
        karney: b.ells.iter().map(KarneyGeodesicSolver::new).collect(),
        vincenty: b.ells.iter().map(VincentyGeodesicSolver::new).collect(),
        rapp: b.ells.iter().map(RappIterativeGeodisicSolver::new).collect(),
        projs: w.projs.iter().map(|p| b.ells.iter().map(|e| p.build().applied_to(e)).collect()).collect(),
        tfs: w
            .systems
            .iter()
            .enumerate()
            .map(|(i, x)| w.systems.iter().enumerate().map(|(j, y)| transformation(system(&x.crs, n, i), system(&y.crs, n, j), x.shift.build(), y.shift.build())).collect())
            .collect(),
    }
}
/// Outcome of a call, bit for bit.
#[derive(Clone, Debug, PartialEq)]
pub enum Out {
    Ok(Vec<u64>),
    Err(String),
    Panic,
}
fn bits(v: &[f64]) -> Out {
    Out::Ok(v.iter().map(|x| if x.is_nan() { f64::NAN.to_bits() } else { x.to_bits() }).collect())
}
fn geod(g: Result<Geodesic, &'static str>) -> Out {
    match g {
        Ok(g) => bits(&[g.p1.0.angle().rad(), g.p1.1.angle().rad(), g.alpha1.angle().rad(), g.p2.0.angle().rad(), g.p2.1.angle().rad(), g.alpha2.angle().rad(), g.s.m()]),
        Err(e) => Out::Err(e.into()),
    }
}
fn ix(i: u8, n: usize) -> usize {
    i as usize % n
}
fn call(w: &World, b: &Built, k: &Kept, op: &Op) -> Out {
    match op {
        Op::Direct(s, e, lo, la, az, d) => {
            let e = ix(*e, b.ells.len());
            let (p, a, d) = ((mklon(*lo), mklat(*la)), Azimuth::new(Angle::new(*az, RAD)), *d * b.ells[e].a());
            geod(match s % 3 {
                0 => k.karney[e].solve_direct(p, a, d),
                1 => k.vincenty[e].solve_direct(p, a, d),
                _ => k.rapp[e].solve_direct(p, a, d),
            })
        }
        Op::Inverse(s, e, p, q) => {
            let e = ix(*e, b.ells.len());
            let (p, q) = ((mklon(p.0), mklat(p.1)), (mklon(q.0), mklat(q.1)));
            geod(if s % 2 == 0 { k.vincenty[e].solve_inverse(p, q) } else { k.rapp[e].solve_inverse(p, q) })
        }
        Op::Proj(p, e, lo, la, h) => match k.projs[ix(*p, w.projs.len())][ix(*e, b.ells.len())].proj(mkllh(*lo, *la, *h)) {
            Ok(v) => bits(&[v.easting.m(), v.northing.m(), v.height.m()]),
            Err(e) => Out::Err(format!("{e:?}")),
        },
        Op::Unproj(p, e, x, y, h) => match k.projs[ix(*p, w.projs.len())][ix(*e, b.ells.len())].unproj(mkenh(*x, *y, *h)) {
            Ok(v) => bits(&[v.lon.angle().rad(), v.lat.angle().rad(), v.height.m()]),
            Err(e) => Out::Err(format!("{e:?}")),
        },
        Op::Xyz(d, lo, la, h) => bits(&v3(b.datums[ix(*d, b.datums.len())].llh_to_xyz(mkllh(*lo, *la, *h)))),
        Op::Llh(d, p) => {
            let v = b.datums[ix(*d, b.datums.len())].xyz_to_llh(mkxyz(*p));
            bits(&[v.lon.angle().rad(), v.lat.angle().rad(), v.height.m()])
        }
        Op::Fwd(i, j, p) | Op::Bwd(i, j, p) => {
            let (i, j) = (ix(*i, w.systems.len()), ix(*j, w.systems.len()));
            let (from, to, back) = if matches!(op, Op::Fwd(..)) { (i, j, false) } else { (j, i, true) };
            let src = w.systems[from].crs.user(p[0], p[1].clamp(-1.5, 1.5), p[2]);
            let mut out = vec![f64::NAN; w.systems[to].crs.dim()];
            let t = &k.tfs[i][j];
            match if back { t.bwd(&src, &mut out) } else { t.fwd(&src, &mut out) } {
                Ok(()) => bits(&out),
                Err(e) => Out::Err(format!("{e:?}")),
            }
        }
        Op::Dist(i, p, q) => {
            let i = ix(*i, w.systems.len());
            let s = &w.systems[i].crs;
            let (x, y) = (s.user(p[0], p[1].clamp(-1.5, 1.5), p[2]), s.user(q[0], q[1].clamp(-1.5, 1.5), q[2]));
            match b.systems[i].as_crs().dist(&x, &y) {
                Ok(d) => bits(&[d.m()]),
                Err(e) => Out::Err(e.into()),
            }
        }
        Op::Line(i, p, q, u) => {
            let i = ix(*i, w.systems.len());
            let s = &w.systems[i].crs;
            let crs = b.systems[i].as_crs();
            let (x, y) = (s.user(p[0], p[1].clamp(-1.5, 1.5), p[2]), s.user(q[0], q[1].clamp(-1.5, 1.5), q[2]));
            match LineStringBuilder::with_line(crs, &x, &y).and_then(|b| b.line_to(&x)) {
                Ok(l) => {
                    let l = l.build();
                    let len = l.length(crs);
                    let mut v = l.param(crs, *u * len).to_vec();
                    v.push(len.m());
                    bits(&v)
                }
                Err(e) => Out::Err(e.into()),
            }
        }
        Op::Radii(e, la) => {
            let e = &b.ells[ix(*e, b.ells.len())];
            let la = mklat(*la);
            bits(&[e.prime_vertical_radius(la).m(), e.prime_meridional_radius(la).m(), e.conformal_sphere_radius(la).m(), e.reduced_latitude(la).rad(), e.geocentric_latitude(la).rad(), e.n(), e.e_sq(), e.b().m()])
        }
        Op::Text(a) => {
            let a = Angle::new(*a, RAD);
            let s = format!("{} {} {} {}", a, a.deg(), a.dms(), mklon(a.rad()));
            let mut v: Vec<u64> = s.bytes().map(u64::from).collect();
            v.push(a.val(DEG).to_bits());
            Out::Ok(v)
        }
    }
}
fn outcome(w: &World, b: &Built, k: &Kept, op: &Op) -> Out {
    panics(|| call(w, b, k, op)).unwrap_or(Out::Panic)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct History {
    world: World,
    ops: Vec<Op>,
    order: Vec<u16>,
    threads: bool,
}

fn history(h: &History) -> R {
    let w = &h.world;
    // the reference: every call on objects of its own, under names never used before
    let mut want = vec![];
    for op in &h.ops {
        let b = build(w, Names::Fresh);
        let k = keep(w, &b, Names::Fresh);
        want.push(outcome(w, &b, &k, op));
    }
    // the same calls in another order, with repetitions, on one set of objects that share their names
    let b = build(w, Names::Given(&w.names));
    let k = keep(w, &b, Names::Given(&w.names));
    let run = |b: &Built, k: &Kept, order: &[u16], how: &str| -> Result<(), Bad> {
        for (step, o) in order.iter().enumerate() {
            let i = *o as usize % h.ops.len();
            let got = outcome(w, b, k, &h.ops[i]);
            ensure!(got == want[i], "{:?} gives {:?} on its own and {:?} {how} (step {step} of {order:?} in {:?})", h.ops[i], show(&want[i]), show(&got), h.ops);
        }
        Ok(())
    };
    run(&b, &k, &h.order, "on shared objects after other calls")?;
    let all: Vec<u16> = (0..h.ops.len() as u16).collect();
    run(&b, &k, &all, "on shared objects after other calls")?;
    if h.threads {
        let r: Vec<Result<(), String>> = std::thread::scope(|s| {
            let hs: Vec<_> = (0..3usize)
                .map(|t| {
                    let run = &run;
                    let order = &h.order;
                    s.spawn(move || {
                        let names = if t == 2 { Names::Fresh } else { Names::Given(&w.names) };
                        let b = build(w, names);
                        let k = keep(w, &b, names);
                        let mut o = order.clone();
                        let n = o.len().max(1);
                        o.rotate_left((t * 2) % n);
                        match run(&b, &k, &o, "while other threads compute") {
                            Err(Bad::Fail(m)) => Err(m),
                            _ => Ok(()),
                        }
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap_or(Err("a thread died".into()))).collect()
        });
        for x in r {
            if let Err(m) = x {
                crate::fail!("{m}");
            }
        }
    }
    let good = want.iter().filter(|o| matches!(o, Out::Ok(_))).count();
    if good < 2 {
        return triv("fewer than two calls succeed");
    }
    nt(if h.threads { "with threads" } else { "one thread" })
}
fn show(o: &Out) -> String {
    match o {
        Out::Ok(v) if v.len() < 12 => format!("{:?}", v.iter().map(|b| f64::from_bits(*b)).collect::<Vec<_>>()),
        o => format!("{o:?}"),
    }
}

fn op() -> BoxedStrategy<Op> {
    let i = || 0..6u8;
    let p3 = || c20::point();
    prop_oneof![
        (i(), i(), lon(), lat(), az(), c17::travel()).prop_map(|(s, e, a, b, c, d)| Op::Direct(s, e, a, b, c, d * 6.28)),
        (i(), i(), c18::pairs()).prop_map(|(s, e, (p, q))| Op::Inverse(s, e, p, q)),
        (i(), i(), lon(), lat(), height_mild()).prop_map(|(p, e, a, b, c)| Op::Proj(p, e, a, b, c)),
        (i(), i(), metres(), metres(), height_mild()).prop_map(|(p, e, a, b, c)| Op::Unproj(p, e, a, b, c)),
        (i(), lon(), lat(), height_mild()).prop_map(|(d, a, b, c)| Op::Xyz(d, a, b, c)),
        (i(), [-7e6..7e6f64, -7e6..7e6f64, -7e6..7e6f64]).prop_map(|(d, p)| Op::Llh(d, p)),
        (i(), i(), p3()).prop_map(|(a, b, p)| Op::Fwd(a, b, p)),
        (i(), i(), p3()).prop_map(|(a, b, p)| Op::Bwd(a, b, p)),
        (i(), p3(), p3()).prop_map(|(a, p, q)| Op::Dist(a, p, q)),
        (i(), p3(), p3(), 0.0..=1.0f64).prop_map(|(a, p, q, u)| Op::Line(a, p, q, u)),
        (i(), lat()).prop_map(|(e, l)| Op::Radii(e, l)),
        real().prop_map(Op::Text),
    ]
    .boxed()
}
/// histories use few different inputs, so that calls repeat with other objects and calls with
/// one object differ little
fn ops() -> BoxedStrategy<Vec<Op>> {
    prop::collection::vec((op(), prop::option::of((0..6u8, 0..6u8))), 2..6)
        .prop_map(|v| {
            let mut out = vec![];
            for (o, again) in v {
                if let Some((i, j)) = again {
                    out.push(match o.clone() {
                        Op::Direct(s, _, a, b, c, d) => Op::Direct(s, i, a, b, c, d),
                        Op::Inverse(s, _, p, q) => Op::Inverse(s, i, p, q),
                        Op::Proj(_, _, a, b, c) => Op::Proj(i, j, a, b, c),
                        Op::Unproj(_, _, a, b, c) => Op::Unproj(i, j, a, b, c),
                        Op::Xyz(_, a, b, c) => Op::Xyz(i, a, b, c),
                        Op::Llh(_, p) => Op::Llh(i, p),
                        Op::Fwd(_, _, p) => Op::Fwd(i, j, p),
                        Op::Bwd(_, _, p) => Op::Bwd(i, j, p),
                        Op::Dist(_, p, q) => Op::Dist(i, q, p),
                        Op::Line(_, p, q, u) => Op::Line(i, p, q, u),
                        Op::Radii(_, l) => Op::Radii(i, l),
                        Op::Text(a) => Op::Text(-a),
                    });
                }
                out.push(o);
            }
            out
        })
        .boxed()
}
fn world() -> BoxedStrategy<World> {
    (
        prop::collection::vec(a_name(), 1..4),
        prop::collection::vec(ell(150.0), 1..3),
        prop::collection::vec((raw_proj(0.5), lon()), 1..3),
        prop::collection::vec(datum(150.0), 1..3),
        prop::collection::vec(c20::raw_sys(), 1..3),
        lon(),
    )
        .prop_map(|(names, ells, projs, datums, sys, l)| World {
            names,
            ells,
            projs: projs.iter().map(|(p, l)| p.resolve(*l)).collect(),
            datums,
            systems: sys.iter().map(|s| c20::resolve(s, l)).collect(),
        })
        .boxed()
}

pub fn property() -> Property {
    Property {
        id: "C29",
        rule: "histories in which at least two calls succeed",
        assumptions: &[
            "results are compared bit for bit: the same code on the same inputs; errors by their text, panics as such",
            "the reference run builds every object anew, under names not used before in the process",
        ],
        facets: vec![facet("history", 12_000, || {
            (world(), ops(), prop::collection::vec(any::<u16>(), 1..16), prop::bool::weighted(0.15))
                .prop_map(|(world, ops, order, threads)| History { world, ops, order, threads })
                .boxed()
        }, history)],
    }
}
