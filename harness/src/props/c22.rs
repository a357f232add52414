//! C22 datum shifts
use crate::crsgen::*;
use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::oracle::{self, V3};
use geokit::transformations::xyz::XYZTransformation;
use proptest::prelude::*;

fn pos() -> BoxedStrategy<V3> {
    let c = || prop_oneof![4 => -7e6..7e6f64, 1 => Just(0.0), 1 => logu(-3.0, 8.0), 1 => metres()].boxed();
    prop_oneof![
        3 => (lon(), lat(), height_mild()).prop_map(|(l, p, h)| oracle::llh_to_xyz(&EllSpec::Cat(22).ell(), l, p, h)),
        2 => (c(), c(), c()).prop_map(|(a, b, c)| [a, b, c]),
    ]
    .boxed()
}
fn three(s: f64) -> BoxedStrategy<V3> {
    let c = move || prop_oneof![2 => Just(0.0), 4 => -s..=s, 1 => (-10i32..=10).prop_map(move |k| k as f64 * s / 10.0), 1 => logu(-10.0, 1.0).prop_map(move |k| k * s)];
    (c(), c(), c()).prop_map(|(a, b, c)| [a, b, c]).boxed()
}
fn shifts() -> BoxedStrategy<Shift> {
    let helm = (any::<bool>(), prop_oneof![3 => three(5e-5), 1 => three(5e-6), 1 => three(1e-3)], prop_oneof![4 => three(1000.0), 1 => three(1e6)], prop_oneof![1 => Just(0.0), 3 => -20.0..20.0f64, 1 => -200.0..200.0f64, 1 => logu(-6.0, 3.5)])
        .prop_map(|(cf, r, t, p)| Shift::Helmert(cf, r, t, p));
    prop_oneof![1 => Just(Shift::None), 3 => three(2000.0).prop_map(Shift::Trans), 6 => helm].boxed()
}
fn tol(x: V3, s: &Shift) -> f64 {
    let t = match s {
        Shift::Trans(t) | Shift::Helmert(_, _, t, _) => oracle::norm(*t),
        _ => 0.0,
    };
    2e-15 * (oracle::norm(x) + t)
}

fn formula(c: &(Shift, V3)) -> R {
    let (s, x) = c;
    let o = s.build();
    let g = v3(o.to_ref(mkxyz(*x)));
    let w = s.to_ref(*x);
    let d = oracle::dist(g, w);
    ensure!(d <= tol(*x, s), "{s:?} takes {x:?} to {g:?}, expected {w:?} ({d:e} m away)");
    let b = v3(o.from_ref(mkxyz(*x)));
    let wb = s.from_ref(*x);
    let d = oracle::dist(b, wb);
    let st = s.second_order(oracle::norm(*x)) + tol(*x, s);
    margin("from_ref", d / st, || format!("{c:?}"));
    ensure!(d <= st, "{s:?} takes {x:?} back to {b:?}, expected {wb:?} ({d:e} m away, allowed {st:e})");
    // there and back, both ways
    let rt = v3(o.from_ref(mkxyz(g)));
    let d = oracle::dist(rt, *x);
    ensure!(d <= st * 1.1 + 2.0 * tol(*x, s), "{s:?} takes {x:?} there and back to {rt:?}, {d:e} m away (allowed {st:e})");
    let tr = v3(o.to_ref(mkxyz(b)));
    let d = oracle::dist(tr, *x);
    ensure!(d <= st * 1.1 + 2.0 * tol(*x, s), "{s:?} takes {x:?} back and there to {tr:?}, {d:e} m away (allowed {st:e})");
    match s {
        Shift::None => triv("identity"),
        Shift::Trans(_) => nt("translation"),
        Shift::Helmert(true, ..) => nt("coordinate frame"),
        Shift::Helmert(false, ..) => nt("position vector"),
    }
}

/// conventions are each other with negated rotations; reversal negates parameters; zero is identity
fn relations(c: &(bool, V3, V3, f64, V3)) -> R {
    let (cf, r, t, ppm, x) = c;
    let n = |v: &V3| [-v[0], -v[1], -v[2]];
    let a = Shift::Helmert(*cf, *r, *t, *ppm);
    let b = Shift::Helmert(!*cf, n(r), *t, *ppm);
    let (oa, ob) = (a.build(), b.build());
    let p = mkxyz(*x);
    let e = tol(*x, &a) * 2.0;
    let d = oracle::dist(v3(oa.to_ref(p)), v3(ob.to_ref(p)));
    ensure!(d <= e, "{a:?} and {b:?} take {x:?} to positions {d:e} m apart");
    let d = oracle::dist(v3(oa.from_ref(p)), v3(ob.from_ref(p)));
    ensure!(d <= e, "{a:?} and {b:?} take {x:?} back to positions {d:e} m apart");
    // the published reverse: same formula with every parameter negated
    let rev = Shift::Helmert(*cf, n(r), n(t), -ppm);
    let d = oracle::dist(v3(oa.from_ref(p)), v3(rev.build().to_ref(p)));
    let st = a.second_order(oracle::norm(*x));
    ensure!(d <= st + e, "{a:?} backward and {rev:?} forward take {x:?} to positions {d:e} m apart");
    // no rotation and scale: the translation
    let pure = Shift::Helmert(*cf, [0.0; 3], *t, 0.0).build();
    let tr = Shift::Trans(*t).build();
    for (u, v) in [(pure.to_ref(p), tr.to_ref(p)), (pure.from_ref(p), tr.from_ref(p))] {
        ensure!(oracle::dist(v3(u), v3(v)) <= e, "translation {t:?} as seven parameters and by itself take {x:?} to {u:?} and {v:?}");
    }
    let zero = Shift::Helmert(*cf, [0.0; 3], [0.0; 3], 0.0).build();
    for u in [zero.to_ref(p), zero.from_ref(p)] {
        ensure!(v3(u) == *x, "zero parameters take {x:?} to {u:?}");
    }
    let zt = Shift::Trans([0.0; 3]).build();
    ensure!(v3(zt.to_ref(p)) == *x && v3(zt.from_ref(p)) == *x, "a zero translation moves {x:?}");
    if oracle::norm(*r) == 0.0 {
        triv("no rotation")
    } else {
        nt("rotation")
    }
}

pub fn property() -> Property {
    let facets = if HAS_HOOK {
        vec![
            facet("formula", 200_000, || (shifts(), pos()).boxed(), formula),
            facet("relations", 100_000, || (any::<bool>(), three(5e-5), three(1000.0), prop_oneof![1 => Just(0.0), 3 => -20.0..20.0f64, 1 => logu(-6.0, 3.0)], pos()).boxed(), relations),
        ]
    } else {
        vec![]
    };
    Property {
        id: "C22",
        rule: "every non-identity shift counts; relations when a rotation is present",
        assumptions: &["forward formulas to 2e-15 of the distance from the centre; backward within twice the second-order terms |x|(r+s)^2 + |t|(r+s)", "reached through the cfg(geokit_verif) hook"],
        facets,
    }
}
