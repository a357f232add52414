//! C26 numeric building blocks
use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use geokit::math::complex::Complex;
use geokit::math::fp;
use geokit::math::polynomial::Polynomial;
use geokit::math::utils::iter_fn;
use num::{BigInt, Zero};
use proptest::prelude::*;
use proptest::sample::select;
use std::cell::RefCell;
use std::f64::consts::PI;

const EPS: f64 = f64::EPSILON;

/// exact value as an integer multiple of 2^-1100
fn exact(x: f64) -> BigInt {
    let b = x.to_bits();
    let e = ((b >> 52) & 0x7ff) as i64;
    let m = b & ((1 << 52) - 1);
    let (m, e) = if e == 0 { (m, -1074) } else { (m | (1 << 52), e - 1075) };
    let v = BigInt::from(m) << (e + 1100) as usize;
    if x < 0.0 {
        -v
    } else {
        v
    }
}

fn moderate() -> BoxedStrategy<f64> {
    prop_oneof![3 => -10.0..10.0f64, 2 => (-20i32..20).prop_map(|k| k as f64), 2 => logu(-12.0, 12.0), 1 => Just(0.0), 1 => Just(1.0), 1 => lit_near()].boxed()
}

// ------------------------------------------------------------ polynomials
struct Dd(f64, f64);
fn two_sum(a: f64, b: f64) -> (f64, f64) {
    let s = a + b;
    let bb = s - a;
    (s, (a - (s - bb)) + (b - bb))
}
fn dd_add(a: Dd, b: f64) -> Dd {
    let (s, e) = two_sum(a.0, b);
    let (h, l) = two_sum(s, e + a.1);
    Dd(h, l)
}
fn dd_mul(a: Dd, b: f64) -> Dd {
    let p = a.0 * b;
    let e = a.0.mul_add(b, -p) + a.1 * b;
    let (h, l) = two_sum(p, e);
    Dd(h, l)
}

fn eval<const D: usize>(c: &[f64], x: f64, z: (f64, f64)) -> Result<bool, Bad> {
    let mut a = [0.0; D];
    a.copy_from_slice(&c[..D]);
    let p = Polynomial::new(a);
    // real, in twice the working precision
    let mut w = Dd(0.0, 0.0);
    let mut bound = 0.0;
    for k in (0..D).rev() {
        w = dd_add(dd_mul(w, x), a[k]);
        bound = bound * x.abs() + a[k].abs();
    }
    let want = w.0 + w.1;
    let tol = 4.0 * (D as f64 + 1.0) * EPS * bound + 1e-300;
    let (r, f) = (p.eval_at(x), p.fast_eval_at(x));
    ensure!((r - want).abs() <= tol, "{a:?} at {x} is {r}, expected {want}");
    ensure!((f - want).abs() <= tol, "{a:?} at {x} is {f} when fused, expected {want}");
    // complex: powers multiplied out
    let zz = Complex::new(z.0, z.1);
    let (mut re, mut im, mut pr, mut pi, mut big, mut pw) = (0.0, 0.0, 1.0, 0.0, 0.0, 1.0);
    let m = z.0.hypot(z.1);
    for k in 0..D {
        re += a[k] * pr;
        im += a[k] * pi;
        big += a[k].abs() * pw;
        (pr, pi) = (pr * z.0 - pi * z.1, pr * z.1 + pi * z.0);
        pw *= m;
    }
    let g: Complex = p.eval_at(zz);
    let tol = 16.0 * (D as f64 + 1.0) * EPS * big + 1e-300;
    ensure!((g.re - re).abs() <= tol && (g.im - im).abs() <= tol, "{a:?} at {zz:?} is {g:?}, expected {re} + {im} i");
    // on the real axis the complex value is the real one
    let g: Complex = p.eval_at(Complex::new(x, 0.0));
    ensure!((g.re - want).abs() <= 16.0 * (D as f64 + 1.0) * EPS * bound + 1e-300 && g.im == 0.0, "{a:?} at {x} + 0 i is {g:?}, expected {want}");
    // integer coefficients are exact
    let mut ia = [0i64; D];
    for k in 0..D {
        ia[k] = (c[k] % 50.0) as i64;
    }
    let ix = (x % 20.0) as i64;
    let iw: i64 = (0..D).map(|k| ia[k] * ix.pow(k as u32)).sum();
    let ig: i64 = Polynomial::new(ia).eval_at(ix);
    ensure!(ig == iw, "{ia:?} at {ix} is {ig}, expected {iw}");
    ensure!(p == Polynomial::new(a), "{a:?}: equal polynomials differ");
    for k in 0..D {
        let mut b = a;
        b[k] += 1.0 + b[k].abs();
        ensure!(Polynomial::new(b) != p, "polynomials {a:?} and {b:?} are equal");
    }
    Ok(D > 1 && bound > 0.0)
}
fn poly(c: &(Vec<f64>, f64, (f64, f64))) -> R {
    let (v, x, z) = c;
    let nt_ = match v.len() {
        1 => eval::<1>(v, *x, *z)?,
        2 => eval::<2>(v, *x, *z)?,
        3 => eval::<3>(v, *x, *z)?,
        4 => eval::<4>(v, *x, *z)?,
        5 => eval::<5>(v, *x, *z)?,
        6 => eval::<6>(v, *x, *z)?,
        7 => eval::<7>(v, *x, *z)?,
        8 => eval::<8>(v, *x, *z)?,
        _ => eval::<9>(v, *x, *z)?,
    };
    if nt_ {
        nt("polynomial")
    } else {
        triv("constant or zero")
    }
}

// ------------------------------------------------------------ complex numbers
type Z = (f64, f64);
fn cz(z: Z) -> Complex {
    Complex::new(z.0, z.1)
}
fn near(what: &str, g: Complex, re: f64, im: f64, scale: f64) -> Result<(), Bad> {
    let tol = 1e-14 * scale + 1e-290;
    ensure!((g.re - re).abs() <= tol && (g.im - im).abs() <= tol, "{what} is {g:?}, expected {re} + {im} i");
    Ok(())
}
fn complex(c: &(Z, Z, Z, f64)) -> R {
    let (a, b, d, k) = *c;
    let (x, y, w) = (cz(a), cz(b), cz(d));
    let (ma, mb, md) = (a.0.hypot(a.1), b.0.hypot(b.1), d.0.hypot(d.1));
    ensure!(x.re == a.0 && x.im == a.1, "{a:?} becomes {x:?}");
    near("conjugate", x.conj(), a.0, -a.1, ma)?;
    near("sum", x + y, a.0 + b.0, a.1 + b.1, ma + mb)?;
    near("difference", x - y, a.0 - b.0, a.1 - b.1, ma + mb)?;
    near("sum with a real", x + k, a.0 + k, a.1, ma + k.abs())?;
    near("difference with a real", x - k, a.0 - k, a.1, ma + k.abs())?;
    near("product", x * y, a.0 * b.0 - a.1 * b.1, a.0 * b.1 + a.1 * b.0, ma * mb)?;
    near("product with a real", x * k, a.0 * k, a.1 * k, ma * k.abs())?;
    ensure!((x.abs_sq() - ma * ma).abs() <= 1e-14 * ma * ma + 1e-290, "squared modulus of {x:?} is {}", x.abs_sq());
    ensure!((x.abs() - ma).abs() <= 1e-15 * 8.0 * ma, "modulus of {x:?} is {}", x.abs());
    // field laws
    let l = (x + y) * w;
    let r = x * w + y * w;
    near("distributed product", l, r.re, r.im, (ma + mb) * md * 2.0)?;
    let (l, r) = ((x * y) * w, x * (y * w));
    near("regrouped product", l, r.re, r.im, ma * mb * md * 2.0)?;
    let l = x - y + y;
    near("difference undone", l, a.0, a.1, ma + 2.0 * mb)?;
    // argument
    let t = x.arg().rad();
    ensure!(t > -PI - 1e-15 && t <= PI, "argument of {x:?} is {t}");
    near("polar form", Complex::new(ma * t.cos(), ma * t.sin()), a.0, a.1, ma)?;
    // quotients
    let zero = b.0 == 0.0 && b.1 == 0.0;
    ensure!(y.is_zero() == zero && Complex::zero().is_zero() && <Complex as Zero>::zero().is_zero(), "is_zero of {y:?} is {}", y.is_zero());
    match (y.inv(), x / y) {
        (Err(_), Err(_)) => ensure!(zero, "{y:?} has no inverse"),
        (Ok(i), Ok(q)) => {
            ensure!(!zero, "{x:?} / {y:?} is {q:?}");
            near("z times its inverse", i * y, 1.0, 0.0, 4.0)?;
            near("quotient times divisor", q * y, a.0, a.1, 4.0 * ma)?;
        }
        (i, q) => crate::fail!("inverse of {y:?} is {i:?}, {x:?} / {y:?} is {q:?}"),
    }
    if k != 0.0 {
        near("quotient by a real", (x / k) * k, a.0, a.1, ma)?;
    }
    ensure!((x == y) == (a == b) && x == x.clone(), "{x:?} == {y:?} is {}", x == y);
    if zero {
        nt("division by zero")
    } else if ma * mb * md == 0.0 {
        triv("zero operand")
    } else {
        nt("complex")
    }
}

// ------------------------------------------------------------ sums and remainders
fn clenshaw(c: &(Vec<f64>, f64)) -> R {
    let (v, x) = c;
    let g = fp::clenshaw_sin_sum(v, *x);
    let (mut w, mut tol) = (0.0, 1e-300);
    for (k, ck) in v.iter().enumerate() {
        let kf = k as f64;
        w += ck * (kf * x).sin();
        tol += ck.abs() * EPS * (8.0 * kf * kf + 8.0 * kf * x.abs() + 8.0) * v.len() as f64;
    }
    ensure!((g - w).abs() <= tol, "sine series {v:?} at {x} is {g}, expected {w} (allowed {tol:e})");
    margin("clenshaw", (g - w).abs() / tol, || format!("{c:?}"));
    if v.len() < 2 {
        triv("no terms")
    } else {
        nt("series")
    }
}
fn twosum(c: &(f64, f64)) -> R {
    let (a, b) = *c;
    let (s, e) = fp::sum(a, b);
    ensure!(s == a + b, "{a:e} + {b:e} is {s:e}");
    ensure!(exact(a) + exact(b) == exact(s) + exact(e), "{a:e} + {b:e} is {s:e} with error {e:e}, which do not add up");
    let q = fp::sq(a);
    ensure!(a.abs() > 1e150 || (q - a * a).abs() <= 1e-290 + 4.0 * EPS * a * a, "square of {a:e} is {q:e}");
    if e == 0.0 {
        triv("exact sum")
    } else {
        nt("rounded sum")
    }
}
fn rem(c: &(f64, f64)) -> R {
    let (v, r) = *c;
    let g = fp::remainder(v, r);
    let tol = 4.0 * EPS * (v.abs() + r.abs());
    ensure!(g.abs() <= r.abs() / 2.0 + tol, "remainder of {v} by {r} is {g}");
    let n = (v - g) / r;
    ensure!((n - n.round()).abs() * r.abs() <= 2.0 * tol, "remainder of {v} by {r} is {g}: {n} divisors away");
    if v.abs() < r.abs() / 2.0 {
        ensure!((g - v).abs() <= tol, "remainder of {v} by {r} is {g}");
        triv("within half the divisor")
    } else {
        nt("remainder")
    }
}

// ------------------------------------------------------------ fixed point iteration
fn run<const D: usize>(init: &[f64], steps: &[Vec<f64>], eps: &[f64]) -> Result<usize, Bad> {
    let arr = |v: &[f64]| {
        let mut a = [0.0; D];
        a.copy_from_slice(&v[..D]);
        a
    };
    let (i, e) = (arr(init), arr(eps));
    let seen: RefCell<Vec<[f64; D]>> = RefCell::new(vec![]);
    let f = |at: [f64; D]| -> [f64; D] {
        let mut s = seen.borrow_mut();
        s.push(at);
        assert!(s.len() < 1000, "iteration goes on after steps of zero");
        steps.get(s.len() - 1).map(|v| arr(v)).unwrap_or([0.0; D])
    };
    let g = iter_fn(i, &f, e);
    let seen = seen.into_inner();
    let mut at = i;
    for (n, s) in seen.iter().enumerate() {
        for k in 0..D {
            ensure!((s[k] - at[k]).abs() <= 1e-12 * (1.0 + at[k].abs()), "step {n} is asked for at {s:?}, the iteration is at {at:?}");
        }
        let d = steps.get(n).map(|v| arr(v)).unwrap_or([0.0; D]);
        for k in 0..D {
            at[k] += d[k];
        }
        if n + 1 == seen.len() {
            ensure!((0..D).all(|k| d[k].abs() < e[k]), "iteration ends after step {d:?} with tolerances {e:?}");
        }
    }
    ensure!(!seen.is_empty(), "no step was taken");
    for k in 0..D {
        ensure!((g[k] - at[k]).abs() <= 1e-12 * (1.0 + at[k].abs()), "iteration returns {g:?}, the steps from {i:?} lead to {at:?}");
    }
    Ok(seen.len())
}
fn iter(c: &(u8, Vec<f64>, Vec<Vec<f64>>, Vec<f64>)) -> R {
    let (d, i, s, e) = c;
    let n = match d {
        1 => run::<1>(i, s, e)?,
        2 => run::<2>(i, s, e)?,
        3 => run::<3>(i, s, e)?,
        _ => run::<4>(i, s, e)?,
    };
    if n > 1 {
        nt("several steps")
    } else {
        triv("one step")
    }
}

pub fn property() -> Property {
    let z = || prop_oneof![4 => (moderate(), moderate()), 1 => Just((0.0, 0.0)), 1 => Just((-0.0, 0.0)), 1 => (moderate(), Just(0.0)), 1 => (Just(0.0), moderate())].boxed();
    let pow2 = || (-30..2i32, any::<bool>()).prop_map(|(k, n)| if n { -(2f64.powi(k)) } else { 2f64.powi(k) });
    let step = move || prop_oneof![2 => logu(-12.0, 2.0), 1 => Just(0.0), 2 => logu(-8.0, -6.0), 2 => pow2()];
    // some tolerances are met exactly by some steps: "below" is strict
    let steps = move || (prop::collection::vec(prop::collection::vec(step(), 4), 0..8), prop::collection::vec(prop_oneof![2 => logpos(-10.0, 0.0), 1 => (-30..2i32).prop_map(|k| 2f64.powi(k))], 4), any::<bool>()).prop_map(|(s, mut e, touch)| {
        if let (true, Some(v)) = (touch, s.last()) {
            for k in 0..4 {
                if v[k] != 0.0 {
                    e[k] = v[k].abs();
                }
            }
        }
        (s, e)
    });
    Property {
        id: "C26",
        rule: "polynomials of degree at least 1, sums with a rounding error, values beyond half the divisor, iterations of several steps, complex operands other than zero",
        assumptions: &["magnitudes within 1e-12..1e12 for complex operands and 1e-250..1e250 for the error-free sum (no overflow or underflow)", "rounding bounds of a few units of the sum of absolute terms"],
        facets: vec![
            facet("polynomial", 100_000, || (prop::collection::vec(moderate(), 1..10), prop_oneof![3 => -3.0..3.0f64, 1 => moderate()], (-3.0..3.0f64, -3.0..3.0f64)).boxed(), poly),
            facet("complex", 100_000, move || (z(), z(), z(), moderate()).boxed(), complex),
            facet("sine-series", 60_000, || (prop_oneof![6 => prop::collection::vec(moderate(), 0..10), 1 => prop::collection::vec(moderate(), 10..80)], prop_oneof![3 => -7.0..7.0f64, 2 => lon(), 1 => lit_near().prop_map(|v| v % 7.0)]).boxed(), clenshaw),
            facet("two-sum", 100_000, || prop_oneof![
                3 => (real(), real()),
                2 => (logu(-250.0, 250.0), logu(-250.0, 250.0)),
                2 => (real(), logu(-20.0, 0.0)).prop_map(|(a, d)| (a, -a * (1.0 + d))),
                2 => (real(), logu(-17.0, 0.0)).prop_map(|(a, d)| (a, a * d)),
            ].boxed(), twosum),
            facet("remainder", 60_000, || (prop_oneof![2 => real(), 1 => -50.0..50.0f64], prop_oneof![2 => logpos(-3.0, 4.0), 2 => select(vec![2.0 * PI, PI, 360.0, 180.0, 1.0, 400.0])]).boxed(), rem),
            facet("iteration", 60_000, move || (1..5u8, prop::collection::vec(real(), 4), steps()).prop_map(|(d, i, (s, e))| (d, i, s, e)).boxed(), iter),
        ],
    }
}
