//! C02 arithmetic histories on angular values
use crate::engine::*;
use crate::gen::*;
use crate::ensure;
use geokit::cs::azimuth::Azimuth;
use geokit::cs::geodetic::{Lat, Lon};
use geokit::quantities::angle::Angle;
use geokit::units::angle::RAD;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::f64::consts::{FRAC_PI_2, PI, TAU};

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub enum Op {
    Add(f64),
    AddLeft(f64),
    AddAssign(f64),
    Sub(f64),
    SubAssign(f64),
    Mul(f64),
    MulLeft(f64),
    MulAssign(f64),
    Div(f64),
    DivAssign(f64),
    Neg,
    Norm,
    Abs,
}
use Op::*;

fn ang(x: f64) -> Angle {
    Angle::new(x, RAD)
}
fn amount() -> BoxedStrategy<f64> {
    prop_oneof![
        4 => -4.0..4.0f64,
        3 => (-16i32..=16, tiny()).prop_map(|(k, t)| k as f64 * PI / 4.0 + t),
        1 => (-720i32..=720).prop_map(|d| d as f64 * D2R),
        1 => logu(-12.0, 3.0),
        1 => Just(0.0),
        1 => lit_near().prop_map(|v| v.clamp(-1e4, 1e4)),
    ]
    .boxed()
}
fn factor() -> BoxedStrategy<f64> {
    prop_oneof![
        3 => -4.0..4.0f64,
        2 => (-8i32..=8).prop_map(|k| k as f64 * 0.5),
        1 => logu(-3.0, 2.0),
        1 => Just(1.0),
    ]
    .boxed()
}
fn divisor() -> BoxedStrategy<f64> {
    factor().prop_map(|f| if f.abs() < 1e-3 { 3.0 } else { f }).boxed()
}
fn op() -> BoxedStrategy<Op> {
    prop_oneof![
        3 => amount().prop_map(Add),
        2 => amount().prop_map(AddLeft),
        2 => amount().prop_map(AddAssign),
        3 => amount().prop_map(Sub),
        2 => amount().prop_map(SubAssign),
        1 => factor().prop_map(Mul),
        1 => factor().prop_map(MulLeft),
        1 => factor().prop_map(MulAssign),
        1 => divisor().prop_map(Div),
        1 => divisor().prop_map(DivAssign),
        1 => Just(Neg),
        1 => Just(Norm),
        1 => Just(Abs),
    ]
    .boxed()
}
type Hist = (f64, Vec<Op>);
fn hist() -> BoxedStrategy<Hist> {
    (lon(), proptest::collection::vec(op(), 1..14)).boxed()
}
/// exact model of one step before wrapping or clamping
fn model(x: f64, o: Op) -> f64 {
    match o {
        Add(a) | AddLeft(a) | AddAssign(a) => x + a,
        Sub(a) | SubAssign(a) => x - a,
        Mul(f) | MulLeft(f) | MulAssign(f) => x * f,
        Div(f) | DivAssign(f) => x / f,
        Neg => -x,
        Norm => x,
        Abs => x.abs(),
    }
}
fn additive(o: Op) -> bool {
    matches!(o, Add(_) | AddLeft(_) | AddAssign(_) | Sub(_) | SubAssign(_) | Neg | Norm)
}

fn lon_hist(c: &Hist) -> R {
    let mut l = Lon::new(ang(c.0));
    let mut wrapped = false;
    let mut cum = l.angle().rad();
    let mut cum_ok = true;
    let mut slack = 4e-15;
    for (i, &o) in c.1.iter().enumerate() {
        let x = l.angle().rad();
        let o = if let Abs = o { Neg } else { o };
        let want = model(x, o);
        match o {
            Add(a) => l = l + ang(a),
            AddLeft(a) => l = ang(a) + l,
            AddAssign(a) => l += ang(a),
            Sub(a) => l = l - ang(a),
            SubAssign(a) => l -= ang(a),
            Mul(f) => l = l * f,
            MulLeft(f) => l = f * l,
            MulAssign(f) => l *= f,
            Div(f) => l = l / f,
            DivAssign(f) => l /= f,
            Neg | Abs => l = -l,
            Norm => l = l.normalized(),
        }
        let got = l.angle().rad();
        ensure!((-PI..=PI).contains(&got), "step {i} {o:?}: longitude {got} out of range");
        ensure!(adiff(got, want) <= 4e-15 + 1e-15 * want.abs(), "step {i} {o:?} on longitude {x}: got {got}, expected {want} modulo a turn");
        if want.abs() < PI - 1e-9 {
            ensure!((got - want).abs() <= 4e-15, "step {i} {o:?} on longitude {x}: got {got}, expected {want}");
        }
        wrapped |= want.abs() > PI;
        if additive(o) {
            cum = model(cum, o);
            slack += 4e-15 + 1e-15 * want.abs().max(cum.abs());
        } else {
            cum_ok = false;
        }
        if cum_ok {
            ensure!(adiff(got, cum) <= slack, "after {i} additive steps longitude {got}, expected {cum} modulo a turn");
        }
    }
    // trig accessors agree with the angle
    let x = l.angle().rad();
    ensure!((l.sin() - x.sin()).abs() < 1e-15 && (l.cos() - x.cos()).abs() < 1e-15, "Lon sin/cos at {x}");
    ensure!((l.sin_cos().0 - x.sin()).abs() < 1e-15 && (l.sin_cos().1 - x.cos()).abs() < 1e-15, "Lon sin_cos at {x}");
    ensure!((l.tan() - x.tan()).abs() <= 1e-12 * (1.0 + x.tan().abs()), "Lon tan at {x}");
    ensure!(x == 0.0 || l.signum() == x.signum(), "Lon signum at {x}");
    if wrapped {
        nt("wrapped")
    } else {
        triv("no wrap")
    }
}

fn lat_hist(c: &Hist) -> R {
    let mut l = Lat::new(ang(c.0));
    let mut sat = false;
    for (i, &o) in c.1.iter().enumerate() {
        let x = l.angle().rad();
        let o = if let Norm = o { Abs } else { o };
        let want = model(x, o);
        match o {
            Add(a) => l = l + ang(a),
            AddLeft(a) => l = ang(a) + l,
            AddAssign(a) => l += ang(a),
            Sub(a) => l = l - ang(a),
            SubAssign(a) => l -= ang(a),
            Mul(f) => l = l * f,
            MulLeft(f) => l = f * l,
            MulAssign(f) => l *= f,
            Div(f) => l = l / f,
            DivAssign(f) => l /= f,
            Neg => l = -l,
            Norm | Abs => l = l.abs(),
        }
        let got = l.angle().rad();
        let w = want.clamp(-FRAC_PI_2, FRAC_PI_2);
        ensure!((got - w).abs() <= 2e-15, "step {i} {o:?} on latitude {x}: got {got}, expected {w}");
        ensure!((-FRAC_PI_2..=FRAC_PI_2).contains(&got), "step {i} {o:?}: latitude {got} out of range");
        sat |= want.abs() > FRAC_PI_2;
    }
    let x = l.angle().rad();
    ensure!((l.sin() - x.sin()).abs() < 1e-15 && (l.cos() - x.cos()).abs() < 1e-15, "Lat sin/cos at {x}");
    ensure!((l.sin_cos().0 - x.sin()).abs() < 1e-15 && (l.sin_cos().1 - x.cos()).abs() < 1e-15, "Lat sin_cos at {x}");
    ensure!((l.tan() - x.tan()).abs() <= 1e-12 * (1.0 + x.tan().abs()), "Lat tan at {x}");
    ensure!(x == 0.0 || l.signum() == x.signum(), "Lat signum at {x}");
    // difference of two latitudes is the plain difference
    let other = Lat::new(ang(c.0));
    let d = (l - other).rad();
    ensure!((d - (x - other.angle().rad())).abs() < 2e-15, "Lat difference {d}");
    if sat {
        nt("saturated")
    } else {
        triv("no saturation")
    }
}

fn az_hist(c: &Hist) -> R {
    let mut z = Azimuth::new(ang(c.0));
    let mut wrapped = false;
    let mut cum = z.angle().rad();
    let mut slack = 4e-15;
    for (i, &o) in c.1.iter().enumerate() {
        let x = z.angle().rad();
        let prev = z;
        let a = match o {
            Add(a) | AddAssign(a) | SubAssign(a) | AddLeft(a) | Sub(a) => a,
            Mul(f) | MulLeft(f) | MulAssign(f) | Div(f) | DivAssign(f) => f,
            _ => continue,
        };
        let left = i % 2 == 1;
        z = if left { ang(a) + z } else { z + ang(a) };
        let want = x + a;
        cum += a;
        slack += 4e-15 + 1e-15 * want.abs().max(cum.abs());
        let got = z.angle().rad();
        ensure!(got > -PI && got <= PI, "step {i}: azimuth {got} out of range");
        ensure!(adiff(got, want) <= 4e-15 + 1e-15 * want.abs(), "step {i}: azimuth {x} + {a} = {got}, expected {want}");
        ensure!(adiff(got, cum) <= slack, "step {i}: azimuth {got}, expected {cum} modulo a turn");
        // oriented difference takes prev to z
        let d = (z - prev).rad();
        ensure!(d > -PI && d <= PI, "azimuth difference {d} out of range");
        ensure!(adiff(d, a) <= 8e-15 + 2e-15 * a.abs(), "({x} + {a}) - {x} = {d}");
        let back = prev + (z - prev);
        ensure!(adiff(back.angle().rad(), got) <= 8e-15, "difference does not take {x} to {got}");
        wrapped |= want.abs() > PI;
    }
    let x = z.angle().rad();
    ensure!((z.sin() - x.sin()).abs() < 1e-15 && (z.cos() - x.cos()).abs() < 1e-15, "Azimuth sin/cos at {x}");
    ensure!((z.sin_cos().0 - x.sin()).abs() < 1e-15 && (z.sin_cos().1 - x.cos()).abs() < 1e-15, "Azimuth sin_cos at {x}");
    ensure!((z.tan() - x.tan()).abs() <= 1e-12 * (1.0 + x.tan().abs()), "Azimuth tan at {x}");
    if wrapped {
        nt("wrapped")
    } else {
        triv("no wrap")
    }
}

fn angle_hist(c: &Hist) -> R {
    let mut a = ang(c.0);
    let mut big = false;
    for (i, &o) in c.1.iter().enumerate() {
        let x = a.rad();
        if x.abs() > 1e6 {
            break;
        }
        let want = model(x, o);
        match o {
            Add(v) => a = a + ang(v),
            AddLeft(v) => a = ang(v) + a,
            AddAssign(v) => a += ang(v),
            Sub(v) => a = a - ang(v),
            SubAssign(v) => a -= ang(v),
            Mul(f) => a = a * f,
            MulLeft(f) => a = f * a,
            MulAssign(f) => a *= f,
            Div(f) => a = a / f,
            DivAssign(f) => a /= f,
            Neg => a = -a,
            Norm => {
                a.normalize();
                ensure!(adiff(a.rad(), x) <= 4e-15 + 1e-15 * x.abs(), "normalize {x} gives {}", a.rad());
                big |= x.abs() > PI;
                continue;
            }
            Abs => a = a.abs(),
        }
        let got = a.rad();
        ensure!((got - want).abs() <= 1e-15 * (1.0 + want.abs() + x.abs()), "step {i} {o:?} on angle {x}: got {got}, expected {want}");
        big |= want.abs() > PI;
    }
    let x = a.rad();
    ensure!((a.sin() - x.sin()).abs() < 1e-15 && (a.cos() - x.cos()).abs() < 1e-15, "Angle sin/cos at {x}");
    ensure!((a.sin_cos().0 - x.sin()).abs() < 1e-15 && (a.sin_cos().1 - x.cos()).abs() < 1e-15, "Angle sin_cos at {x}");
    ensure!((a.tan() - x.tan()).abs() <= 1e-12 * (1.0 + x.tan().abs()), "Angle tan at {x}");
    ensure!(x == 0.0 || a.signum() == x.signum(), "Angle signum at {x}");
    ensure!(a.abs().rad() == x.abs(), "Angle abs at {x}");
    if big {
        nt("beyond half a turn")
    } else {
        triv("small")
    }
}

//// laws over pairs: lon2 = lon1 + (lon2 - lon1); antisymmetry; mixed forms equal
/// Two forms of one operation whose unreduced result has magnitude `m` may round differently.
fn eql(a: Lon, b: Lon, m: f64) -> bool {
    adiff(a.angle().rad(), b.angle().rad()) <= 4e-15 + 1e-15 * m.abs()
}
fn eqp(a: Lat, b: Lat, m: f64) -> bool {
    (a.angle().rad() - b.angle().rad()).abs() <= 2e-15 + 1e-15 * m.abs()
}
fn pair(c: &(f64, f64, f64)) -> R {
    let (x, y, f) = *c;
    let (a, b) = (Lon::new(ang(x)), Lon::new(ang(y)));
    let d = b - a;
    let r = a + d;
    ensure!(adiff(r.angle().rad(), b.angle().rad()) <= 6e-15, "lon {x} + (lon {y} - lon {x}) = {}", r.angle().rad());
    let e = a - b;
    ensure!(adiff(e.rad(), -d.rad()) <= 4e-15, "longitude difference is not antisymmetric: {} vs {}", d.rad(), e.rad());
    if d.rad().abs() < PI - 1e-9 {
        ensure!((e.rad() + d.rad()).abs() <= 4e-15, "longitude difference is not antisymmetric: {} vs {}", d.rad(), e.rad());
        // the short way
        ensure!((d.rad().abs() - adiff(x, y)).abs() <= 4e-15, "longitude difference {} is not the short way", d.rad());
    }
    let g = ang(f);
    // plain angles, any number of turns apart
    let turn = f.round().clamp(-1e3, 1e3) * TAU;
    let o = ang(x + turn).diff_to(ang(y)).rad();
    let ot = 6e-15 + 1e-15 * turn.abs();
    ensure!(o.abs() <= PI && adiff(o, y - x) <= ot, "diff_to({}, {y}) = {o} is not the oriented angle", x + turn);
    ensure!(eql(a + g, g + a, f), "left and right addition differ for longitude {x}, {f}");
    let mut t = a;
    t += g;
    ensure!(eql(t, a + g, f), "in-place addition differs for longitude {x}, {f}");
    let mut t = a;
    t -= g;
    ensure!(eql(t, a - g, f), "in-place subtraction differs for longitude {x}, {f}");
    let mut t = a;
    t *= f;
    ensure!(eql(t, a * f, x * f) && eql(t, f * a, x * f), "scaling forms differ for longitude {x}, {f}");
    let (p, q) = (Lat::new(ang(x / 2.0)), Lat::new(ang(y / 2.0)));
    ensure!(eqp(p + g, g + p, f), "left and right addition differ for latitude");
    let mut t = p;
    t += g;
    ensure!(eqp(t, p + g, f), "in-place addition differs for latitude");
    let mut t = p;
    t -= g;
    ensure!(eqp(t, p - g, f), "in-place subtraction differs for latitude");
    let mut t = p;
    t *= f;
    ensure!(eqp(t, p * f, x * f) && eqp(t, f * p, x * f), "scaling forms differ for latitude");
    if f != 0.0 {
        let mut t = p;
        t /= f;
        ensure!(eqp(t, p / f, x / f), "division forms differ for latitude");
        let mut t = a;
        t /= f;
        ensure!(eql(t, a / f, x / f), "division forms differ for longitude");
    }
    let r = p + (q - p);
    ensure!((r.angle().rad() - q.angle().rad()).abs() <= 2e-15, "lat + (lat2 - lat) does not reach lat2");
    // ordering follows the values
    ensure!((a < b) == (a.angle().rad() < b.angle().rad()), "longitude order");
    ensure!((p < q) == (p.angle().rad() < q.angle().rad()), "latitude order");
    ensure!((a == b) == (a.angle().rad() == b.angle().rad()), "longitude equality");
    if (x - y).abs() > PI {
        nt("crosses the antimeridian")
    } else {
        nt("plain")
    }
}

pub fn property() -> Property {
    Property {
        id: "C02",
        rule: "the history wraps past the antimeridian, saturates at a pole or leaves half a turn; every pair counts",
        assumptions: &["each step compared with the exact model within 4e-15 rad plus relative rounding; divisors of magnitude at least 1e-3"],
        facets: vec![
            facet("lon", 60_000, hist, lon_hist),
            facet("lat", 60_000, hist, lat_hist),
            facet("azimuth", 60_000, hist, az_hist),
            facet("angle", 40_000, hist, angle_hist),
            facet("pair", 100_000, || prop_oneof![
                3 => (lon(), lon(), amount()),
                1 => (lon(), tiny(), -1i32..=1, amount()).prop_map(|(x, t, k, f)| (x, x + k as f64 * PI + t, f)),
                1 => (lon(), tiny(), -1i32..=1, amount()).prop_map(|(x, t, k, f)| (x, x + k as f64 * TAU + t, f)),
            ].boxed(), pair),
        ],
    }
}
