//! C28 the sampling tool
use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};
use std::f64::consts::{FRAC_PI_2, PI};
use std::process::Command;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Cfg {
    count: u32,
    /// 0 default, 1 xyz, 2 lon-lat, 3 lon-lat-height
    kind: u8,
    a: Option<f64>,
    invf: Option<f64>,
    mpu: Option<f64>,
    rpu: Option<f64>,
    short: bool,
}

fn bin() -> String {
    std::env::var("VERIF_SAMPLE_S2").unwrap_or("/verif/harness/target/s2/debug/sample_s2".into())
}

fn run(c: &Cfg) -> Result<String, Bad> {
    let mut cmd = Command::new(bin());
    cmd.arg(c.count.to_string());
    match c.kind {
        1 => drop(cmd.arg("xyz")),
        2 => drop(cmd.arg("lon-lat")),
        3 => drop(cmd.arg("lon-lat-height")),
        _ => {}
    }
    for (o, v) in [(if c.short { "-a" } else { "--semi-major-axis" }, c.a), ("--inverse-flattening", c.invf), ("--meter-per-unit", c.mpu), ("--rad-per-unit", c.rpu)] {
        if let Some(v) = v {
            cmd.arg(o).arg(format!("{v}"));
        }
    }
    let out = match cmd.output() {
        Ok(o) => o,
        Err(e) => {
            eprintln!("cannot run {}: {e}", bin());
            std::process::exit(2);
        }
    };
    ensure!(out.status.success(), "{c:?}: the tool fails: {}", String::from_utf8_lossy(&out.stderr));
    Ok(String::from_utf8_lossy(&out.stdout).into_owned())
}

/// Parsed lines after checking count and kind.
fn lines(c: &Cfg) -> Result<Vec<Vec<f64>>, Bad> {
    let txt = run(c)?;
    let want = if c.kind == 2 { 2 } else { 3 };
    let mut v = vec![];
    for l in txt.lines() {
        let f: Result<Vec<f64>, _> = l.split_whitespace().map(|w| w.parse::<f64>()).collect();
        let Ok(f) = f else { crate::fail!("{c:?}: line {l:?} is not made of numbers") };
        ensure!(f.len() == want && f.iter().all(|x| x.is_finite()), "{c:?}: line {l:?} has not {want} coordinates");
        v.push(f);
    }
    ensure!(v.len() == c.count as usize, "{c:?}: {} lines for {} samples", v.len(), c.count);
    Ok(v)
}

/// Unit sphere direction (the reduced one) of a line, after checking the line.
fn unit(c: &Cfg, f: &[f64]) -> Result<[f64; 3], Bad> {
    let (a, k) = (c.a.unwrap_or(6378137.0), c.invf.unwrap_or(298.257223563));
    let (mpu, rpu) = (c.mpu.unwrap_or(1.0), c.rpu.unwrap_or(PI / 180.0));
    let b = a - a / k;
    if c.kind <= 1 {
        let u = [f[0] * mpu / a, f[1] * mpu / a, f[2] * mpu / b];
        let n = (u[0] * u[0] + u[1] * u[1] + u[2] * u[2]).sqrt();
        // eight decimals are printed
        let tol = 1e-12 + 2e-8 * mpu / b;
        ensure!((n - 1.0).abs() <= tol, "{c:?}: {f:?} is not on the ellipsoid: {n}");
        Ok(u)
    } else {
        let (lo, la) = (f[0] * rpu, f[1] * rpu);
        let t = 1e-11 * rpu + 1e-14;
        ensure!(lo.abs() <= PI + t, "{c:?}: longitude {} is beyond half a turn", f[0]);
        ensure!(la.abs() <= FRAC_PI_2 + t, "{c:?}: latitude {} is beyond a right angle", f[1]);
        if c.kind == 3 {
            let h = f[2] * mpu;
            let t = 1e-3 * mpu + 1e-9;
            ensure!(h >= -1500.0 - t && h <= 30_000.0 + t, "{c:?}: height {} units = {h} m is out of range", f[2]);
        }
        let beta = ((1.0 - 1.0 / k) * la.sin()).atan2(la.cos());
        Ok([beta.cos() * lo.cos(), beta.cos() * lo.sin(), beta.sin()])
    }
}

fn points(c: &Cfg) -> R {
    let v = lines(c)?;
    for f in &v {
        unit(c, f)?;
    }
    if v.len() >= 8 {
        ensure!(v.iter().any(|f| f != &v[0]), "{c:?}: all samples are {:?}", v[0]);
    }
    if c.count == 0 {
        return triv("no samples");
    }
    nt(match c.kind {
        0 => "default kind",
        1 => "xyz",
        2 => "lon-lat",
        _ => "lon-lat-height",
    })
}

/// Largest deviation of the empirical distribution from the uniform one, times sqrt(n).
fn ks(mut u: Vec<f64>) -> f64 {
    u.sort_by(|a, b| a.total_cmp(b));
    let n = u.len() as f64;
    let d = u.iter().enumerate().map(|(i, x)| (x - i as f64 / n).abs().max(((i + 1) as f64 / n - x).abs())).fold(0.0, f64::max);
    d * n.sqrt()
}

fn spread(c: &Cfg) -> R {
    let mut c = c.clone();
    c.count = 20_000;
    // enough printed digits to tell the directions apart
    if c.kind <= 1 {
        c.mpu = c.mpu.map(|m| m.min(c.a.unwrap_or(6378137.0) * 0.01));
    } else {
        c.rpu = c.rpu.map(|m| m.min(10.0));
    }
    let v = lines(&c)?;
    let mut us = vec![];
    for f in &v {
        us.push(unit(&c, f)?);
    }
    // P(KS > 6) is below 1e-30
    const KS: f64 = 6.0;
    let z = ks(us.iter().map(|u| (u[2].clamp(-1.0, 1.0) + 1.0) / 2.0).collect());
    ensure!(z < KS, "{c:?}: 20000 samples are not spread evenly between the poles (KS {z})");
    let l = ks(us.iter().map(|u| (u[1].atan2(u[0]) + PI) / (2.0 * PI)).collect());
    ensure!(l < KS, "{c:?}: 20000 samples are not spread evenly over the longitudes (KS {l})");
    // octants: expected 2500, standard deviation 47
    let mut o = [0i32; 8];
    for u in &us {
        o[(u[0] > 0.0) as usize + 2 * (u[1] > 0.0) as usize + 4 * (u[2] > 0.0) as usize] += 1;
    }
    ensure!(o.iter().all(|n| (n - 2500).abs() < 700), "{c:?}: 20000 samples fall into the octants as {o:?}");
    if c.kind == 3 {
        let mpu = c.mpu.unwrap_or(1.0);
        let (lo, hi) = v.iter().fold((f64::MAX, f64::MIN), |(l, h), f| (l.min(f[2] * mpu), h.max(f[2] * mpu)));
        ensure!(lo < 1000.0 && hi > 27_000.0 || mpu > 1000.0, "{c:?}: heights of 20000 samples run from {lo} to {hi} m only");
    }
    nt("spread")
}

/// No hole wider than chance allows and no pile-up in `n` values uniform on 0..1; `grain` is the rounding of the values.
fn dense(c: &Cfg, what: &str, mut u: Vec<f64>, grain: f64) -> Result<(), Bad> {
    u.sort_by(|a, b| a.total_cmp(b));
    let n = u.len() as f64;
    // P(some gap > 50 / n) < n exp(-50) < 1e-15
    let gap = 50.0 / n + 2.0 * grain;
    let mut last = 0.0;
    for &x in u.iter().chain(&[1.0]) {
        ensure!(x - last <= gap, "{c:?}: none of {n} samples has a {what} between {last} and {x} (as a fraction of the range)");
        last = x;
    }
    let d = ks(u.clone());
    ensure!(d < 6.0 + grain * n.sqrt(), "{c:?}: {n} samples are not spread evenly in {what} (KS {d})");
    if grain < 1e-12 {
        if let Some(w) = u.windows(5).find(|w| w[0] == w[4]) {
            crate::fail!("{c:?}: five of {n} samples have the same {what} {} (as a fraction of the range)", w[0]);
        }
    }
    Ok(())
}

/// Long runs
fn many(c: &Cfg) -> R {
    let v = lines(c)?;
    let (mut lo, mut z) = (Vec::with_capacity(v.len()), Vec::with_capacity(v.len()));
    for f in &v {
        let u = unit(c, f)?;
        lo.push((u[1].atan2(u[0]) + PI) / (2.0 * PI));
        z.push((u[2].clamp(-1.0, 1.0) + 1.0) / 2.0);
    }
    dense(c, "longitude", lo, 1e-13)?;
    dense(c, "height above the equatorial plane", z, 1e-13)?;
    if c.kind == 3 {
        dense(c, "height", v.iter().map(|f| (f[2] + 1500.0) / 31_500.0).collect(), 1e-7)?;
    }
    nt("long run")
}
fn long_cfg() -> BoxedStrategy<Cfg> {
    (prop_oneof![1 => 65_530u32..65_550, 4 => 100_000u32..700_000], 0..4u8, prop::option::of(logpos(0.3, 4.0)))
        .prop_map(|(count, kind, invf)| Cfg { count, kind, a: None, invf, mpu: None, rpu: None, short: false })
        .boxed()
}

/// Inputs that ask for nothing sensible are refused without output.
fn refused(c: &(u8, String)) -> R {
    let args: Vec<&str> = match c.0 {
        0 => vec![],
        1 => vec!["-5"],
        2 => vec!["ten"],
        3 => vec!["5", "latlon-"],
        4 => vec!["5", "xyz", "-a", "big"],
        5 => vec!["1.5"],
        _ => vec!["5", "xyz", "--nonsense"],
    };
    let out = Command::new(bin()).args(&args).output().map_err(|e| Bad::Fail(format!("{e}")))?;
    ensure!(!out.status.success() && out.stdout.is_empty(), "arguments {args:?} are accepted: {}", String::from_utf8_lossy(&out.stdout));
    nt("refused")
}

fn cfg() -> BoxedStrategy<Cfg> {
    let cnt = prop_oneof![2 => 0u32..5, 4 => 1u32..60, 1 => 100u32..1500];
    let a = prop_oneof![1 => Just(6378137.0), 1 => Just(1.0), 2 => logpos(0.0, 8.0), 1 => Just(3396190.0)];
    let k = prop_oneof![1 => Just(298.257223563), 2 => logpos(0.1, 4.0), 1 => Just(f64::INFINITY), 1 => Just(2.0)];
    let m = prop_oneof![1 => Just(1.0), 2 => select(vec![0.3048, 1200.0 / 3937.0, 1000.0, 1609.344]), 1 => logpos(-3.0, 3.0)];
    let r = prop_oneof![1 => Just(PI / 180.0), 1 => Just(1.0), 2 => select(vec![PI / 200.0, PI / 648000.0, PI / 3200.0]), 1 => logpos(-4.0, 0.0)];
    (cnt, 0..4u8, prop::option::of(a), prop::option::of(k), prop::option::of(m), prop::option::of(r), any::<bool>())
        .prop_map(|(count, kind, a, invf, mpu, rpu, short)| Cfg { count, kind, a, invf, mpu, rpu, short })
        .boxed()
}

pub fn property() -> Property {
    Property {
        id: "C28",
        rule: "runs that ask for at least one sample",
        assumptions: &[
            "the tool draws its own entropy: the oracle is an invariant of every possible output, and the spread tests have a false alarm probability below 1e-30",
            "heights run from -1500 m to 30000 m as coded",
        ],
        facets: vec![
            facet("points", 4000, || cfg(), points),
            facet("spread", 60, || cfg(), spread),
            facet("many", 6, || long_cfg(), many),
            facet("refused", 16, || (0..7u8, Just(String::new())).boxed(), refused),
        ],
    }
}
