//! Independent reference computations (no geokit code).
use std::f64::consts::{FRAC_PI_2, PI};
use std::ops::{Add, Div, Mul, Neg, Sub};

#[derive(Clone, Copy, Debug)]
pub struct Ell {
    pub a: f64,
    pub b: f64,
    pub f: f64,
    pub e2: f64,
}
impl Ell {
    pub fn from_ab(a: f64, b: f64) -> Self {
        let f = (a - b) / a;
        Ell { a, b, f, e2: f * (2.0 - f) }
    }
    pub fn from_ainvf(a: f64, invf: f64) -> Self {
        let f = 1.0 / invf;
        Ell { a, b: a - a * f, f, e2: f * (2.0 - f) }
    }
    pub fn e(&self) -> f64 {
        self.e2.sqrt()
    }
    pub fn n(&self) -> f64 {
        self.f / (2.0 - self.f)
    }
    /// second eccentricity squared
    pub fn ep2(&self) -> f64 {
        self.e2 / (1.0 - self.e2)
    }
}

pub type V3 = [f64; 3];
pub fn sub(a: V3, b: V3) -> V3 {
    [a[0] - b[0], a[1] - b[1], a[2] - b[2]]
}
pub fn norm(a: V3) -> f64 {
    (a[0] * a[0] + a[1] * a[1] + a[2] * a[2]).sqrt()
}
pub fn dist(a: V3, b: V3) -> f64 {
    norm(sub(a, b))
}
pub fn dot(a: V3, b: V3) -> f64 {
    a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
}

/// cosine of a latitude, exact at the poles (cos(fl(pi/2)) is 6e-17, harmless)
fn reduced(ell: &Ell, lat: f64) -> (f64, f64) {
    // (sin, cos) of the parametric latitude: (b sin, a cos) normalised
    let (s, c) = lat.sin_cos();
    let (x, y) = ((1.0 - ell.f) * s, c);
    let h = x.hypot(y);
    (x / h, y / h)
}

/// Position from geodetic coordinates (Greenwich longitude): parametric-latitude surface point
/// plus height along the normal.
pub fn llh_to_xyz(ell: &Ell, lon: f64, lat: f64, h: f64) -> V3 {
    let (sb, cb) = reduced(ell, lat);
    let (sl, cl) = lon.sin_cos();
    let (sp, cp) = lat.sin_cos();
    let r = ell.a * cb + h * cp;
    [r * cl, r * sl, ell.b * sb + h * sp]
}

/// Unit vectors east / north at a position.
pub fn east(lon: f64) -> V3 {
    [-lon.sin(), lon.cos(), 0.0]
}
pub fn north(lon: f64, lat: f64) -> V3 {
    [-lat.sin() * lon.cos(), -lat.sin() * lon.sin(), lat.cos()]
}
pub fn heading(lon: f64, lat: f64, az: f64) -> V3 {
    let (e, n) = (east(lon), north(lon, lat));
    let (s, c) = az.sin_cos();
    [c * n[0] + s * e[0], c * n[1] + s * e[1], c * n[2] + s * e[2]]
}

// ------------------------------------------------------------------ quadrature

const NGL: usize = 20;
fn gl() -> &'static [(f64, f64); NGL] {
    use std::sync::OnceLock;
    static T: OnceLock<[(f64, f64); NGL]> = OnceLock::new();
    T.get_or_init(|| {
        let n = NGL;
        let mut out = [(0.0, 0.0); NGL];
        for (i, o) in out.iter_mut().enumerate() {
            let mut x = (PI * (i as f64 + 0.75) / (n as f64 + 0.5)).cos();
            let mut dp = 1.0;
            for _ in 0..100 {
                let (mut p0, mut p1) = (1.0, x);
                for k in 2..=n {
                    let k = k as f64;
                    let p2 = ((2.0 * k - 1.0) * x * p1 - (k - 1.0) * p0) / k;
                    p0 = p1;
                    p1 = p2;
                }
                dp = n as f64 * (x * p1 - p0) / (x * x - 1.0);
                let dx = p1 / dp;
                x -= dx;
                if dx.abs() < 1e-16 {
                    break;
                }
            }
            *o = (x, 2.0 / ((1.0 - x * x) * dp * dp));
        }
        out
    })
}

/// ∫ f over [a, b], panels no longer than `panel`
pub fn quad(f: impl Fn(f64) -> f64, a: f64, b: f64, panel: f64) -> f64 {
    if !((b - a).abs() / panel < 1e5) {
        return f64::NAN;
    }
    let n = (((b - a).abs() / panel).ceil() as usize).max(1);
    let h = (b - a) / n as f64;
    let mut tot = 0.0;
    for k in 0..n {
        let m = a + (k as f64 + 0.5) * h;
        let mut s = 0.0;
        for (x, w) in gl() {
            s += w * f(m + 0.5 * h * x);
        }
        tot += s * 0.5 * h;
    }
    tot
}

// ------------------------------------------------------------------ geodesics

#[derive(Clone, Copy, Debug)]
pub struct Dest {
    pub lon: f64, // not reduced
    pub lat: f64,
    pub az: f64,
    pub sigma12: f64,
    pub pos: V3,
    pub head: V3,
}

/// Direct geodesic by quadrature of the exact integrals on the auxiliary sphere.
pub fn direct(ell: &Ell, lon1: f64, lat1: f64, az1: f64, s12: f64) -> Dest {
    let (sb1, cb1) = reduced(ell, lat1);
    let (sa1, ca1) = az1.sin_cos();
    let sa0 = sa1 * cb1;
    let ca0 = ca1.hypot(sa1 * sb1);
    let sig1 = sb1.atan2(ca1 * cb1);
    let k2 = ell.ep2() * ca0 * ca0;
    let ds = |sig: f64| (1.0 + k2 * sig.sin().powi(2)).sqrt();
    let target = s12 / ell.b;
    let mut d = target / (1.0 + k2 / 4.0);
    for _ in 0..20 {
        let v = quad(ds, sig1, sig1 + d, 0.8) - target;
        let step = v / ds(sig1 + d);
        d -= step;
        if step.abs() < 1e-15 * (1.0 + d.abs()) {
            break;
        }
    }
    let sig2 = sig1 + d;
    let f = ell.f;
    let i3 = quad(
        |s| (2.0 - f) / (1.0 + (1.0 - f) * (1.0 + k2 * s.sin().powi(2)).sqrt()),
        sig1,
        sig2,
        0.8,
    );
    let om = |s: f64| (sa0 * s.sin()).atan2(s.cos());
    // at the start, from the given direction: keeps its precision near the poles
    let om1 = (sa0 * sb1).atan2(ca1 * cb1);
    let om1 = om1 + 2.0 * PI * ((om(sig1) - om1) / (2.0 * PI)).round();
    let lam = om(sig2) - om1 - f * sa0 * i3;
    let (ss2, cs2) = sig2.sin_cos();
    let sb2 = ca0 * ss2;
    let cb2 = (ca0 * cs2).hypot(sa0);
    let lat2 = sb2.atan2((1.0 - f) * cb2);
    let az2 = sa0.atan2(ca0 * cs2);
    let lon2 = lon1 + lam;
    Dest {
        lon: lon2,
        lat: lat2,
        az: az2,
        sigma12: d,
        pos: llh_to_xyz(ell, lon2, lat2, 0.0),
        head: heading(lon2, lat2, az2),
    }
}

/// Length of the great-ellipse arc (shorter way) between two surface points: an upper bound on
/// the geodesic distance that exceeds it by very little.
pub fn great_ellipse_len(ell: &Ell, p: V3, q: V3) -> f64 {
    // parametrise by stretching to the unit sphere: u = (x/a, y/a, z/b)
    let u = [p[0] / ell.a, p[1] / ell.a, p[2] / ell.b];
    let w = [q[0] / ell.a, q[1] / ell.a, q[2] / ell.b];
    let c = [
        u[1] * w[2] - u[2] * w[1],
        u[2] * w[0] - u[0] * w[2],
        u[0] * w[1] - u[1] * w[0],
    ];
    let sn = norm(c);
    let ang = sn.atan2(dot(u, w));
    if sn < 1e-7 && ang > 3.0 {
        // antipodal: over a pole, and then the short way to q
        return 2.0 * marc(ell, C::re(FRAC_PI_2)).0 + ell.a * sn;
    }
    if ang == 0.0 || sn < 1e-300 {
        return dist(p, q);
    }
    // orthonormal v in plane
    let d = dot(u, w);
    let mut v = [w[0] - d * u[0], w[1] - d * u[1], w[2] - d * u[2]];
    let nv = norm(v);
    v = [v[0] / nv, v[1] / nv, v[2] / nv];
    quad(
        |t| {
            let (s, co) = t.sin_cos();
            let g = [
                ell.a * (-s * u[0] + co * v[0]),
                ell.a * (-s * u[1] + co * v[1]),
                ell.b * (-s * u[2] + co * v[2]),
            ];
            norm(g)
        },
        0.0,
        ang,
        0.8,
    )
}

// ------------------------------------------------------------------ complex helper

#[derive(Clone, Copy, Debug)]
pub struct C(pub f64, pub f64);
impl Add for C {
    type Output = C;
    fn add(self, o: C) -> C {
        C(self.0 + o.0, self.1 + o.1)
    }
}
impl Sub for C {
    type Output = C;
    fn sub(self, o: C) -> C {
        C(self.0 - o.0, self.1 - o.1)
    }
}
impl Mul for C {
    type Output = C;
    fn mul(self, o: C) -> C {
        C(self.0 * o.0 - self.1 * o.1, self.0 * o.1 + self.1 * o.0)
    }
}
impl Div for C {
    type Output = C;
    fn div(self, o: C) -> C {
        let d = o.0 * o.0 + o.1 * o.1;
        C((self.0 * o.0 + self.1 * o.1) / d, (self.1 * o.0 - self.0 * o.1) / d)
    }
}
impl Neg for C {
    type Output = C;
    fn neg(self) -> C {
        C(-self.0, -self.1)
    }
}
impl C {
    pub fn re(x: f64) -> C {
        C(x, 0.0)
    }
    pub fn scale(self, k: f64) -> C {
        C(self.0 * k, self.1 * k)
    }
    pub fn abs(self) -> f64 {
        self.0.hypot(self.1)
    }
    pub fn sin(self) -> C {
        C(self.0.sin() * self.1.cosh(), self.0.cos() * self.1.sinh())
    }
    pub fn cos(self) -> C {
        C(self.0.cos() * self.1.cosh(), -self.0.sin() * self.1.sinh())
    }
    pub fn sinh(self) -> C {
        C(self.0.sinh() * self.1.cos(), self.0.cosh() * self.1.sin())
    }
    pub fn cosh(self) -> C {
        C(self.0.cosh() * self.1.cos(), self.0.sinh() * self.1.sin())
    }
    pub fn ln(self) -> C {
        C(self.abs().ln(), self.1.atan2(self.0))
    }
    pub fn exp(self) -> C {
        let e = self.0.exp();
        C(e * self.1.cos(), e * self.1.sin())
    }
    pub fn powf(self, p: f64) -> C {
        self.ln().scale(p).exp()
    }
    pub fn sqrt(self) -> C {
        let m = self.abs();
        if m == 0.0 {
            return C(0.0, 0.0);
        }
        let r = ((m + self.0.abs()) / 2.0).sqrt();
        if self.0 >= 0.0 {
            C(r, self.1 / (2.0 * r))
        } else {
            C(self.1.abs() / (2.0 * r), if self.1 < 0.0 { -r } else { r })
        }
    }
    /// principal atanh, accurate for small arguments
    pub fn atanh(self) -> C {
        let (x, y) = (self.0, self.1);
        let den = (1.0 - x) * (1.0 - x) + y * y;
        C(0.25 * (4.0 * x / den).ln_1p(), 0.5 * (2.0 * y).atan2((1.0 - x) * (1.0 + x) - y * y))
    }
    /// asin, accurate for small arguments: asin z = atan(z / sqrt(1 - z²)) = -i atanh(i w)
    pub fn asin(self) -> C {
        let w = self / (C::re(1.0) - self * self).sqrt();
        let iw = C(-w.1, w.0);
        let t = iw.atanh();
        C(t.1, -t.0)
    }
}

/// conformal map step: given complex chi and delta, the phi with psi_s(phi) = psi_s(chi) + delta,
/// psi_s the spherical isometric latitude. Well conditioned at the poles.
fn rot(chi: C, delta: C) -> C {
    let (s, c) = (chi.sin(), chi.cos());
    let t = delta.sinh() / delta.cosh();
    // sin(phi - chi) = cos(chi) * (sin(chi) (1 - 1/cosh δ) + tanh δ) / (1 + sin(chi) tanh δ)
    let one_m = {
        // 1 - 1/cosh δ = 2 sinh²(δ/2)/cosh δ
        let h = delta.scale(0.5).sinh();
        (h * h).scale(2.0) / delta.cosh()
    };
    let z = c * (s * one_m + t) / (C::re(1.0) + s * t);
    chi + z.asin()
}

/// Isometric latitude.
pub fn isometric(ell: &Ell, lat: f64) -> f64 {
    let e = ell.e();
    lat.tan().asinh() - e * (e * lat.sin()).atanh()
}
/// Latitude from isometric latitude (Newton-free contraction).
pub fn inv_isometric(ell: &Ell, psi: f64) -> f64 {
    let e = ell.e();
    let mut lat = psi.sinh().atan();
    for _ in 0..60 {
        lat = (psi + e * (e * lat.sin()).atanh()).sinh().atan();
    }
    lat
}

/// Gauss-Schreiber coordinates (spherical transverse Mercator of the conformal latitude).
pub fn gauss_schreiber(ell: &Ell, lat: f64, dlon: f64) -> (f64, f64) {
    let e = ell.e();
    let chi = if ell.e2 == 0.0 {
        lat
    } else {
        rot(C::re(lat), C::re(-e * (e * lat.sin()).atanh())).0
    };
    let (s, c) = chi.sin_cos();
    let (sl, cl) = dlon.sin_cos();
    (s.atan2(c * cl), (c * sl).atanh())
}

/// Exact transverse Mercator (unit scale, origin at the equator): (easting, northing).
pub fn tm(ell: &Ell, lat: f64, dlon: f64) -> (f64, f64) {
    let (xi, eta) = gauss_schreiber(ell, lat, dlon);
    let chi = C(xi, eta);
    let e = ell.e();
    let mut phi = chi;
    if ell.e2 > 0.0 {
        for _ in 0..40 {
            let d = (phi.sin().scale(e)).atanh().scale(e);
            let nphi = rot(chi, d);
            let step = (nphi - phi).abs();
            phi = nphi;
            if step < 1e-17 {
                break;
            }
        }
    }
    let m = marc(ell, phi);
    (m.1, m.0)
}

/// meridian arc from the equator, complex argument
pub fn marc(ell: &Ell, phi: C) -> C {
    if !(phi.abs() < 1e3) {
        return C(f64::NAN, f64::NAN);
    }
    let n = ((phi.abs() / 0.5).ceil() as usize).max(1);
    let h = phi.scale(1.0 / n as f64);
    let mut tot = C(0.0, 0.0);
    for k in 0..n {
        let m = h.scale(k as f64 + 0.5);
        let mut s = C(0.0, 0.0);
        for (x, w) in gl() {
            let p = m + h.scale(0.5 * x);
            let sp = p.sin();
            s = s + (C::re(1.0) - (sp * sp).scale(ell.e2)).powf(-1.5).scale(*w);
        }
        tot = tot + s * h.scale(0.5);
    }
    tot.scale(ell.a * (1.0 - ell.e2))
}

/// Geodetic from geocentric by Bowring iteration on the parametric latitude (points well outside
/// the evolute). Returns Greenwich longitude, latitude, height.
pub fn xyz_to_llh(ell: &Ell, p: V3) -> (f64, f64, f64) {
    let rho = p[0].hypot(p[1]);
    let z = p[2];
    let (a, b, e2, ep2) = (ell.a, ell.b, ell.e2, ell.ep2());
    let (mut sb, mut cb) = {
        let (x, y) = (a * z, b * rho);
        let h = x.hypot(y);
        (x / h, y / h)
    };
    let mut lat = 0.0;
    for _ in 0..30 {
        lat = (z + ep2 * b * sb * sb * sb).atan2(rho - e2 * a * cb * cb * cb);
        let (x, y) = ((1.0 - ell.f) * lat.sin(), lat.cos());
        let h = x.hypot(y);
        (sb, cb) = (x / h, y / h);
    }
    let (s, c) = lat.sin_cos();
    let h = (rho - a * cb) * c + (z - b * sb) * s;
    let lon = if rho == 0.0 { 0.0 } else { p[1].atan2(p[0]) };
    (lon, lat, h)
}

pub fn norm_lon(x: f64) -> f64 {
    let y = x - (x / (2.0 * PI)).round() * 2.0 * PI;
    y
}

pub fn selfcheck() -> Result<(), String> {
    // Karney (2013) worked example, WGS84
    let w = Ell::from_ainvf(6378137.0, 298.257223563);
    let d = PI / 180.0;
    let r = direct(&w, 0.0, 40.0 * d, 30.0 * d, 1e7);
    let chk = [
        (r.lat / d, 41.79331020506),
        (r.lon / d, 137.84490004377),
        (r.az / d, 149.09016931807),
    ];
    for (g, e) in chk {
        if (g - e).abs() > 2e-11 {
            return Err(format!("direct oracle: {g} vs {e}"));
        }
    }
    // EPSG TM example (Airy): E 577274.99 N 69740.50
    let airy = Ell::from_ainvf(6377563.396, 299.3249646);
    let k0 = 0.9996012717;
    let (e, n) = tm(&airy, 50.5 * d, 2.5 * d);
    let m0 = marc(&airy, C::re(49.0 * d)).0;
    let (ee, nn) = (400_000.0 + k0 * e, -100_000.0 + k0 * (n - m0));
    if (ee - 577_274.99).abs() > 0.01 || (nn - 69_740.50).abs() > 0.01 {
        return Err(format!("tm oracle: {ee} {nn}"));
    }
    // meridian quadrant of WGS84
    let q = marc(&w, C::re(FRAC_PI_2)).0;
    if (q - 10_001_965.729_3).abs() > 1e-3 {
        return Err(format!("meridian arc oracle: {q}"));
    }
    // the TM oracle is conformal and true to scale on the central meridian
    let h = 1e-5;
    for (lat, dl) in [(0.3, 0.2), (-0.9, 0.5), (1.2, -0.7)] {
        let (e1, n1) = tm(&w, lat + h, dl);
        let (e0, n0) = tm(&w, lat - h, dl);
        let (e3, n3) = tm(&w, lat, dl + h);
        let (e2, n2) = tm(&w, lat, dl - h);
        let s: f64 = lat.sin();
        let big_m = w.a * (1.0 - w.e2) / (1.0 - w.e2 * s * s).powf(1.5);
        let nn = w.a / (1.0 - w.e2 * s * s).sqrt() * lat.cos();
        let a = ((n1 - n0) / (2.0 * h * big_m), (e1 - e0) / (2.0 * h * big_m));
        let b = ((e3 - e2) / (2.0 * h * nn), -(n3 - n2) / (2.0 * h * nn));
        if (a.0 - b.0).abs() > 1e-7 || (a.1 - b.1).abs() > 1e-7 {
            return Err(format!("tm oracle not conformal: {a:?} {b:?}"));
        }
    }
    for (lon, lat, h) in [(0.3, 0.2, 10.0), (-2.9, -1.5, -1e5), (1.0, 1.5707, 1e6), (3.0, 0.0, -3e5)] {
        let (l, p, hh) = xyz_to_llh(&w, llh_to_xyz(&w, lon, lat, h));
        if (l - lon).abs() > 1e-13 || (p - lat).abs() > 1e-13 || (hh - h).abs() > 1e-6 {
            return Err(format!("geodetic oracle {l} {p} {hh}"));
        }
    }
    // inverse isometric
    for lat in [-1.5, -0.3, 0.0, 0.7, 1.55] {
        if (inv_isometric(&w, isometric(&w, lat)) - lat).abs() > 1e-13 {
            return Err("isometric oracle".into());
        }
    }
    Ok(())
}
