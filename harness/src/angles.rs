//! C01 (longitude / azimuth histories), C02 (latitude histories), C03 (arcs), C04 (quantities, units, DMS)
use crate::core::*;
use geokit::cs::azimuth::Azimuth;
use geokit::cs::geodetic::{Lat, Lon};
use geokit::cs::s1::Interval;
use geokit::quantities::angle::Angle;
use geokit::quantities::length::{ArcLength, Length};
use geokit::quantities::scale::PPM;
use geokit::units::angle::{AngleUnit, DEG, GRAD, RAD, SEC};
use geokit::units::length::{FT, LengthUnit, M, US_FT};


pub fn aunit(code: f64, num: f64, den: f64) -> AngleUnit {
    match code as i32 {
        0 => RAD,
        1 => DEG,
        2 => GRAD,
        3 => SEC,
        _ => AngleUnit(num, den),
    }
}
pub fn lunit(code: f64, num: f64, den: f64) -> LengthUnit {
    match code as i32 {
        0 => M,
        1 => FT,
        2 => US_FT,
        _ => LengthUnit(num, den),
    }
}

// ------------------------------------------------------------------------------------------------ C01
pub struct C01 {
    lon: Lon,
    az: Azimuth,
}
impl C01 {
    pub fn new() -> Self {
        C01 {
            lon: Lon::ZERO,
            az: Azimuth::NORTH,
        }
    }
    fn obs_lon(&self) -> Vec<f64> {
        let (s, c) = self.lon.sin_cos();
        vec![
            OK,
            self.lon.angle().rad(),
            s,
            c,
            self.lon.sin(),
            self.lon.cos(),
            self.lon.signum(),
            self.lon.tan(),
        ]
    }
    fn obs_az(&self) -> Vec<f64> {
        let (s, c) = self.az.sin_cos();
        vec![OK, self.az.angle().rad(), s, c, self.az.sin(), self.az.cos(), 0., self.az.tan()]
    }
}
impl Prop for C01 {
    fn exec(&mut self, op: u32, i: &[f64]) -> Vec<f64> {
        let a = i.first().copied().unwrap_or(0.);
        let ang = a * RAD;
        match op {
            1 => self.lon = Lon::rad(a),
            2 => self.lon = Lon::deg(a),
            3 => self.lon = Lon::dms(i[0], i[1], i[2]),
            4 => self.lon = self.lon + ang,
            5 => self.lon = ang + self.lon,
            6 => self.lon += ang,
            7 => self.lon = self.lon - ang,
            8 => self.lon -= ang,
            9 => self.lon = self.lon * a,
            10 => self.lon = a * self.lon,
            11 => self.lon *= a,
            12 => self.lon = self.lon / a,
            13 => self.lon /= a,
            14 => self.lon = -self.lon,
            15 => self.lon = self.lon.normalized(),
            16 => return vec![OK, (self.lon - Lon::rad(a)).rad()],
            17 => self.lon = Lon::new(a * GRAD),
            18 => self.lon = Lon::new(Angle::new(a, SEC)),
            19 => return vec![OK, (Lon::rad(a) - self.lon).rad()],
            21 => self.az = Azimuth::rad(a),
            22 => self.az = Azimuth::deg(a),
            23 => self.az = Azimuth::dms(i[0], i[1], i[2]),
            24 => self.az = self.az + ang,
            25 => self.az = ang + self.az,
            26 => return vec![OK, (self.az - Azimuth::rad(a)).rad()],
            27 => return vec![OK, (Azimuth::rad(a) - self.az).rad()],
            28 => self.az = Azimuth::new(a * DEG),
            31 => return vec![OK, ang.normalized().rad()],
            32 => {
                let mut b = ang;
                b.normalize();
                return vec![OK, b.rad()];
            }
            33 => return vec![OK, (i[0] * RAD).diff_to(i[1] * RAD).rad()],
            34 => {
                // named constants
                let v = [
                    Azimuth::NORTH,
                    Azimuth::EAST,
                    Azimuth::SOUTH,
                    Azimuth::WEST,
                ];
                return vec![OK, v[a as usize].angle().rad()];
            }
            35 => {
                let v = [Lon::MIN, Lon::ZERO, Lon::MAX];
                return vec![OK, v[a as usize].angle().rad()];
            }
            _ => unreachable!(),
        }
        if op < 20 { self.obs_lon() } else { self.obs_az() }
    }
    fn generate(&mut self, g: &mut Gen, rec: &mut Rec) {
        for k in 0..4 {
            rec.push_seq(self.call(34, &[k as f64]));
        }
        for k in 0..3 {
            rec.push_seq(self.call(35, &[k as f64]));
        }
        let nh = g.n(1600, 6000);
        for _ in 0..nh {
            // a fresh start, then a history
            *self = C01::new();
            rec.mark();
            for op in [g.r.pick(&[1u32, 1, 2, 3, 17, 18]), g.r.pick(&[21u32, 21, 22, 23, 28])] {
                let inp = ctor_args(g, op);
                rec.push_seq(self.call(op, &inp));
            }
            let len = 3 + g.r.below(8);
            for _ in 0..len {
                let op = g.r.pick(&[
                    1u32, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 19, 21, 22, 23, 24, 24, 25, 25, 26, 26,
                    27, 28, 31, 32, 33, 33, 16, 4, 7,
                ]);
                let inp = match op {
                    9..=13 => vec![factor(g)],
                    14 | 15 => vec![],
                    33 => vec![wide_rad(g), wide_rad(g)],
                    1 | 2 | 3 | 21 | 22 | 23 | 28 => ctor_args(g, op),
                    16 | 19 | 26 | 27 if g.r.chance(0.3) => {
                        // close to the current value, or to its opposite
                        let base = if op < 20 { self.lon.angle().rad() } else { self.az.angle().rad() };
                        let off = g.r.pick(&[0., std::f64::consts::PI, -std::f64::consts::PI]);
                        vec![g.around(base + off, 1.)]
                    }
                    4..=8 | 24 | 25 if g.r.chance(0.3) => {
                        // step onto a multiple of pi/2
                        let base = if op < 20 { self.lon.angle().rad() } else { self.az.angle().rad() };
                        let k = g.r.below(9) as f64 - 4.;
                        let t = k * std::f64::consts::FRAC_PI_2;
                        let d = if op == 7 || op == 8 { base - t } else { t - base };
                        vec![g.around(d, 1.)]
                    }
                    _ => vec![wide_rad(g)],
                };
                rec.push_seq(self.call(op, &inp));
            }
        }
    }
}
fn ctor_args(g: &mut Gen, op: u32) -> Vec<f64> {
    match op {
        1 | 21 => vec![wide_rad(g)],
        2 | 22 | 28 => vec![wide_deg(g)],
        17 => vec![wide_deg(g) / 0.9],
        18 => vec![wide_deg(g) * 3600.],
        3 | 23 => dms_args(g, 180.),
        _ => unreachable!(),
    }
}
/// (d, m, s) with d in (-lim, lim)
pub fn dms_args(g: &mut Gen, lim: f64) -> Vec<f64> {
    let d = match g.r.below(5) {
        0 => 0.,
        1 => -0.,
        2 => g.r.pick(&[1., -1., 89., -89.]),
        _ => g.r.uni(-lim + 1., lim - 1.).round(),
    };
    let d = if lim < 100. && d.abs() > 89. { 89. * d.signum() } else { d };
    let m = match g.r.below(4) {
        0 => 0.,
        1 => 59.,
        _ => g.r.below(60) as f64,
    };
    let s = match g.r.below(5) {
        0 => 0.,
        1 => 60f64.next_down(),
        2 => g.r.log(1e-12, 1.),
        3 => g.r.below(60) as f64,
        _ => g.r.uni(0., 59.999),
    };
    vec![d, m, s, if d.is_sign_negative() { 1. } else { 0. }]
}
pub fn wide_rad(g: &mut Gen) -> f64 {
    use std::f64::consts::PI;
    match g.r.below(10) {
        0 => g.r.uni(-PI, PI),
        1 => g.r.uni(-20., 20.),
        2 | 3 => {
            let k = g.r.below(81) as f64 - 40.;
            g.around(k * PI / 4., 1.)
        }
        4 => g.r.sign() * g.r.log(1e-18, 1e-3),
        5 => g.r.sign() * g.r.log(1., 1e6),
        6 => wide_deg(g).to_radians(),
        7 => {
            let k = g.r.below(200001) as f64 - 100000.;
            g.around(k * PI, 1.)
        }
        8 => g.r.pick(&[0., -0., PI, -PI, PI / 2., -PI / 2., 2. * PI, -2. * PI, 3. * PI, -3. * PI, 5. * PI]),
        _ => match g.r.below(10) {
            0 => g.r.sign() * g.r.log(1e6, 1e17),
            _ => g.deg(720.).to_radians(),
        },
    }
}
pub fn wide_deg(g: &mut Gen) -> f64 {
    match g.r.below(6) {
        0 => g.deg(180.),
        1 => g.deg(360.),
        2 => g.deg(1080.),
        3 => {
            let k = g.r.below(401) as f64 - 200.;
            g.around(k * 90., 1.)
        }
        4 => g.r.sign() * g.r.log(1e-14, 1e6),
        _ => g.r.uni(-180., 180.),
    }
}
fn factor(g: &mut Gen) -> f64 {
    match g.r.below(5) {
        0 => g.r.pick(&[1., -1., 2., -2., 0.5, -0.5, 3., 4., 10., 1e-3, 7.]),
        1 => g.r.sign() * g.r.log(1e-6, 1e4),
        2 => g.r.uni(-10., 10.),
        3 => 1. + g.r.sign() * g.r.log(1e-15, 1e-2),
        _ => g.r.sign() * (1. + g.r.below(20) as f64),
    }
}

// ------------------------------------------------------------------------------------------------ C02
pub struct C02 {
    lat: Lat,
}
impl C02 {
    pub fn new() -> Self {
        C02 { lat: Lat::ZERO }
    }
}
impl Prop for C02 {
    fn exec(&mut self, op: u32, i: &[f64]) -> Vec<f64> {
        let a = i.first().copied().unwrap_or(0.);
        let ang = a * RAD;
        match op {
            1 => self.lat = Lat::new(a * RAD),
            2 => self.lat = Lat::deg(a),
            3 => self.lat = Lat::dms(i[0], i[1], i[2]),
            4 => self.lat = self.lat + ang,
            5 => self.lat = ang + self.lat,
            6 => self.lat += ang,
            7 => self.lat = self.lat - ang,
            8 => self.lat -= ang,
            9 => self.lat = self.lat * a,
            10 => self.lat = a * self.lat,
            11 => self.lat *= a,
            12 => self.lat = self.lat / a,
            13 => self.lat /= a,
            14 => self.lat = -self.lat,
            15 => self.lat = self.lat.abs(),
            16 => return vec![OK, (self.lat - Lat::new(ang)).rad()],
            17 => self.lat = Lat::new(a * GRAD),
            35 => {
                let v = [Lat::MIN, Lat::ZERO, Lat::MAX];
                return vec![OK, v[a as usize].angle().rad()];
            }
            _ => unreachable!(),
        }
        let (s, c) = self.lat.sin_cos();
        vec![
            OK,
            self.lat.angle().rad(),
            s,
            c,
            self.lat.sin(),
            self.lat.cos(),
            self.lat.signum(),
            self.lat.tan(),
        ]
    }
    fn generate(&mut self, g: &mut Gen, rec: &mut Rec) {
        for k in 0..3 {
            rec.push_seq(self.call(35, &[k as f64]));
        }
        // documented saturation at the extremes
        for x in [f64::INFINITY, f64::NEG_INFINITY, 1e300, -1e300, f64::MAX] {
            for op in [1u32, 2, 4, 6, 7, 8, 17] {
                rec.push_seq(self.call(1, &[0.25]));
                rec.push_seq(self.call(op, &[x]));
            }
        }
        let nh = g.n(1800, 7000);
        for _ in 0..nh {
            *self = C02::new();
            rec.mark();
            let op = g.r.pick(&[1u32, 2, 3, 17]);
            let inp = lat_ctor(g, op);
            rec.push_seq(self.call(op, &inp));
            let len = 2 + g.r.below(9);
            for _ in 0..len {
                let op = g.r.pick(&[1u32, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 4, 5, 6, 7, 8, 16]);
                let inp = match op {
                    9..=13 => vec![factor(g)],
                    14 | 15 => vec![],
                    1 | 2 | 3 | 17 => lat_ctor(g, op),
                    4..=8 if g.r.chance(0.4) => {
                        let k = g.r.below(5) as f64 - 2.;
                        let t = k * std::f64::consts::FRAC_PI_4;
                        let b = self.lat.angle().rad();
                        vec![g.around(if op >= 7 { b - t } else { t - b }, 1.)]
                    }
                    _ => vec![if g.r.chance(0.6) { g.deg(120.).to_radians() } else { wide_rad(g) }],
                };
                rec.push_seq(self.call(op, &inp));
            }
        }
    }
}
fn lat_ctor(g: &mut Gen, op: u32) -> Vec<f64> {
    match op {
        1 => vec![if g.r.chance(0.7) { g.deg(95.).to_radians() } else { wide_rad(g) }],
        2 => vec![if g.r.chance(0.7) { g.deg(95.) } else { wide_deg(g) }],
        17 => vec![g.deg(95.) / 0.9],
        _ => dms_args(g, 90.),
    }
}

// ------------------------------------------------------------------------------------------------ C03
pub struct C03;
impl Prop for C03 {
    fn exec(&mut self, op: u32, i: &[f64]) -> Vec<f64> {
        let iv = match op {
            1 => Interval::new(i[0] * RAD, i[1] * RAD),
            2 => Interval::empty(),
            3 => Interval::full(),
            4 => Interval::singleton(i[0] * RAD),
            5 => {
                let (x, y) = (Interval::new(i[0] * RAD, i[1] * RAD), Interval::new(i[2] * RAD, i[3] * RAD));
                let b = |v: bool| v as i32 as f64;
                return vec![OK, b(x == y), b(y == x), b(x == x.clone())];
            }
            6 => {
                let (x, y) = (Interval::singleton(i[0] * RAD), Interval::singleton(i[1] * RAD));
                let z = Interval::new(i[0] * RAD, i[0] * RAD);
                let b = |v: bool| v as i32 as f64;
                return vec![OK, b(x == y), b(y == x), b(x == z)];
            }
            _ => unreachable!(),
        };
        vec![
            OK,
            iv.is_empty() as i32 as f64,
            iv.is_full() as i32 as f64,
            iv.length().rad(),
            (iv == Interval::empty()) as i32 as f64,
            (iv == Interval::full()) as i32 as f64,
        ]
    }
    fn generate(&mut self, g: &mut Gen, rec: &mut Rec) {
        use std::f64::consts::{FRAC_PI_2, FRAC_PI_4, PI, TAU};
        rec.push_seq(self.call(2, &[]));
        rec.push_seq(self.call(3, &[]));
        let sp = [
            0., -0., PI, -PI, FRAC_PI_2, -FRAC_PI_2, FRAC_PI_4, -FRAC_PI_4, PI.next_down(), -PI.next_down(), 1e-15,
            -1e-15, 3.0, -3.0, 1., -1.,
        ];
        for &a in &sp {
            for &b in &sp {
                rec.push_seq(self.call(1, &[a, b]));
            }
            rec.push_seq(self.call(4, &[a]));
            for &b in &sp {
                rec.push_seq(self.call(6, &[a, b]));
            }
        }
        for _ in 0..g.n(12000, 40000) {
            let (a, b) = match g.r.below(5) {
                0 => (g.r.uni(-PI, PI), g.r.uni(-PI, PI)),
                1 => {
                    let a = g.deg(180.).to_radians();
                    (a, g.around(a, 1.))
                }
                2 => (g.deg(180.).to_radians(), g.deg(180.).to_radians()),
                3 => {
                    let a = g.r.pick(&sp);
                    (a, g.deg(180.).to_radians())
                }
                _ => {
                    // outside the canonical range, away from the antimeridian
                    let k = g.r.below(5) as f64 - 2.;
                    (g.r.uni(-3.1, 3.1) + k * TAU, g.r.uni(-3.1, 3.1) - k * TAU)
                }
            };
            // below the specification's resolution
            let fl = |x: f64| if x.abs() < 1e-20 { 0. } else { x };
            let (a, b) = (fl(a), fl(b));
            rec.push_seq(self.call(1, &[a, b]));
            if g.r.chance(0.5) {
                rec.push_seq(self.call(1, &[b, a]));
            }
            if g.r.chance(0.2) {
                rec.push_seq(self.call(4, &[a]));
            }
            if g.r.chance(0.2) && a.abs() <= PI && b.abs() <= PI {
                let c = match g.r.below(3) {
                    0 => a,
                    1 => fl(g.around(a, 1.)).clamp(-PI, PI),
                    _ => g.deg(180.).to_radians(),
                };
                let d = match g.r.below(3) {
                    0 | 1 => b,
                    _ => g.deg(180.).to_radians(),
                };
                rec.push_seq(self.call(5, &[a, b, c, d]));
                rec.push_seq(self.call(6, &[a, if g.r.chance(0.3) { -a } else { c }]));
            }
        }
    }
}

// ------------------------------------------------------------------------------------------------ C04
pub struct C04;
/// parses what `Dms` prints:  [-]D° MM′ SS.ssssssss″
fn parse_dms(s: &str) -> Option<(f64, f64, f64, f64)> {
    let t = s.trim();
    let (neg, t) = match t.strip_prefix('-') {
        Some(r) => (1., r),
        None => (0., t),
    };
    let (d, r) = t.split_once('°')?;
    let (m, r) = r.split_once('′')?;
    let (sec, r) = r.split_once('″')?;
    if !r.trim().is_empty() {
        return None;
    }
    Some((neg, d.trim().parse().ok()?, m.trim().parse().ok()?, sec.trim().parse().ok()?))
}
/// parses "<number> <unit>"
fn parse_qty(s: &str, unit: &str) -> Option<f64> {
    let (n, u) = s.trim().split_once(' ')?;
    if u != unit { None } else { n.parse().ok() }
}
impl Prop for C04 {
    fn exec(&mut self, op: u32, i: &[f64]) -> Vec<f64> {
        match op {
            // unit conversions: code num den qty
            1 => {
                let u = aunit(i[0], i[1], i[2]);
                let a = Angle::new(i[3], u);
                let b = i[3] * u;
                let c = u * i[3];
                vec![OK, a.rad(), b.rad(), c.rad(), a.val(u), a.val(DEG), a.val(RAD), u.rad_per_unit()]
            }
            2 => {
                let u = lunit(i[0], i[1], i[2]);
                let a = Length::new(i[3], u);
                let b = i[3] * u;
                let c = u * i[3];
                vec![OK, a.m(), b.m(), c.m(), a.val(u), a.val(FT), a.val(M), u.m_per_unit()]
            }
            // angle arithmetic
            3 => {
                let (x, y, k) = (i[0] * RAD, i[1] * RAD, i[2]);
                let mut s = x;
                s += y;
                let mut d = x;
                d -= y;
                let mut m = x;
                m *= k;
                let mut q = x;
                q /= k;
                vec![
                    OK,
                    (x + y).rad(),
                    s.rad(),
                    (x - y).rad(),
                    d.rad(),
                    (x * k).rad(),
                    (k * x).rad(),
                    m.rad(),
                    (x / k).rad(),
                    q.rad(),
                    (-x).rad(),
                    x.abs().rad(),
                    x.signum(),
                    (x < y) as i32 as f64,
                    (x == y) as i32 as f64,
                ]
            }
            // length arithmetic
            4 => {
                let (x, y, k) = (i[0] * M, i[1] * M, i[2]);
                let mut s = x;
                s += y;
                let mut d = x;
                d -= y;
                let mut m = x;
                m *= k;
                let mut q = x;
                q /= k;
                vec![
                    OK,
                    (x + y).m(),
                    s.m(),
                    (x - y).m(),
                    d.m(),
                    (x * k).m(),
                    (k * x).m(),
                    m.m(),
                    (x / k).m(),
                    q.m(),
                    0.,
                    x.abs().m(),
                    x.hypot(y).m(),
                    (x < y) as i32 as f64,
                    (x == y) as i32 as f64,
                ]
            }
            // length x angle, arc lengths, atan2, ratio: x y (lengths) t (angle)
            5 => {
                let (x, y, t) = (i[0] * M, i[1] * M, i[2] * RAD);
                vec![
                    OK,
                    (x * t).length().m(),
                    (t * x).length().m(),
                    (ArcLength(y) / x).rad(),
                    x.atan2(y).rad(),
                    y / x,
                    PPM(i[2]).factor(),
                    PPM(i[2]).inv_factor(),
                ]
            }
            // dms decomposition and display
            6 => {
                let a = i[0] * RAD;
                let d = a.dms();
                let txt = parse_dms(&format!("{}", d));
                let az = parse_dms(&format!("{}", Azimuth::new(a)));
                let (t_ok, tn, td, tm, ts) = match txt {
                    Some((n, d, m, s)) => (1., n, d, m, s),
                    None => (0., 0., 0., 0., 0.),
                };
                let (z_ok, zn, zd, zm, zs) = match az {
                    Some((n, d, m, s)) => (1., n, d, m, s),
                    None => (0., 0., 0., 0., 0.),
                };
                let neg = if d.deg().is_sign_negative() { 1. } else { 0. };
                vec![
                    OK,
                    neg,
                    d.deg(),
                    d.min(),
                    d.sec(),
                    t_ok,
                    tn,
                    td,
                    tm,
                    ts,
                    z_ok,
                    zn,
                    zd,
                    zm,
                    zs,
                    Azimuth::new(a).angle().rad(),
                ]
            }
            // printed quantities
            7 => {
                let a = i[0] * RAD;
                let l = i[0] * M;
                let lat = Lat::new(a);
                let lon = Lon::new(a);
                let f = |o: Option<f64>| match o {
                    Some(x) => [1., x],
                    None => [0., 0.],
                };
                let p = [
                    f(parse_qty(&format!("{}", a), "rad")),
                    f(parse_qty(&format!("{}", a.deg()), "deg")),
                    f(parse_qty(&format!("{}", l), "m")),
                    f(parse_qty(&format!("{}", lat), "deg")),
                    f(parse_qty(&format!("{}", lon), "deg")),
                    f(parse_qty(&format!("{:e}", a), "rad")),
                    f(parse_qty(&format!("{:e}", a.deg()), "deg")),
                ];
                let mut v = vec![OK, lat.angle().rad(), lon.angle().rad()];
                for q in p {
                    v.extend(q);
                }
                v
            }
            // angle trig
            8 => {
                let a = i[0] * RAD;
                let (s, c) = a.sin_cos();
                vec![OK, s, c, a.sin(), a.cos(), a.tan()]
            }
            9 => {
                let v = [
                    Angle::TINY.rad(),
                    Angle::SMALL.rad(),
                    Angle::ZERO.rad(),
                    Angle::PI_2.rad(),
                    Angle::PI.rad(),
                    Angle::TWO_PI.rad(),
                    Angle::M_PI_2.rad(),
                    Angle::M_PI.rad(),
                    Angle::default_epsilon().rad(),
                    Length::TINY.m(),
                    Length::SMALL.m(),
                    Length::ZERO.m(),
                    Length::default_epsilon().m(),
                ];
                let mut o = vec![OK];
                o.extend(v);
                o
            }
            // the same at very small and very large scales: operands and results are scaled by a power of two
            10 => {
                let k = 2f64.powi(i[2] as i32);
                let (x, y) = (i[0] * k * M, i[1] * k * M);
                let (p, q) = (i[0] * k * RAD, i[1] * k * RAD);
                vec![
                    OK,
                    (x + y).m() / k,
                    (x - y).m() / k,
                    x.abs().m() / k,
                    x.hypot(y).m() / k,
                    x.atan2(y).rad(),
                    x / y,
                    (p + q).rad() / k,
                    (p - q).rad() / k,
                    p.abs().rad() / k,
                    (x < y) as i32 as f64,
                    (p < q) as i32 as f64,
                ]
            }
            _ => unreachable!(),
        }
    }
    fn generate(&mut self, g: &mut Gen, rec: &mut Rec) {
        rec.budget(0, 100000);
        rec.push(0., self.call(9, &[]));
        for _ in 0..g.n(600, 3000) {
            let (x, y) = (g.r.sign() * g.r.log(1e-3, 1e3), g.r.sign() * g.r.log(1e-3, 1e3));
            let k = g.r.sign() * g.r.below(401) as f64;
            rec.push(0., self.call(10, &[x, y, k]));
        }
        for _ in 0..g.n(2500, 12000) {
            let code = g.r.below(5) as f64;
            let (n, d) = (g.r.log(1e-3, 10.), g.r.pick(&[1., 3., 180., 6400., 1000.]));
            let q = g.mag(1e-9, 1e7);
            rec.push(0., self.call(1, &[code, n, d, q]));
            let code = g.r.below(4) as f64;
            let q = g.mag(1e-9, 1e9);
            rec.push(0., self.call(2, &[code, n, d, q]));
            let k = factor(g);
            let (x, y) = (wide_rad_small(g), wide_rad_small(g));
            rec.push(0., self.call(3, &[x, y, k]));
            let (x, y) = (g.mag(1e-6, 1e9), g.mag(1e-6, 1e9));
            let y = if g.r.chance(0.1) { x } else { y };
            rec.push(0., self.call(4, &[x, y, k]));
            let x = g.r.sign() * g.r.log(1e-3, 1e8);
            let y = g.mag(1e-3, 1e8);
            let t = g.mag(1e-9, 1e3);
            rec.push(0., self.call(5, &[x, y, t]));
            let a = dms_angle(g);
            rec.push(0., self.call(6, &[a]));
            let a = dms_angle(g);
            rec.push(0., self.call(6, &[a]));
            rec.push(0., self.call(7, &[a]));
            let a = wide_rad_small(g);
            rec.push(0., self.call(8, &[a]));
        }
    }
}
fn wide_rad_small(g: &mut Gen) -> f64 {
    loop {
        let x = wide_rad(g);
        if x.abs() < 1e5 {
            return x;
        }
    }
}
/// angles in [-180, 180] degrees, biased to the neighbourhood of whole minutes and degrees
fn dms_angle(g: &mut Gen) -> f64 {
    let d = match g.r.below(6) {
        0 => g.deg(180.),
        1 => {
            let d = g.r.below(361) as f64 - 180.;
            g.around(d, 1. / 60.)
        }
        2 | 3 => {
            let d = g.r.below(180) as f64 + g.r.below(60) as f64 / 60.;
            let s = g.r.sign();
            g.around(s * d, 1. / 3600.)
        }
        4 => {
            // whole degrees, minutes and seconds, exactly representable or just around
            let d = g.r.below(180) as f64 + g.r.below(60) as f64 / 60. + g.r.below(60) as f64 / 3600.;
            g.r.sign() * (d + g.r.pick(&[0., 1e-12, -1e-12, 1e-10, -1e-10, 2e-10, -2e-10, 1e-9, -1e-9]))
        }
        _ if g.r.chance(0.3) => return g.r.uni(-3600., 3600.).to_radians(),
        _ => g.r.uni(-180., 180.),
    };
    d.clamp(-180., 180.).to_radians()
}
