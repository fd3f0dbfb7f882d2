//! C18 (datum shifts), C19 (CRS to CRS transformation), C21 (CRS distance)
use crate::angles::{aunit, lunit};
use crate::axes::{gaxes, gen_aunit, gen_lunit, paxes};
use crate::core::*;
use crate::geodesy::{datum, ellipsoid, gen_ell, gen_lat, gen_lon, llh, xyz};
use crate::projections::{central, reference, spec};
use crate::screen::{El, wrap};
use geokit::crs::Crs;
use geokit::crs::geocentric::GeocentricCrs;
use geokit::crs::geographic::GeographicCrs;
use geokit::crs::projected::ProjectedCrs;
use geokit::cs::cartesian::geocentric::{GeocentricAxes, XYZ};
use geokit::cs::geodetic::{Lat, Lon};
use geokit::geodesy::geodesics::GeodesicSolver;
use geokit::geodesy::geodesics::vincenty::VincentyGeodesicSolver;
use geokit::quantities::scale::PPM;
use geokit::transformations::CrsTransformation;
use geokit::transformations::xyz::{
    CrsXYZTransformation, RotationConvention, ToXYZ, ToXYZProvider, XYZIdentity, XYZTransformation, verif,
};
use geokit::units::angle::RAD;
use geokit::units::length::M;
use std::f64::consts::PI;

/// [kind, rx, ry, rz (rad), tx, ty, tz (m), ppm]; kind 0 identity, 1 translation, 2 position vector, 3 coordinate frame
pub struct Sh(Box<dyn XYZTransformation>);
impl XYZTransformation for Sh {
    fn to_ref(&self, src: XYZ) -> XYZ {
        self.0.to_ref(src)
    }
    fn from_ref(&self, dst: XYZ) -> XYZ {
        self.0.from_ref(dst)
    }
}
pub fn shift(i: &[f64]) -> Sh {
    let conv = if i[0] == 2. { RotationConvention::PositionVector } else { RotationConvention::CoordinateFrame };
    Sh(match i[0] as i32 {
        0 => Box::new(XYZIdentity),
        1 => Box::new(verif::translation(i[4] * M, i[5] * M, i[6] * M)),
        _ => Box::new(verif::helmert(
            conv,
            [i[1] * RAD, i[2] * RAD, i[3] * RAD],
            [i[4] * M, i[5] * M, i[6] * M],
            PPM(i[7]),
        )),
    })
}
pub fn gen_shift(g: &mut Gen) -> [f64; 8] {
    let mut s = [0.; 8];
    s[0] = g.r.pick(&[0., 1., 1., 2., 2., 3., 3.]);
    if s[0] == 0. {
        return s;
    }
    for k in 4..7 {
        s[k] = match g.r.below(5) {
            0 => 0.,
            1 => g.r.uni(-1000., 1000.).round(),
            _ => g.r.sign() * g.r.log(1e-3, 1000.),
        };
    }
    if s[0] >= 2. {
        let big = g.r.chance(0.3);
        for k in 1..4 {
            s[k] = match g.r.below(5) {
                0 => 0.,
                _ => g.r.sign() * if big { g.r.log(1e-5, 3e-4) } else { g.r.log(1e-10, 1e-4) },
            };
        }
        s[7] = match g.r.below(5) {
            0 => 0.,
            1 => g.r.uni(-200., 200.),
            _ => g.r.sign() * g.r.log(1e-4, 100.),
        };
    }
    s
}

// ------------------------------------------------------------------------------------------------ C18
/// a = [shift (8), x, y, z]
pub struct C18;
impl Prop for C18 {
    fn exec(&mut self, op: u32, i: &[f64]) -> Vec<f64> {
        let t = shift(&i[..8]);
        let p = xyz(i[8], i[9], i[10]);
        let q = match op {
            1 => t.to_ref(p),
            2 => t.from_ref(p),
            3 => t.from_ref(t.to_ref(p)),
            _ => t.to_ref(t.from_ref(p)),
        };
        vec![OK, q.x.m(), q.y.m(), q.z.m()]
    }
    fn generate(&mut self, g: &mut Gen, rec: &mut Rec) {
        rec.budget(g.n(300, 3000), g.n(900, 9_000));
        for _ in 0..g.n(400_000, 3_000_000) {
            for op in 1..=4 {
                let mut i = gen_shift(g).to_vec();
                let (a, invf) = gen_ell(g);
                if g.r.chance(0.7) {
                    i.extend(El::new(a, invf).xyz(gen_lon(g), gen_lat(g), g.height()));
                } else {
                    i.extend([g.mag(1., 1e7), g.mag(1., 1e7), g.mag(1., 1e7)]);
                }
                let e = self.call(op, &i);
                let p = [i[8], i[9], i[10]];
                let q = match op {
                    1 => to_common(&i, p),
                    2 => from_common(&i, p),
                    _ => p,
                };
                let d = e.out.get(1..4).map_or(f64::NAN, |o| (0..3).map(|k| (o[k] - q[k]).abs()).sum());
                let tol = if op == 1 { 0. } else { 2. * neglected(&i, p) };
                rec.push(d / (tol + 1e-14 * (1. + p[0].abs() + p[1].abs() + p[2].abs())), e);
            }
        }
    }
}

// ------------------------------------------------------------------------------------------------ CRS descriptors
/// [type (1 geocentric, 2 geographic, 3 projected), a, 1/f, prime meridian, axes kind, unit (3), height unit (3),
///  projection kind, lon0, lat0 | zone, k0, false easting, false northing]
pub const ND: usize = 17;
pub enum AnyCrs {
    C(GeocentricCrs),
    G(GeographicCrs),
    P(ProjectedCrs),
}
pub fn crs(d: &[f64]) -> AnyCrs {
    let dt = datum(d[1], d[2], d[3]);
    let hu = lunit(d[8], d[9], d[10]);
    let id = "probe".into();
    match d[0] as i32 {
        1 => AnyCrs::C(GeocentricCrs { id, datum: dt, axes: GeocentricAxes::XYZ }),
        2 => AnyCrs::G(GeographicCrs { id, datum: dt, axes: gaxes(d[4], aunit(d[5], d[6], d[7]), hu) }),
        _ => AnyCrs::P(ProjectedCrs {
            id,
            datum: dt,
            axes: paxes(d[4], lunit(d[5], d[6], d[7]), hu),
            projection: spec(d[11] as u32, &[d[1], d[2], d[12], d[13], d[14], d[15], d[16]]),
        }),
    }
}
impl AnyCrs {
    pub fn as_dyn(&self) -> &dyn Crs {
        match self {
            AnyCrs::C(c) => c,
            AnyCrs::G(c) => c,
            AnyCrs::P(c) => c,
        }
    }
    /// geodetic position the coordinates stand for, as the library sees it (checked by the specification)
    pub fn witness(&self, c: &[f64]) -> [f64; 3] {
        match self {
            AnyCrs::P(p) => match p.projection.applied_to(p.datum.ellipsoid()).unproj(p.axes.normalize(c)) {
                Ok(l) => [l.lon.angle().rad(), l.lat.angle().rad(), l.height.m()],
                Err(_) => [f64::NAN; 3],
            },
            _ => [0.; 3],
        }
    }
    /// raw coordinates of a geodetic position (longitude from the datum's prime meridian); used to choose inputs
    pub fn coords(&self, lon: f64, lat: f64, h: f64) -> Option<Vec<f64>> {
        let mut c = vec![0.; self.as_dyn().dim()];
        match self {
            AnyCrs::C(k) => k.axes.denormalize(k.datum.llh_to_xyz(llh(lon, lat, h)), &mut c),
            AnyCrs::G(k) => k.axes.denormalize(llh(lon, lat, h), &mut c),
            AnyCrs::P(k) => {
                let p = k.projection.applied_to(k.datum.ellipsoid()).proj(llh(lon, lat, h)).ok()?;
                k.axes.denormalize(p, &mut c)
            }
        }
        Some(c)
    }
}
impl ToXYZProvider for AnyCrs {
    fn to_xyz_transformation<'a>(&self) -> Box<dyn ToXYZ + 'a> {
        match self {
            AnyCrs::C(c) => c.to_xyz_transformation(),
            AnyCrs::G(c) => c.to_xyz_transformation(),
            AnyCrs::P(c) => c.to_xyz_transformation(),
        }
    }
}
/// a CRS whose domain contains the point (Greenwich longitude, latitude)
pub fn gen_crs(g: &mut Gen, ty: usize, glon: f64) -> Vec<f64> {
    let (a, invf) = gen_ell(g);
    let pm = if g.r.chance(0.5) { 0. } else { gen_lon(g) };
    let mut d = vec![ty as f64, a, invf, pm];
    if ty == 3 {
        d.push(1. + g.r.below(2) as f64);
        d.extend(gen_lunit(g));
    } else {
        d.push(1. + g.r.below(5) as f64);
        d.extend(gen_aunit(g));
    }
    d.extend(gen_lunit(g));
    let k = if ty == 3 { 1 + g.r.below(6) } else { 0 };
    let lon = wrap(glon - pm);
    let near = wrap(lon + g.r.uni(-8., 8.).to_radians());
    let fe = g.r.pick(&[0., 500_000., 1_234_567.]);
    let fnn = g.r.pick(&[0., 10_000_000., -54_321.]);
    let k0 = g.r.pick(&[1., 0.9996, 1.05]);
    d.push(k as f64);
    d.extend(match k {
        1 => [gen_lon(g), 0., k0, fe, fnn],
        2 => [gen_lon(g), g.deg(80.).to_radians(), 0., fe, fnn],
        3 => [near, gen_lat(g), k0, fe, fnn],
        4 | 5 => [0., (((lon.to_degrees() + 180.) / 6.).floor() + 1.).clamp(1., 60.), 0., 0., 0.],
        6 => [gen_lon(g), 0., 0., fe, fnn],
        _ => [0.; 5],
    });
    d
}

// ------------------------------------------------------------------------------------------------ screen
// Double precision image of spec/crs.qnt; it ranks events and journeys, the specification judges them.
fn per(code: f64, n: f64, d: f64, angle: bool) -> f64 {
    match (code as i32, angle) {
        (0, _) => 1.,
        (1, true) => PI / 180.,
        (2, true) => PI / 200.,
        (3, true) => PI / 648_000.,
        (1, false) => 0.3048,
        (2, false) => 1200. / 3937.,
        _ => n / d,
    }
}
pub struct Ground {
    p: [f64; 3],
    n: [f64; 3],
    full: bool,
    /// distance of the witness from the coordinates, on the map, over what it may be
    off: f64,
    /// metres the position may be wrong by
    tol: f64,
}
fn add(p: [f64; 3], k: f64, q: [f64; 3]) -> [f64; 3] {
    [p[0] + k * q[0], p[1] + k * q[1], p[2] + k * q[2]]
}
fn dot(p: [f64; 3], q: [f64; 3]) -> f64 {
    p[0] * q[0] + p[1] * q[1] + p[2] * q[2]
}
pub fn ground(d: &[f64], c: &[f64], w: &[f64]) -> Ground {
    let el = El::new(d[1], d[2]);
    let hu = per(d[8], d[9], d[10], false);
    let ax = d[4] as i32;
    match d[0] as i32 {
        1 => Ground { p: [c[0], c[1], c[2]], n: [0.; 3], full: true, off: 0., tol: 0. },
        2 => {
            let u = per(d[5], d[6], d[7], true);
            let (lon, lat) = match ax {
                1 | 3 => (c[0], c[1]),
                5 => (-c[1], c[0]),
                _ => (c[1], c[0]),
            };
            let (lon, lat) = (lon * u + d[3], (lat * u).clamp(-PI / 2., PI / 2.));
            let h = if ax <= 2 { c[2] * hu } else { 0. };
            let n = [lat.cos() * lon.cos(), lat.cos() * lon.sin(), lat.sin()];
            Ground { p: el.xyz(lon, lat, h), n, full: ax <= 2, off: 0., tol: 0. }
        }
        _ => {
            let u = per(d[5], d[6], d[7], false);
            let h = if ax == 1 { c[2] * hu } else { 0. };
            let k = d[11] as u32;
            let i = [d[1], d[2], d[12], d[13], d[14], d[15], d[16]];
            let (x, y) = reference(k, &i, w[0], w[1]);
            let dx = (c[0] * u - x).abs();
            let tm = (3..=5).contains(&k);
            let k0 = reference(k, &i, wrap(central(k, &i) + 1e-3), 0.).0 - reference(k, &i, central(k, &i), 0.).0;
            let k0 = k0 / 1e-3 / d[1];
            let dx = if tm { dx } else { dx.min((dx - std::f64::consts::TAU * d[1] * k0).abs()) };
            let third = el.f / (2. - el.f);
            let tol = if tm {
                let eta = (x - if k == 3 { d[15] } else { 500_000. }) / k0 / d[1];
                20. * d[1] * third.powi(5) * (10. * eta).cosh()
            } else {
                d[1] * el.e2.powi(5)
            } + (d[1] + (x.abs() + y.abs()) / k0) * 1e-13;
            let cl = if tm { 1. } else { w[1].cos().max(1e-6) };
            let (lon, lat) = (w[0] + d[3], w[1]);
            let n = [lat.cos() * lon.cos(), lat.cos() * lon.sin(), lat.sin()];
            Ground { p: el.xyz(lon, lat, h), n, full: ax == 1, off: dx.max((c[1] * u - y).abs()) / (k0 * tol / cl), tol }
        }
    }
}
fn turn(h: &[f64], p: [f64; 3]) -> [f64; 3] {
    let s = match h[0] as i32 {
        2 => 1.,
        3 => -1.,
        _ => 0.,
    };
    let r = [s * h[1], s * h[2], s * h[3]];
    [r[1] * p[2] - r[2] * p[1], r[2] * p[0] - r[0] * p[2], r[0] * p[1] - r[1] * p[0]]
}
fn shift_of(h: &[f64]) -> ([f64; 3], f64) {
    let t = if h[0] == 0. { [0.; 3] } else { [h[4], h[5], h[6]] };
    (t, if h[0] >= 2. { h[7] * 1e-6 } else { 0. })
}
pub fn to_common(h: &[f64], p: [f64; 3]) -> [f64; 3] {
    let (t, s) = shift_of(h);
    add(t, 1. + s, add(p, 1., turn(h, p)))
}
pub fn from_common(h: &[f64], q: [f64; 3]) -> [f64; 3] {
    let (t, s) = shift_of(h);
    let b = add(q, -1., t).map(|x| x / (1. + s));
    (0..9).fold(b, |p, _| add(b, -1., turn(h, p)))
}
pub fn neglected(h: &[f64], p: [f64; 3]) -> f64 {
    let (t, s) = shift_of(h);
    let r = if h[0] >= 2. { h[1].abs() + h[2].abs() + h[3].abs() } else { 0. } + s.abs();
    let one = |v: [f64; 3]| v[0].abs() + v[1].abs() + v[2].abs();
    r * r * one(p) + one(t) * r
}
impl Ground {
    pub fn point(&self) -> [f64; 3] {
        self.p
    }
    pub fn full(&self) -> bool {
        self.full
    }
    /// how suspicious: distance from a point over an allowance, or of the witness from the coordinates
    pub fn drift(&self, q: [f64; 3], tol: f64) -> f64 {
        let d = add(q, -1., self.p);
        let d = if self.full { d } else { add(d, -dot(d, self.n), self.n) };
        let size = 1e6 + q[0].abs() + q[1].abs() + q[2].abs();
        let r = dot(d, d).sqrt() / (tol + 3. * self.tol + 1e-14 * size);
        if r.is_nan() || self.off.is_nan() { f64::INFINITY } else { r.max(self.off) }
    }
}

// ------------------------------------------------------------------------------------------------ C19
/// a = [source (17), destination (17), source shift (8), destination shift (8), coordinates (3)]
/// op 1 forward, 2 backward (coordinates in the destination), 3 there and back
/// r = [status, coordinates (3), witness of the input (3), witness of the output (3)]
pub struct C19;
impl Prop for C19 {
    fn exec(&mut self, op: u32, i: &[f64]) -> Vec<f64> {
        let (s, d) = (crs(&i[..ND]), crs(&i[ND..2 * ND]));
        let (ss, sd) = (shift(&i[2 * ND..2 * ND + 8]), shift(&i[2 * ND + 8..2 * ND + 16]));
        let (ns, nd) = (s.as_dyn().dim(), d.as_dyn().dim());
        let c = &i[2 * ND + 16..];
        let (s2, d2) = (crs(&i[..ND]), crs(&i[ND..2 * ND]));
        let t = CrsXYZTransformation::new(s2, d2, ss, sd);
        let mut o = [0.; 3];
        let bad = vec![ERR];
        let (wi, wo) = match op {
            1 => {
                if t.fwd(&c[..ns], &mut o[..nd]).is_err() {
                    return bad;
                }
                (s.witness(&c[..ns]), d.witness(&o[..nd]))
            }
            2 => {
                if t.bwd(&c[..nd], &mut o[..ns]).is_err() {
                    return bad;
                }
                (d.witness(&c[..nd]), s.witness(&o[..ns]))
            }
            _ => {
                let mut m = [0.; 3];
                if t.fwd(&c[..ns], &mut m[..nd]).is_err() || t.bwd(&m[..nd], &mut o[..ns]).is_err() {
                    return bad;
                }
                ([0.; 3], [0.; 3])
            }
        };
        let mut r = vec![OK];
        r.extend(o);
        r.extend(wi);
        r.extend(wo);
        r
    }
    fn generate(&mut self, g: &mut Gen, rec: &mut Rec) {
        rec.budget(g.n(150, 2000), g.n(280, 3000));
        for n in 0..g.n(150_000, 800_000) {
            for op in 1..=3 {
                let (ts, td) = (1 + n % 3, 1 + (n / 3) % 3);
                let proj = ts == 3 || td == 3;
                let glon = gen_lon(g);
                let lat = if proj { g.deg(84.).to_radians() } else { gen_lat(g) };
                let (mut s, mut d) = (gen_crs(g, ts, glon), gen_crs(g, td, glon));
                if g.r.chance(0.6) {
                    // figures of the Earth alike, as in practice
                    let (a, f) = (s[1], s[2]);
                    d[1] = a * (1. + 1e-5 * g.r.uni(-1., 1.));
                    d[2] = f;
                }
                // the same body: distances of the point from both figures stay modest
                if (d[1] - s[1]).abs() > 1e-2 * s[1] {
                    d[1] = s[1];
                }
                if op == 3 && td != 1 {
                    d[4] = 1.;
                    if td == 2 && g.r.chance(0.5) {
                        d[4] = 2.;
                    }
                }
                if op == 2 {
                    std::mem::swap(&mut s, &mut d);
                }
                let from = crs(if op == 2 { &d } else { &s });
                let dd = if op == 2 { &d } else { &s };
                let c = match from.coords(wrap(glon - dd[3]).clamp(-PI, PI), lat, g.height()) {
                    Some(c) => c,
                    None => continue,
                };
                let mut i = s.clone();
                i.extend(&d);
                i.extend(gen_shift(g));
                i.extend(gen_shift(g));
                i.extend(&c);
                while i.len() < 2 * ND + 19 {
                    i.push(0.);
                }
                let e = self.call(op, &i);
                let pr = if e.out[0] != OK {
                    f64::INFINITY
                } else {
                    let (a, b) = if op == 2 { (&d, &s) } else { (&s, &d) };
                    let (ha, hb) = (&i[2 * ND..2 * ND + 8], &i[2 * ND + 8..2 * ND + 16]);
                    let (ha, hb) = if op == 2 { (hb, ha) } else { (ha, hb) };
                    let c = &i[2 * ND + 16..];
                    if op <= 2 {
                        let x = ground(a, c, &e.out[4..7]);
                        let q = from_common(hb, to_common(ha, x.p));
                        ground(b, &e.out[1..4], &e.out[7..10]).drift(q, 2. * neglected(hb, q) + 3. * x.tol).max(x.off)
                    } else {
                        // relative change of the coordinates
                        let big = 1e6 + neglected(ha, [a[1]; 3]) * 1e13 + neglected(hb, [a[1]; 3]) * 1e13;
                        let sc = if a[0] == 2. { [1., 1., big] } else { [big; 3] };
                        (0..3).map(|k| (c[k] - e.out[1 + k]).abs() / sc[k]).fold(0., f64::max)
                    }
                };
                rec.push(pr, e);
            }
        }
    }
}

// ------------------------------------------------------------------------------------------------ C21
/// a = [crs (17), p (3), q (3)];  r = [status, distance, distance reversed, azimuth at p (2D geographic)]
pub struct C21;
impl Prop for C21 {
    fn exec(&mut self, op: u32, i: &[f64]) -> Vec<f64> {
        assert!(op <= 3);
        let k = crs(&i[..ND]);
        let n = k.as_dyn().dim();
        let (p, q) = (&i[ND..ND + n], &i[ND + 3..ND + 3 + n]);
        let (d, e) = match (k.as_dyn().dist(p, q), k.as_dyn().dist(q, p)) {
            (Ok(d), Ok(e)) => (d, e),
            _ => return vec![ERR],
        };
        // witness of the direction of the line, judged by walking it
        let az = match &k {
            AnyCrs::G(c) if n == 2 => {
                let (a, b) = (c.axes.normalize(p), c.axes.normalize(q));
                let el = ellipsoid(i[1], i[2]);
                let (p1, p2): ((Lon, Lat), (Lon, Lat)) = ((a.lon, a.lat), (b.lon, b.lat));
                let sol = VincentyGeodesicSolver::new(&el).solve_inverse(p1, p2);
                sol.map(|s| s.alpha1.angle().rad()).unwrap_or(f64::NAN)
            }
            _ => 0.,
        };
        vec![OK, d.m(), e.m(), az]
    }
    fn generate(&mut self, g: &mut Gen, rec: &mut Rec) {
        rec.budget(g.n(150, 2000), g.n(350, 3500));
        for n in 0..g.n(150_000, 800_000) {
            for ty in 1..=3u32 {
                let glon = gen_lon(g);
                let mut d = gen_crs(g, ty as usize, glon);
                if ty == 2 && n % 2 == 0 {
                    d[4] = 3. + g.r.below(3) as f64;
                }
                let mut i = d.clone();
                if ty == 2 {
                    let lon = wrap(glon - d[3]);
                    let k = crs(&d);
                    let (l1, p1, h1) = (lon, gen_lat(g), g.height());
                    let (l2, p2) = match g.r.below(5) {
                        0 => (l1, p1),
                        1 => (wrap(l1 + g.r.sign() * g.r.log(1e-9, 1e-2)), p1),
                        2 => (l1, gen_lat(g)),
                        _ => (gen_lon(g), gen_lat(g)),
                    };
                    for (l, p, h) in [(l1, p1, h1), (l2, p2, g.height())] {
                        let mut c = k.coords(l.clamp(-PI, PI), p, h).unwrap();
                        c.resize(3, 0.);
                        i.extend(c);
                    }
                } else {
                    for _ in 0..6 {
                        i.push(g.mag(1e-3, 1e7));
                    }
                    if g.r.chance(0.2) {
                        for k in 0..3 {
                            i[ND + 3 + k] = i[ND + k];
                        }
                    }
                }
                let e = self.call(ty, &i);
                rec.push(far(&i, &e.out), e);
            }
        }
    }
}

/// screen: the distance that comes out against straight lines, or against walking the line on the ellipsoid
fn far(i: &[f64], out: &[f64]) -> f64 {
    if out.len() < 4 || out[0] != OK {
        return f64::INFINITY;
    }
    let d = &i[..ND];
    let (c, e) = (&i[ND..ND + 3], &i[ND + 3..ND + 6]);
    let asym = (out[1] - out[2]).abs() / (1. + out[1].abs());
    let flat = d[0] == 2. && d[4] > 2.;
    if flat {
        let u = per(d[5], d[6], d[7], true);
        let ll = |c: &[f64]| match d[4] as i32 {
            3 => (c[0] * u, c[1] * u),
            5 => (-c[1] * u, c[0] * u),
            _ => (c[1] * u, c[0] * u),
        };
        let (p, q) = (ll(c), ll(e));
        let el = El::new(d[1], d[2]);
        let (lat, dl, _) = el.direct(p.1.clamp(-PI / 2., PI / 2.), out[3], out[1]);
        let (x, y) = (el.xyz(p.0 + dl, lat, 0.), el.xyz(q.0, q.1.clamp(-PI / 2., PI / 2.), 0.));
        let g = add(x, -1., y);
        return dot(g, g).sqrt() / d[1] + asym;
    }
    let w = [0.; 3];
    let want = if d[0] == 3. {
        let u = per(d[5], d[6], d[7], false);
        let h = if d[4] == 1. { per(d[8], d[9], d[10], false) } else { 0. };
        let g = [(c[0] - e[0]) * u, (c[1] - e[1]) * u, (c[2] - e[2]) * h];
        dot(g, g).sqrt()
    } else {
        let g = add(ground(d, c, &w).p, -1., ground(d, e, &w).p);
        dot(g, g).sqrt()
    };
    (out[1] - want).abs() / (1. + want) + asym
}
