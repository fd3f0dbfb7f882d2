//! C13-C17: map projections
use crate::core::*;
use crate::geodesy::{ellipsoid, gen_ell, gen_lat, gen_lon, llh};
use crate::screen::{El, wrap};
use geokit::cs::cartesian::projected::ENH;
use geokit::cs::geodetic::{Lat, Lon};
use geokit::projections::{Projection, ProjectionSpec};
use geokit::units::angle::RAD;
use geokit::units::length::M;
use std::f64::consts::{FRAC_PI_2, PI};

/// [a, invf, lon0, lat0 | zone, k0, fe, fn]; kind: 1 Mercator 1SP, 2 Mercator 2SP, 3 transverse Mercator,
/// 4 UTM north, 5 UTM south, 6 web Mercator
pub fn spec(kind: u32, i: &[f64]) -> ProjectionSpec {
    let lon0 = Lon::rad(i[2]);
    let lat0 = Lat::new(i[3] * RAD);
    let k0 = i[4];
    let false_easting = i[5] * M;
    let false_northing = i[6] * M;
    match kind {
        1 => ProjectionSpec::Mercator1SP { lon0, k0, false_easting, false_northing },
        2 => ProjectionSpec::Mercator2SP { lon0, lat0, false_easting, false_northing },
        3 => ProjectionSpec::TransverseMercator { lon0, lat0, k0, false_easting, false_northing },
        4 => ProjectionSpec::UTMNorth { zone: i[3] as u8 },
        5 => ProjectionSpec::UTMSouth { zone: i[3] as u8 },
        _ => ProjectionSpec::WebMercator { lon0, lat0, false_easting, false_northing },
    }
}
pub fn projection(kind: u32, i: &[f64]) -> Box<dyn Projection> {
    spec(kind, i).applied_to(&ellipsoid(i[0], i[1]))
}
fn fwd(p: &dyn Projection, lon: f64, lat: f64, h: f64) -> Vec<f64> {
    match p.proj(llh(lon, lat, h)) {
        Ok(e) => vec![OK, e.easting.m(), e.northing.m(), e.height.m()],
        Err(_) => vec![ERR, 0., 0., 0.],
    }
}
fn bwd(p: &dyn Projection, e: f64, n: f64, h: f64) -> Vec<f64> {
    match p.unproj(ENH { easting: e * M, northing: n * M, height: h * M }) {
        Ok(l) => vec![OK, l.lon.angle().rad(), l.lat.angle().rad(), l.height.m()],
        Err(_) => vec![ERR, 0., 0., 0.],
    }
}
pub fn gen_params(g: &mut Gen, kind: u32) -> [f64; 7] {
    let (a, invf) = gen_ell(g);
    let lon0 = match g.r.below(4) {
        0 => 0.,
        _ => gen_lon(g),
    };
    let lat0 = match kind {
        1 | 6 => 0.,
        2 => match g.r.below(4) {
            0 => 0.,
            1 => g.r.sign() * g.r.uni(80., 89.5).to_radians(),
            _ => g.deg(80.).to_radians(),
        },
        3 => match g.r.below(5) {
            0 | 1 => 0.,
            2 => g.r.sign() * FRAC_PI_2,
            _ => gen_lat(g),
        },
        _ => 1. + g.r.below(60) as f64,
    };
    let k0 = match g.r.below(4) {
        0 => 1.,
        1 => 0.9996,
        2 => g.r.uni(0.5, 2.),
        _ => 1. + g.r.sign() * g.r.log(1e-9, 1e-2),
    };
    let off = |g: &mut Gen| match g.r.below(4) {
        0 => 0.,
        1 => g.r.pick(&[500_000., 10_000_000., -100_000., 400_000.]),
        2 => g.r.uni(-1e7, 1e7),
        _ => g.r.uni(-1e6, 1e6).round(),
    };
    let (fe, fnn) = (off(g), off(g));
    match kind {
        1 => [a, invf, lon0, 0., k0, fe, fnn],
        2 => [a, invf, lon0, lat0, 0., fe, fnn],
        3 => [a, invf, lon0, lat0, k0, fe, fnn],
        4 | 5 => [a, invf, 0., lat0, 0., 0., 0.],
        _ => [a, invf, lon0, 0., 0., fe, fnn],
    }
}
pub fn central(kind: u32, p: &[f64]) -> f64 {
    if kind == 4 || kind == 5 { (6. * p[3] - 183.).to_radians() } else { p[2] }
}
/// a point of the domain: transverse cylinders within 45 degrees of the central meridian, Mercator below 89.9 degrees
pub fn gen_point(g: &mut Gen, kind: u32, p: &[f64]) -> (f64, f64) {
    if (3..=5).contains(&kind) {
        let lim: f64 = g.r.pick(&[3., 3., 6., 20., 45.]);
        let d = match g.r.below(4) {
            0 => g.deg(lim),
            1 => {
                let s = g.r.sign();
                s * g.around(lim, 1e-3).abs().min(lim)
            }
            _ => g.r.uni(-lim, lim),
        };
        let lon = wrap(central(kind, p) + d.to_radians()).clamp(-PI, PI);
        (lon, gen_lat(g))
    } else {
        let lon = match g.r.below(5) {
            // near the antimeridian of the projection
            0 => wrap(p[2] + PI + g.r.sign() * g.r.log(1e-12, 1e-2)).clamp(-PI, PI),
            _ => gen_lon(g),
        };
        let lat = match g.r.below(8) {
            0 => g.r.sign() * (89.9f64 - g.r.log(1e-6, 1.)).to_radians(),
            _ => g.deg(89.9).to_radians(),
        };
        (lon, lat)
    }
}
/// double precision screen: easting, northing
pub fn reference(kind: u32, i: &[f64], lon: f64, lat: f64) -> (f64, f64) {
    let el = El::new(i[0], i[1]);
    let dl = wrap(lon - central(kind, i));
    match kind {
        1 | 2 => {
            let k = if kind == 1 { i[4] } else { i[3].cos() / (1. - el.e2 * i[3].sin().powi(2)).sqrt() };
            (i[5] + el.a * k * dl, i[6] + el.a * k * el.iso(lat))
        }
        6 => (i[5] + el.a * dl, i[6] + el.a * lat.sin().atanh()),
        _ => {
            let (x, y) = el.tm(lat, dl);
            let (k, fe, fnn, l0) = match kind {
                3 => (i[4], i[5], i[6], i[3]),
                4 => (0.9996, 500_000., 0., 0.),
                _ => (0.9996, 500_000., 1e7, 0.),
            };
            (fe + k * x, fnn + k * (y - el.tm(l0, 0.).1))
        }
    }
}
fn prio(kind: u32, i: &[f64], out: &[f64]) -> f64 {
    if out.len() < 4 || out[0] != OK {
        return f64::INFINITY;
    }
    let (x, y) = reference(kind, i, i[7], i[8]);
    let w = std::f64::consts::TAU * i[0] * if kind == 1 { i[4] } else { 1. };
    let dx = (out[1] - x).abs();
    let dx = if kind == 1 || kind == 6 { dx.min((dx - w).abs()) } else { dx };
    // the series is cut at the fourth order: weigh distant points less
    let m = if (3..=5).contains(&kind) { 1. + (10. * (x - i[5]).abs() / i[0]).cosh() / 100. } else { 1. };
    (dx.hypot(out[2] - y)) / m / (i[0] + x.abs() + y.abs()) + (out[3] - i[9]).abs()
}

/// C13 (Mercator, web Mercator), C14 (transverse Mercator), C17 (UTM): forward
pub struct Fwd(pub Vec<u32>);
impl Prop for Fwd {
    fn exec(&mut self, op: u32, i: &[f64]) -> Vec<f64> {
        fwd(&*projection(op, i), i[7], i[8], i[9])
    }
    fn generate(&mut self, g: &mut Gen, rec: &mut Rec) {
        rec.budget(g.n(300, 3000), g.n(900, 9000));
        let kinds = self.0.clone();
        for _ in 0..g.n(200_000, 2_000_000) {
            for &k in &kinds {
                let p = gen_params(g, k);
                let (lon, lat) = gen_point(g, k, &p);
                let mut i = p.to_vec();
                i.extend([lon, lat, g.height()]);
                let e = self.call(k, &i);
                rec.push(prio(k, &i, &e.out), e);
            }
        }
        // every UTM zone at its meridian and edges
        if kinds.contains(&4) {
            for z in 1..=60 {
                for k in 4..=5 {
                    for d in [-3., 0., 3.] {
                        let lon = wrap((6. * z as f64 - 183. + d).to_radians()).clamp(-PI, PI);
                        let lat = g.deg(80.).to_radians();
                        let i = [6378137., 298.257223563, 0., z as f64, 0., 0., 0., lon, lat, 0.];
                        rec.push_seq(self.call(k, &i));
                    }
                }
            }
        }
    }
}

/// C15: op = kind: there and back; op = 10 + kind: back from the plane
pub struct C15;
impl Prop for C15 {
    fn exec(&mut self, op: u32, i: &[f64]) -> Vec<f64> {
        if op < 10 {
            let p = projection(op, i);
            let mut v = fwd(&*p, i[7], i[8], i[9]);
            if v[0] == OK {
                let w = bwd(&*p, v[1], v[2], v[3]);
                v.extend(w);
            }
            v
        } else {
            bwd(&*projection(op - 10, i), i[7], i[8], i[9])
        }
    }
    fn generate(&mut self, g: &mut Gen, rec: &mut Rec) {
        rec.budget(g.n(120, 2000), g.n(300, 4000));
        for _ in 0..g.n(100_000, 1_000_000) {
            for k in 1..=6 {
                let p = gen_params(g, k);
                let (lon, lat) = gen_point(g, k, &p);
                let h = g.height();
                let mut i = p.to_vec();
                i.extend([lon, lat, h]);
                let e = self.call(k, &i);
                let pr = if e.out.len() < 8 || e.out[4] != OK {
                    f64::INFINITY
                } else {
                    (e.out[6] - lat).abs() + lat.cos() * wrap(e.out[5] - lon).abs() + (e.out[7] - h).abs()
                };
                rec.push(pr, e);
                // plane points: images of the domain, computed by the screen, not by the code
                let (x, y) = reference(k, &i, lon, lat);
                let mut j = p.to_vec();
                j.extend([x, y, h]);
                let e = self.call(10 + k, &j);
                let pr = if e.out.len() < 4 || e.out[0] != OK {
                    f64::INFINITY
                } else {
                    (e.out[2] - lat).abs() + lat.cos() * wrap(e.out[1] - lon).abs() + (e.out[3] - h).abs()
                };
                rec.push(pr, e);
            }
        }
    }
}

/// C16: totality. op = kind: forward; op = 10 + kind: inverse
pub struct C16;
impl Prop for C16 {
    fn exec(&mut self, op: u32, i: &[f64]) -> Vec<f64> {
        if op < 10 {
            fwd(&*projection(op, i), i[7], i[8], i[9])
        } else {
            bwd(&*projection(op - 10, i), i[7], i[8], i[9])
        }
    }
    fn generate(&mut self, g: &mut Gen, rec: &mut Rec) {
        rec.budget(g.n(120, 2000), g.n(250, 4000));
        let wild = |g: &mut Gen, sc: f64| match g.r.below(10) {
            0 => f64::NAN,
            1 => g.r.sign() * f64::INFINITY,
            2 => g.r.sign() * g.r.log(1e10, 1e300),
            3 => 0.,
            4 => g.r.sign() * sc * g.r.pick(&[0.5, 1., 2., 0.25, 1.5]),
            5 => g.r.sign() * g.r.log(1e-12, 1.) * sc,
            _ => g.r.sign() * sc * g.r.log(0.1, 1e3),
        };
        for _ in 0..g.n(60_000, 500_000) {
            for k in 1..=6 {
                let p = gen_params(g, k);
                let h = g.height();
                let (lon, lat) = if g.r.chance(0.3) {
                    gen_point(g, k, &p)
                } else if g.r.chance(0.5) {
                    // quarter turns from the central meridian, equator and poles
                    let q = g.r.pick(&[0., 0.5, 1., -0.5, -1., 0.25]);
                    let s = g.r.pick(&[0., 0.5, -0.5, 0.25, 0.4999999]);
                    let l = g.around(central(k, &p) + q * PI, 1.);
                    (wrap(l).clamp(-PI, PI), g.around(s * PI, 1.).clamp(-FRAC_PI_2, FRAC_PI_2))
                } else {
                    (gen_lon(g), gen_lat(g))
                };
                let mut i = p.to_vec();
                i.extend([lon, lat, h]);
                let bad = |e: &Event| {
                    if e.out.iter().any(|x| !x.is_finite()) || e.out[0] > ERR { f64::INFINITY } else { 0. }
                };
                let e = self.call(k, &i);
                rec.push(bad(&e), e);
                let mut j = p.to_vec();
                if g.r.chance(0.4) {
                    let (x, y) = reference(k, &i, lon, lat);
                    j.extend([x, y, h]);
                } else {
                    let a = p[0] * 1.5;
                    j.extend([wild(g, a), wild(g, a), h]);
                }
                let e = self.call(10 + k, &j);
                rec.push(bad(&e), e);
            }
        }
    }
}
