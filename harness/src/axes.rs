//! C05 (axes), C06 (approximate comparison), C07 (equality)
use crate::angles::{aunit, lunit};
use crate::core::*;
use crate::geodesy::{ellipsoid, gen_lat, gen_lon, llh, xyz};
use approx::AbsDiffEq;
use geokit::geodesy::geodesics::{DirectErrors, Geodesic, InverseErrors, check_direct, check_inverse};
use geokit::crs::Crs;
use geokit::crs::geocentric::GeocentricCrs;
use geokit::crs::geographic::GeographicCrs;
use geokit::crs::projected::ProjectedCrs;
use geokit::cs::azimuth::Azimuth;
use geokit::cs::cartesian::CartesianTolerance;
use geokit::cs::cartesian::geocentric::{GeocentricAxes, XYZ, approx_eq_xyz};
use geokit::cs::cartesian::projected::{ENH, ProjectedAxes, ProjectedTolerance};
use geokit::cs::geodetic::{GeodeticAxes, GeodeticTolerance, LLH, Lat, Lon, approx_eq_llh};
use geokit::geodesy::{Ellipsoid, GeodeticDatum, PrimeMeridian};
use geokit::projections::ProjectionSpec;
use geokit::quantities::angle::Angle;
use geokit::quantities::length::Length;
use geokit::units::angle::{AngleUnit, DEG, GRAD, RAD};
use geokit::units::length::{FT, LengthUnit, M, US_FT};

pub fn gaxes(kind: f64, angle_unit: AngleUnit, height_unit: LengthUnit) -> GeodeticAxes {
    match kind as i32 {
        1 => GeodeticAxes::EastNorthUp { angle_unit, height_unit },
        2 => GeodeticAxes::NorthEastUp { angle_unit, height_unit },
        3 => GeodeticAxes::EastNorth { angle_unit },
        4 => GeodeticAxes::NorthEast { angle_unit },
        _ => GeodeticAxes::NorthWest { angle_unit },
    }
}
pub fn paxes(kind: f64, horiz_unit: LengthUnit, height_unit: LengthUnit) -> ProjectedAxes {
    match kind as i32 {
        1 => ProjectedAxes::EastNorthUp { horiz_unit, height_unit },
        _ => ProjectedAxes::EastNorth { horiz_unit },
    }
}
fn pad(mut v: Vec<f64>, n: usize) -> Vec<f64> {
    while v.len() < n {
        v.push(0.);
    }
    v
}
fn b(x: bool) -> f64 {
    x as i32 as f64
}
/// angle unit parameters (code, num, den)
pub fn gen_aunit(g: &mut Gen) -> [f64; 3] {
    match g.r.below(6) {
        k @ 0..=3 => [k as f64, 0., 0.],
        4 => [4., std::f64::consts::PI, 648_000_000.],
        _ => [4., g.r.log(1e-3, 10.), g.r.log(1., 1e4)],
    }
}
pub fn gen_lunit(g: &mut Gen) -> [f64; 3] {
    match g.r.below(5) {
        k @ 0..=2 => [k as f64, 0., 0.],
        3 => [3., 1000., 1.],
        _ => [3., g.r.log(1e-3, 1e3), g.r.log(1e-1, 1e3)],
    }
}

// ------------------------------------------------------------------------------------------------ C05
/// 1 if numbers behind the coordinates change what is read (refusing such a slice is fine)
fn behind(n: usize, v: &[f64], r: [f64; 3], f: impl Fn(&[f64]) -> [f64; 3]) -> f64 {
    let mut c = v[..n].to_vec();
    c.extend([77., -5.5, 3e5]);
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&c))) {
        Ok(x) => b(x != r),
        Err(_) => 0.,
    }
}
/// 1 if slots behind the coordinates are written (refusing such a slice is fine)
fn beyond(n: usize, f: impl Fn(&mut [f64])) -> f64 {
    let mut c = [77., -5.5, 3e5, 8., 9., -1e-7];
    let d = c;
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&mut c))) {
        Ok(()) => b(c[n..] != d[n..]),
        Err(_) => 0.,
    }
}
/// a = [kind, unit1 (3), unit2 (3), v0, v1, v2]
pub struct C05;
impl Prop for C05 {
    fn exec(&mut self, op: u32, i: &[f64]) -> Vec<f64> {
        let v = &i[7..10];
        match op {
            1..=4 => {
                let ax = gaxes(i[0], aunit(i[1], i[2], i[3]), lunit(i[4], i[5], i[6]));
                let n = ax.dim();
                match op {
                    1 => {
                        let p = ax.normalize(&v[..n]);
                        let f = |p: LLH| [p.lon.angle().rad(), p.lat.angle().rad(), p.height.m()];
                        let t = behind(n, v, f(p), |c| f(ax.normalize(c)));
                        vec![OK, n as f64, p.lon.angle().rad(), p.lat.angle().rad(), p.height.m(), t]
                    }
                    2 => {
                        let mut c = [0.; 3];
                        ax.denormalize(llh(v[0], v[1], v[2]), &mut c[..n]);
                        let t = beyond(n, |c| ax.denormalize(llh(v[0], v[1], v[2]), c));
                        vec![OK, n as f64, c[0], c[1], c[2], t]
                    }
                    3 => {
                        let t = ax.denormalize_tol(GeodeticTolerance {
                            lon: v[0] * RAD,
                            lat: v[1] * RAD,
                            height: v[2] * M,
                        });
                        let mut r = vec![OK, t.len() as f64];
                        r.extend(t.iter());
                        pad(r, 6)
                    }
                    _ => {
                        let mut c = [0.; 3];
                        ax.denormalize(ax.normalize(&v[..n]), &mut c[..n]);
                        vec![OK, n as f64, c[0], c[1], c[2], 0.]
                    }
                }
            }
            11..=14 => {
                let ax = paxes(i[0], lunit(i[1], i[2], i[3]), lunit(i[4], i[5], i[6]));
                let n = ax.dim();
                match op {
                    11 => {
                        let p = ax.normalize(&v[..n]);
                        let f = |p: ENH| [p.easting.m(), p.northing.m(), p.height.m()];
                        let t = behind(n, v, f(p), |c| f(ax.normalize(c)));
                        vec![OK, n as f64, p.easting.m(), p.northing.m(), p.height.m(), t]
                    }
                    12 => {
                        let mut c = [0.; 3];
                        let p = ENH { easting: v[0] * M, northing: v[1] * M, height: v[2] * M };
                        ax.denormalize(p, &mut c[..n]);
                        let t = beyond(n, |c| ax.denormalize(p, c));
                        vec![OK, n as f64, c[0], c[1], c[2], t]
                    }
                    13 => {
                        let t = ax.denormalize_tol(ProjectedTolerance { horiz: v[0] * M, height: v[2] * M });
                        let mut r = vec![OK, t.len() as f64];
                        r.extend(t.iter());
                        pad(r, 6)
                    }
                    _ => {
                        let mut c = [0.; 3];
                        ax.denormalize(ax.normalize(&v[..n]), &mut c[..n]);
                        vec![OK, n as f64, c[0], c[1], c[2], 0.]
                    }
                }
            }
            _ => {
                let ax = GeocentricAxes::XYZ;
                let n = ax.dim();
                match op {
                    21 => {
                        let p = ax.normalize(v);
                        let f = |p: XYZ| [p.x.m(), p.y.m(), p.z.m()];
                        let t = behind(n, v, f(p), |c| f(ax.normalize(c)));
                        vec![OK, n as f64, p.x.m(), p.y.m(), p.z.m(), t]
                    }
                    22 => {
                        let mut c = [0.; 3];
                        ax.denormalize(xyz(v[0], v[1], v[2]), &mut c);
                        let t = beyond(n, |c| ax.denormalize(xyz(v[0], v[1], v[2]), c));
                        vec![OK, n as f64, c[0], c[1], c[2], t]
                    }
                    23 => {
                        let t = ax.denormalize_tol(CartesianTolerance { all: v[0] * M });
                        let mut r = vec![OK, t.len() as f64];
                        r.extend(t.iter());
                        pad(r, 6)
                    }
                    _ => {
                        // the default geodetic axes are the normalized ones
                        let ax = GeodeticAxes::default();
                        let p = ax.normalize(v);
                        vec![OK, ax.dim() as f64, p.lon.angle().rad(), p.lat.angle().rad(), p.height.m(), 0.]
                    }
                }
            }
        }
    }
    fn generate(&mut self, g: &mut Gen, rec: &mut Rec) {
        rec.budget(0, g.n(1600, 10_000));
        for _ in 0..g.n(1600, 10_000) {
            for op in [1, 2, 3, 4, 11, 12, 13, 14, 21, 22, 23, 24] {
                let kind = if op < 10 { 1 + g.r.below(5) } else { 1 + g.r.below(2) } as f64;
                let (u1, u2) = if op < 10 { (gen_aunit(g), gen_lunit(g)) } else { (gen_lunit(g), gen_lunit(g)) };
                let mut i = vec![kind];
                i.extend(u1);
                i.extend(u2);
                match op {
                    1 | 4 => {
                        // in units; sometimes beyond the legal range, where longitudes wrap and latitudes saturate
                        let rpu = aunit(u1[0], u1[1], u1[2]).rad_per_unit();
                        let (mut x, mut y) = (gen_lon(g), gen_lat(g));
                        if op == 1 && g.r.chance(0.2) {
                            x *= g.r.uni(1., 5.);
                            y *= g.r.uni(1., 5.);
                        }
                        let north_first = kind != 1. && kind != 3.;
                        let c = if north_first { [y / rpu, x / rpu] } else { [x / rpu, y / rpu] };
                        i.extend(c);
                        i.push(g.height());
                    }
                    2 | 24 => i.extend([gen_lon(g), gen_lat(g), g.height()]),
                    3 => i.extend([g.r.log(1e-12, 1e-3), g.r.log(1e-12, 1e-3), g.r.log(1e-6, 10.)]),
                    13 | 23 => {
                        let t = g.r.log(1e-6, 10.);
                        i.extend([t, t, g.r.log(1e-6, 10.)]);
                    }
                    _ => i.extend([g.mag(1e-3, 1e8), g.mag(1e-3, 1e8), g.height()]),
                }
                rec.push(0., self.call(op, &i));
            }
        }
    }
}

// ------------------------------------------------------------------------------------------------ C06
fn crs_of(kind: i32) -> Box<dyn Crs> {
    let datum = GeodeticDatum::new("d", ellipsoid(6_378_137., 298.257_223_563), PrimeMeridian::new("g", Lon::ZERO));
    let deg = geokit::units::angle::DEG;
    match kind {
        1 => Box::new(GeocentricCrs { id: "c".into(), datum, axes: GeocentricAxes::XYZ }),
        2 => Box::new(GeographicCrs { id: "c".into(), datum, axes: gaxes(3., deg, M) }),
        3 => Box::new(GeographicCrs { id: "c".into(), datum, axes: gaxes(1., deg, M) }),
        4 => Box::new(ProjectedCrs {
            id: "c".into(),
            datum,
            axes: paxes(2., M, M),
            projection: ProjectionSpec::UTMNorth { zone: 1 },
        }),
        _ => Box::new(ProjectedCrs {
            id: "c".into(),
            datum,
            axes: paxes(1., M, M),
            projection: ProjectionSpec::UTMNorth { zone: 1 },
        }),
    }
}
/// a = [p (3), q (3), tol (3), kind]
pub struct C06;
impl Prop for C06 {
    fn exec(&mut self, op: u32, i: &[f64]) -> Vec<f64> {
        let (p, q, t) = (&i[..3], &i[3..6], &i[6..9]);
        match op {
            1 => {
                let (x, y) = (llh(p[0], p[1], p[2]), llh(q[0], q[1], q[2]));
                let tol = GeodeticTolerance { lon: t[0] * RAD, lat: t[1] * RAD, height: t[2] * M };
                vec![OK, b(x.approx_eq(&y, tol)), b(y.approx_eq(&x, tol)), b(approx_eq_llh(x, y, tol))]
            }
            2 => {
                let (x, y) = (xyz(p[0], p[1], p[2]), xyz(q[0], q[1], q[2]));
                let tol = CartesianTolerance { all: t[0] * M };
                vec![OK, b(x.approx_eq(y, tol)), b(y.approx_eq(x, tol)), b(approx_eq_xyz(x, y, tol))]
            }
            3 => {
                let e = |v: &[f64]| ENH { easting: v[0] * M, northing: v[1] * M, height: v[2] * M };
                let (x, y) = (e(p), e(q));
                let tol = ProjectedTolerance { horiz: t[0] * M, height: t[2] * M };
                vec![OK, b(x.approx_eq(y, tol)), b(y.approx_eq(x, tol)), b(x.approx_eq(y, tol))]
            }
            4 => {
                let c = crs_of(i[9] as i32);
                let n = c.dim();
                let r = c.approx_eq(&p[..n], &q[..n], &t[..n]);
                vec![OK, b(r), b(c.approx_eq(&q[..n], &p[..n], &t[..n])), b(r)]
            }
            // scalars: Lon, Lat, Azimuth, Angle, Length; explicit and default tolerance
            5 => {
                let (e, x, y) = (t[0], p[0], q[0]);
                match i[9] as i32 {
                    1 => {
                        let (x, y) = (Lon::rad(x), Lon::rad(y));
                        vec![OK, b(x.abs_diff_eq(&y, e * RAD)), b(y.abs_diff_eq(&x, e * RAD)), b(x.abs_diff_eq(&y, Lon::default_epsilon()))]
                    }
                    2 => {
                        let (x, y) = (Lat::new(x * RAD), Lat::new(y * RAD));
                        vec![OK, b(x.abs_diff_eq(&y, e * RAD)), b(y.abs_diff_eq(&x, e * RAD)), b(x.abs_diff_eq(&y, Lat::default_epsilon()))]
                    }
                    3 => {
                        let (x, y) = (Azimuth::rad(x), Azimuth::rad(y));
                        vec![OK, b(x.abs_diff_eq(&y, e * RAD)), b(y.abs_diff_eq(&x, e * RAD)), b(x.abs_diff_eq(&y, Azimuth::default_epsilon()))]
                    }
                    4 => {
                        let (x, y) = (x * RAD, y * RAD);
                        vec![OK, b(x.abs_diff_eq(&y, e * RAD)), b(y.abs_diff_eq(&x, e * RAD)), b(x.abs_diff_eq(&y, <Angle as AbsDiffEq>::default_epsilon()))]
                    }
                    _ => {
                        let (x, y) = (x * M, y * M);
                        vec![OK, b(x.abs_diff_eq(&y, e * M)), b(y.abs_diff_eq(&x, e * M)), b(x.abs_diff_eq(&y, <Length as AbsDiffEq>::default_epsilon()))]
                    }
                }
            }
            // the acceptance of a computed geodesic: an accepted one returns, a refused one panics
            7 | 8 => {
                let accept = |p: &[f64], q: &[f64]| {
                    let mk = |v: &[f64], other: f64| Geodesic {
                        p1: (Lon::rad(other), Lat::new(0.5 * other * RAD)),
                        alpha1: if op == 8 { Azimuth::rad(v[0]) } else { Azimuth::rad(other) },
                        p2: if op == 7 { (Lon::rad(v[0]), Lat::new(v[1] * RAD)) } else { (Lon::rad(other), Lat::ZERO) },
                        alpha2: Azimuth::rad(if op == 7 { v[2] } else { v[1] }),
                        s: if op == 8 { v[2] * M } else { other * M },
                    };
                    let (c, e) = (mk(p, 0.1), mk(q, 0.2));
                    std::panic::catch_unwind(|| {
                        if op == 7 {
                            check_direct(&c, &e, &DirectErrors::default())
                        } else {
                            check_inverse(&c, &e, &InverseErrors::default())
                        }
                    })
                    .is_ok()
                };
                let r = b(accept(p, q));
                vec![OK, r, b(accept(q, p)), r]
            }
            // the predefined tolerances
            _ => match i[9] as i32 {
                1..=3 => {
                    let t = match i[9] as i32 {
                        1 => GeodeticTolerance::tiny(),
                        2 => GeodeticTolerance::small(),
                        _ => GeodeticTolerance::default(),
                    };
                    vec![OK, t.lon.rad(), t.lat.rad(), t.height.m()]
                }
                4..=6 => {
                    let t = match i[9] as i32 {
                        4 => CartesianTolerance::tiny(),
                        5 => CartesianTolerance::small(),
                        _ => CartesianTolerance::default(),
                    };
                    vec![OK, t.all.m(), t.all.m(), t.all.m()]
                }
                k => {
                    let t = if k == 7 { ProjectedTolerance::tiny() } else { ProjectedTolerance::small() };
                    vec![OK, t.horiz.m(), t.horiz.m(), t.height.m()]
                }
            },
        }
    }
    fn generate(&mut self, g: &mut Gen, rec: &mut Rec) {
        for k in 1..=8 {
            rec.push_seq(self.call(6, &[0., 0., 0., 0., 0., 0., 0., 0., 0., k as f64]));
        }
        for _ in 0..g.n(1000, 4000) {
            for op in 7..=8 {
                let p = [gen_lon(g), if op == 7 { gen_lat(g) } else { gen_lon(g) }, if op == 7 { gen_lon(g) } else { g.mag(1e-3, 2e7) }];
                let mut q = p;
                for k in 0..3 {
                    let t = if op == 8 && k == 2 { 1e-4 } else { 1e-12 };
                    let f = match g.r.below(6) {
                        0..=2 => g.r.uni(-0.9, 0.9),
                        3 => 0.,
                        _ => g.r.sign() * g.r.log(0.9, 10.),
                    };
                    q[k] += f * t;
                }
                let mut i = p.to_vec();
                i.extend(q);
                i.extend([0., 0., 0., 0.]);
                rec.push_seq(self.call(op, &i));
            }
        }
        rec.budget(0, g.n(3500, 15_000));
        for _ in 0..g.n(3500, 15_000) {
            for op in 1..=5 {
                let kind = 1. + g.r.below(5) as f64;
                let angular = op == 1 || (op == 5 && kind < 4.5);
                let mut p = [gen_lon(g), gen_lat(g), g.height()];
                if !angular {
                    p = [g.mag(1e-3, 1e7), g.mag(1e-3, 1e7), g.mag(1e-3, 1e5)];
                }
                let mut t = [0.; 3];
                for (k, x) in t.iter_mut().enumerate() {
                    *x = match g.r.below(6) {
                        0 => 0.,
                        1 => g.r.pick(&[1e-12, 1e-9, 1e-4, 1e-3]),
                        // tolerances of half a turn, a turn and more
                        2 if angular && k < 2 && g.r.chance(0.5) => {
                            let (h, near, wide) = (1. + g.r.below(6) as f64, g.r.uni(0.9, 1.1), g.r.uni(0.5, 2.));
                            h * std::f64::consts::FRAC_PI_2 * g.r.pick(&[1., near, wide])
                        }
                        _ => g.r.log(1e-9, if angular && k < 2 { 1. } else { 1e3 }),
                    };
                }
                let mut q = p;
                for k in 0..3 {
                    // differences relative to the tolerance: inside, at, beyond
                    let f = match g.r.below(8) {
                        0 | 1 => 0.,
                        2 => 1.,
                        3 => g.r.pick(&[0.999, 1.001, 0.5, 1.5, 2., 0.1, 10.]),
                        _ => g.r.uni(0., 1.3),
                    };
                    let scale = if t[k] == 0. { g.r.log(1e-14, 1e-3) } else { t[k] };
                    q[k] += g.r.sign() * f * scale;
                }
                if g.r.chance(0.15) {
                    // antimeridian
                    let d = g.r.log(1e-13, 1e-2);
                    p[0] = std::f64::consts::PI - d;
                    q[0] = -std::f64::consts::PI + g.r.pick(&[0., d, 1e-12]);
                }
                if op == 5 && g.r.chance(0.3) {
                    let e = if kind == 5. { 1e-4 } else { 1e-12 };
                    q[0] = p[0] + g.r.sign() * e * g.r.uni(0.1, 3.);
                }
                let mut i = p.to_vec();
                i.extend(q);
                i.extend(t);
                i.push(kind);
                rec.push(0., self.call(op, &i));
            }
        }
    }
}

// ------------------------------------------------------------------------------------------------ C07
/// Two descriptions of a coordinate reference system, edited one field at a time.
/// fields: 0 ellipsoid name, 1 a, 2 1/f, 3 prime meridian name, 4 its longitude, 5 datum id, 6 crs id,
/// 7 axes kind, 8 angle unit, 9 horizontal unit, 10 projection kind, 11 lon0, 12 lat0 or zone, 13 k0,
/// 14 false easting, 15 false northing, 16 height unit
const NF: usize = 17;
const SIZES: [usize; NF] = [3, 6, 5, 3, 7, 8, 8, 5, 4, 5, 6, 5, 5, 5, 5, 5, 5];
/// identifiers that differ in case, in a trailing blank, at the end of a long text, in the middle of it, in length
const IDS: [&str; 8] = [
    "D",
    "",
    "E",
    "d",
    "D ",
    "World Geodetic System 1984 (G730)",
    "World Geodetic System 1984 (G873)",
    "World Geodetic System 1972 (G730)",
];
pub struct C07 {
    f: [[i32; NF]; 2],
}
impl C07 {
    pub fn new() -> Self {
        C07 { f: [[0; NF]; 2] }
    }
    fn ell(&self, r: usize) -> Ellipsoid {
        let f = &self.f[r];
        let n = ["WGS84", "", "Other"][f[0] as usize];
        let a = [6_378_137., 6_378_137.0001, 6_378_206.4, 6_378_137.000_000_01, 6_378_137.5, 6_371_000.][f[1] as usize];
        let invf = [298.257_223_563, 298.257_222_101, 294.978698213898, 298.257_223_563_001, f64::INFINITY][f[2] as usize];
        if invf.is_infinite() {
            Ellipsoid::from_ab(n, a * M, a * M)
        } else {
            Ellipsoid::from_ainvf(n, a * M, invf)
        }
    }
    fn pm(&self, r: usize) -> PrimeMeridian {
        let f = &self.f[r];
        let l = [0., 2.337_229_166_666_67, -9.131_906_11, 2.337_229_166_666_68, 1e-11, 180., -180.][f[4] as usize];
        PrimeMeridian::new(["Greenwich", "", "Other"][f[3] as usize], Lon::deg(l))
    }
    fn datum(&self, r: usize) -> GeodeticDatum {
        GeodeticDatum::new(IDS[self.f[r][5] as usize], self.ell(r), self.pm(r))
    }
    fn crs(&self, r: usize) -> (GeocentricCrs, GeographicCrs, ProjectedCrs) {
        let f = &self.f[r];
        let id = IDS[f[6] as usize];
        let au = [DEG, RAD, GRAD, AngleUnit(std::f64::consts::PI.next_up(), 180.)][f[8] as usize];
        let lu = |k: i32| [M, FT, US_FT, LengthUnit(1. + 1e-12, 1.), LengthUnit(0.3048, 1.0000001)][k as usize];
        (
            GeocentricCrs { id: id.into(), datum: self.datum(r), axes: GeocentricAxes::XYZ },
            GeographicCrs { id: id.into(), datum: self.datum(r), axes: gaxes(1. + f[7] as f64, au, lu(f[16])) },
            ProjectedCrs {
                id: id.into(),
                datum: self.datum(r),
                axes: paxes(1. + (f[7] % 2) as f64, lu(f[9]), lu(f[16])),
                projection: self.proj(r),
            },
        )
    }
    fn proj(&self, r: usize) -> ProjectionSpec {
        let f = &self.f[r];
        let k = 1 + f[10] as u32;
        let v = |i: usize| f[i] as usize;
        let lat0 = if k == 4 || k == 5 { 1. + f[12] as f64 } else { [0., 0.5, -0.5, 0.5 + 1e-13, 1e-14][v(12)] };
        crate::projections::spec(
            k,
            &[
                0.,
                0.,
                [0., 0.1, -0.1, 0.1 + 1e-13, 1e-14][v(11)],
                lat0,
                [1., 0.9996, 0.999_600_000_000_1, 0.999, 1. + 1e-12][v(13)],
                [0., 5e5, 500_000.000_001, -5e5, 1e-9][v(14)],
                [0., 1e7, 10_000_000.000_001, -1e7, 1e-9][v(15)],
            ],
        )
    }
}
impl Prop for C07 {
    fn exec(&mut self, op: u32, i: &[f64]) -> Vec<f64> {
        match op {
            // register, field, value
            1 => self.f[i[0] as usize][i[1] as usize] = i[2] as i32,
            // copy register 0 into 1
            _ => self.f[1] = self.f[0],
        }
        let (a0, b0, c0) = self.crs(0);
        let (a1, b1, c1) = self.crs(1);
        let mut v = vec![OK];
        macro_rules! cmp {
            ($x:expr, $y:expr) => {{
                let (x, y) = (&$x, &$y);
                let e = x == y;
                // 1 equal, 0 different, 2 inconsistent (not symmetric, not reflexive or != disagrees)
                let sound = (y == x) == e && (x != y) != e && *x == x.clone() && *y == *y;
                v.push(if sound { b(e) } else { 2. });
            }};
        }
        cmp!(self.ell(0), self.ell(1));
        cmp!(self.pm(0), self.pm(1));
        cmp!(self.datum(0), self.datum(1));
        cmp!(a0, a1);
        cmp!(b0, b1);
        cmp!(c0, c1);
        cmp!(b0.axes, b1.axes);
        cmp!(c0.axes, c1.axes);
        cmp!(self.proj(0), self.proj(1));
        // each description reports what it was made from
        v.push(b([0, 1].into_iter().all(|r| {
            let (d, e, m, f) = (self.datum(r), self.ell(r), self.pm(r), &self.f[r]);
            let (id, (g, h, p)) = (IDS[f[6] as usize], self.crs(r));
            let parts = [g.id(), h.id(), p.id()].into_iter().all(|x| x == id)
                && [&g.datum, &h.datum, &p.datum].into_iter().all(|x| *x == d && x.id() == IDS[f[5] as usize]);
            parts
                && d.ellipsoid() == &e
                && d.prime_meridian() == &m
                && d == GeodeticDatum::new_static(IDS[f[5] as usize], e.clone(), m.clone())
                && d.ellipsoid().name() == e.name()
                && e.name() == ["WGS84", "", "Other"][f[0] as usize]
                && m.name() == ["Greenwich", "", "Other"][f[3] as usize]
        })));
        v
    }
    fn generate(&mut self, g: &mut Gen, rec: &mut Rec) {
        // every single-field difference from a base description, for every projection kind and axes kind
        for base in 0..6usize {
            rec.mark();
            *self = C07::new();
            rec.push_seq(self.call(1, &[0., 10., base as f64]));
            rec.push_seq(self.call(1, &[0., 7., (base % 5) as f64]));
            for f in 0..NF {
                let b0 = g.r.below(SIZES[f]);
                for v in 0..SIZES[f] {
                    let at = if f == 10 || f == 7 { self.f[0][f] } else { b0 as i32 };
                    rec.push_seq(self.call(1, &[0., f as f64, at as f64]));
                    rec.push_seq(self.call(2, &[]));
                    rec.push_seq(self.call(1, &[1., f as f64, v as f64]));
                }
            }
        }
        for _ in 0..g.n(300, 3000) {
            rec.mark();
            *self = C07::new();
            for k in 0..14 {
                if k % 3 == 2 || g.r.chance(0.15) {
                    rec.push_seq(self.call(2, &[]));
                } else {
                    let f = g.r.below(NF);
                    let i = [g.r.below(2) as f64, f as f64, g.r.below(SIZES[f]) as f64];
                    rec.push_seq(self.call(1, &i));
                }
            }
        }
    }
}
