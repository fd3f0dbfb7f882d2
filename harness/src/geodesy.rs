//! C08-C12 (datums, ellipsoids, registries), C22-C24 (geodesics)
use crate::core::*;
use crate::screen::{El, wrap};
use geokit::cs::azimuth::Azimuth;
use geokit::cs::cartesian::geocentric::XYZ;
use geokit::cs::geodetic::{LLH, Lat, Lon};
use geokit::geodesy::geodesics::GeodesicSolver;
use geokit::geodesy::geodesics::karney::KarneyGeodesicSolver;
use geokit::geodesy::geodesics::rapp::RappIterativeGeodisicSolver;
use geokit::geodesy::geodesics::vincenty::VincentyGeodesicSolver;
use geokit::geodesy::{Ellipsoid, GeodeticDatum, PrimeMeridian};
use geokit::units::angle::RAD;
use geokit::units::length::M;
use std::f64::consts::{FRAC_PI_2, PI};

pub fn ellipsoid(a: f64, invf: f64) -> Ellipsoid {
    if invf == 0. {
        Ellipsoid::from_ab("probe", a * M, a * M)
    } else {
        Ellipsoid::from_ainvf("probe", a * M, invf)
    }
}
const EARTH: [(f64, f64); 12] = [
    (6_378_137., 298.257_223_563),
    (6_378_137., 298.257222101),
    (6_378_388., 297.),
    (6_377_563.396, 299.3249646),
    (6_377_397.155, 299.1528128),
    (6_378_206.4, 294.978698213898),
    (6_378_249.145, 293.4663),
    (6_378_245., 298.3),
    (6_375_738.7, 334.29),
    (6_397_300., 191.),
    (6_377_276.345, 300.8017),
    (6_376_428., 311.5),
];
/// semi-major axis and inverse flattening (0: sphere)
pub fn gen_ell(g: &mut Gen) -> (f64, f64) {
    match g.r.below(20) {
        0..=6 => EARTH[0],
        7..=13 => g.r.pick(&EARTH),
        14..=15 => (g.r.pick(&[6_371_000., 6_370_997., 6_378_137., 1_737_400.]), 0.),
        16 => (g.r.log(1e5, 1e8), g.r.log(150., 3000.)),
        // nearly a sphere
        17 => (g.r.uni(6.3e6, 6.4e6), g.r.log(3e3, 1e14)),
        _ => (g.r.uni(6.3e6, 6.4e6), g.r.log(150., 3000.)),
    }
}
/// any latitude in radians, biased to the poles and the equator
pub fn gen_lat(g: &mut Gen) -> f64 {
    let x = g.lat_deg().to_radians();
    x.clamp(-FRAC_PI_2, FRAC_PI_2)
}
pub fn gen_lon(g: &mut Gen) -> f64 {
    g.lon_deg().to_radians().clamp(-PI, PI)
}
pub fn datum(a: f64, invf: f64, pm: f64) -> GeodeticDatum {
    GeodeticDatum::new("probe", ellipsoid(a, invf), PrimeMeridian::new("pm", Lon::rad(pm)))
}
pub fn llh(lon: f64, lat: f64, h: f64) -> LLH {
    LLH {
        lon: Lon::rad(lon),
        lat: Lat::new(lat * RAD),
        height: h * M,
    }
}
pub fn xyz(x: f64, y: f64, z: f64) -> XYZ {
    XYZ {
        x: x * M,
        y: y * M,
        z: z * M,
    }
}
fn d3(a: &[f64], b: &[f64]) -> f64 {
    ((a[0] - b[0]).powi(2) + (a[1] - b[1]).powi(2) + (a[2] - b[2]).powi(2)).sqrt()
}

// ------------------------------------------------------------------------------------------------ C08
pub struct C08;
impl Prop for C08 {
    fn exec(&mut self, op: u32, i: &[f64]) -> Vec<f64> {
        assert!(op == 1);
        let p = datum(i[0], i[1], i[2]).llh_to_xyz(llh(i[3], i[4], i[5]));
        vec![OK, p.x.m(), p.y.m(), p.z.m()]
    }
    fn generate(&mut self, g: &mut Gen, rec: &mut Rec) {
        rec.budget(g.n(300, 3000), g.n(1500, 12000));
        for _ in 0..g.n(500_000, 5_000_000) {
            let (a, invf) = gen_ell(g);
            let h = gen_h(g, a);
            let pm = if g.r.chance(0.5) { 0. } else { gen_lon(g) };
            let i = [a, invf, pm, gen_lon(g), gen_lat(g), h];
            let e = self.call(1, &i);
            let w = El::new(a, invf).xyz(i[3] + pm, i[4], h);
            let prio = if e.out.len() < 4 { f64::INFINITY } else { d3(&e.out[1..], &w) / (a + h.abs()) };
            rec.push(prio, e);
        }
    }
}
fn gen_h(g: &mut Gen, a: f64) -> f64 {
    match g.r.below(6) {
        0 => 0.,
        1 => g.r.uni(-0.5, 3.) * a,
        2 => g.r.sign() * g.r.log(1e-6, 1e4),
        _ => g.height(),
    }
}

// ------------------------------------------------------------------------------------------------ C09
pub struct C09;
impl Prop for C09 {
    fn exec(&mut self, op: u32, i: &[f64]) -> Vec<f64> {
        assert!(op == 1);
        let p = datum(i[0], i[1], i[2]).xyz_to_llh(xyz(i[3], i[4], i[5]));
        vec![OK, p.lon.angle().rad(), p.lat.angle().rad(), p.height.m()]
    }
    fn generate(&mut self, g: &mut Gen, rec: &mut Rec) {
        rec.budget(g.n(300, 3000), g.n(1500, 12000));
        for _ in 0..g.n(500_000, 5_000_000) {
            let (a, invf) = gen_ell(g);
            let el = El::new(a, invf);
            let pm = if g.r.chance(0.6) { 0. } else { gen_lon(g) };
            let p = match g.r.below(6) {
                // images of geodetic points
                0..=2 => {
                    let h = gen_h(g, a).max(-0.7 * a);
                    el.xyz(gen_lon(g), gen_lat(g), h)
                }
                // axes, planes and octants
                3 => {
                    let r = a * g.r.uni(0.3, 3.);
                    let mut v = [0.; 3];
                    for x in v.iter_mut() {
                        *x = match g.r.below(4) {
                            0 => 0.,
                            1 => g.r.sign() * r,
                            2 => g.r.sign() * g.r.log(1e-9, 1.) * r,
                            _ => g.r.uni(-r, r),
                        };
                    }
                    v
                }
                4 => {
                    let r = a * g.r.log(0.3, 100.);
                    let (lon, lat) = (gen_lon(g), gen_lat(g));
                    [r * lat.cos() * lon.cos(), r * lat.cos() * lon.sin(), r * lat.sin()]
                }
                // close to the polar axis
                _ => {
                    let d = g.r.log(1e-9, 1e5);
                    let t = gen_lon(g);
                    let z = g.r.sign() * a * g.r.uni(0.5, 2.);
                    [d * t.cos(), d * t.sin(), z]
                }
            };
            // the specification resolves 1e-30 m; the normal is unique only outside the evolute
            let p = p.map(|x: f64| if x.abs() < 1e-12 { 0. } else { x });
            let r = (p[0] * p[0] + p[1] * p[1] + p[2] * p[2]).sqrt();
            if r < 0.25 * a {
                continue;
            }
            let i = [a, invf, pm, p[0], p[1], p[2]];
            let e = self.call(1, &i);
            let prio = if e.out.len() < 4 {
                f64::INFINITY
            } else {
                d3(&p, &el.xyz(e.out[1] + pm, e.out[2], e.out[3])) / r
            };
            rec.push(prio, e);
        }
    }
}

// ------------------------------------------------------------------------------------------------ C10
/// A point handed from datum to datum (same ellipsoid, various prime meridians).
pub struct C10 {
    a: f64,
    invf: f64,
    pm: f64,
    p: LLH,
}
impl C10 {
    pub fn new() -> Self {
        C10 {
            a: 6_378_137.,
            invf: 298.257_223_563,
            pm: 0.,
            p: llh(0., 0., 0.),
        }
    }
}
impl Prop for C10 {
    fn exec(&mut self, op: u32, i: &[f64]) -> Vec<f64> {
        match op {
            // a, invf, pm, lon, lat, h
            1 => {
                self.a = i[0];
                self.invf = i[1];
                self.pm = i[2];
                self.p = llh(i[3], i[4], i[5]);
            }
            // re-express in the datum with another prime meridian
            2 => {
                let from = datum(self.a, self.invf, self.pm);
                let to = datum(self.a, self.invf, i[0]);
                self.p = to.xyz_to_llh(from.llh_to_xyz(self.p));
                self.pm = i[0];
            }
            // in place: through geocentric coordinates and back
            3 => {
                let d = datum(self.a, self.invf, self.pm);
                self.p = d.xyz_to_llh(d.llh_to_xyz(self.p));
            }
            _ => unreachable!(),
        }
        let d = datum(self.a, self.invf, self.pm);
        let x = d.llh_to_xyz(self.p);
        vec![
            OK,
            self.p.lon.angle().rad(),
            self.p.lat.angle().rad(),
            self.p.height.m(),
            d.prime_meridian().lon().angle().rad(),
            x.x.m(),
            x.y.m(),
            x.z.m(),
        ]
    }
    fn generate(&mut self, g: &mut Gen, rec: &mut Rec) {
        for _ in 0..g.n(1200, 6000) {
            rec.mark();
            *self = C10::new();
            let (a, invf) = if g.r.chance(0.4) { (6_371_000., 0.) } else { gen_ell(g) };
            let h = g.height();
            let i = [a, invf, gen_pm(g), gen_lon(g), gen_lat(g) * 0.9999, h];
            rec.push_seq(self.call(1, &i));
            for _ in 0..2 + g.r.below(5) {
                if g.r.chance(0.75) {
                    let p = gen_pm(g);
                    rec.push_seq(self.call(2, &[p]));
                } else {
                    rec.push_seq(self.call(3, &[]));
                }
            }
        }
    }
}
pub fn gen_pm(g: &mut Gen) -> f64 {
    match g.r.below(6) {
        0 => 0.,
        1 => g.r.pick(&[PI, -PI, FRAC_PI_2, -FRAC_PI_2, 3., -3.]),
        2 => g.r.pick(&[2.337229166667f64, -9.131906111111, 106.807719444444, -74.080916666667]).to_radians(),
        _ => gen_lon(g),
    }
}

// ------------------------------------------------------------------------------------------------ C11
pub struct C11;
impl Prop for C11 {
    fn exec(&mut self, op: u32, i: &[f64]) -> Vec<f64> {
        let e = match op {
            1 => Ellipsoid::from_ab("probe", i[0] * M, i[1] * M),
            2 => Ellipsoid::from_ainvf("probe", i[0] * M, i[1]),
            3 => {
                let e = ellipsoid(i[0], i[1]);
                let lat = Lat::new(i[2] * RAD);
                return vec![
                    OK,
                    e.reduced_latitude(lat).rad(),
                    e.geocentric_latitude(lat).rad(),
                    e.prime_vertical_radius(lat).m(),
                    e.prime_meridional_radius(lat).m(),
                    e.conformal_sphere_radius(lat).m(),
                ];
            }
            _ => unreachable!(),
        };
        vec![
            OK,
            e.a().m(),
            e.b().m(),
            e.invf(),
            e.f(),
            e.n(),
            e.e_sq(),
            e.e(),
            e.e_prime_sq(),
            e.e_prime(),
            e.is_spherical() as i32 as f64,
            e.a_sq(),
            e.b_sq(),
        ]
    }
    fn generate(&mut self, g: &mut Gen, rec: &mut Rec) {
        rec.budget(0, g.n(4000, 20000));
        for _ in 0..g.n(4000, 20000) {
            let a = match g.r.below(8) {
                0 => 0.,
                1 => -g.r.log(1e-3, 1e7),
                2 => g.r.log(1e-3, 1e8),
                _ => g.r.uni(6.3e6, 6.4e6),
            };
            let b = match g.r.below(8) {
                0 => a,
                1 => a.next_up(),
                2 => a.next_down(),
                3 => -a,
                4 => 0.,
                5 => a * (1. - g.r.log(1e-12, 0.9)),
                6 => a * (1. + g.r.log(1e-12, 0.9)),
                _ => a * (1. - 1. / g.r.log(100., 3000.)),
            };
            let (a, b) = match g.r.below(60) {
                0 => (f64::NAN, b),
                1 => (a, f64::NAN),
                _ => (a, b),
            };
            rec.push(0., self.call(1, &[a, b]));
            let invf = match g.r.below(8) {
                0 => g.r.pick(&[1., 0., -1., 2., f64::INFINITY, 1f64.next_up(), 1f64.next_down(), f64::NAN]),
                1 => -g.r.log(1e-2, 1e3),
                2 => g.r.log(1.0001, 1e6),
                3 => g.r.uni(0., 1.),
                _ => g.r.log(150., 3000.),
            };
            rec.push(0., self.call(2, &[a, invf]));
            let (a, invf) = if g.r.chance(0.3) { (g.r.log(1., 1e8), g.r.log(2., 1e4)) } else { gen_ell(g) };
            let lat = gen_lat(g);
            rec.push(0., self.call(3, &[a, invf, lat]));
        }
    }
}

// ------------------------------------------------------------------------------------------------ C12
pub struct C12;
macro_rules! ells {
    ($($n:ident),+) => { [ $(geokit::geodesy::ellipsoid::consts::$n),+ ] }
}
macro_rules! pms {
    ($($n:ident),+) => { [ $(geokit::geodesy::prime_meridian::consts::$n),+ ] }
}
fn reg_ell() -> Vec<Ellipsoid> {
    ells!(
        AIRY, ANDRAE, DANISH, APL_4_9, AUST_SA, BESSEL, BESS_NAM, CLRK66, CLRK80, CLRK80IGN, CPM, DELMBR, ENGELIS,
        EVRST30, EVRST48, EVRST56, EVRST69, EVRSTSS, FSCHR60, FSCHR68, GSK2011, GRS67, GRS80, IAU76, HELMERT, HOUGH,
        INTL, KAULA, KRASS, LERCH, MPRTS, MERIT, MOD_AIRY, FSCHR60M, NWL9D, NEW_INTL, PLESSIS, PZ90, SEASIA, SGS85,
        WALBECK, WGS60, WGS66, WGS72, WGS84, SPHERE
    )
    .to_vec()
}
fn reg_pm() -> Vec<PrimeMeridian> {
    pms!(
        GREENWICH, LISBON, PARIS, BOGOTA, MADRID, ROME, BERN, JAKARTA, FERRO, BRUSSELS, STOCKHOLM, ATHENS, OSLO,
        COPENHAGEN
    )
    .to_vec()
}
impl Prop for C12 {
    fn exec(&mut self, op: u32, i: &[f64]) -> Vec<f64> {
        let k = i[0] as usize;
        match op {
            1 => {
                let e = &reg_ell()[k];
                vec![OK, e.a().m(), e.b().m(), e.invf(), e.is_spherical() as i32 as f64, e.f(), e.e_sq(), e.n()]
            }
            2 => vec![OK, reg_pm()[k].lon().angle().rad()],
            3 => {
                use geokit::geodesy::geodetic_datum::consts::*;
                let d = [WGS84, GGRS87, NAD83, RNB72][k].clone();
                let id = ["WGS84", "GGRS87", "NAD83", "RNB72"][k];
                vec![
                    OK,
                    d.ellipsoid().a().m(),
                    d.ellipsoid().b().m(),
                    d.ellipsoid().invf(),
                    d.prime_meridian().lon().angle().rad(),
                    (d.id() == id) as i32 as f64,
                ]
            }
            _ => unreachable!(),
        }
    }
    fn generate(&mut self, _g: &mut Gen, rec: &mut Rec) {
        for k in 0..reg_ell().len() {
            rec.push_seq(self.call(1, &[k as f64]));
        }
        for k in 0..reg_pm().len() {
            rec.push_seq(self.call(2, &[k as f64]));
        }
        for k in 0..4 {
            rec.push_seq(self.call(3, &[k as f64]));
        }
    }
}

// ------------------------------------------------------------------------------------------------ C22
fn solve_direct(op: u32, i: &[f64]) -> Vec<f64> {
    let e = ellipsoid(i[0], i[1]);
    let p1 = (Lon::rad(i[2]), Lat::new(i[3] * RAD));
    let az = Azimuth::rad(i[4]);
    let s = i[5] * M;
    let r = match op {
        1 => VincentyGeodesicSolver::new(&e).solve_direct(p1, az, s),
        2 => RappIterativeGeodisicSolver::new(&e).solve_direct(p1, az, s),
        _ => KarneyGeodesicSolver::new(&e).solve_direct(p1, az, s),
    };
    match r {
        Ok(g) => vec![
            OK,
            g.p2.0.angle().rad(),
            g.p2.1.angle().rad(),
            g.alpha2.angle().rad(),
            g.s.m(),
            g.p1.0.angle().rad(),
            g.p1.1.angle().rad(),
            g.alpha1.angle().rad(),
        ],
        Err(_) => vec![ERR],
    }
}
fn gen_az(g: &mut Gen) -> f64 {
    let z = match g.r.below(4) {
        0 => {
            let k = g.r.below(9) as f64 - 4.;
            g.around(k * PI / 4., 1.)
        }
        _ => gen_lon(g),
    };
    if z <= -PI || z > PI { PI } else { z }
}
pub struct C22;
impl Prop for C22 {
    fn exec(&mut self, op: u32, i: &[f64]) -> Vec<f64> {
        solve_direct(op, i)
    }
    fn generate(&mut self, g: &mut Gen, rec: &mut Rec) {
        rec.budget(g.n(250, 2500), g.n(450, 5000));
        for _ in 0..g.n(200_000, 2_000_000) {
            let (a, invf) = gen_ell(g);
            let s = a * match g.r.below(8) {
                0 => g.r.log(1e-7, 1e-2),
                1 => g.r.uni(0., 0.1),
                2 => g.r.uni(0., PI),
                3 => g.around(PI, 0.1),
                4 => g.r.uni(0., 12.),
                _ => g.r.uni(0., 3.),
            };
            let s = if g.r.chance(0.15) { -s } else { s };
            let s = if g.r.chance(0.02) { 0. } else { s };
            let az = gen_az(g);
            let i = [a, invf, gen_lon(g), gen_lat(g), az, s];
            let w = El::new(a, invf).direct(i[3], az, s);
            for op in 1..=3 {
                if op == 2 && !rapp_direct_domain(&i) {
                    continue;
                }
                let e = self.call(op, &i);
                let prio = if e.out.len() < 4 {
                    f64::INFINITY
                } else {
                    let c = w.0.cos();
                    (e.out[2] - w.0).abs()
                        + c * wrap(e.out[1] - i[2] - w.1).abs()
                        + c.min(0.1) * wrap(e.out[3] - w.2).abs()
                };
                rec.push(prio, e);
            }
        }
    }
}
/// Rapp's spherical-triangle formulas divide by the cosine of both reduced latitudes
pub fn rapp_direct_domain(_i: &[f64]) -> bool {
    true
}

// ------------------------------------------------------------------------------------------------ C23
fn solve_inverse(op: u32, i: &[f64]) -> Vec<f64> {
    let e = ellipsoid(i[0], i[1]);
    let p1 = (Lon::rad(i[2]), Lat::new(i[3] * RAD));
    let p2 = (Lon::rad(i[4]), Lat::new(i[5] * RAD));
    let r = match op {
        1 => VincentyGeodesicSolver::new(&e).solve_inverse(p1, p2),
        _ => RappIterativeGeodisicSolver::new(&e).solve_inverse(p1, p2),
    };
    match r {
        Ok(g) => vec![
            OK,
            g.alpha1.angle().rad(),
            g.alpha2.angle().rad(),
            g.s.m(),
            g.p1.0.angle().rad(),
            g.p1.1.angle().rad(),
            g.p2.0.angle().rad(),
            g.p2.1.angle().rad(),
        ],
        Err(_) => vec![ERR],
    }
}
/// two points: generic, close, same meridian, same parallel, opposite, polar, equatorial
fn gen_pair(g: &mut Gen) -> [f64; 4] {
    let (lon1, lat1) = (gen_lon(g), gen_lat(g));
    let (lon2, lat2) = match g.r.below(10) {
        0..=2 => (gen_lon(g), gen_lat(g)),
        3 => {
            let d = g.r.log(1e-10, 0.1);
            let t = g.r.uni(-PI, PI);
            (lon1 + d * t.cos() / lat1.cos().max(1e-3), lat1 + d * t.sin())
        }
        4 => (lon1, gen_lat(g)),
        5 => {
            let l = lon1 + g.r.sign() * g.around(PI, 0.3);
            (wrap(l), gen_lat(g))
        }
        6 => (gen_lon(g), lat1),
        7 => {
            let l = wrap(lon1 + PI + g.r.sign() * g.r.log(1e-6, 1.));
            (l, -lat1 + g.r.sign() * g.r.log(1e-6, 1.))
        }
        8 => (gen_lon(g), -lat1),
        _ => (lon1, lat1),
    };
    let c = |x: f64, l: f64| x.clamp(-l, l);
    [c(lon1, PI), c(lat1, FRAC_PI_2), c(lon2, PI), c(lat2, FRAC_PI_2)]
}
pub struct C23;
impl Prop for C23 {
    fn exec(&mut self, op: u32, i: &[f64]) -> Vec<f64> {
        solve_inverse(op, i)
    }
    fn generate(&mut self, g: &mut Gen, rec: &mut Rec) {
        rec.budget(g.n(300, 3000), g.n(500, 5000));
        for _ in 0..g.n(200_000, 2_000_000) {
            let (a, invf) = gen_ell(g);
            let p = gen_pair(g);
            let i = [a, invf, p[0], p[1], p[2], p[3]];
            let el = El::new(a, invf);
            let x2 = el.xyz(p[2], p[3], 0.);
            for op in 1..=2 {
                let e = self.call(op, &i);
                let prio = if e.out.len() < 4 {
                    0.
                } else {
                    let w = el.direct(p[1], e.out[1], e.out[3]);
                    d3(&x2, &el.xyz(p[0] + w.1, w.0, 0.)) / a + (e.out[3] / a - PI).max(0.)
                };
                rec.push(prio, e);
            }
        }
    }
}

// ------------------------------------------------------------------------------------------------ C24
/// totality of the solvers: ops 1-3 direct, 11-12 inverse
pub struct C24;
impl Prop for C24 {
    fn exec(&mut self, op: u32, i: &[f64]) -> Vec<f64> {
        let mut v = if op < 10 { solve_direct(op, i) } else { solve_inverse(op - 10, i) };
        v.truncate(4);
        v
    }
    fn generate(&mut self, g: &mut Gen, rec: &mut Rec) {
        rec.budget(g.n(400, 4000), g.n(600, 6000));
        let sp = |g: &mut Gen, lim: f64| {
            let k = g.r.pick(&[0., -0., 0.5, -0.5, 1., -1., 0.25]);
            let x = g.around(k * lim, 1.);
            x.clamp(-lim, lim)
        };
        for _ in 0..g.n(200_000, 2_000_000) {
            let (a, mut invf) = gen_ell(g);
            if g.r.chance(0.3) {
                invf = g.r.log(20., 150.); // figures much flatter than the Earth
            }
            let special = g.r.chance(0.6);
            let mut p = gen_pair(g);
            if special {
                p = [sp(g, PI), sp(g, FRAC_PI_2), sp(g, PI), sp(g, FRAC_PI_2)];
                if g.r.chance(0.3) {
                    p[2] = p[0];
                    p[3] = p[1];
                }
                if g.r.chance(0.3) {
                    p[2] = wrap(p[0] + PI).clamp(-PI, PI);
                    p[3] = -p[1];
                }
            }
            for op in 11..=12 {
                let e = self.call(op, &[a, invf, p[0], p[1], p[2], p[3]]);
                let bad = e.out.iter().any(|x| !x.is_finite()) || e.out[0] > ERR;
                let prio = if bad { f64::INFINITY } else if e.out[0] == ERR { 1. } else { 0. };
                rec.push(prio, e);
            }
            let s = match g.r.below(6) {
                0 => 0.,
                1 => g.r.sign() * g.r.log(1e-9, 1e9),
                2 => a * PI,
                3 => g.r.sign() * a * g.r.uni(0., 30.),
                _ => a * g.r.uni(0., 3.),
            };
            let z = if special { sp(g, PI) } else { gen_az(g) };
            for op in 1..=3 {
                let e = self.call(op, &[a, invf, p[0], p[1], z, s]);
                let bad = e.out.iter().any(|x| !x.is_finite()) || e.out[0] > ERR;
                let prio = if bad { f64::INFINITY } else if e.out[0] == ERR { 1. } else { 0. };
                rec.push(prio, e);
            }
        }
    }
}
