//! C30 (objects reused in sessions), C31 (journeys through several reference systems)
use crate::angles::{aunit, lunit};
use crate::core::*;
use crate::crs::{AnyCrs, ND, crs, from_common, gen_crs, gen_shift, ground, neglected, shift, to_common};
use crate::geodesy::{datum, ellipsoid, gen_lat, gen_lon, llh, xyz};
use crate::projections::projection;
use crate::screen::wrap;
use geokit::cs::azimuth::Azimuth;
use geokit::cs::cartesian::projected::ENH;
use geokit::cs::geodetic::{Lat, Lon};
use geokit::geodesy::ellipsoid::Ellipsoid;
use geokit::geodesy::geodesics::karney::KarneyGeodesicSolver;
use geokit::geodesy::geodesics::rapp::RappIterativeGeodisicSolver;
use geokit::geodesy::geodesics::vincenty::VincentyGeodesicSolver;
use geokit::geodesy::geodesics::{Geodesic, GeodesicSolver};
use geokit::geodesy::geodetic_datum::GeodeticDatum;
use geokit::geometry::coordinate::curve::ParameterizedCurve;
use geokit::geometry::coordinate::curve::line_string::{LineString, LineStringBuilder};
use geokit::projections::Projection;
use geokit::transformations::CrsTransformation;
use geokit::transformations::xyz::CrsXYZTransformation;
use geokit::units::angle::RAD;
use geokit::units::length::M;
use std::collections::HashMap;
use std::f64::consts::PI;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::Mutex;

// ------------------------------------------------------------------------------------------------ C30
/// The parameters of an object: one of a few bases, with one parameter changed by the twist.
struct Par {
    a: f64,
    invf: f64,
    pm: f64,
    lon0: f64,
    lat0: f64,
    k0: f64,
    fe: f64,
    fnn: f64,
    zone: f64,
    unit: f64,
}
fn par(base: usize, twist: usize) -> Par {
    let b = [
        (6378137., 298.257223563, 0., 3., 0., 0.9996, 500_000., 0., 31.),
        (6378137., 298.257222101, 2.33722917, -2., 49., 0.9996012717, 400_000., -100_000., 30.),
        (6377563.396, 299.3249646, 0., -9., 45., 1., 0., 10_000_000., 60.),
        (6378249.2, 293.466021293, -17.66, 12., -30., 1.000035, 2_500_000., 0., 1.),
    ][base];
    let mut p = Par {
        a: b.0, invf: b.1, pm: b.2, lon0: b.3, lat0: b.4, k0: b.5, fe: b.6, fnn: b.7, zone: b.8, unit: 1.,
    };
    match twist {
        1 => p.a += 1.,
        2 => p.invf += 0.5,
        3 => p.pm += 1.,
        4 => p.lon0 += 1.,
        5 => p.lat0 += 1.,
        6 => p.k0 *= 1.0001,
        7 => p.fe += 100.,
        8 => p.fnn += 100.,
        9 => p.invf = 0.,
        10 => p.zone = 1. + (p.zone % 60.),
        11 => p.unit = 2.,
        // the same shape, twice the size
        12 => p.a *= 2.,
        _ => (),
    }
    p
}
/// values a question is made of
const NQ: usize = 8;
/// questions in a busy spell
const BUSY: usize = 6000;
const LON: [f64; NQ] = [0., 2.5, -3.25, 9., 179., -12.125, 177., -180.];
const LAT: [f64; NQ] = [0., 48.5, -33.75, 51.25, 89., -12.5, 10., -90.];
const HGT: [f64; NQ] = [0., 35., 1234.5, -50., 8848., 100_000., -0.001, 35.000001];
const XS: [f64; NQ] = [0., 4_200_000., -3_100_000., 6_378_000., 25_000., -6_000_000., 0.001, 4_200_000.001];
const EA: [f64; NQ] = [0., 500_000., 448_251.75, 2_000_000., -1_000_000., 166_021.5, 500_000.001, 1e7];
const NO: [f64; NQ] = [0., 5_411_932.5, -3_000_000., 100_000., 9_000_000., 4_000_000., 5_411_932.501, -1e7];
const AZ: [f64; NQ] = [0., 45., -120., 90., 180., 33.3, 45.000001, -90.];
const DI: [f64; NQ] = [0., 1_000., 1e5, 1.5e6, 9e6, 1.9e7, 1000.001, -2e6];
/// Where a solver's ellipsoid lives: the next solver made after this one is dropped finds its ellipsoid at the same
/// address, as a local variable of a loop would be.
struct Home(*mut Ellipsoid);
thread_local! {
    static HOMES: std::cell::RefCell<Vec<*mut Ellipsoid>> = const { std::cell::RefCell::new(vec![]) };
}
impl Home {
    fn new(e: Ellipsoid) -> Self {
        match HOMES.with_borrow_mut(|h| h.pop()) {
            Some(p) => {
                // SAFETY: the address comes from Box::into_raw below and its last user is gone
                unsafe { *p = e };
                Home(p)
            }
            None => Home(Box::into_raw(Box::new(e))),
        }
    }
    fn get(&self) -> &'static Ellipsoid {
        // SAFETY: never freed, and not rewritten before the solver beside it in Obj is dropped
        unsafe { &*self.0 }
    }
}
impl Drop for Home {
    fn drop(&mut self) {
        HOMES.with_borrow_mut(|h| h.push(self.0));
    }
}
enum Obj {
    Datum(GeodeticDatum),
    Ell(Ellipsoid),
    Proj(Box<dyn Projection>),
    Vin(VincentyGeodesicSolver<'static>, #[allow(dead_code)] Home),
    Rap(RappIterativeGeodisicSolver<'static>, #[allow(dead_code)] Home),
    Kar(KarneyGeodesicSolver<'static>, #[allow(dead_code)] Home),
    Crs(AnyCrs),
    Tr(Box<dyn CrsTransformation>, usize, usize),
    Line(LineString, AnyCrs),
}
pub const KINDS: usize = 16;
const TWISTS: usize = 13;
fn geographic(p: &Par, axes: f64) -> Vec<f64> {
    let mut d = vec![2., p.a, p.invf, p.pm.to_radians(), axes, p.unit, 0., 0., 0., 0., 0.];
    d.resize(ND, 0.);
    d
}
fn projected(p: &Par, kind: f64) -> Vec<f64> {
    vec![
        3., p.a, p.invf, p.pm.to_radians(), 1., 0., 0., 0., 0., 0., 0., kind, p.lon0.to_radians(), p.lat0.to_radians(), p.k0, p.fe,
        p.fnn,
    ]
}
fn build(kind: usize, base: usize, twist: usize) -> Obj {
    let p = par(base, twist);
    let pj = |k: u32| {
        let l = if k == 4 || k == 5 { p.zone } else { p.lat0.to_radians() };
        Obj::Proj(projection(k, &[p.a, p.invf, p.lon0.to_radians(), l, p.k0, p.fe, p.fnn]))
    };
    let home = || Home::new(ellipsoid(p.a, p.invf));
    let mut sh = [2., 2e-6, -1e-6, 3e-6, 446.448, -125.157, 542.06, -20.4894];
    sh[0] = 1. + base as f64 % 3.;
    sh[4] += twist as f64;
    match kind {
        1 => Obj::Datum(datum(p.a, p.invf, p.pm.to_radians())),
        2 => Obj::Ell(ellipsoid(p.a, p.invf)),
        3..=8 => pj(kind as u32 - 2),
        9 => {
            let h = home();
            Obj::Vin(VincentyGeodesicSolver::new(h.get()), h)
        }
        10 => {
            let h = home();
            Obj::Rap(RappIterativeGeodisicSolver::new(h.get()), h)
        }
        11 => {
            let h = home();
            Obj::Kar(KarneyGeodesicSolver::new(h.get()), h)
        }
        12 => Obj::Crs(crs(&geographic(&p, 3.))),
        13 => Obj::Crs(crs(&geographic(&p, 1.))),
        14 | 15 => {
            let (s, d) = (geographic(&p, 1.), projected(&p, if kind == 14 { 3. } else { 1. }));
            Obj::Tr(Box::new(CrsXYZTransformation::new(crs(&s), crs(&d), shift(&sh), shift(&[0.; 8]))), 3, 3)
        }
        _ => {
            let k = crs(&geographic(&p, 3.));
            let l = {
                let mut b = LineStringBuilder::with_line(k.as_dyn(), [0., 0.], [1., 1.]).unwrap();
                b = b.line_to([2., -1.]).unwrap();
                b.line_to([p.lon0, 30.]).unwrap().build()
            };
            Obj::Line(l, k)
        }
    }
}
fn geod(g: Result<Geodesic, &'static str>, inverse: bool) -> Vec<f64> {
    match g {
        Ok(g) if inverse => vec![OK, g.alpha1.angle().rad(), g.alpha2.angle().rad(), g.s.m()],
        Ok(g) => vec![OK, g.p2.0.angle().rad(), g.p2.1.angle().rad(), g.alpha2.angle().rad()],
        Err(_) => vec![ERR, 0., 0., 0.],
    }
}
fn solver<S: GeodesicSolver>(s: &S, call: usize, i: usize, j: usize, k: usize) -> Vec<f64> {
    let p1 = (Lon::deg(LON[i]), Lat::deg(LAT[j]));
    if call == 1 {
        geod(s.solve_direct(p1, Azimuth::deg(AZ[k]), DI[(i + k) % NQ] * M), false)
    } else {
        geod(s.solve_inverse(p1, (Lon::deg(LON[k]), Lat::deg(LAT[(i + j + k) % NQ]))), true)
    }
}
fn ask(o: &Obj, call: usize, i: usize, j: usize, k: usize) -> Vec<f64> {
    let r = catch_unwind(AssertUnwindSafe(|| match o {
        Obj::Datum(d) if call == 1 => {
            let p = d.llh_to_xyz(llh(LON[i].to_radians(), LAT[j].to_radians(), HGT[k]));
            vec![OK, p.x.m(), p.y.m(), p.z.m()]
        }
        Obj::Datum(d) => {
            let p = d.xyz_to_llh(xyz(XS[i], XS[j], XS[k]));
            vec![OK, p.lon.angle().rad(), p.lat.angle().rad(), p.height.m()]
        }
        Obj::Ell(e) => {
            let l = Lat::deg(LAT[j]);
            if call == 1 {
                vec![OK, e.reduced_latitude(l).rad(), e.geocentric_latitude(l).rad(), e.conformal_sphere_radius(l).m()]
            } else {
                vec![OK, e.prime_vertical_radius(l).m(), e.prime_meridional_radius(l).m(), e.e_prime_sq()]
            }
        }
        Obj::Proj(p) if call == 1 => match p.proj(llh(LON[i].to_radians(), LAT[j].to_radians(), HGT[k])) {
            Ok(e) => vec![OK, e.easting.m(), e.northing.m(), e.height.m()],
            Err(_) => vec![ERR, 0., 0., 0.],
        },
        Obj::Proj(p) => match p.unproj(ENH { easting: EA[i] * M, northing: NO[j] * M, height: HGT[k] * M }) {
            Ok(l) => vec![OK, l.lon.angle().rad(), l.lat.angle().rad(), l.height.m()],
            Err(_) => vec![ERR, 0., 0., 0.],
        },
        Obj::Vin(s, _) => solver(s, call, i, j, k),
        Obj::Rap(s, _) => solver(s, call, i, j, k),
        Obj::Kar(s, _) => solver(s, 1, i, j, k),
        Obj::Crs(c) => {
            let n = c.as_dyn().dim();
            let (p, q) = ([LON[i], LAT[j], HGT[k]], [LON[k], LAT[i], HGT[j]]);
            let (p, q) = if call == 1 { (p, q) } else { (q, p) };
            match c.as_dyn().dist(&p[..n], &q[..n]) {
                Ok(d) => vec![OK, d.m(), 0., 0.],
                Err(_) => vec![ERR, 0., 0., 0.],
            }
        }
        Obj::Tr(t, ns, nd) => {
            let mut o = [0.; 3];
            let ok = if call == 1 {
                t.fwd(&[LON[i], LAT[j], HGT[k]][..*ns], &mut o[..*nd]).is_ok()
            } else {
                t.bwd(&[EA[i], NO[j], HGT[k]][..*nd], &mut o[..*ns]).is_ok()
            };
            vec![if ok { OK } else { ERR }, o[0], o[1], o[2]]
        }
        Obj::Line(l, c) => {
            let len = l.length(c.as_dyn());
            if call == 1 {
                vec![OK, len.m(), 0., 0.]
            } else {
                let p = l.param(c.as_dyn(), len * (((i * NQ + j) * NQ + k) as f64 / (NQ * NQ * NQ) as f64));
                vec![OK, p[0], p[1], 0.]
            }
        }
    }));
    r.unwrap_or_else(|_| vec![PANIC, 0., 0., 0.])
}
static FRESH: Mutex<Option<HashMap<Vec<u32>, Vec<f64>>>> = Mutex::new(None);
/// the answer of a process that does nothing else
fn fresh(key: &[u32]) -> Vec<f64> {
    let mut g = FRESH.lock().unwrap();
    let m = g.get_or_insert_with(HashMap::new);
    if let Some(v) = m.get(key) {
        return v.clone();
    }
    let o = std::process::Command::new(std::env::current_exe().unwrap())
        .args(["fresh", "C30"])
        .args(key.iter().map(|k| k.to_string()))
        .output()
        .expect("fresh process");
    let v: Vec<f64> = String::from_utf8_lossy(&o.stdout).split_whitespace().filter_map(|t| t.parse().ok()).collect();
    let v = if v.len() == 4 { v } else { vec![HANG, 0., 0., 0.] };
    m.insert(key.to_vec(), v.clone());
    v
}
/// body of the fresh process
pub fn fresh_main(key: &[u32]) {
    let k: Vec<usize> = key.iter().map(|x| *x as usize).collect();
    for x in ask(&build(k[0], k[1], k[2]), k[3], k[4], k[5], k[6]) {
        print!("{:?} ", x);
    }
    println!();
}
pub struct C30 {
    slots: HashMap<usize, ([usize; 3], Obj)>,
}
impl C30 {
    pub fn new() -> Self {
        C30 { slots: HashMap::new() }
    }
}
/// op 1 make [slot, kind, base, twist]; op 2 ask [slot, call, i, j, k]: r = [status, answer (4), fresh answer (4)];
/// op 3 forget [slot]; op 5 ask (as op 2) repeatedly in a busy spell; op 4 ask from three threads: r = [status, answers (12), fresh answer (4)]
impl Prop for C30 {
    fn exec(&mut self, op: u32, v: &[f64]) -> Vec<f64> {
        let u: Vec<usize> = v.iter().map(|x| *x as usize).collect();
        match op {
            1 => {
                // the old object goes first: the new one may live where it lived
                self.slots.remove(&u[0]);
                self.slots.insert(u[0], ([u[1], u[2], u[3]], build(u[1], u[2], u[3])));
                vec![OK]
            }
            3 => {
                self.slots.remove(&u[0]);
                vec![OK]
            }
            2 | 4 | 5 => {
                let (d, o) = &self.slots[&u[0]];
                let key = [d[0] as u32, d[1] as u32, d[2] as u32, u[1] as u32, u[2] as u32, u[3] as u32, u[4] as u32];
                let mut r = vec![OK];
                if op == 2 {
                    r.extend(ask(o, u[1], u[2], u[3], u[4]));
                } else if op == 5 {
                    // asked again and again among thousands of others: the first answer, or one that differs from it
                    let a = ask(o, u[1], u[2], u[3], u[4]);
                    let mut odd = None;
                    for n in 0..BUSY {
                        if n % 3 == 0 {
                            let c = ask(o, u[1], u[2], u[3], u[4]);
                            if c.iter().zip(&a).any(|(x, y)| x.to_bits() != y.to_bits()) {
                                odd = Some(c);
                                break;
                            }
                        } else {
                            ask(o, 1 + n / 3 % 2, n % NQ, n / NQ % NQ, n / NQ / NQ % NQ);
                        }
                    }
                    r.extend(odd.unwrap_or(a));
                } else {
                    let (d, u) = (*d, u.clone());
                    let barrier = std::sync::Arc::new(std::sync::Barrier::new(3));
                    let hs: Vec<_> = (0..3usize)
                        .map(|t| {
                            let u = u.clone();
                            let b = barrier.clone();
                            std::thread::spawn(move || {
                                let o = build(d[0], d[1], d[2]);
                                let w = build(d[0], d[1], (d[2] + 1 + t) % TWISTS);
                                for n in 0..4 {
                                    ask(&w, u[1], (u[2] + t) % NQ, (u[3] + n) % NQ, u[4]);
                                    ask(&o, 3 - u[1], u[2], (u[3] + t) % NQ, (u[4] + n) % NQ);
                                }
                                b.wait();
                                // asked many times while the others ask: the first answer, or one that differs from it
                                let a = ask(&o, u[1], u[2], u[3], u[4]);
                                for n in 0..150 {
                                    if n % 3 == t {
                                        ask(&w, u[1], u[2], u[3], u[4]);
                                    }
                                    let c = ask(&o, u[1], u[2], u[3], u[4]);
                                    if c.iter().zip(&a).any(|(x, y)| x.to_bits() != y.to_bits()) {
                                        return c;
                                    }
                                }
                                a
                            })
                        })
                        .collect();
                    for h in hs {
                        r.extend(h.join().unwrap_or_else(|_| vec![PANIC, 0., 0., 0.]));
                    }
                }
                r.extend(fresh(&key));
                r
            }
            _ => unreachable!(),
        }
    }
    fn generate(&mut self, g: &mut Gen, rec: &mut Rec) {
        // every kind, with every single parameter different in a neighbour made after it
        for kind in 1..=KINDS {
            for base in 0..g.n(2, 4) {
                rec.mark();
                self.slots.clear();
                let q: Vec<f64> = (0..3).map(|_| 1. + g.r.below(3) as f64).collect();
                rec.push_seq(self.call(1, &[0., kind as f64, base as f64, 0.]));
                for tw in 1..TWISTS {
                    rec.push_seq(self.call(1, &[1., kind as f64, base as f64, tw as f64]));
                    let call = 1. + (tw % 2) as f64;
                    for (s, c) in [(0., call), (1., call), (0., call), (0., 3. - call), (1., 3. - call)] {
                        rec.push_seq(self.call(2, &[s, c, q[0], q[1], q[2]]));
                    }
                }
            }
        }
        // busy spells
        for kind in 1..=KINDS {
            for base in 0..g.n(2, 4) {
                rec.mark();
                self.slots.clear();
                rec.push_seq(self.call(1, &[0., kind as f64, base as f64, g.r.below(TWISTS) as f64]));
                for c in 1..=2 {
                    let q: Vec<f64> = (0..3).map(|_| g.r.below(NQ) as f64).collect();
                    for op in [2, 5, 2] {
                        rec.push_seq(self.call(op, &[0., c as f64, q[0], q[1], q[2]]));
                    }
                }
            }
        }
        for h in 0..g.n(128, 640) {
            rec.mark();
            self.slots.clear();
            // objects of one or two kinds that differ in one parameter
            let kinds = [1 + h % KINDS, 1 + g.r.below(KINDS)];
            let base = g.r.below(4);
            let n = 5;
            for s in 0..n {
                let tw = if g.r.chance(0.3) { 0 } else { g.r.below(TWISTS) };
                let b = if g.r.chance(0.8) { base } else { g.r.below(4) };
                rec.push_seq(self.call(1, &[s as f64, kinds[if g.r.chance(0.8) { 0 } else { 1 }] as f64, b as f64, tw as f64]));
            }
            let mut last = [0usize; 4];
            let long = if h % 8 == 0 { 120 } else { 30 };
            for _ in 0..long {
                if g.r.chance(0.08) {
                    let s = g.r.below(n) as f64;
                    if g.r.chance(0.5) {
                        rec.push_seq(self.call(3, &[s]));
                    }
                    rec.push_seq(self.call(1, &[s, kinds[0] as f64, base as f64, g.r.below(TWISTS) as f64]));
                }
                // mostly the question just asked, or one that differs in one argument
                let mut q = last;
                match g.r.below(6) {
                    0 | 1 => (),
                    2 | 3 | 4 => {
                        let c = 1 + g.r.below(3);
                        q[c] = g.r.below(NQ);
                    }
                    _ => q = [0, g.r.below(NQ), g.r.below(NQ), g.r.below(NQ)],
                }
                q[0] = if g.r.chance(0.8) { last[0] } else { g.r.below(2) };
                last = q;
                let op = if g.r.chance(0.03) { 4 } else { 2 };
                let s = g.r.below(n);
                rec.push_seq(self.call(op, &[s as f64, 1. + q[0] as f64, q[1] as f64, q[2] as f64, q[3] as f64]));
            }
        }
    }
}

// ------------------------------------------------------------------------------------------------ C31
/// op 1 register [k, system (17), shift (8)]; op 2 start [k, coordinates (3)]; op 3 go to [k]
/// r = [status, coordinates (3), witness (3)]
pub struct C31 {
    sys: Vec<(Vec<f64>, Vec<f64>)>,
    at: usize,
    c: [f64; 3],
    tr: HashMap<(usize, usize), CrsXYZTransformation<'static>>,
}
impl C31 {
    pub fn new() -> Self {
        C31 { sys: vec![], at: 0, c: [0.; 3], tr: HashMap::new() }
    }
    fn here(&self) -> Vec<f64> {
        let k = crs(&self.sys[self.at].0);
        let n = k.as_dyn().dim();
        let mut r = vec![OK];
        r.extend(self.c);
        r.extend(k.witness(&self.c[..n]));
        r
    }
}
impl Prop for C31 {
    fn exec(&mut self, op: u32, v: &[f64]) -> Vec<f64> {
        let k = v[0] as usize;
        match op {
            1 => {
                assert!(k == self.sys.len());
                self.sys.push((v[1..1 + ND].to_vec(), v[1 + ND..9 + ND].to_vec()));
                vec![OK]
            }
            2 => {
                self.at = k;
                self.c = [v[1], v[2], v[3]];
                self.here()
            }
            _ => {
                let (lo, hi) = (self.at.min(k), self.at.max(k));
                let (sys, at) = (&self.sys, self.at);
                // one transformation per pair of systems, used in both directions and kept for the whole journey
                let t = self.tr.entry((lo, hi)).or_insert_with(|| {
                    CrsXYZTransformation::new(crs(&sys[lo].0), crs(&sys[hi].0), shift(&sys[lo].1), shift(&sys[hi].1))
                });
                let (ni, no) = (crs(&sys[at].0).as_dyn().dim(), crs(&sys[k].0).as_dyn().dim());
                let mut o = [0.; 3];
                let ok = if at <= k {
                    t.fwd(&self.c[..ni], &mut o[..no]).is_ok()
                } else {
                    t.bwd(&self.c[..ni], &mut o[..no]).is_ok()
                };
                if !ok {
                    return vec![ERR];
                }
                self.at = k;
                self.c = o;
                self.here()
            }
        }
    }
    fn generate(&mut self, g: &mut Gen, rec: &mut Rec) {
        // many journeys are made; the specification follows the ones that look worst and some of the others
        let (top, other) = (g.n(50, 700), g.n(60, 800));
        let mut all: Vec<(f64, Vec<Event>)> = vec![];
        let total = g.n(40_000, 300_000);
        for n in 0..total {
            let (score, evs) = self.journey(g, n);
            rec.made(evs.len());
            all.push((if n < other { f64::INFINITY } else { score }, evs));
            if all.len() > 4 * (top + other) {
                all.sort_by(|a, b| b.0.total_cmp(&a.0));
                all.truncate(top + other);
            }
        }
        all.sort_by(|a, b| b.0.total_cmp(&a.0));
        all.truncate(top + other);
        for (_, evs) in all {
            rec.mark();
            rec.seq.extend(evs);
        }
    }
}
impl C31 {
    fn journey(&mut self, g: &mut Gen, n: usize) -> (f64, Vec<Event>) {
        let mut evs = vec![];
        *self = C31::new();
        let glon = gen_lon(g);
        let m = 2 + g.r.below(4);
        let types: Vec<usize> = (0..m).map(|j| if j == 0 { 1 + n % 3 } else { 1 + g.r.below(3) }).collect();
        let flat = g.r.chance(0.4);
        let lat = if types.contains(&3) { g.deg(84.).to_radians() } else { gen_lat(g) };
        let same = g.r.chance(0.6);
        for (k, ty) in types.iter().enumerate() {
            let mut d = gen_crs(g, *ty, glon);
            if k > 0 {
                let (a, f) = (self.sys[0].0[1], self.sys[0].0[2]);
                if same {
                    d[1] = a * (1. + 1e-5 * g.r.uni(-1., 1.));
                    d[2] = f;
                }
                if (d[1] - a).abs() > 1e-2 * a {
                    d[1] = a;
                }
            }
            // journeys that keep the height, and journeys that may lose it
            if !flat && *ty > 1 {
                d[4] = if *ty == 2 { 1. + g.r.below(2) as f64 } else { 1. };
            }
            let mut i = vec![k as f64];
            i.extend(d);
            i.extend(gen_shift(g));
            evs.push(self.call(1, &i));
        }
        let d = self.sys[0].0.clone();
        let c = match crs(&d).coords(wrap(glon - d[3]).clamp(-PI, PI), lat, g.height()) {
            Some(c) => c,
            None => return (0., evs),
        };
        let mut i = vec![0.];
        i.extend(&c);
        i.resize(4, 0.);
        let e = self.call(2, &i);
        let mut worst: f64 = 0.;
        let mut point = match e.out[0] {
            OK => to_common(&self.sys[0].1, ground(&d, &e.out[1..4], &e.out[4..7]).point()),
            _ => return (f64::INFINITY, { evs.push(e); evs }),
        };
        let mut tol = 0.;
        evs.push(e);
        for _ in 0..5 + g.r.below(8) {
            let k = g.r.below(m);
            let e = self.call(3, &[k as f64]);
            if e.out[0] != OK {
                evs.push(e);
                return (f64::INFINITY, evs);
            }
            let (d, h) = &self.sys[k];
            let b = ground(d, &e.out[1..4], &e.out[4..7]);
            let q = from_common(h, point);
            tol += 2. * neglected(h, q) + 1e-8;
            worst = worst.max(b.drift(q, tol));
            if !b.full() {
                point = to_common(h, b.point());
                tol = 0.;
            }
            evs.push(e);
        }
        (worst, evs)
    }
}
