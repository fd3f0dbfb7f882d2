//! C20: printed forms. The recorder only tokenizes what `Display` wrote:
//! every component becomes (label, unit, value); the specification says which components there must be.
use crate::core::*;
use crate::geodesy::gen_ell;
use geokit::cs::azimuth::Azimuth;
use geokit::cs::cartesian::geocentric::XYZ;
use geokit::cs::cartesian::projected::ENH;
use geokit::cs::geodetic::{LLH, Lat, Lon};
use geokit::cs::s1::Interval;
use geokit::geodesy::geodesics::Geodesic;
use geokit::geodesy::{Ellipsoid, GeodeticDatum, PrimeMeridian};
use geokit::units::angle::RAD;
use geokit::units::length::M;

pub struct C20;
const NAMES: [&str; 5] = ["x", "Clarke 1866", "née-Ωμέγα", "a name longer than any inlined small string holds", "7"];

fn label(s: &str) -> f64 {
    match s {
        "" => 0.,
        "lon" => 1.,
        "lat" => 2.,
        "h" => 3.,
        "e" => 4.,
        "n" => 5.,
        "lo" => 6.,
        "hi" => 7.,
        "name" => 8.,
        "a" => 9.,
        "b" => 10.,
        "inv_f" => 11.,
        "id" => 12.,
        "ellps" => 13.,
        "pm" => 14.,
        "From" => 15.,
        "To" => 16.,
        "az" => 17.,
        "L" => 18.,
        "s" => 19.,
        _ => 99.,
    }
}
/// unit: 0 plain number, 1 m, 2 rad, 3 deg, 4 degrees minutes seconds, 5 a group opens, 6 text, 9 unreadable
fn component(v: &str, text: &str) -> (f64, f64) {
    let v = v.trim();
    if v.contains('°') {
        let (neg, t) = match v.strip_prefix('-') {
            Some(r) => (-1., r),
            None => (1., v),
        };
        let f = || -> Option<f64> {
            let (d, r) = t.split_once('°')?;
            let (m, r) = r.split_once('′')?;
            let (s, r) = r.split_once('″')?;
            if !r.trim().is_empty() {
                return None;
            }
            let d: f64 = d.trim().parse().ok()?;
            let m: f64 = m.trim().parse().ok()?;
            let s: f64 = s.trim().parse().ok()?;
            Some(neg * (d + m / 60. + s / 3600.))
        };
        return match f() {
            Some(x) => (4., x),
            None => (9., 0.),
        };
    }
    let (n, u) = match v.split_once(' ') {
        Some((n, u)) => (n, u.trim()),
        None => (v, ""),
    };
    let code = match u {
        "" => 0.,
        "m" => 1.,
        "rad" => 2.,
        "deg" => 3.,
        _ => 9.,
    };
    match n.parse::<f64>() {
        Ok(x) if code != 9. => (code, x),
        _ => (6., (v == text) as i32 as f64),
    }
}
/// "label = value", "label: value" or "value", separated by commas and newlines, grouped by parentheses
fn tokens(s: &str, texts: &[&str]) -> Vec<f64> {
    let mut out = vec![];
    let mut n = 0.;
    let mut nt = 0;
    let mut emit = |seg: &str, group: bool, out: &mut Vec<f64>| {
        let seg = seg.trim();
        if seg.is_empty() {
            return;
        }
        let (l, v) = match seg.find(|c| c == '=' || c == ':') {
            Some(k) => (seg[..k].trim(), seg[k + 1..].trim()),
            None => ("", seg),
        };
        let (u, x) = if group && v.is_empty() {
            (5., 0.)
        } else if (l == "name" || l == "id") && nt < texts.len() {
            nt += 1;
            (6., (v == texts[nt - 1]) as i32 as f64)
        } else {
            component(v, "")
        };
        n += 1.;
        out.extend([label(l), u, x]);
    };
    let mut cur = String::new();
    for c in s.chars() {
        match c {
            '(' => {
                emit(&cur, true, &mut out);
                cur.clear();
            }
            ')' | ',' | '\n' => {
                emit(&cur, false, &mut out);
                cur.clear();
            }
            c => cur.push(c),
        }
    }
    emit(&cur, false, &mut out);
    let mut r = vec![OK, n];
    r.extend(out);
    r
}
fn ell(name: &str, a: f64, invf: f64) -> Ellipsoid {
    if invf == 0. { Ellipsoid::from_ab(name, a * M, a * M) } else { Ellipsoid::from_ainvf(name, a * M, invf) }
}
impl Prop for C20 {
    fn exec(&mut self, op: u32, i: &[f64]) -> Vec<f64> {
        let name = |k: f64| NAMES[k as usize];
        let lon = |x: f64| Lon::new(x * RAD);
        let lat = |x: f64| Lat::new(x * RAD);
        match op {
            1 => tokens(&LLH { lon: lon(i[0]), lat: lat(i[1]), height: i[2] * M }.to_string(), &[]),
            2 => tokens(&ENH { easting: i[0] * M, northing: i[1] * M, height: i[2] * M }.to_string(), &[]),
            3 => tokens(&XYZ { x: i[0] * M, y: i[1] * M, z: i[2] * M }.to_string(), &[]),
            4 => tokens(&Interval::new(i[0] * RAD, i[1] * RAD).to_string(), &[]),
            5 => {
                let e = ell(name(i[2]), i[0], i[1]);
                tokens(&e.to_string(), &[e.name()])
            }
            6 => {
                let p = PrimeMeridian::new(name(i[1]), lon(i[0]));
                tokens(&p.to_string(), &[p.name()])
            }
            7 => {
                let d = GeodeticDatum::new(
                    name(i[3]),
                    ell(name(i[4]), i[0], i[1]),
                    PrimeMeridian::new(name(i[5]), lon(i[2])),
                );
                tokens(&d.to_string(), &[name(i[3]), name(i[4]), name(i[5])])
            }
            8 => tokens(
                &Geodesic {
                    p1: (lon(i[0]), lat(i[1])),
                    alpha1: Azimuth::new(i[2] * RAD),
                    p2: (lon(i[3]), lat(i[4])),
                    alpha2: Azimuth::new(i[5] * RAD),
                    s: i[6] * M,
                }
                .to_string(),
                &[],
            ),
            9 => tokens(&lon(i[0]).to_string(), &[]),
            10 => tokens(&lat(i[0]).to_string(), &[]),
            11 => tokens(&Azimuth::new(i[0] * RAD).to_string(), &[]),
            // names and identifiers, as given
            12 => {
                let e = ell(name(i[3]), i[0], i[1]);
                let p = PrimeMeridian::new(name(i[4]), lon(i[2]));
                let d = GeodeticDatum::new(name(i[5]), e.clone(), p.clone());
                let b = |x: bool| x as i32 as f64;
                vec![
                    OK,
                    b(e.name() == name(i[3])),
                    b(p.name() == name(i[4])),
                    b(d.id() == name(i[5])),
                    b(d.ellipsoid().name() == name(i[3]) && *d.ellipsoid() == e),
                    b(d.prime_meridian().name() == name(i[4]) && *d.prime_meridian() == p),
                    d.prime_meridian().lon().angle().rad(),
                    d.ellipsoid().a().m(),
                ]
            }
            _ => unreachable!(),
        }
    }
    fn generate(&mut self, g: &mut Gen, rec: &mut Rec) {
        let n = g.n(400, 2500);
        rec.budget(0, n);
        for _ in 0..n {
            let lo = |g: &mut Gen| g.lon_deg().to_radians();
            let la = |g: &mut Gen| g.lat_deg().to_radians();
            let nm = |g: &mut Gen| g.r.below(NAMES.len()) as f64;
            let ln = |g: &mut Gen| if g.r.chance(0.2) { g.mag(1e-9, 1e15) } else { g.mag(1e-6, 1e8) };
            let (a, f) = gen_ell(g);
            let l = [lo(g), lo(g), lo(g), lo(g), la(g), la(g), ln(g), ln(g), ln(g)];
            let t = [nm(g), nm(g), nm(g)];
            for (op, v) in [
                (1, vec![l[0], l[4], l[6]]),
                (2, vec![l[6], l[7], l[8]]),
                (3, vec![l[7], l[8], l[6]]),
                (4, vec![l[0], l[1]]),
                (5, vec![a, f, t[0]]),
                (6, vec![l[0], t[1]]),
                (7, vec![a, f, l[2], t[0], t[1], t[2]]),
                (8, vec![l[0], l[4], l[1], l[2], l[5], l[3], l[6]]),
                (9, vec![l[2]]),
                (10, vec![l[5]]),
                (11, vec![l[3]]),
                (12, vec![a, f, l[1], t[2], t[0], t[1]]),
            ] {
                rec.push(0., self.call(op, &v));
            }
        }
    }
}
