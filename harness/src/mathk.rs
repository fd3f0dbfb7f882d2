//! C28: the math kernel.
use crate::core::*;
use geokit::math::complex::Complex;
use geokit::math::fp;
use geokit::math::polynomial::Polynomial;
use geokit::math::utils::iter_fn;
use num::Zero;

pub struct C28;

fn poly<const D: usize>(c: &[f64], x: f64, z: Complex) -> Vec<f64> {
    let mut a = [0.; D];
    a.copy_from_slice(&c[..D]);
    let p = Polynomial::new(a);
    let w = p.eval_at(z);
    vec![OK, p.eval_at(x), p.fast_eval_at(x), w.re, w.im]
}

/// magnitudes whose products and quotients the specification resolves
fn num_(g: &mut Gen) -> f64 {
    let x = match g.r.below(8) {
        0 => 0.,
        1 => -0.,
        2 => g.r.sign() * g.r.log(1e-3, 1e3),
        3 => g.r.uni(-10., 10.).round(),
        4 => {
            let v = g.r.pick(&[1., 2., 0.5, 3., 10.]) * g.r.sign();
            g.around(v, 1.)
        }
        _ => g.r.uni(-10., 10.),
    };
    if x != 0. && x.abs() < 1e-5 { 1e-5 } else { x }
}

impl Prop for C28 {
    fn exec(&mut self, op: u32, i: &[f64]) -> Vec<f64> {
        match op {
            1 => {
                let (z, w, s) = (Complex::new(i[0], i[1]), Complex::new(i[2], i[3]), i[4]);
                let mut o = vec![OK];
                let mut p = |c: Complex| {
                    o.push(c.re);
                    o.push(c.im);
                };
                p(z + w);
                p(z - w);
                p(z * w);
                p(z.conj());
                p(z + s);
                p(z - s);
                p(z * s);
                p(z / s);
                let q = z / w;
                p(q.unwrap_or(Complex::new(f64::NAN, f64::NAN)));
                let v = w.inv();
                p(v.unwrap_or(Complex::new(f64::NAN, f64::NAN)));
                o.extend([
                    q.is_ok() as i32 as f64,
                    v.is_ok() as i32 as f64,
                    z.abs(),
                    z.abs_sq(),
                    z.arg().rad(),
                    (z == w) as i32 as f64,
                    z.is_zero() as i32 as f64,
                    (Complex::zero() == <Complex as Zero>::zero()) as i32 as f64,
                ]);
                // magnitudes beyond the specification's grid, scaled exactly
                let k = 2f64.powi(i[5] as i32);
                let (zk, wk, wi) = (Complex::new(i[0] * k, i[1] * k), Complex::new(i[2] * k, i[3] * k), Complex::new(i[2] / k, i[3] / k));
                let (s, p) = (zk + wk, zk * wi);
                o.extend([zk.abs() / k, zk.arg().rad(), s.re / k, s.im / k, p.re, p.im]);
                o
            }
            2 => {
                let (c, x, z) = (&i[4..], i[1], Complex::new(i[2], i[3]));
                match i[0] as usize {
                    1 => poly::<1>(c, x, z),
                    2 => poly::<2>(c, x, z),
                    3 => poly::<3>(c, x, z),
                    4 => poly::<4>(c, x, z),
                    5 => poly::<5>(c, x, z),
                    6 => poly::<6>(c, x, z),
                    7 => poly::<7>(c, x, z),
                    _ => poly::<8>(c, x, z),
                }
            }
            3 => vec![OK, fp::clenshaw_sin_sum(&i[2..2 + i[0] as usize], i[1])],
            4 => {
                let (s, e) = fp::sum(i[0], i[1]);
                vec![OK, s, e]
            }
            5 => vec![OK, fp::remainder(i[0], i[1]), fp::sq(i[0])],
            6 => {
                let (k, t) = ([i[0], i[1]], [i[2], i[3]]);
                let f = move |x: [f64; 2]| [k[0] * (t[0] - x[0]), k[1] * (t[1] - x[1])];
                let r = iter_fn([i[4], i[5]], &f, [i[6], i[7]]);
                vec![OK, r[0], r[1]]
            }
            _ => unreachable!(),
        }
    }
    fn generate(&mut self, g: &mut Gen, rec: &mut Rec) {
        let n = g.n(1800, 20000);
        rec.budget(0, n);
        for _ in 0..n {
            let mut v: Vec<f64> = (0..5).map(|_| num_(g)).collect();
            if g.r.chance(0.1) {
                v[2] = v[0];
                v[3] = if g.r.chance(0.5) { v[1] } else { -v[1] };
            }
            if g.r.chance(0.2) {
                let s = g.r.log(1e-8, 1e4);
                for x in v[..2].iter_mut() {
                    *x *= s;
                }
                let s = g.r.log(1e-8, 1e4);
                for x in v[2..4].iter_mut() {
                    *x *= s;
                }
                for x in v.iter_mut() {
                    if x.abs() < 1e-10 {
                        *x = 0.;
                    }
                }
            }
            if v[4] == 0. {
                v[4] = 3.;
            }
            let k = if g.r.chance(0.3) { g.r.uni(-900., 900.).round() } else { 0. };
            v.push(k);
            rec.push(0., self.call(1, &v));
            let d = 1 + g.r.below(8);
            let mut v = vec![d as f64, num_(g), num_(g), num_(g)];
            if g.r.chance(0.5) {
                for x in v[1..].iter_mut() {
                    *x = g.r.uni(-2., 2.);
                }
            }
            for x in v[1..].iter_mut() {
                if x.abs() > 30. {
                    *x /= 40.;
                }
            }
            // arguments at which every term but the first is small, and still counts
            if g.r.chance(0.15) {
                for x in v[1..].iter_mut() {
                    *x = g.r.sign() * g.r.log(1e-14, 1e-3);
                }
            }
            v.extend((0..8).map(|_| num_(g)));
            rec.push(0., self.call(2, &v));
            let m = g.r.below(9);
            let x = if g.r.chance(0.5) { g.r.uni(-7., 7.) } else { g.deg(720.).to_radians() };
            let x = if g.r.chance(0.1) { g.r.sign() * g.r.log(1e-12, 1e-3) } else { x };
            let mut v = vec![m as f64, x];
            v.extend((0..8).map(|_| num_(g)));
            rec.push(0., self.call(3, &v));
            // sums: operands of very different and of cancelling sizes
            let sc = |g: &mut Gen| {
                let s = g.r.sign();
                s * g.r.log(1e-10, 1e12)
            };
            let a = if g.r.chance(0.3) { num_(g) } else { sc(g) };
            let b = match g.r.below(4) {
                0 => num_(g),
                1 => {
                    let s = 0.5 * a.abs().max(1e-6);
                    -g.around(a, s)
                }
                _ => sc(g),
            };
            let b = if b != 0. && b.abs() < 1e-12 { 0. } else { b };
            rec.push(0., self.call(4, &[a, b]));
            let r = g.r.pick(&[2. * std::f64::consts::PI, 360., 400., 1., 0.75, std::f64::consts::PI]);
            let k = (g.r.uni(-40., 40.)).round();
            let v = match g.r.below(5) {
                0 => g.around(k * r, r),
                1 => g.around((k + 0.5) * r, r),
                2 => sc(g),
                3 => g.mag(1e-6, 1e15),
                _ => g.r.uni(-3. * r, 3. * r),
            };
            let v = if v != 0. && v.abs() < 1e-10 { 0. } else { v };
            rec.push(0., self.call(5, &[v, r]));
            let k = |g: &mut Gen| g.r.pick(&[1., 0.5, 0.75, 1.25, 0.9, 1.5, 0.25]);
            let v = [
                k(g), k(g), g.r.uni(-100., 100.), g.r.uni(-100., 100.), num_(g), num_(g),
                g.r.log(1e-9, 1.), g.r.log(1e-9, 1.),
            ];
            rec.push(0., self.call(6, &v));
        }
    }
}
