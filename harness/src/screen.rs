//! Independent double-precision reference models.  They only rank recorded events by suspicion, so that the
//! specification sees the most interesting ones; they never decide anything.
pub const GL: [(f64, f64); 20] = [
    (0.996564299592547, 0.008807003569576),
    (0.981985963638957, 0.020300714900193),
    (0.956117214125663, 0.031336024167055),
    (0.919558485911109, 0.041638370788352),
    (0.873165953230075, 0.050965059908620),
    (0.818026840363258, 0.059097265980759),
    (0.755433500975414, 0.065844319224588),
    (0.686853044357710, 0.071048054659191),
    (0.613892925570823, 0.074586493236302),
    (0.538263260566749, 0.076376693565363),
    (0.461736739433251, 0.076376693565363),
    (0.386107074429177, 0.074586493236302),
    (0.313146955642290, 0.071048054659191),
    (0.244566499024586, 0.065844319224588),
    (0.181973159636742, 0.059097265980759),
    (0.126834046769925, 0.050965059908620),
    (0.080441514088891, 0.041638370788352),
    (0.043882785874337, 0.031336024167055),
    (0.018014036361043, 0.020300714900193),
    (0.003435700407453, 0.008807003569576),
];
pub fn integ(f: impl Fn(f64) -> f64, lo: f64, hi: f64) -> f64 {
    let n = 1 + (hi - lo).abs() as usize / 2;
    let w = (hi - lo) / n as f64;
    let mut t = 0.;
    for i in 0..n {
        let l = lo + w * i as f64;
        for (x, g) in GL {
            t += w * g * f(l + w * x);
        }
    }
    t
}
#[derive(Clone, Copy)]
pub struct El {
    pub a: f64,
    pub f: f64,
    pub b: f64,
    pub e2: f64,
}
impl El {
    pub fn new(a: f64, invf: f64) -> Self {
        let f = if invf == 0. { 0. } else { 1. / invf };
        El {
            a,
            f,
            b: a * (1. - f),
            e2: f * (2. - f),
        }
    }
    pub fn xyz(&self, lon: f64, lat: f64, h: f64) -> [f64; 3] {
        let n = self.a / (1. - self.e2 * lat.sin().powi(2)).sqrt();
        [
            (n + h) * lat.cos() * lon.cos(),
            (n + h) * lat.cos() * lon.sin(),
            (n * (1. - self.e2) + h) * lat.sin(),
        ]
    }
    /// (lat2, dlon, az2)
    pub fn direct(&self, lat1: f64, az1: f64, s: f64) -> (f64, f64, f64) {
        let f = self.f;
        let (sb, cb) = {
            let y = (1. - f) * lat1.sin();
            let h = y.hypot(lat1.cos());
            (y / h, lat1.cos() / h)
        };
        let (sa, ca) = az1.sin_cos();
        let sa0 = sa * cb;
        let ca0 = ca.hypot(sa * sb);
        let s1 = sb.atan2(ca * cb);
        let o1 = (sa0 * sb).atan2(ca * cb);
        let k2 = self.e2 / (1. - self.e2) * ca0 * ca0;
        let sp = |x: f64| (1. + k2 * x.sin().powi(2)).sqrt();
        let t = s / self.b;
        let mut d = t / (1. + k2 / 4.);
        for _ in 0..4 {
            d += (t - integ(sp, s1, s1 + d)) / sp(s1 + d);
        }
        let s2 = s1 + d;
        let o2 = (sa0 * s2.sin()).atan2(s2.cos());
        let j = integ(|x| (2. - f) / (1. + (1. - f) * sp(x)), s1, s2);
        let lat = (ca0 * s2.sin()).atan2((1. - f) * (ca0 * s2.cos()).hypot(sa0));
        (lat, o2 - o1 - f * sa0 * j, sa0.atan2(ca0 * s2.cos()))
    }
    pub fn iso(&self, lat: f64) -> f64 {
        let e = self.e2.sqrt();
        lat.sin().atanh() - e * (e * lat.sin()).atanh()
    }
    /// transverse Mercator, k0 = 1
    pub fn tm(&self, lat: f64, dlon: f64) -> (f64, f64) {
        let n = self.f / (2. - self.f);
        let t = self.iso(lat).sinh();
        let xi = t.atan2(dlon.cos());
        let eta = (dlon.sin() / t.hypot(dlon.cos())).asinh();
        const K: [[f64; 7]; 6] = [
            [0., 0.5, -2. / 3., 5. / 16., 41. / 180., -127. / 288., 7891. / 37800.],
            [0., 0., 13. / 48., -0.6, 557. / 1440., 281. / 630., -1983433. / 1935360.],
            [0., 0., 0., 61. / 240., -103. / 140., 15061. / 26880., 167603. / 181440.],
            [0., 0., 0., 0., 49561. / 161280., -179. / 168., 6601661. / 7257600.],
            [0., 0., 0., 0., 0., 34729. / 80640., -3418889. / 1995840.],
            [0., 0., 0., 0., 0., 0., 212378941. / 319334400.],
        ];
        let (mut x, mut y) = (eta, xi);
        for (j, c) in K.iter().enumerate() {
            let al = c.iter().rev().fold(0., |acc, v| acc * n + v);
            let k = 2. * (j + 1) as f64;
            x += al * (k * xi).cos() * (k * eta).sinh();
            y += al * (k * xi).sin() * (k * eta).cosh();
        }
        let n2 = n * n;
        let a = self.a / (1. + n) * (1. + n2 / 4. + n2 * n2 / 64. + n2 * n2 * n2 / 256.);
        (a * x, a * y)
    }
}
pub fn wrap(x: f64) -> f64 {
    let t = std::f64::consts::TAU;
    x - t * (x / t).round()
}
