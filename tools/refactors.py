#!/usr/bin/env python3
"""Behaviour-preserving edits of geokit (helpers extracted, statements reordered, loops rewritten, arithmetic
reassociated to the last bit): every check has to stay quiet on them.  Development tool.

  refactors.py apply DIR    apply the first set to the copy of /repo in DIR (apply2: the second)
"""
import sys
R = [
 # arithmetic reassociated
 ("geodesy/ellipsoid.rs", "        (a - b) * (a + b) / self.a_sq()\n", "        let f = (a - b) / a;\n        f * (2. - f)\n"),
 ("geodesy/ellipsoid.rs", "        (self.a_sq() - self.b_sq()) / self.b_sq()\n", "        let (a, b) = (self.a.m(), self.b.m());\n        (a - b) * (a + b) / (b * b)\n"),
 ("geodesy/ellipsoid.rs", "        self.a / (1.0 - self.e_sq() * lat.sin().powi(2)).sqrt()\n", "        self.a / self.w(lat)\n"),
 ("geodesy/ellipsoid.rs", "        self.a * (1.0 - self.e_sq()) / (1.0 - self.e_sq() * lat.sin().powi(2)).powf(1.5)\n",
  "        let w = self.w(lat);\n        self.a * ((1.0 - self.e_sq()) / (w * w * w))\n"),
 ("geodesy/ellipsoid.rs", "    pub fn is_spherical(&self) -> bool {\n", "    fn w(&self, lat: Lat) -> Float {\n        let s = lat.sin();\n        (1.0 - self.e_sq() * s * s).sqrt()\n    }\n\n    pub fn is_spherical(&self) -> bool {\n"),
 ("geodesy/ellipsoid.rs", "        self.a == self.b || self.invf.is_infinite()\n", "        let sphere = self.invf.is_infinite();\n        sphere || self.a == self.b\n"),
 ("geodesy/geodetic_datum.rs", """            XYZ {
                x: (v + llh.height) * cos_lat * cos_lon,
                y: (v + llh.height) * cos_lat * sin_lon,
                z: (v * (1.0 - self.ellipsoid.e_sq()) + llh.height) * sin_lat,
            }
""", """            let r = (v + llh.height) * cos_lat;
            let e2 = self.ellipsoid.e_sq();
            let z = (v + llh.height - v * e2) * sin_lat;
            XYZ { x: r * cos_lon, y: r * sin_lon, z }
"""),
 ("geodesy/geodetic_datum.rs", "            let p = _p * _p; // (x^2 + y^2) / a^2\n", "            let p = (x * x + y * y) / (a * a);\n"),
 ("geodesy/geodetic_datum.rs", "            let s = e4 * p * q / (4. * r.powi(3));\n", "            let s = e4 * (p * q) / (4. * r * r * r);\n"),
 ("geodesy/geodetic_datum.rs", """            let lon_rad = if x == 0. && y == 0. {
                0. // on polar axis, we choose lon = 0.
            } else if y >= 0. {
                PI_2 - 2. * x.atan2(_r + y)
            } else {
                -PI_2 + 2. * x.atan2(_r - y)
            };
""", """            let on_axis = x == 0. && y == 0.;
            let lon_rad = match (on_axis, y >= 0.) {
                (true, _) => 0.,
                (false, true) => PI_2 - 2. * x.atan2(y + _r),
                (false, false) => 2. * x.atan2(_r - y) - PI_2,
            };
"""),
 ("transformations/xyz.rs", "        let x = self.rot * self.ppm.factor() * s + self.t;\n", "        let x = self.rot * s * self.ppm.factor() + self.t;\n"),
 ("transformations/xyz.rs", "        let s = self.inv_rot * self.ppm.inv_factor() * t - self.t;\n", "        let s = -self.t + (self.inv_rot * t) * self.ppm.inv_factor();\n"),
 # projections
 ("projections/cyl/mercator.rs", """            easting: self.false_easting + ((self.a * self.k0) * (input.lon - self.lon0)).length(),
            northing: self.false_northing + self.a * self.k0 * (lat1.tan() * R).ln(),
""", """            northing: (lat1.tan().ln() + R.ln()) * self.k0 * self.a + self.false_northing,
            easting: ((self.a * self.k0) * (input.lon - self.lon0)).length() + self.false_easting,
"""),
 ("projections/cyl/mercator.rs", """        let x = xi
            + self.c_sin_nxi[0] * sin_2xi
            + self.c_sin_nxi[1] * sin_4xi
            + self.c_sin_nxi[2] * sin_6xi
            + self.c_sin_nxi[3] * sin_8xi;
""", """        let mut x = xi;
        for (c, s) in self.c_sin_nxi.iter().zip([sin_2xi, sin_4xi, sin_6xi, sin_8xi]).rev() {
            x += c * s;
        }
"""),
 ("projections/cyl/web_mercator.rs", "            northing: self.false_northing + self.a * (input.lat / 2.0 + PI_4 * RAD).tan().ln(),\n",
  "            northing: self.false_northing + self.a * input.lat.tan().asinh(),\n"),
 ("projections/cyl/transverse_mercator.rs", """        let xis = [
            self.h[0] * (2.0 * xi_0).sin() * (2.0 * eta_0).cosh(),
            self.h[1] * (4.0 * xi_0).sin() * (4.0 * eta_0).cosh(),
            self.h[2] * (6.0 * xi_0).sin() * (6.0 * eta_0).cosh(),
            self.h[3] * (8.0 * xi_0).sin() * (8.0 * eta_0).cosh(),
        ];
        let xi = xi_0 + xis.into_iter().sum::<Float>();

        let etas = [
            self.h[0] * (2.0 * xi_0).cos() * (2.0 * eta_0).sinh(),
            self.h[1] * (4.0 * xi_0).cos() * (4.0 * eta_0).sinh(),
            self.h[2] * (6.0 * xi_0).cos() * (6.0 * eta_0).sinh(),
            self.h[3] * (8.0 * xi_0).cos() * (8.0 * eta_0).sinh(),
        ];
        let eta = eta_0 + etas.into_iter().sum::<Float>();
""", """        let (mut xi, mut eta) = (xi_0, eta_0);
        for (k, h) in self.h.iter().enumerate().rev() {
            let j = 2.0 * (k + 1) as Float;
            xi += h * (j * xi_0).sin() * (j * eta_0).cosh();
            eta += h * (j * xi_0).cos() * (j * eta_0).sinh();
        }
"""),
 ("projections/cyl/transverse_mercator.rs", """            easting: self.false_easting + self.k0 * self.B * eta,
            northing: self.false_northing + self.k0 * (self.B * xi - self.M0),
""", """            easting: self.false_easting + self.B * (self.k0 * eta),
            northing: self.false_northing + self.k0 * self.B * xi - self.k0 * self.M0,
"""),
 ("projections/cyl/transverse_mercator.rs", """        let mut Q_pp = iter_fn(self.e, Q_p, Q_p);
        loop {
            let old_Q_pp = Q_pp;
            Q_pp = iter_fn(self.e, Q_p, Q_pp);
            if (Q_pp - old_Q_pp).abs() < 1e-12 {
                break;
            }
        }
""", """        let mut Q_pp = iter_fn(self.e, Q_p, Q_p);
        let mut change = Float::INFINITY;
        while !(change < 1e-12) {
            let next = iter_fn(self.e, Q_p, Q_pp);
            change = (next - Q_pp).abs();
            Q_pp = next;
        }
"""),
 # geodesics
 ("geodesy/geodesics/vincenty.rs", """        let A = 1. + (u_sq / 16384.) * (4096. + u_sq * (-768. + u_sq * (320. - 175. * u_sq)));
        let B = (u_sq / 1024.) * (256. + u_sq * (-128. + u_sq * (74. - 47. * u_sq)));

        let sigma_0""", """        let (A, B) = Self::series(u_sq);

        let sigma_0"""),
 ("geodesy/geodesics/vincenty.rs", """    /// Create a new solver for the given ellipsoid.
""", """    fn series(u_sq: f64) -> (f64, f64) {
        let big_a = 1. + u_sq * (4096. + u_sq * (-768. + u_sq * (320. - 175. * u_sq))) / 16384.;
        let big_b = u_sq * (256. + u_sq * (-128. + u_sq * (74. - 47. * u_sq))) / 1024.;
        (big_a, big_b)
    }

    /// Create a new solver for the given ellipsoid.
"""),
 ("geodesy/geodesics/vincenty.rs", """            let A = 1. + u_sq / 16384. * (4096. + u_sq * (-768. + u_sq * (320. - 175. * u_sq)));
            // Eq (4)
            let B = u_sq / 1024. * (256. + u_sq * (-128. + u_sq * (74. - 47. * u_sq)));
""", """            let (A, B) = Self::series(u_sq);
"""),
 ("geodesy/geodesics/vincenty.rs", "            sigma = sin_sigma_sq.sqrt().atan2(cos_sigma_i);\n            (sin_sigma, cos_sigma) = sigma.sin_cos();\n",
  "            sin_sigma = sin_sigma_sq.sqrt();\n            cos_sigma = cos_sigma_i;\n            sigma = sin_sigma.atan2(cos_sigma);\n"),
 # math
 ("math/polynomial.rs", """        self.0
            .into_iter()
            .rev()
            .fold(0.0f64, |acc, coef_i| acc.mul_add(x, coef_i))
""", """        let mut acc = 0.0f64;
        for k in (0..D).rev() {
            acc = acc * x + self.0[k];
        }
        acc
"""),
 ("math/fp.rs", """    let x = a + b;
    let z = x - a;
    let y = a - (x - z) + (b - z);
    (x, y)
""", """    let x = a + b;
    let b_virtual = x - a;
    let a_virtual = x - b_virtual;
    (x, (a - a_virtual) + (b - b_virtual))
"""),
 # angles
 ("quantities/angle.rs", """    pub fn normalize(&mut self) {
        let mut a = remainder(self.0, TAU);
        if a <= -PI {
            a = PI;
        }
        self.0 = a;
    }
""", """    pub fn normalize(&mut self) {
        *self = self.normalized();
    }
"""),
 ("quantities/angle.rs", "        self.0 * unit.1 / unit.0\n", "        self.0 / unit.rad_per_unit()\n"),
 ("quantities/length.rs", "        self.0 / unit.m_per_unit()\n", "        let (x, u) = (self.0, unit.m_per_unit());\n        if u == 1. { x } else { x / u }\n"),
 ("cs/s1.rs", """        let mut length = self.hi - self.lo;
        if length < Angle::ZERO {
            length += 2. * Angle::PI;
        }
        debug_assert!(length >= Angle::ZERO);
        length
""", """        if self.is_inverted() {
            Angle::TWO_PI - (self.lo - self.hi)
        } else {
            self.hi - self.lo
        }
"""),
 ("cs/geodetic.rs", """        self.lon.abs_diff_eq(&other.lon, tol.lon)
            && self.lat.abs_diff_eq(&other.lat, tol.lat)
            && self.height.abs_diff_eq(&other.height, tol.height)
""", """        let ground = self.lat.abs_diff_eq(&other.lat, tol.lat) && self.lon.abs_diff_eq(&other.lon, tol.lon);
        ground && other.height.abs_diff_eq(&self.height, tol.height)
"""),
 ("cs/geodetic.rs", """            GeodeticAxes::NorthWest { angle_unit } => LLH {
                lon: Lon::new(Angle::new(-coords[1], *angle_unit)),
""", """            GeodeticAxes::NorthWest { angle_unit } => LLH {
                lon: -Lon::new(Angle::new(coords[1], *angle_unit)),
"""),
 # geometry
 ("geometry/coordinate/curve/line_string.rs", """            .map(|(&s, &e)| (1. - ratio) * s + ratio * e)
""", """            .map(|(&s, &e)| s + ratio * (e - s))
"""),
 ("geometry/coordinate/curve/line_string.rs", "        self.len.iter().fold(0. * M, |acc, l| acc + *l)\n", "        let mut total = 0. * M;\n        for l in self.len.iter().rev() {\n            total += *l;\n        }\n        total\n"),
 ("geometry/primitive/curve.rs", """        if self.coord_dim != seg.coord_dim() {
            Err("Invalid coordinate dimension")
        } else if self.seg.last().unwrap().end() != seg.start() {
            Err("Disconnected segment")
        } else {
            self.seg.push(clone_box(&seg));
            Ok(self)
        }
""", """        if seg.coord_dim() != self.coord_dim {
            return Err("Invalid coordinate dimension");
        }
        let joint = self.seg.last().map(|s| s.end());
        if joint != Some(seg.start()) {
            return Err("Disconnected segment");
        }
        self.seg.push(clone_box(&seg));
        Ok(self)
"""),
]

# a second, independent set (apply2)
R2 = [
 ("projections/cyl/transverse_mercator.rs", """        let xi_ps = [
            self.h_p[0] * (2.0 * xi_p).sin() * (2.0 * eta_p).cosh(),
            self.h_p[1] * (4.0 * xi_p).sin() * (4.0 * eta_p).cosh(),
            self.h_p[2] * (6.0 * xi_p).sin() * (6.0 * eta_p).cosh(),
            self.h_p[3] * (8.0 * xi_p).sin() * (8.0 * eta_p).cosh(),
        ];
        let xi_p0 = xi_p - xi_ps.into_iter().sum::<Float>();

        let eta_ps = [
            self.h_p[0] * (2.0 * xi_p).cos() * (2.0 * eta_p).sinh(),
            self.h_p[1] * (4.0 * xi_p).cos() * (4.0 * eta_p).sinh(),
            self.h_p[2] * (6.0 * xi_p).cos() * (6.0 * eta_p).sinh(),
            self.h_p[3] * (8.0 * xi_p).cos() * (8.0 * eta_p).sinh(),
        ];
        let eta_p0 = eta_p - eta_ps.into_iter().sum::<Float>();
""", """        let (mut xi_p0, mut eta_p0) = (xi_p, eta_p);
        let mut j = 0.0;
        for c in self.h_p {
            j += 2.0;
            let (s, co) = (j * xi_p).sin_cos();
            xi_p0 -= c * (s * (j * eta_p).cosh());
            eta_p0 -= c * (co * (j * eta_p).sinh());
        }
"""),
 ("projections/cyl/transverse_mercator.rs", """        let eta_p = (input.easting - self.false_easting) / (self.B * self.k0);
        let xi_p = (input.northing - self.false_northing + self.k0 * self.M0) / (self.B * self.k0);
""", """        let radius = self.k0 * self.B;
        let xi_p = (input.northing - self.false_northing) / radius + self.M0 / self.B;
        let eta_p = (input.easting - self.false_easting) / radius;
"""),
 ("projections/cyl/transverse_mercator.rs", """    if lat0 == Lat::ZERO {
        0.0 * M
    } else if lat0.abs() == Lat::MAX {
        B * lat0.angle().rad()
    } else {
        let Q0 = Q(e, lat0);
        let beta0 = beta(Q0);
        let xi_o0 = beta0; // From note: simplified beta0.sin().asin() to beta0;
        let xi_os = [
            xi_o0,
            h[0] * (2.0 * xi_o0).sin(),
            h[1] * (4.0 * xi_o0).sin(),
            h[2] * (6.0 * xi_o0).sin(),
            h[3] * (8.0 * xi_o0).sin(),
        ];
        let xi_o = xi_os.into_iter().sum::<Float>();
        B * xi_o
    }
""", """    let beta0 = beta(Q(e, lat0));
    let mut xi_o = beta0;
    for k in (0..4).rev() {
        xi_o += h[k] * (2.0 * (k as Float + 1.0) * beta0).sin();
    }
    B * xi_o
"""),
 ("projections/cyl/transverse_mercator.rs", """    let lon0_deg =
        UTM_ZONE_1_WEST_LIMIT_DEG + (zone as Float) * UTM_ZONE_WIDTH_DEG - UTM_ZONE_WIDTH_DEG / 2.0;
    Lon::new(lon0_deg * DEG)
""", """    let lon0_deg = 6 * zone as i32 - 183;
    Lon::new(lon0_deg as Float * DEG)
"""),
 ("projections/cyl/mercator.rs", """        let t = ((self.false_northing - input.northing) / (self.a * self.k0)).exp();
        let xi = PI_2 - 2.0 * t.atan();
        let sin_2xi = (2.0 * xi).sin();
        let sin_4xi = (4.0 * xi).sin();
        let sin_6xi = (6.0 * xi).sin();
        let sin_8xi = (8.0 * xi).sin();
""", """        // the Gudermannian
        let psi = (input.northing - self.false_northing) / self.a / self.k0;
        let xi = psi.sinh().atan();
        let s = [2.0, 4.0, 6.0, 8.0].map(|k: Float| (k * xi).sin());
        let [sin_2xi, sin_4xi, sin_6xi, sin_8xi] = s;
"""),
 ("projections/cyl/mercator.rs", "use crate::math::fp::{Float, PI_2, PI_4};", "use crate::math::fp::{Float, PI_4};"),
 ("geodesy/geodesics/karney.rs", """        tau + cp1xs
            .into_iter()
            .enumerate()
            .map(|(ix, cp1x)| cp1x * (2. * tau * (ix + 1) as Float).sin())
            .sum::<Float>()
            * RAD
""", """        let mut c = vec![0.];
        c.extend(cp1xs);
        tau + clenshaw_sin_sum(&c, 2. * tau.rad()) * RAD
"""),
 ("geodesy/geodesics/karney.rs", """        let C3L = self.C3L.map(|p| p.fast_eval_at(epsilon));
        A3 * (sigma.rad() + clenshaw_sin_sum(&C3L, 2. * sigma.rad()))
""", """        let mut total = sigma.rad();
        for (l, p) in self.C3L.iter().enumerate().skip(1) {
            total += p.eval_at(epsilon) * (2. * l as Float * sigma.rad()).sin();
        }
        A3 * total
"""),
 ("geodesy/geodesics/karney.rs", """        let lambda1 = nep1.omega - self.ellipsoid.f() * sin_alpha0 * I3_sigma1 * RAD;
        let lambda2 = nep2.omega - self.ellipsoid.f() * sin_alpha0 * I3_sigma2 * RAD;
        let lambda12 = lambda2 - lambda1;
""", """        let lambda12 = (nep2.omega - nep1.omega)
            - self.ellipsoid.f() * sin_alpha0 * (I3_sigma2 - I3_sigma1) * RAD;
"""),
 ("geodesy/geodesics/rapp.rs", """            let two_sigma_m = 2. * sigma_1 + sigma;
            cos_2_sigma_m = two_sigma_m.cos();
            cos_4_sigma_m = 2. * cos_2_sigma_m.powi(2) - 1.;
            cos_6_sigma_m =
                cos_2_sigma_m.powi(3) - 3. * cos_2_sigma_m * (1. - cos_2_sigma_m.powi(2));
""", """            let two_sigma_m = 2. * sigma_1 + sigma;
            [cos_2_sigma_m, cos_4_sigma_m, cos_6_sigma_m] = [1., 2., 3.].map(|k: f64| (k * two_sigma_m).cos());
"""),
 ("geodesy/geodesics/rapp.rs", """            sin_2_sigma = 2. * sin_sigma * cos_sigma;
            sin_3_sigma = 3. * sin_sigma * cos_sigma.powi(2) - sin_sigma.powi(3);
            sin_4_sigma = 4. * sin_sigma * cos_sigma.powi(3) - 4. * sin_sigma.powi(3) * cos_sigma;
""", """            sin_2_sigma = (2. * sigma).sin();
            sin_3_sigma = (3. * sigma).sin();
            sin_4_sigma = (4. * sigma).sin();
"""),
 ("geodesy/geodesics/vincenty.rs", """        let tan_beta1 = (1. - f) * lat1.tan();
        let cos_beta1 = 1. / (1. + tan_beta1 * tan_beta1).sqrt(); // cos_beta1 >= 0.
        let sin_beta1 = tan_beta1 * cos_beta1;
""", """        let beta1 = self.ellipsoid.reduced_latitude(lat1);
        let (sin_beta1, cos_beta1) = beta1.sin_cos();
        let tan_beta1 = (1. - f) * lat1.tan();
"""),
 ("geodesy/geodesics/vincenty.rs", """        let L = lambda - lambda_minus_L;

        let alpha2 =
            sin_alpha.atan2(-sin_beta1 * sin_sigma + cos_beta1 * cos_sigma * cos_alpha1) * RAD;

        Ok(Geodesic {
            p1,
            alpha1,
            p2: (lon1 + L, Lat::new(lat2)),
""", """        let alpha2 =
            sin_alpha.atan2(cos_beta1 * (cos_sigma * cos_alpha1) - sin_beta1 * sin_sigma) * RAD;

        Ok(Geodesic {
            p1,
            alpha1,
            p2: (lon1 - lambda_minus_L + lambda, Lat::new(lat2)),
"""),
 ("geodesy/geodetic_datum.rs", """            let lat_rad = 2. * z.atan2(D + _h);
""", """            let lat_rad = z.atan2(D);
"""),
 ("geodesy/geodetic_datum.rs", """            let lon_rad = if x == 0. && y == 0. {
                0. // on polar axis, we choose lon = 0.
            } else if y >= 0. {
                PI_2 - 2. * x.atan2(_r + y)
            } else {
                -PI_2 + 2. * x.atan2(_r - y)
            };
""", """            let lon_rad = if x == 0. && y == 0. { 0. } else { y.atan2(x) };
"""),
 ("geodesy/geodetic_datum.rs", "use crate::math::fp::PI_2;\n", ""),
 ("geodesy/ellipsoid.rs", """        ((1. - self.f()) * lat.tan()).atan() * RAD
    }

    /// Return the geocentric""", """        let (s, c) = lat.sin_cos();
        ((1. - self.f()) * s).atan2(c) * RAD
    }

    /// Return the geocentric"""),
 ("geodesy/ellipsoid.rs", "        1. / self.invf\n", "        self.invf.recip()\n"),
 ("crs/geographic.rs", """        let llha = self.axes.normalize(a);
        let llhb = self.axes.normalize(b);
        if self.dim() == 2 {
            let solver = VincentyGeodesicSolver::new(self.datum.ellipsoid());
            solver
                .solve_inverse((llha.lon, llha.lat), (llhb.lon, llhb.lat))
                .map(|g| g.s)
        } else {
            let xyza = self.datum.llh_to_xyz(llha);
            let xyzb = self.datum.llh_to_xyz(llhb);
            Ok(xyza.dist_to(xyzb))
        }
""", """        let [p, q] = [a, b].map(|c| self.axes.normalize(c));
        if self.dim() == 3 {
            return Ok(self.datum.llh_to_xyz(q).dist_to(self.datum.llh_to_xyz(p)));
        }
        let g = VincentyGeodesicSolver::new(self.datum.ellipsoid())
            .solve_inverse((p.lon, p.lat), (q.lon, q.lat))?;
        Ok(g.s)
"""),
 ("geometry/coordinate/curve/line_string.rs", """        let last_ix = self.len.len() - 1;
        let mut res_len = s;
        let mut start_pos_ix = 0;
        while start_pos_ix < last_ix && self.len[start_pos_ix] < res_len {
            res_len -= self.len[start_pos_ix];
            start_pos_ix += 1;
        }
        let seg_len = self.len[start_pos_ix];
""", """        let last_ix = self.len.len() - 1;
        let mut start_pos_ix = last_ix;
        let mut res_len = s;
        for (k, l) in self.len.iter().enumerate() {
            if k == last_ix || *l >= res_len {
                start_pos_ix = k;
                break;
            }
            res_len = res_len - *l;
        }
        let seg_len = self.len[start_pos_ix];
"""),
 ("geometry/coordinate/curve/line_string.rs", """        let to = (s.len() == self.coord_dim)
            .then_some(s)
            .ok_or("Invalid coordinate dimension")?;

        let length = self.crs.dist(self.pos(self.len() - 1), to)?;
        self.pos.extend(s);
        self.len.push(length);
        Ok(self)
""", """        if s.len() != self.coord_dim {
            return Err("Invalid coordinate dimension");
        }
        let last = self.len() - 1;
        let length = self.crs.dist(self.pos(last), s)?;
        self.len.push(length);
        self.pos.extend_from_slice(s);
        Ok(self)
"""),
 ("geometry/primitive/curve.rs", """        self.start() == self.end()
""", """        self.start().iter().zip(self.end()).all(|(a, b)| a == b)
"""),
 ("cs/s1.rs", """        let mut low = lo.wrapped();
        let mut hig = hi.wrapped();
        if low == Angle::M_PI && hig != Angle::PI {
            low = Angle::PI;
            // [-pi..-pi] is the singleton {pi}, not the empty interval.
            if hig == Angle::M_PI {
                hig = Angle::PI;
            }
        }
        Self { lo: low, hi: hig }
""", """        match (lo.wrapped(), hi.wrapped()) {
            (l, h) if l == Angle::M_PI && h == Angle::M_PI => Self { lo: Angle::PI, hi: Angle::PI },
            (l, h) if l == Angle::M_PI && h != Angle::PI => Self { lo: Angle::PI, hi: h },
            (l, h) => Self { lo: l, hi: h },
        }
"""),
 ("quantities/angle.rs", """        let sgn = rad.signum();
        let mut deg = rad.abs().to_degrees();
        let mut d = deg.floor();
        deg = 60. * deg.fract();
        let mut m;
        let s;
        if (deg - deg.round()).abs() < 1e-8 {
            m = deg.round();
            s = 0.0;
        } else {
            m = deg.floor();
            s = 60. * deg.fract();
        }
        if m >= 60. {
            m -= 60.;
            d += 1.;
        }
        Dms(sgn * d, m, s)
""", """        let deg = rad.abs().to_degrees();
        let min = (deg - deg.trunc()) * 60.;
        let whole = (min - min.round()).abs() < 1e-8;
        let (m, s) = if whole { (min.round(), 0.) } else { (min.trunc(), (min - min.trunc()) * 60.) };
        let (d, m) = if m >= 60. { (deg.trunc() + 1., m - 60.) } else { (deg.trunc(), m) };
        Dms(d.copysign(rad), m, s)
"""),
 ("math/complex.rs", """        Self::new(
            self.re * rhs.re - self.im * rhs.im,
            self.re * rhs.im + self.im * rhs.re,
        )
""", """        let (a, b, c, d) = (self.re, self.im, rhs.re, rhs.im);
        Self { im: b * c + a * d, re: a * c - b * d }
"""),
 ("math/utils.rs", """        let ds = deltas(res);
        for i in 0..D {
            res[i] += ds[i];
        }
        if ds.iter().zip(epsilon.iter()).all(|(d, e)| d.abs() < *e) {
            break;
        }
""", """        let ds = deltas(res);
        res.iter_mut().zip(ds).for_each(|(r, d)| *r += d);
        let going = (0..D).any(|i| !(ds[i].abs() < epsilon[i]));
        if !going {
            break;
        }
"""),
 ("math/fp.rs", """    let mut y_n_plus_2 = 0.;
    let mut y_n_plus_1 = 0.;
    let mut y_n = 0.;
    for ck in c_k.iter().rev() {
        y_n_plus_2 = y_n_plus_1;
        y_n_plus_1 = y_n;
        y_n = alpha * y_n_plus_1 + beta * y_n_plus_2 + ck;
    }

    // y_n holds y[0] and y_n_plus_1 holds y[1]
    // S = sin(x) * y[1] since F[0](x) = 0
    x.sin() * y_n_plus_1
""", """    let mut y = (0., 0.);
    for ck in c_k.iter().skip(1).rev() {
        y = (ck + beta * y.1 + alpha * y.0, y.0);
    }
    y.0 * x.sin()
"""),
 ("cs/geodetic.rs", """    pub fn denormalize(&self, llh: LLH, coords: &mut Coord) {
        match self {
""", """    pub fn denormalize(&self, llh: LLH, coords: &mut Coord) {
        if let GeodeticAxes::EastNorth { angle_unit } | GeodeticAxes::EastNorthUp { angle_unit, .. } = self {
            let [x, y] = [llh.lon.angle(), llh.lat.angle()].map(|v| v.val(*angle_unit));
            coords[..2].copy_from_slice(&[x, y]);
            if let GeodeticAxes::EastNorthUp { height_unit, .. } = self {
                coords[2] = llh.height.val(*height_unit);
            }
            return;
        }
        match self {
"""),
 ("transformations/xyz.rs", """            x: dst.x - self.tx,
            y: dst.y - self.ty,
            z: dst.z - self.tz,
""", """            z: dst.z - self.tz,
            x: dst.x - self.tx,
            y: dst.y + -1. * self.ty,
"""),
 ("bin/sample_s2.rs", """    let [x, y, z] = s2;
    [
        a * x / meter_per_unit,
        a * y / meter_per_unit,
        (a - a / inverse_flattening) * z / meter_per_unit,
    ]
""", """    let a = a / meter_per_unit;
    let b = a * (1. - 1. / inverse_flattening);
    [a * s2[0], a * s2[1], b * s2[2]]
"""),
 ("bin/sample_s2.rs", """    let lat = z.atan2((1. - 1. / inverse_flattening) * ((1. - z) * (1. + z)).sqrt()) / rad_per_unit;
""", """    let lat = z.atan2((1. - 1. / inverse_flattening) * x.hypot(y)) / rad_per_unit;
"""),
]

def apply(d, rs):
    for f, a, b in rs:
        p = "%s/geokit/src/%s" % (d, f)
        s = open(p).read()
        if a not in s:
            print("NOT FOUND in", f, ":", a[:60].strip())
            continue
        open(p, "w").write(s.replace(a, b, 1))

if __name__ == "__main__":
    apply(sys.argv[2], {"apply": R, "apply2": R2}[sys.argv[1]])
