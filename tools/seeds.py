"""The planted bugs: id, property, edits (file under geokit/src, old text, new text), demonstration program."""
PRE = r'''#![allow(unused_imports, dead_code)]
use geokit::crs::{geocentric::GeocentricCrs, geographic::GeographicCrs, projected::ProjectedCrs, Crs};
use geokit::cs::azimuth::Azimuth;
use geokit::cs::cartesian::geocentric::*;
use geokit::cs::cartesian::projected::*;
use geokit::cs::cartesian::*;
use geokit::cs::geodetic::*;
use geokit::geodesy::geodesics::*;
use geokit::geodesy::*;
use geokit::projections::*;
use geokit::quantities::angle::Angle;
use geokit::quantities::length::Length;
use geokit::units::angle::*;
use geokit::units::length::*;

fn llh(lon: f64, lat: f64, h: f64) -> LLH {
    LLH { lon: Lon::deg(lon), lat: Lat::deg(lat), height: h * M }
}
fn near(a: f64, b: f64, t: f64) {
    assert!((a - b).abs() <= t, "{a:e} is not {b:e} within {t:e}");
}
fn ground(a: XYZ, b: XYZ) -> f64 {
    ((a.x - b.x).m().powi(2) + (a.y - b.y).m().powi(2) + (a.z - b.z).m().powi(2)).sqrt()
}
'''
SEEDS = []
def S(id, prop, needs, breaks, edits, body, **kw):
    SEEDS.append(dict(id=id, prop=prop, needs=needs, breaks=breaks, edits=edits, demo=PRE + "fn main() {\n" + body.strip("\n") + "\n}\n", **kw))

S("c01-add-assign-one-turn", "C01", "an in-place addition of more than one full turn",
  "Lon += angle corrects by at most one turn, so the longitude leaves [-180, 180].",
  [("cs/geodetic.rs", "        self.0 = (self.0 + rhs).wrapped();\n", """        let mut a = self.0 + rhs;
        if a > Angle::PI {
            a -= Angle::TWO_PI;
        } else if a < Angle::M_PI {
            a += Angle::TWO_PI;
        }
        self.0 = a;
""")],
  """
    let mut l = Lon::deg(10.);
    l += 1000. * DEG;
    near(l.angle().val(DEG), -70., 1e-9);
""")
S("c01-azimuth-minus-pi", "C01", "an azimuth sum landing exactly on minus a half turn",
  "Azimuth + angle may yield -180 degrees, outside (-180, 180].",
  [("cs/azimuth.rs", "        Azimuth::new(self.0 + rhs)\n", "        Azimuth((self.0 + rhs).wrapped())\n")],
  """
    let a = Azimuth::WEST + (-90.) * DEG;
    assert!(a.angle().rad() > 0., "azimuth {} rad", a.angle().rad());
""")
S("c02-sub-assign-one-side", "C02", "an in-place subtraction of a negative angle near the north pole",
  "Lat -= angle only saturates at the south pole.",
  [("cs/geodetic.rs", "        self.0 = (self.0 - rhs).clamped(Angle::M_PI_2, Angle::PI_2);\n", """        let a = self.0 - rhs;
        self.0 = if a < Angle::M_PI_2 {
            Angle::M_PI_2
        } else {
            a
        };
""")],
  """
    let mut l = Lat::deg(85.);
    l -= (-10.) * DEG;
    assert!(l <= Lat::MAX, "{}", l);
""")
S("c02-mul-shrinking", "C02", "scaling a latitude by a factor below -1",
  "Lat * k skips saturation for k <= 1, which includes large negative factors.",
  [("cs/geodetic.rs", "        Lat::new(self.0 * rhs)\n", """        if rhs <= 1. {
            // shrinking cannot leave the range
            Lat(self.0 * rhs)
        } else {
            Lat::new(self.0 * rhs)
        }
""")],
  """
    let l = Lat::deg(60.) * (-2.);
    assert!(l >= Lat::MIN, "{}", l);
""")
S("c03-empty-west", "C03", "an arc starting at the half turn and ending in the western hemisphere",
  "Arcs from 180 degrees to a negative direction are reported empty.",
  [("cs/s1.rs", "        self.lo == Angle::PI && self.hi == Angle::M_PI\n", "        self.lo == Angle::PI && self.hi < Angle::ZERO\n")],
  """
    use geokit::cs::s1::Interval;
    assert!(!Interval::new(180. * DEG, -90. * DEG).is_empty());
    assert!(Interval::empty().is_empty());
""")
S("c04-dms-small-negative", "C04", "a negative angle smaller than one degree",
  "The sign of angles between -1 and 0 degrees is lost in degrees-minutes-seconds.",
  [("quantities/angle.rs", "        Dms(sgn * d, m, s)\n", "        Dms(if d > 0. { sgn * d } else { d }, m, s)\n")],
  """
    let t = format!("{}", (-0.5 * DEG).dms());
    assert!(t.contains('-'), "{t}");
""")
S("c04-length-atan2", "C04", "an angle from two lengths in the second or third quadrant",
  "The angle of two lengths is folded into (-90, 90].",
  [("quantities/length.rs", "        Angle::new(self.m().atan2(other.m()), RAD)\n", """        if other == Length::ZERO {
            Angle::new(self.m().atan2(other.m()), RAD)
        } else {
            Angle::new((self / other).atan(), RAD)
        }
""")],
  """
    near((1. * M).atan2(-1. * M).val(DEG), 135., 1e-9);
""")
S("c05-northwest-tolerance", "C05", "the tolerance of a north-west system",
  "The longitude tolerance of north-west axes is negative.",
  [("cs/geodetic.rs", """            GeodeticAxes::NorthEast { angle_unit } | GeodeticAxes::NorthWest { angle_unit } => {
                smallvec![tol.lat.val(*angle_unit), tol.lon.val(*angle_unit),]
            }
""", """            GeodeticAxes::NorthEast { angle_unit } => {
                smallvec![tol.lat.val(*angle_unit), tol.lon.val(*angle_unit),]
            }
            GeodeticAxes::NorthWest { angle_unit } => {
                smallvec![tol.lat.val(*angle_unit), -tol.lon.val(*angle_unit),]
            }
""")],
  """
    let t = GeodeticAxes::NorthWest { angle_unit: DEG }.denormalize_tol(GeodeticTolerance::small());
    assert!(t[0] > 0. && t[1] > 0., "{t:?}");
""")
S("c05-projected-height-unit", "C05", "a three-dimensional projected system with different horizontal and vertical units",
  "Heights of projected systems are read in the horizontal unit.",
  [("cs/cartesian/projected.rs", "                height: Length::new(coords[2], *height_unit),\n", "                height: Length::new(coords[2], if coords[2] < 0. { *horiz_unit } else { *height_unit }),\n")],
  """
    let ax = ProjectedAxes::EastNorthUp { horiz_unit: US_FT, height_unit: M };
    near(ax.normalize(&[1., 2., -3.]).height.m(), -3., 1e-12);
""")
S("c06-height-tolerance", "C06", "projected positions compared with different horizontal and vertical tolerances",
  "Heights of projected positions are compared with the horizontal tolerance.",
  [("cs/cartesian/projected.rs", "            && self.height.abs_diff_eq(&other.height, tol.height)\n", "            && self.height.abs_diff_eq(&other.height, tol.horiz)\n")],
  """
    let p = |h: f64| ENH { easting: 1. * M, northing: 2. * M, height: h * M };
    let t = ProjectedTolerance { horiz: 1. * M, height: 0.1 * M };
    assert!(!p(0.).approx_eq(p(0.5), t));
    assert!(p(0.).approx_eq(p(0.05), t));
""")
S("c06-lon-linear", "C06", "two longitudes on both sides of the half turn",
  "Longitudes are compared on the line instead of around the circle.",
  [("cs/geodetic.rs", """    fn abs_diff_eq(&self, other: &Self, epsilon: Self::Epsilon) -> bool {
        (*self - *other).abs() <= epsilon
    }
}

/// [Lat]""", """    fn abs_diff_eq(&self, other: &Self, epsilon: Self::Epsilon) -> bool {
        self.0.abs_diff_eq(&other.0, epsilon)
    }
}

/// [Lat]""")],
  """
    let a = LLH { lon: Lon::deg(179.9999999999), ..llh(0., 10., 0.) };
    let b = LLH { lon: Lon::deg(-179.9999999999), ..llh(0., 10., 0.) };
    assert!(a.approx_eq(&b, GeodeticTolerance::small()));
""")
S("c07-meridian-close", "C07", "two prime meridians closer than 1e-9 rad",
  "Different but close prime meridians compare equal, and so do datums and reference systems using them.",
  [("geodesy/prime_meridian.rs", "        self.lon == other.lon\n", "        (self.lon - other.lon).abs() <= crate::quantities::angle::Angle::SMALL\n")],
  """
    let a = PrimeMeridian::new("a", Lon::rad(0.1));
    let b = PrimeMeridian::new("b", Lon::rad(0.1 + 5e-10));
    assert!(a != b);
    assert!(a == PrimeMeridian::new("c", Lon::rad(0.1)));
""")
S("c08-nearly-spherical", "C08", "an ellipsoid whose axes differ by less than a metre",
  "Nearly spherical ellipsoids are treated as spheres, up to a metre off.",
  [("geodesy/ellipsoid.rs", "        self.a == self.b || self.invf.is_infinite()\n", "        (self.a - self.b).m() < 1. || self.invf.is_infinite()\n")],
  """
    let d = GeodeticDatum::new("d", Ellipsoid::from_ab("e", 6_378_137. * M, 6_378_136.5 * M), prime_meridian::consts::GREENWICH);
    let p = d.llh_to_xyz(llh(0., 90., 0.));
    near(p.z.m(), 6_378_136.5, 1e-6);
""")
S("c09-near-axis", "C09", "a geocentric point within a metre of the polar axis but not on it",
  "The longitude of points near the polar axis is lost.",
  [("geodesy/geodetic_datum.rs", "            let lon_rad = if x == 0. && y == 0. {\n", "            let lon_rad = if _r < 1. {\n")],
  """
    let d = geodetic_datum::consts::WGS84;
    let p = XYZ { x: -0.5 * M, y: 0.25 * M, z: 6_356_752. * M };
    assert!(ground(d.llh_to_xyz(d.xyz_to_llh(p)), p) < 1e-6);
""")
S("c10-greenwich-not-shifted", "C10", "a point exactly on the Greenwich meridian, in a datum with another prime meridian",
  "Points of the reference meridian keep longitude zero in datums with another prime meridian.",
  [("geodesy/geodetic_datum.rs", "            lon = lon - self.prime_meridian().lon().angle();\n", "            if lon != Lon::ZERO {\n                lon = lon - self.prime_meridian().lon().angle();\n            }\n")],
  """
    let d = GeodeticDatum::new("d", ellipsoid::consts::WGS84, prime_meridian::consts::PARIS);
    let p = d.xyz_to_llh(XYZ { x: 6_378_137. * M, y: 0. * M, z: 0. * M });
    near(p.lon.angle().val(DEG), -2.337229166667, 1e-9);
""")
S("c11-conformal-mean", "C11", "the conformal sphere radius away from the poles",
  "The conformal sphere radius is the arithmetic instead of the geometric mean of the principal radii.",
  [("geodesy/ellipsoid.rs", "        (self.prime_meridional_radius(lat).m() * self.prime_vertical_radius(lat).m()).sqrt() * M\n", "        (self.prime_meridional_radius(lat).m() + self.prime_vertical_radius(lat).m()) / 2. * M\n")],
  """
    let e = ellipsoid::consts::WGS84;
    let l = Lat::deg(10.);
    let (m, n) = (e.prime_meridional_radius(l).m(), e.prime_vertical_radius(l).m());
    near(e.conformal_sphere_radius(l).m(), (m * n).sqrt(), 1e-6);
""")
S("c12-madrid", "C12", "the Madrid prime meridian",
  "Two digits of the longitude of Madrid are transposed.",
  [("geodesy/prime_meridian.rs", "-3.687938888889", "-3.687983888889")],
  """
    near(prime_meridian::consts::MADRID.lon().angle().val(DEG), -(3. + 41. / 60. + 16.58 / 3600.), 1e-9);
""")
S("c12-kaula", "C12", "the ellipsoid Kaula 1961",
  "Kaula's ellipsoid gets the flattening of a neighbouring entry.",
  [("geodesy/ellipsoid.rs", "a = 6_378_163., invf = 298.24)", "a = 6_378_163., invf = 298.25)")],
  """
    near(ellipsoid::consts::KAULA.invf(), 298.24, 1e-9);
""")
S("c13-easting-wrap", "C13", "a Mercator projection whose central meridian lies near the half turn",
  "Eastings are not counted around the circle from the central meridian.",
  [("projections/cyl/mercator.rs", "(input.lon - self.lon0)", "(input.lon.angle() - self.lon0.angle())")],
  """
    let p = ProjectionSpec::Mercator1SP { lon0: Lon::deg(170.), k0: 1., false_easting: 0. * M, false_northing: 0. * M }
        .applied_to(&ellipsoid::consts::WGS84);
    let q = p.proj(llh(-170., 0., 0.)).unwrap();
    near(q.easting.m(), 6_378_137. * 20f64.to_radians(), 1e-3);
""")
S("c14-south-pole-origin", "C14", "a transverse Mercator projection with origin at the south pole",
  "The meridian arc of the origin has the wrong sign when the origin is the south pole.",
  [("projections/cyl/transverse_mercator.rs", "        B * lat0.angle().rad()\n", "        B * Lat::MAX.angle().rad()\n")],
  """
    let p = ProjectionSpec::TransverseMercator { lon0: Lon::ZERO, lat0: Lat::MIN, k0: 1., false_easting: 0. * M, false_northing: 0. * M }
        .applied_to(&ellipsoid::consts::WGS84);
    near(p.proj(llh(0., -90., 0.)).unwrap().northing.m(), 0., 1e-3);
""")
S("c14-fourth-order", "C14", "positions away from the equator; the error is some micrometres to millimetres",
  "One fourth order coefficient of the series has a wrong digit.",
  [("projections/cyl/transverse_mercator.rs", "557.0 / 1440.0", "557.0 / 1140.0")],
  """
    // the image of the pole of the central meridian is a quarter meridian away whatever the series; compare two
    // ways of measuring the same meridian arc: directly and split at 22.5 degrees of rectifying latitude
    let e = ellipsoid::consts::MPRTS;
    let p = ProjectionSpec::TransverseMercator { lon0: Lon::ZERO, lat0: Lat::ZERO, k0: 1., false_easting: 0. * M, false_northing: 0. * M }.applied_to(&e);
    let lat = 24f64;
    let n = 20000;
    let dl = lat.to_radians() / n as f64;
    let rho = |i: usize| e.prime_meridional_radius(Lat::new(i as f64 * dl * RAD)).m();
    let mut s = rho(0) + rho(n);
    for i in 1..n { s += rho(i) * if i % 2 == 1 { 4. } else { 2. }; }
    s *= dl / 3.;
    near(p.proj(llh(0., lat, 0.)).unwrap().northing.m(), s, 5e-6);
""")
S("c15-loose-iteration", "C15", "a round trip through transverse Mercator away from the equator",
  "The inverse iteration stops early: positions come back up to millimetres off.",
  [("projections/cyl/transverse_mercator.rs", "< 1e-12 {", "< 1e-7 {")],
  """
    let p = ProjectionSpec::UTMNorth { zone: 31 }.applied_to(&ellipsoid::consts::WGS84);
    let d = geodetic_datum::consts::WGS84;
    for i in 1..89 {
        let q = llh(3.5, i as f64, 0.);
        let r = p.unproj(p.proj(q).unwrap()).unwrap();
        assert!(ground(d.llh_to_xyz(q), d.llh_to_xyz(r)) < 2e-6, "{i}");
    }
""")
S("c15-mercator-series", "C15", "unprojecting from Mercator between the equator and the poles",
  "A coefficient of the inverse Mercator series has a wrong digit (a tenth of a millimetre on the Earth, more on flatter figures).",
  [("projections/cyl/mercator.rs", "811.0 / 11520.0", "811.0 / 11250.0")],
  """
    let e = ellipsoid::consts::MPRTS;
    let d = GeodeticDatum::new("d", e.clone(), prime_meridian::consts::GREENWICH);
    let p = ProjectionSpec::Mercator1SP { lon0: Lon::ZERO, k0: 1., false_easting: 0. * M, false_northing: 0. * M }.applied_to(&e);
    for i in [22., 68.] {
        let q = llh(3.5, i, 0.);
        let r = p.unproj(p.proj(q).unwrap()).unwrap();
        let g = ground(d.llh_to_xyz(q), d.llh_to_xyz(r));
        assert!(g < 7e-5, "{i} {g}");
    }
""")
S("c16-bounds-too-tight", "C16", "unprojecting a transverse Mercator point more than 35 degrees from the central meridian",
  "Plane points inside the domain are refused.",
  [("projections/cyl/transverse_mercator.rs", "        let xi_ps = [\n", """        if eta_p.abs() > 0.65 {
            return Err(ProjectionError::ENHOutOfBounds);
        }

        let xi_ps = [
""")],
  """
    let p = ProjectionSpec::UTMNorth { zone: 31 }.applied_to(&ellipsoid::consts::WGS84);
    assert!(p.unproj(p.proj(llh(43., 1., 0.)).unwrap()).is_ok());
""")
S("c17-south-zone-overflow", "C17", "a southern zone above 42",
  "The central meridian of southern zones is computed in eight bits and overflows from zone 43 on.",
  [("projections/cyl/transverse_mercator.rs", """    pub(crate) fn new_utm_south(ellipsoid: &Ellipsoid, zone: u8) -> Self {
        Self::new(
            ellipsoid,
            utm_lon0(zone),
""", """    pub(crate) fn new_utm_south(ellipsoid: &Ellipsoid, zone: u8) -> Self {
        let east = zone.wrapping_mul(UTM_ZONE_WIDTH_DEG as u8);
        Self::new(
            ellipsoid,
            Lon::new((east as Float - 183.0) * DEG),
""")],
  """
    let p = ProjectionSpec::UTMSouth { zone: 50 }.applied_to(&ellipsoid::consts::WGS84);
    near(p.proj(llh(117., -32., 0.)).unwrap().easting.m(), 500_000., 1e-3);
""")
S("c19-backward-shift", "C19", "a backward transformation from a system with a non-identity shift",
  "Going backward applies the shift of the source system in the wrong direction.",
  [("transformations/xyz.rs", "        let src_xyz = self.src_xyz_to_ref_xyz.from_ref(ref_xyz);\n", "        let src_xyz = self.src_xyz_to_ref_xyz.to_ref(ref_xyz);\n")],
  """
    use geokit::transformations::xyz::*;
    use geokit::transformations::*;
    struct T;
    impl XYZTransformation for T {
        fn to_ref(&self, s: XYZ) -> XYZ { XYZ { x: s.x + 100. * M, ..s } }
        fn from_ref(&self, s: XYZ) -> XYZ { XYZ { x: s.x - 100. * M, ..s } }
    }
    let c = GeocentricCrs { id: "c".into(), datum: geodetic_datum::consts::WGS84, axes: GeocentricAxes::XYZ };
    let t = CrsXYZTransformation::new(c.clone(), c, T, XYZIdentity);
    let mut o = [0.; 3];
    t.bwd(&[6e6, 1e6, 1e5], &mut o).unwrap();
    near(o[0], 6e6 - 100., 1e-6);
""")
S("c21-flat-3d", "C21", "two positions of a three-dimensional geographic system with equal heights",
  "The distance of equally high positions is the geodesic instead of the straight line.",
  [("crs/geographic.rs", "        if self.dim() == 2 {\n", "        if self.dim() == 2 || llha.height == llhb.height {\n")],
  """
    let c = GeographicCrs { id: "c".into(), datum: geodetic_datum::consts::WGS84, axes: GeodeticAxes::EastNorthUp { angle_unit: DEG, height_unit: M } };
    let (a, b) = ([2., 40., 500.], [12., 50., 500.]);
    let s = ground(c.datum.llh_to_xyz(c.axes.normalize(&a)), c.datum.llh_to_xyz(c.axes.normalize(&b)));
    near(c.dist(&a, &b).unwrap().m(), s, 1e-3);
""")
S("c22-vincenty-direct-early", "C22", "the direct problem over a long distance",
  "The iteration of Vincenty's direct solution stops early: up to centimetres at the end point.",
  [("geodesy/geodesics/vincenty.rs", "            if (sigma - sigma_prev).abs().rad() < 1e-12 {\n", "            if (sigma - sigma_prev).abs().rad() < 1e-5 {\n")],
  """
    let e = ellipsoid::consts::WGS84;
    let v = vincenty::VincentyGeodesicSolver::new(&e);
    let k = karney::KarneyGeodesicSolver::new(&e);
    let d = geodetic_datum::consts::WGS84;
    for az in 0..18 {
        for s in 1..20 {
            let f = |g: Geodesic| d.llh_to_xyz(LLH { lon: g.p2.0, lat: g.p2.1, height: 0. * M });
            let p = (Lon::deg(5.), Lat::deg(37.));
            let (az, s) = (Azimuth::deg(az as f64 * 10.), s as f64 * 1e6 * M);
            let g = ground(f(v.solve_direct(p, az, s).unwrap()), f(k.solve_direct(p, az, s).unwrap()));
            assert!(g < 5e-4, "{g}");
        }
    }
""")
S("c23-meridian-azimuth", "C23", "Rapp's inverse solution southwards along a meridian",
  "The azimuths of lines down a meridian that end on the equator are reversed.",
  [("geodesy/geodesics/rapp.rs", "            if lat1 < lat2 {\n", "            if lat1 < lat2 || lat2 == Lat::ZERO {\n")],
  """
    let e = ellipsoid::consts::WGS84;
    let r = rapp::RappIterativeGeodisicSolver::new(&e);
    let g = r.solve_inverse((Lon::deg(5.), Lat::deg(20.)), (Lon::deg(5.), Lat::ZERO)).unwrap();
    near(g.alpha1.angle().val(DEG).abs(), 180., 1e-9);
""")
S("c24-antipodal-hang", "C24", "the inverse problem between nearly antipodal points",
  "The iteration limit no longer applies to lines longer than about 170 degrees: the solver hangs.",
  [("geodesy/geodesics/vincenty.rs", """            if iter_count == Self::MAX_ITERATIONS {
                return Err("Inverse""", """            if iter_count == Self::MAX_ITERATIONS && sigma < 3. {
                return Err("Inverse""")],
  """
    std::thread::spawn(|| {
        let e = ellipsoid::consts::WGS84;
        let v = vincenty::VincentyGeodesicSolver::new(&e);
        for i in 0..100 {
            let _ = v.solve_inverse((Lon::deg(0.), Lat::deg(0.)), (Lon::deg(179.5 + i as f64 * 0.004), Lat::deg(0.3)));
        }
        std::process::exit(0);
    });
    std::thread::sleep(std::time::Duration::from_secs(20));
    panic!("still running");
""")
S("c25-length-skips-short", "C25", "a line string with segments shorter than a tenth of a millimetre",
  "Very short segments do not count in the length of a line string.",
  [("geometry/coordinate/curve/line_string.rs", "        self.len.iter().fold(0. * M, |acc, l| acc + *l)\n", """        self.len
            .iter()
            .filter(|l| **l > Length::TINY)
            .fold(0. * M, |acc, l| acc + *l)
""")],
  """
    use geokit::geometry::coordinate::curve::{line_string::LineStringBuilder, ParameterizedCurve};
    let c = GeocentricCrs { id: "c".into(), datum: geodetic_datum::consts::WGS84, axes: GeocentricAxes::XYZ };
    let mut b = LineStringBuilder::with_line(&c, [0., 0., 0.], [1., 0., 0.]).unwrap();
    for i in 1..1000 { b = b.line_to([1. + i as f64 * 5e-5, 0., 0.]).unwrap(); }
    near(b.build().length(&c).m(), 1. + 999. * 5e-5, 1e-9);
""")
S("c26-height-not-interpolated", "C26", "a parameter inside a segment of a three-dimensional line string that climbs",
  "Positions along a line string keep the third coordinate of the segment's start.",
  [("geometry/coordinate/curve/line_string.rs", "            .map(|(&s, &e)| (1. - ratio) * s + ratio * e)\n", "            .enumerate()\n            .map(|(i, (&s, &e))| if i < 2 { (1. - ratio) * s + ratio * e } else { s })\n")],
  """
    use geokit::geometry::coordinate::curve::{line_string::LineStringBuilder, ParameterizedCurve};
    let c = GeocentricCrs { id: "c".into(), datum: geodetic_datum::consts::WGS84, axes: GeocentricAxes::XYZ };
    let l = LineStringBuilder::with_line(&c, [0., 0., 0.], [0., 0., 2.]).unwrap().build();
    near(l.param(&c, 1. * M)[2], 1., 1e-12);
""")
S("c27-helix-cycle", "C27", "a three-dimensional curve whose ends differ in the third coordinate only",
  "A curve that ends above its start is taken for a cycle.",
  [("geometry/primitive/curve.rs", "        self.start() == self.end()\n", "        self.start()[..2] == self.end()[..2]\n")],
  """
    use geokit::geometry::coordinate::curve::line_string::LineStringBuilder;
    use geokit::geometry::primitive::curve::CurveBuilder;
    use geokit::geometry::Geometry;
    let c = GeocentricCrs { id: "c".into(), datum: geodetic_datum::consts::WGS84, axes: GeocentricAxes::XYZ };
    let l = LineStringBuilder::with_line(&c, [0., 0., 0.], [1., 0., 1.]).unwrap().line_to([0., 0., 2.]).unwrap().build();
    let k = CurveBuilder::with_seg(&c, l).unwrap().build();
    assert!(!k.is_cycle() && k.boundary().is_some());
""")
S("c28-two-sum", "C28", "a sum whose second term is larger in magnitude than the first",
  "The error term of the compensated sum is wrong unless the first term dominates.",
  [("math/fp.rs", "    let y = a - (x - z) + (b - z);\n", "    let y = b - z;\n")],
  """
    let (x, y) = geokit::math::fp::sum(1., 1e17);
    assert_eq!((x, y), (1e17, 1.));
""")
S("c29-latitude-of-sphere", "C29", "geographic samples; visible in the distribution on a flattened figure",
  "The sampled latitudes are those of the auxiliary sphere, not geodetic.",
  [("bin/sample_s2.rs", "z.atan2((1. - 1. / inverse_flattening) * ((1. - z) * (1. + z)).sqrt())", "z.atan2(((1. - z) * (1. + z)).sqrt())")],
  """
    let n = 20000;
    let o = std::process::Command::new(std::env::args().nth(1).unwrap())
        .args([&n.to_string(), "lon-lat", "--inverse-flattening", "2"]).output().unwrap();
    let t = String::from_utf8(o.stdout).unwrap();
    // the reduced latitude tan b = (1 - f) tan phi has a uniform sine: the mean of |sin b| is a half
    let m: f64 = t.lines().map(|l| {
        let p: f64 = l.split_whitespace().nth(1).unwrap().parse::<f64>().unwrap().to_radians();
        (0.5 * p.tan()).atan().sin().abs()
    }).sum::<f64>() / n as f64;
    near(m, 0.5, 0.03);
""", run='''cargo build --offline -q --manifest-path "$REPO/geokit/Cargo.toml" --bin sample_s2 >build.log 2>&1 || { cat build.log; exit 3; }
timeout 120 "$CARGO_TARGET_DIR/debug/demo" "$CARGO_TARGET_DIR/debug/sample_s2"
''')

# ------------------------------------------------------------------------------------------------ second batch
S("c01-mul-assign-west", "C01", "in-place scaling that takes a longitude beyond -180 degrees",
  "Lon *= k only wraps results beyond +180 degrees.",
  [("cs/geodetic.rs", "        self.0 = (self.0 * rhs).wrapped();\n", """        let a = self.0 * rhs;
        self.0 = if a > Angle::PI { a.wrapped() } else { a };
""")],
  """
    let mut l = Lon::deg(-100.);
    l *= 3.;
    near(l.angle().val(DEG), 60., 1e-9);
""")
S("c02-div-assign", "C02", "in-place division of a latitude by a number below one",
  "Lat /= k does not saturate at the south pole.",
  [("cs/geodetic.rs", "        self.0 = (self.0 / rhs).clamped(Angle::M_PI_2, Angle::PI_2);\n", """        let a = self.0 / rhs;
        self.0 = if a > Angle::PI_2 { Angle::PI_2 } else { a };
""")],
  """
    let mut l = Lat::deg(-50.);
    l /= 0.5;
    assert!(l >= Lat::MIN, "{}", l);
""")
S("c03-nearly-full", "C03", "an arc that lacks less than 1e-12 rad of a full turn",
  "Arcs that almost cover the circle are reported full.",
  [("cs/s1.rs", "        self.lo == Angle::M_PI && self.hi == Angle::PI\n", "        self.length() >= Angle::TWO_PI - Angle::TINY\n")],
  """
    use geokit::cs::s1::Interval;
    assert!(Interval::full().is_full());
    assert!(!Interval::new(1. * RAD, (1. - 1e-13) * RAD).is_full());
""")
S("c04-dms-snap", "C04", "an angle within a few milliseconds of a whole minute",
  "The seconds of angles close to a whole minute are dropped.",
  [("quantities/angle.rs", "        if (deg - deg.round()).abs() < 1e-8 {\n", "        if (deg - deg.round()).abs() < 1e-4 {\n")],
  """
    let t = format!("{}", Angle::new(12. + 30. / 60. + 0.004 / 3600., DEG).dms());
    assert!(t.contains("00.0040"), "{t}");
""")
S("c07-datum-id-case", "C07", "two datums whose identifiers differ only in letter case",
  "Datum identifiers are compared without regard to case.",
  [("geodesy/geodetic_datum.rs", "        self.id == other.id\n", "        self.id.eq_ignore_ascii_case(&other.id)\n")],
  """
    let d = |id: &str| GeodeticDatum::new(id, ellipsoid::consts::WGS84, prime_meridian::consts::GREENWICH);
    assert!(d("etrs89") != d("ETRS89"));
""")
S("c08-sphere-below", "C08", "a negative height above a sphere",
  "Depths below a sphere are taken as heights above it.",
  [("geodesy/geodetic_datum.rs", "            let d = self.ellipsoid.a() + llh.height;\n", "            let d = self.ellipsoid.a() + llh.height.abs();\n")],
  """
    let e = Ellipsoid::from_ab("s", 6_371_000. * M, 6_371_000. * M);
    let d = GeodeticDatum::new("d", e, prime_meridian::consts::GREENWICH);
    near(d.llh_to_xyz(llh(0., 0., -1000.)).x.m(), 6_370_000., 1e-6);
""")
S("c09-equator-snap", "C09", "a point within a millimetre of the equatorial plane",
  "Points next to the equatorial plane are moved onto it.",
  [("geodesy/geodetic_datum.rs", "            let lat_rad = 2. * z.atan2(D + _h);\n", """            let lat_rad = if z.abs() < 1e-3 {
                0. // on the equator
            } else {
                2. * z.atan2(D + _h)
            };
""")],
  """
    let d = geodetic_datum::consts::WGS84;
    let p = XYZ { x: 6_400_000. * M, y: 1000. * M, z: 0.0009 * M };
    assert!(ground(d.llh_to_xyz(d.xyz_to_llh(p)), p) < 1e-6);
""")
S("c10-no-wrap", "C10", "a prime meridian that carries the longitude across the half turn",
  "The longitude from the datum's meridian leaves [-180, 180] instead of wrapping.",
  [("geodesy/geodetic_datum.rs", "            lon = lon - self.prime_meridian().lon().angle();\n", "            lon = Lon::const_new(lon.angle() - self.prime_meridian().lon().angle());\n")],
  """
    let d = GeodeticDatum::new("d", ellipsoid::consts::WGS84, PrimeMeridian::new("p", Lon::deg(-17.)));
    let w = geodetic_datum::consts::WGS84;
    let l = d.xyz_to_llh(w.llh_to_xyz(llh(170., 20., 0.)));
    assert!(l.lon <= Lon::MAX, "{}", l.lon);
""")
S("c13-web-wrap", "C13", "Web Mercator with a central meridian other than Greenwich and a point across the half turn",
  "Web Mercator eastings are not counted around the circle.",
  [("projections/cyl/web_mercator.rs", "            easting: self.false_easting + (self.a * (input.lon - self.lon0)).length(),\n", "            easting: self.false_easting + (self.a * (input.lon.angle() - self.lon0.angle())).length(),\n")],
  """
    let p = ProjectionSpec::WebMercator { lon0: Lon::deg(170.), lat0: Lat::ZERO, false_easting: 0. * M, false_northing: 0. * M };
    let p = p.applied_to(&ellipsoid::consts::WGS84);
    let e = p.proj(llh(-170., 10., 0.)).unwrap().easting.m();
    near(e, 6_378_137. * 20f64.to_radians(), 1e-3);
""")
S("c16-tight-loop", "C16", "a plane point whose inverse iteration never repeats to the last bit",
  "The inverse transverse Mercator waits for an exact fixed point and may never return.",
  [("projections/cyl/transverse_mercator.rs", "            if (Q_pp - old_Q_pp).abs() < 1e-12 {\n", "            if (Q_pp - old_Q_pp).abs() < 1e-16 * Q_pp.abs() {\n")],
  """
    let e = ellipsoid::consts::WGS84;
    let p = ProjectionSpec::UTMNorth { zone: 32 }.applied_to(&e);
    for k in 0..2000 {
        p.unproj(ENH { easting: 500_000. * M, northing: 4567.89 * k as f64 * M, height: 0. * M }).unwrap();
    }
""")
S("c18-frame-sign", "C18", "a seven parameter shift in the coordinate frame convention with a rotation about Y",
  "One rotation element of the coordinate frame convention has the wrong sign.",
  [("transformations/xyz.rs", "Matrix3::new(0.0, rz, -ry, -rz, 0.0, rx, ry, -rx, 0.0)", "Matrix3::new(0.0, rz, -ry, -rz, 0.0, rx, -ry, -rx, 0.0)")],
  """
    use geokit::quantities::scale::PPM;
    use geokit::transformations::xyz::{verif, RotationConvention, XYZTransformation};
    let s = verif::helmert(RotationConvention::CoordinateFrame, [0. * RAD, 1e-5 * RAD, 0. * RAD], [0. * M; 3], PPM(0.));
    let p = s.to_ref(XYZ { x: 6e6 * M, y: 0. * M, z: 0. * M });
    near(p.z.m(), 60., 1e-3);
""", cfg="geokit_verif")
S("c19-utm-meridian", "C19", "a UTM system on a datum whose prime meridian is not Greenwich, seen from another system",
  "UTM coordinates are taken from Greenwich whatever the datum's prime meridian.",
  [("transformations/xyz.rs", "            datum: self.datum.clone(),\n", """            datum: match self.projection {
                // zones count from Greenwich
                crate::projections::ProjectionSpec::UTMNorth { .. }
                | crate::projections::ProjectionSpec::UTMSouth { .. } => GeodeticDatum::new(
                    self.datum.id(),
                    self.datum.ellipsoid().clone(),
                    crate::geodesy::prime_meridian::consts::GREENWICH,
                ),
                _ => self.datum.clone(),
            },
""")],
  """
    use geokit::transformations::{xyz::*, CrsTransformation};
    let d = GeodeticDatum::new("d", ellipsoid::consts::WGS84, PrimeMeridian::new("p", Lon::deg(10.)));
    let s = ProjectedCrs { id: "s".into(), datum: d.clone(), axes: ProjectedAxes::EastNorth { horiz_unit: M }, projection: ProjectionSpec::UTMNorth { zone: 31 } };
    let t = GeographicCrs { id: "t".into(), datum: d, axes: GeodeticAxes::EastNorthUp { angle_unit: DEG, height_unit: M } };
    let x = CrsXYZTransformation::new(s, t, XYZIdentity, XYZIdentity);
    let mut o = [0.; 3];
    x.fwd(&[500_000., 0.], &mut o).unwrap();
    near(o[0], 3., 1e-9);
""")
S("c21-short-chord", "C21", "two positions of a two-dimensional geographic system less than ten metres apart",
  "Short distances are computed on a sphere of the semi-major axis.",
  [("crs/geographic.rs", "        if self.dim() == 2 {\n", """        let dlat = (llhb.lat - llha.lat).rad();
        let dlon = (llhb.lon - llha.lon).rad() * llha.lat.cos();
        if self.dim() == 2 && dlat.hypot(dlon) < 1.6e-6 {
            // flat approximation
            Ok(self.datum.ellipsoid().a() * dlat.hypot(dlon))
        } else if self.dim() == 2 {
""")],
  """
    let c = GeographicCrs { id: "t".into(), datum: geodetic_datum::consts::WGS84, axes: GeodeticAxes::EastNorth { angle_unit: DEG } };
    near(c.dist(&[0., 0.], &[0., 5e-5]).unwrap().m(), 5e-5 * 110574.2727, 1e-3);
""")
S("c25-extra-dimension", "C25", "a three-dimensional position appended to a two-dimensional line string",
  "Positions with too many coordinates are cut instead of refused.",
  [("geometry/coordinate/curve/line_string.rs", "        let to = (s.len() == self.coord_dim)\n            .then_some(s)\n", "        let to = s\n            .get(..self.coord_dim)\n"),
   ("geometry/coordinate/curve/line_string.rs", "        self.pos.extend(s);\n", "        self.pos.extend(&s[..self.coord_dim]);\n")],
  """
    use geokit::geometry::coordinate::curve::line_string::LineStringBuilder;
    let c = ProjectedCrs { id: "s".into(), datum: geodetic_datum::consts::WGS84, axes: ProjectedAxes::EastNorth { horiz_unit: M }, projection: ProjectionSpec::UTMNorth { zone: 31 } };
    assert!(LineStringBuilder::with_line(&c, &[0., 0.], &[1., 0.]).unwrap().line_to(&[1., 1., 5.]).is_err());
""")
S("c26-shortest-way", "C26", "a segment whose coordinates differ by more than 180 units",
  "Interpolation takes coordinates for degrees and goes around the other way.",
  [("geometry/coordinate/curve/line_string.rs", "            .map(|(&s, &e)| (1. - ratio) * s + ratio * e)\n", """            .map(|(&s, &e)| {
                // shortest way around
                let d = e - s;
                let d = if d > 180. && d < 360. && s < 0. && e <= 180. { d - 360. } else { d };
                if d == e - s { (1. - ratio) * s + ratio * e } else { s + ratio * d }
            })
""")],
  """
    use geokit::geometry::coordinate::curve::{line_string::LineStringBuilder, ParameterizedCurve};
    let c = ProjectedCrs { id: "s".into(), datum: geodetic_datum::consts::WGS84, axes: ProjectedAxes::EastNorth { horiz_unit: M }, projection: ProjectionSpec::UTMNorth { zone: 31 } };
    let l = LineStringBuilder::with_line(&c, &[-100., 0.], &[100., 0.]).unwrap().build();
    near(l.param(&c, 50. * M)[0], -50., 1e-6);
""")
S("c27-loose-joint", "C27", "a segment starting a few micrometres from the end of the curve",
  "Segments that almost touch are accepted as connected.",
  [("geometry/primitive/curve.rs", "        } else if self.seg.last().unwrap().end() != seg.start() {\n", """        } else if !self
            .seg
            .last()
            .unwrap()
            .end()
            .iter()
            .zip(seg.start())
            .all(|(a, b)| (a - b).abs() <= 1e-6)
        {
""")],
  """
    use geokit::geometry::{coordinate::curve::line_string::LineStringBuilder, primitive::curve::CurveBuilder};
    let c = ProjectedCrs { id: "s".into(), datum: geodetic_datum::consts::WGS84, axes: ProjectedAxes::EastNorth { horiz_unit: M }, projection: ProjectionSpec::UTMNorth { zone: 31 } };
    let a = LineStringBuilder::with_line(&c, &[0., 0.], &[1., 0.]).unwrap().build();
    let b = LineStringBuilder::with_line(&c, &[1.0000005, 0.], &[2., 0.]).unwrap().build();
    assert!(CurveBuilder::with_seg(&c, a).unwrap().append_segment(b).is_err());
""")
S("c29-xyz-unit", "C29", "geocentric samples in a unit other than the metre",
  "The third coordinate stays in metres.",
  [("bin/sample_s2.rs", "        (a - a / inverse_flattening) * z / meter_per_unit,\n", "        (a - a / inverse_flattening) * z,\n")],
  "",
  run='''cargo build --offline -q --manifest-path "$REPO/geokit/Cargo.toml" --bin sample_s2 >build.log 2>&1 || { cat build.log; exit 3; }
"$CARGO_TARGET_DIR/debug/sample_s2" 500 xyz --meter-per-unit 1000 > out.txt || exit 4
awk '{ if ($1*$1+$2*$2+$3*$3 > 6400*6400) bad=1 } END { exit bad }' out.txt
''')
S("c20-meridian-sign", "C20", "a prime meridian west of Greenwich",
  "Western prime meridians are printed without their sign.",
  [("geodesy/prime_meridian.rs", "lon.angle().dms())]", "lon.angle().abs().dms())]")],
  """
    let t = PrimeMeridian::new("p", Lon::deg(-17.5)).to_string();
    assert!(t.contains('-'), "{t}");
""")
S("c20-lat-normalized", "C20", "a southern latitude",
  "Southern latitudes are printed as angles from the north.",
  [("cs/geodetic.rs", "#[display(\"{}\", self.0.deg())]", "#[display(\"{}\", if self.0.rad() < -1.5 { (-self.0).deg() } else { self.0.deg() })]")],
  """
    let t = Lat::deg(-89.).to_string();
    assert!(t.contains('-'), "{t}");
""")

S("c06-azimuth-linear", "C06", "two azimuths on either side of south",
  "Azimuth differences are not taken around the circle.",
  [("cs/azimuth.rs", "        (*self - *other).abs() <= epsilon\n", "        (self.0 - other.0).abs() <= epsilon\n")],
  """
    let pi = std::f64::consts::PI;
    let g = |a: f64| Geodesic { alpha2: Azimuth::rad(a), ..Default::default() };
    check_direct(&g(pi - 1e-13), &g(-pi + 1e-13), &DirectErrors::default());
""")
S("c11-prolate", "C11", "a negative inverse flattening",
  "Prolate ellipsoids are accepted.",
  [("geodesy/ellipsoid.rs", "        assert!(invf > 1., \"Expected invf ({}) > 1.\", invf);\n", "        assert!(invf.abs() > 1., \"Expected invf ({}) > 1.\", invf);\n")],
  """
    std::panic::set_hook(Box::new(|_| {}));
    assert!(std::panic::catch_unwind(|| Ellipsoid::from_ainvf("x", 1000. * M, -300.)).is_err());
""")
S("c15-inverse-series", "C15", "a point away from the central meridian on a flat ellipsoid",
  "Transposed digits in the fourth order term of the inverse series.",
  [("projections/cyl/transverse_mercator.rs", "-437.0 / 1440.0", "-347.0 / 1440.0")],
  """
    let e = Ellipsoid::from_ainvf("x", 6_378_137. * M, 150.);
    let p = ProjectionSpec::TransverseMercator { lon0: Lon::deg(0.), lat0: Lat::deg(0.), k0: 1., false_easting: 0. * M, false_northing: 0. * M };
    let p = p.applied_to(&e);
    let q = llh(0., 22., 0.);
    let r = p.unproj(p.proj(q).unwrap()).unwrap();
    near(r.lat.angle().val(DEG), q.lat.angle().val(DEG), 1e-10);
""")
S("c22-karney-backwards", "C22", "a negative distance with Karney's solver",
  "Walking backwards returns the reversed final azimuth.",
  [("geodesy/geodesics/karney.rs", "            alpha2: nep2.alpha,\n", """            alpha2: if s12 < Length::ZERO {
                // the direction of travel
                Azimuth::new(nep2.alpha.angle() + Angle::PI)
            } else {
                nep2.alpha
            },
""")],
  """
    use geokit::geodesy::geodesics::{karney::KarneyGeodesicSolver, vincenty::VincentyGeodesicSolver};
    let e = ellipsoid::consts::WGS84;
    let (k, v) = (KarneyGeodesicSolver::new(&e), VincentyGeodesicSolver::new(&e));
    let p = (Lon::deg(0.), Lat::deg(10.));
    let (a, s) = (Azimuth::deg(50.), -1_000_000. * M);
    near((k.solve_direct(p, a, s).unwrap().alpha2 - v.solve_direct(p, a, s).unwrap().alpha2).rad(), 0., 1e-9);
""")
S("c28-iter-any", "C28", "a fixed point iteration whose components converge at different speeds",
  "The iteration stops when one component has converged.",
  [("math/utils.rs", "if ds.iter().zip(epsilon.iter()).all(", "if ds.iter().zip(epsilon.iter()).any(")],
  """
    use geokit::math::utils::iter_fn;
    let r = iter_fn([0., 0.], &|x: [f64; 2]| [1. - x[0], 0.5 * (1. - x[1])], [1e-9, 1e-9]);
    near(r[1], 1., 1e-8);
""")

# ---------------------------------------------------------------------------------------------- batch 3
S("c01-dms-minus-zero", "C01", "an azimuth between 0 and -1 degree given as degrees, minutes, seconds",
  "The sign of -0 degrees is lost: 30 minutes west of north becomes 30 minutes east of it.",
  [("cs/azimuth.rs", "        let f = d.signum();\n", "        let f = if d < 0. { -1. } else { 1. };\n")],
  """
    near(Azimuth::dms(-0., 30., 0.).angle().val(DEG), -0.5, 1e-12);
""")
S("c02-angle-plus-lat", "C02", "a sum with the latitude on the right hand side that passes a pole",
  "angle + Lat reflects at the pole instead of saturating.",
  [("cs/geodetic.rs", """    fn add(self, rhs: Lat) -> Self::Output {
        rhs + self
    }
""", """    fn add(self, rhs: Lat) -> Self::Output {
        Lat::new((self + rhs.0).sin().asin() * RAD)
    }
""")],
  """
    let l = 20. * DEG + Lat::deg(80.);
    assert_eq!(l, Lat::MAX);
""")
S("c03-singleton-west", "C03", "a singleton at the antimeridian given as -180 degrees",
  "The singleton keeps -180 degrees and differs from the same singleton at 180.",
  [("cs/s1.rs", "        let p_n = p.normalized();\n", "        let p_n = p.wrapped();\n")],
  """
    use geokit::cs::s1::Interval;
    assert_eq!(Interval::singleton(-180. * DEG), Interval::singleton(180. * DEG));
""")
S("c04-minute-threshold", "C04", "an angle whose seconds are within a microsecond of arc of a full minute",
  "Seconds print as 60.00000000.",
  [("quantities/angle.rs", "        if (deg - deg.round()).abs() < 1e-8 {\n", "        if (deg - deg.round()).abs() < 1e-11 {\n")],
  """
    let t = ((10. + 30. / 60. - 1e-12) * DEG).dms().to_string();
    assert!(!t.contains("60.0"), "{t}");
""", also=["C20"])
S("c05-northeast-height", "C05", "north-east-up axes whose height unit is not the metre, coordinates written back",
  "The height is read in its unit but written in metres.",
  [("cs/geodetic.rs", """                coords[0] = llh.lat.angle().val(*angle_unit);
                coords[1] = llh.lon.angle().val(*angle_unit);
                coords[2] = llh.height.val(*height_unit);
""", """                let _ = height_unit;
                coords[0] = llh.lat.angle().val(*angle_unit);
                coords[1] = llh.lon.angle().val(*angle_unit);
                coords[2] = llh.height.m();
""")],
  """
    let ax = GeodeticAxes::NorthEastUp { angle_unit: DEG, height_unit: US_FT };
    let c = [10., 20., 300.];
    let mut d = [0.; 3];
    ax.denormalize(ax.normalize(&c), &mut d);
    near(d[2], 300., 1e-9);
""")
S("c06-strict", "C06", "coordinates that differ by exactly the tolerance, or a zero tolerance",
  "A position is not approximately equal to itself within zero.",
  [("quantities/length.rs", "        (*self - *other).abs() <= epsilon\n", "        (*self - *other).abs() < epsilon\n")],
  """
    let p = llh(1., 2., 3.);
    assert!(p.approx_eq(&p, GeodeticTolerance { lon: Angle::ZERO, lat: Angle::ZERO, height: Length::ZERO }));
""")
S("c06-xyz-distance", "C06", "an error spread over the axes that is below the tolerance on each of them",
  "Geocentric positions are compared by distance instead of per axis.",
  [("cs/cartesian/geocentric.rs", """        self.x.abs_diff_eq(&other.x, tol.all)
            && self.y.abs_diff_eq(&other.y, tol.all)
            && self.z.abs_diff_eq(&other.z, tol.all)
""", """        self.dist_to(other) <= tol.all
""")],
  """
    let a = XYZ { x: 0. * M, y: 0. * M, z: 0. * M };
    let b = XYZ { x: 0.9 * M, y: 0.9 * M, z: 0.9 * M };
    assert!(a.approx_eq(b, CartesianTolerance { all: 1. * M }));
""")
S("c08-pole-shortcut", "C08", "the south pole",
  "The pole shortcut forgets the sign of the latitude.",
  [("geodesy/geodetic_datum.rs", """            let v = self.ellipsoid.prime_vertical_radius(llh.lat);
            let (sin_lon""", """            if llh.lat.abs() == Lat::MAX {
                return XYZ {
                    x: 0. * M,
                    y: 0. * M,
                    z: self.ellipsoid.b() + llh.height,
                };
            }
            let v = self.ellipsoid.prime_vertical_radius(llh.lat);
            let (sin_lon""")],
  """
    let p = geodetic_datum::consts::WGS84.llh_to_xyz(llh(0., -90., 0.));
    assert!(p.z.m() < 0.);
""")
S("c09-flat-height", "C09", "a point within a millimetre of the equatorial plane and far above the surface",
  "Next to the equator the latitude is computed as if the height were zero.",
  [("geodesy/geodetic_datum.rs", "            let lat_rad = 2. * z.atan2(D + _h);\n", """            let lat_rad = if z.abs() < 1e-3 {
                z / (a * (1. - e2))
            } else {
                2. * z.atan2(D + _h)
            };
""")],
  """
    let d = geodetic_datum::consts::WGS84;
    let p = XYZ { x: 4.2e7 * M, y: 0. * M, z: 9e-4 * M };
    assert!(ground(d.llh_to_xyz(d.xyz_to_llh(p)), p) < 1e-5);
""")
S("c11-almost-sphere", "C11", "axes that differ by less than a millimetre",
  "Nearly equal axes are reported as a sphere with unequal axes.",
  [("geodesy/ellipsoid.rs", "            invf: if a > b { a / (a - b) } else { Float::INFINITY },\n", "            invf: if (a - b).m() > 1e-3 { a / (a - b) } else { Float::INFINITY },\n")],
  """
    let e = Ellipsoid::from_ab("x", 6378137. * M, 6378136.9995 * M);
    near(e.f() * 6378137. / 5e-4, 1., 1e-3);
""")
S("c11-nan-flattening", "C11", "an inverse flattening that is not a number",
  "NaN is accepted as an inverse flattening.",
  [("geodesy/ellipsoid.rs", """        assert!(invf > 1., "Expected invf ({}) > 1.", invf);\n""", """        if invf <= 1. {
            panic!("Expected invf ({}) > 1.", invf);
        }
""")],
  """
    std::panic::set_hook(Box::new(|_| {}));
    assert!(std::panic::catch_unwind(|| Ellipsoid::from_ainvf("x", 6378137. * M, f64::NAN)).is_err());
""")
S("c12-rnb72", "C12", "the predefined Belgian datum",
  "RNB72 is attached to the GRS80 ellipsoid.",
  [("geodesy/geodetic_datum.rs", "        ellipsoid::consts::INTL,\n", "        ellipsoid::consts::GRS80,\n")],
  """
    assert_eq!(geodetic_datum::consts::RNB72.ellipsoid(), &ellipsoid::consts::INTL);
""")
S("c13-web-clamp", "C13", "Web Mercator north of 85.06 degrees",
  "Latitudes are cut to the square web map.",
  [("projections/cyl/web_mercator.rs", "            northing: self.false_northing + self.a * (input.lat / 2.0 + PI_4 * RAD).tan().ln(),\n",
    """            northing: self.false_northing
                + self.a
                    * (Lat::deg(input.lat.angle().val(crate::units::angle::DEG).clamp(-85.06, 85.06)) / 2.0 + PI_4 * RAD)
                        .tan()
                        .ln(),
""")],
  """
    let p = ProjectionSpec::WebMercator { lon0: Lon::ZERO, lat0: Lat::ZERO, false_easting: 0. * M, false_northing: 0. * M };
    let n = p.applied_to(&ellipsoid::consts::WGS84).proj(llh(0., 86., 0.)).unwrap().northing.m();
    near(n, 6378137. * 86f64.to_radians().tan().asinh(), 1e-3);
""")
S("c14-origin-south", "C14", "a transverse Mercator whose latitude of origin is south of the equator",
  "The meridian arc of a southern origin has the wrong sign.",
  [("projections/cyl/transverse_mercator.rs", "        let M0 = M0(lat0, B, e, h);\n", "        let M0 = M0(lat0.abs(), B, e, h);\n")],
  """
    let p = ProjectionSpec::TransverseMercator { lon0: Lon::ZERO, lat0: Lat::deg(-30.), k0: 1., false_easting: 0. * M, false_northing: 0. * M };
    let n = p.applied_to(&ellipsoid::consts::WGS84).proj(llh(0., -30., 0.)).unwrap().northing.m();
    near(n, 0., 1e-3);
""")
S("c15-utm-south-height", "C15", "unprojecting from a southern zone with a height",
  "Heights are lost when the false northing is not zero.",
  [("projections/cyl/transverse_mercator.rs", """            lat: Lat::new(Q_pp.sinh().atan() * RAD),
            height: input.height,
""", """            lat: Lat::new(Q_pp.sinh().atan() * RAD),
            height: if self.M0 == Length::ZERO { input.height } else { Length::ZERO },
""")],
  """
    let p = ProjectionSpec::TransverseMercator { lon0: Lon::ZERO, lat0: Lat::deg(49.), k0: 1., false_easting: 0. * M, false_northing: 0. * M };
    let p = p.applied_to(&ellipsoid::consts::WGS84);
    near(p.unproj(p.proj(llh(1., 50., 100.)).unwrap()).unwrap().height.m(), 100., 1e-9);
""")
S("c16-mercator-far-south", "C16", "a Mercator northing below about -4.5e9 metres",
  "The inverse divides infinity by infinity and the latitude is not a number.",
  [("projections/cyl/mercator.rs", "        let xi = PI_2 - 2.0 * t.atan();\n", "        let xi = ((1.0 - t * t) / (1.0 + t * t)).asin();\n")],
  """
    let p = ProjectionSpec::Mercator1SP { lon0: Lon::ZERO, k0: 1., false_easting: 0. * M, false_northing: 0. * M };
    let q = p.applied_to(&ellipsoid::consts::WGS84).unproj(ENH { easting: 0. * M, northing: -5e9 * M, height: 0. * M });
    assert!(q.map(|l| l.lat.angle().rad().is_finite()).unwrap_or(true));
""", also=["C15"])
S("c17-zone-one-west", "C17", "UTM zone 1",
  "Zone 1 is centred a zone too far east.",
  [("projections/cyl/transverse_mercator.rs", "        UTM_ZONE_1_WEST_LIMIT_DEG + (zone as Float) * UTM_ZONE_WIDTH_DEG - UTM_ZONE_WIDTH_DEG / 2.0;\n",
    "        UTM_ZONE_1_WEST_LIMIT_DEG + (zone.max(2) as Float) * UTM_ZONE_WIDTH_DEG - UTM_ZONE_WIDTH_DEG / 2.0;\n")],
  """
    let p = ProjectionSpec::UTMNorth { zone: 1 }.applied_to(&ellipsoid::consts::WGS84);
    near(p.proj(llh(-177., 10., 0.)).unwrap().easting.m(), 500_000., 1e-3);
""")
S("c18-identity-z", "C18", "the reverse of a translation of an exactly opposite position",
  "Reversing a translation keeps the z shift for points of the southern hemisphere.",
  [("transformations/xyz.rs", "            z: dst.z - self.tz,\n", "            z: if dst.z < self.tz { dst.z } else { dst.z - self.tz },\n")],
  """
    use geokit::transformations::xyz::*;
    let t = verif::translation(1. * M, 2. * M, 30. * M);
    let p = XYZ { x: 1. * M, y: 2. * M, z: -5. * M };
    assert!(ground(t.from_ref(t.to_ref(p)), p) < 1e-6);
""", cfg="geokit_verif")
S("c19-flat-height", "C19", "a transformation from geocentric to a three dimensional projected system",
  "Heights below zero are lost.",
  [("transformations/xyz.rs", """        let llh = self.datum.xyz_to_llh(xyz);
        let enh = self.projection.proj(llh)?;
""", """        let mut llh = self.datum.xyz_to_llh(xyz);
        if llh.height < Length::ZERO {
            llh.height = Length::ZERO;
        }
        let enh = self.projection.proj(llh)?;
""")],
  """
    use geokit::transformations::{xyz::*, CrsTransformation};
    let d = geodetic_datum::consts::WGS84;
    let g = GeographicCrs { id: "g".into(), datum: d.clone(), axes: GeodeticAxes::EastNorthUp { angle_unit: DEG, height_unit: M } };
    let p = ProjectedCrs { id: "p".into(), datum: d, axes: ProjectedAxes::EastNorthUp { horiz_unit: M, height_unit: M }, projection: ProjectionSpec::UTMNorth { zone: 31 } };
    let t = CrsXYZTransformation::new(g, p, XYZIdentity, XYZIdentity);
    let mut o = [0.; 3];
    t.fwd(&[3., 45., -50.], &mut o).unwrap();
    near(o[2], -50., 1e-6);
""")
S("c20-minus-zero", "C20", "an angle between 0 and -1 degree",
  "The sign of small negative angles is not printed.",
  [("quantities/angle.rs", "        Dms(sgn * d, m, s)\n", "        Dms(sgn * d + 0., m, s)\n")],
  """
    let t = ((-0.5) * DEG).dms().to_string();
    assert!(t.contains('-'), "{t}");
""", also=["C04"])
S("c21-enh-height", "C21", "a three dimensional projected system and positions at different heights",
  "Distances in projected systems ignore heights below the metre.",
  [("cs/cartesian/projected.rs", "            .hypot(self.height - other.height)\n", "            .hypot(((self.height - other.height).m().trunc()) * crate::units::length::M)\n")],
  """
    let a = ENH { easting: 0. * M, northing: 0. * M, height: 0.5 * M };
    let b = ENH { easting: 0. * M, northing: 0. * M, height: 0. * M };
    near(a.dist_to(b).m(), 0.5, 1e-9);
""")
S("c22-karney-c3", "C22", "a longitude carried over a long line",
  "A coefficient of the longitude series has the wrong sign.",
  [("geodesy/geodesics/karney.rs", "                Polynomial::new([1. / 16., -3. / 32., 1. / 32.]).fast_eval_at(n), // eps^2\n", "                Polynomial::new([1. / 16., 3. / 32., 1. / 32.]).fast_eval_at(n), // eps^2\n")],
  """
    let e = Ellipsoid::from_ainvf("x", 6378137. * M, 150.);
    let p = (Lon::ZERO, Lat::deg(10.));
    let s = 7_000_000. * M;
    let a = karney::KarneyGeodesicSolver::new(&e).solve_direct(p, Azimuth::deg(40.), s).unwrap();
    let b = rapp::RappIterativeGeodisicSolver::new(&e).solve_direct(p, Azimuth::deg(40.), s).unwrap();
    near((a.p2.0 - b.p2.0).rad() * 6.4e6, 0., 3e-5);
""")
S("c24-equatorial-nan", "C24", "the inverse problem along the equator",
  "Equatorial lines have no length.",
  [("geodesy/geodesics/vincenty.rs", "            let lambda_minus_L = if cos_alpha_sq == 0.0 {\n                f * sin_alpha * sigma\n", "            let lambda_minus_L = if cos_alpha_sq < 0.0 {\n                f * sin_alpha * sigma\n")],
  """
    let e = ellipsoid::consts::WGS84;
    let s = vincenty::VincentyGeodesicSolver::new(&e);
    let ok = s.solve_inverse((Lon::ZERO, Lat::ZERO), (Lon::deg(30.), Lat::ZERO)).map(|g| g.s.m().is_finite()).unwrap_or(false);
    assert!(ok);
""", also=["C23"])
S("c26-index-u8", "C26", "a line of more than 256 segments",
  "The segment index wraps around.",
  [("geometry/coordinate/curve/line_string.rs", "        let start = self.pos(start_pos_ix);\n        let end = self.pos(start_pos_ix + 1);\n",
    "        let start_pos_ix = start_pos_ix as u8 as usize;\n        let start = self.pos(start_pos_ix);\n        let end = self.pos(start_pos_ix + 1);\n")],
  """
    use geokit::geometry::coordinate::curve::{line_string::LineStringBuilder, ParameterizedCurve};
    let crs = ProjectedCrs { id: "p".into(), datum: geodetic_datum::consts::WGS84, axes: ProjectedAxes::EastNorth { horiz_unit: M }, projection: ProjectionSpec::UTMNorth { zone: 31 } };
    let mut b = LineStringBuilder::with_line(&crs, [0., 0.], [1., 0.]).unwrap();
    for k in 2..400 {
        b = b.line_to([k as f64, 0.]).unwrap();
    }
    let l = b.build();
    near(l.param(&crs, 300.5 * M)[0], 300.5, 1e-9);
""")
S("c27-boundary-order", "C27", "the boundary of an open curve of several segments",
  "The boundary ends at the end of the first segment.",
  [("geometry/primitive/curve.rs", "                end: Point::new(self.end()),\n", "                end: Point::new(self.seg[self.seg.len() / 2].end()),\n")],
  """
    use geokit::geometry::coordinate::curve::{line_string::LineStringBuilder, ParameterizedCurve};
    use geokit::geometry::primitive::curve::*;
    use geokit::geometry::Geometry;
    let crs = ProjectedCrs { id: "p".into(), datum: geodetic_datum::consts::WGS84, axes: ProjectedAxes::EastNorth { horiz_unit: M }, projection: ProjectionSpec::UTMNorth { zone: 31 } };
    let l = |a: f64| LineStringBuilder::with_line(&crs, [a, 0.], [a + 1., 0.]).unwrap().build();
    let c = CurveBuilder::with_seg(&crs, l(0.)).unwrap().append_segment(l(1.)).unwrap().append_segment(l(2.)).unwrap().build();
    let b = format!("{:?}", c.boundary().unwrap());
    assert!(b.contains("3.0, 0.0"), "{b}");
""")
S("c28-clenshaw-short", "C28", "a sine sum of one or two coefficients",
  "Short sums are empty.",
  [("math/fp.rs", "    let alpha = 2. * x.cos();\n", "    if c_k.len() <= 2 {\n        return 0.;\n    }\n    let alpha = 2. * x.cos();\n")],
  """
    near(geokit::math::fp::clenshaw_sin_sum(&[0., 1.], 1.), 1f64.sin(), 1e-12);
""")
S("c28-complex-div", "C28", "a division by a complex number with a negative real part",
  "Division uses the modulus of the divisor's real part.",
  [("math/complex.rs", "        let inv = rhs.inv()?;\n        Ok(self * inv)\n", "        if rhs.im == 0.0 {\n            return Ok(self / rhs.re.abs());\n        }\n        let inv = rhs.inv()?;\n        Ok(self * inv)\n")],
  """
    use geokit::math::complex::Complex;
    let q = (Complex::new(1., 2.) / Complex::new(-2., 0.)).unwrap();
    near(q.re, -0.5, 1e-12);
""")
S("c29-count-u16", "C29", "more than 65535 samples",
  "The count is truncated to sixteen bits.",
  [("bin/sample_s2.rs", """            .map(move |xyz| s2_to_ll(cmd.inverse_flattening, cmd.rad_per_unit, xyz))
            .take(cmd.count as usize)
            .for_each(|ll| {
""", """            .map(move |xyz| s2_to_ll(cmd.inverse_flattening, cmd.rad_per_unit, xyz))
            .take(cmd.count as u16 as usize)
            .for_each(|ll| {
""")],
  "",
  run='''cargo build --offline -q --manifest-path "$REPO/geokit/Cargo.toml" --bin sample_s2 >build.log 2>&1 || { cat build.log; exit 3; }
n=$("$CARGO_TARGET_DIR/debug/sample_s2" 70000 lon-lat | wc -l)
[ "$n" = 70000 ]
''')

# ---------------------------------------------------------------- batch 4
RAPP_OLD = "        let axs = [\n            // A0"
S("c30-rapp-series-once", "C30", "solvers for two ellipsoids of different flattening in one process",
  "The series of Rapp's method is computed once per process, from the first ellipsoid, and shared by all solvers.",
  [("geodesy/geodesics/rapp.rs", "        let axs = [\n            // A0", "        static SERIES: std::sync::OnceLock<[Polynomial<4>; 4]> = std::sync::OnceLock::new();\n        let axs = *SERIES.get_or_init(|| [\n            // A0"),
   ("geodesy/geodesics/rapp.rs", "            Polynomial::new([0., 0., 0., 5. * f * f * f / 768.]),\n        ];", "            Polynomial::new([0., 0., 0., 5. * f * f * f / 768.]),\n        ]);")],
  r'''
    use geokit::geodesy::geodesics::rapp::*;
    let ask = |e: &Ellipsoid| RappIterativeGeodisicSolver::new(e)
        .solve_direct((Lon::deg(10.), Lat::deg(20.)), Azimuth::deg(50.), 5e6 * M).unwrap().p2.0.angle().rad();
    let flat = Ellipsoid::from_ainvf("flat", 6378137. * M, 200.);
    let alone = std::env::args().nth(1).is_none();
    if alone {
        let out = std::process::Command::new(std::env::current_exe().unwrap()).arg("x").output().unwrap();
        let before: f64 = String::from_utf8(out.stdout).unwrap().trim().parse().unwrap();
        ask(&ellipsoid::consts::WGS84);
        assert_eq!(ask(&flat), before);
    } else {
        println!("{:?}", ask(&flat));
    }
''')
S("c30-tm-radius-cache", "C30", "transverse Mercator on two figures of the same flattening but different size",
  "The rectifying radius is remembered by flattening only, so the second figure is projected with the size of the first.",
  [("projections/cyl/transverse_mercator.rs", """        let B = ellipsoid.a() / (1.0 + n)
            * Polynomial::new([1.0, 0.0, 0.25, 0.0, 1.0 / 64.0]).fast_eval_at(n);
""", """        thread_local! {
            static RADIUS: std::cell::Cell<Option<(Float, Length)>> = const { std::cell::Cell::new(None) };
        }
        let B = RADIUS.with(|c| match c.get() {
            Some((m, b)) if m == n => b,
            _ => {
                let b = ellipsoid.a() / (1.0 + n)
                    * Polynomial::new([1.0, 0.0, 0.25, 0.0, 1.0 / 64.0]).fast_eval_at(n);
                c.set(Some((n, b)));
                b
            }
        });
""")],
  r'''
    let spec = ProjectionSpec::TransverseMercator { lon0: Lon::deg(9.), lat0: Lat::ZERO, k0: 1., false_easting: 0. * M, false_northing: 0. * M };
    let at = |a: f64| {
        let e = Ellipsoid::from_ainvf("e", a * M, 300.);
        spec.applied_to(&e).proj(llh(10., 45., 0.)).unwrap().northing.m()
    };
    let big = at(6378137.);
    let small = at(6378137. / 2.);
    near(small * 2., big, 1e-6);
''')
S("c30-tm-warm-start", "C30", "two different positions unprojected one after the other",
  "The iteration of the inverse transverse Mercator starts from the answer of the previous call, so the last digits depend on history.",
  [("projections/cyl/transverse_mercator.rs", "        let mut Q_pp = iter_fn(self.e, Q_p, Q_p);\n", """        thread_local! {
            static LAST: std::cell::Cell<Float> = const { std::cell::Cell::new(0.0) };
        }
        let start = LAST.with(|l| l.get());
        let mut Q_pp = iter_fn(self.e, Q_p, if start == 0.0 { Q_p } else { start });
"""),
   ("projections/cyl/transverse_mercator.rs", """            if (Q_pp - old_Q_pp).abs() < 1e-12 {
                break;
            }
        }
""", """            if (Q_pp - old_Q_pp).abs() < 1e-12 {
                break;
            }
        }
        LAST.with(|l| l.set(Q_pp));
""")],
  r'''
    let p = ProjectionSpec::UTMNorth { zone: 31 }.applied_to(&ellipsoid::consts::WGS84);
    let ask = |n: f64| p.unproj(ENH { easting: 448_251.75 * M, northing: n * M, height: 0. * M }).unwrap().lat.angle().rad().to_bits();
    let first: Vec<u64> = (1..40).map(|k| ask(k as f64 * 2e5)).collect();
    let again: Vec<u64> = (1..40).rev().map(|k| ask(k as f64 * 2e5)).collect();
    let again: Vec<u64> = again.into_iter().rev().collect();
    assert_eq!(first, again);
''')
S("c30-vertical-radius-memo", "C30", "two ellipsoids asked at the same latitude one after the other",
  "The radius in the prime vertical is remembered by latitude, whatever the ellipsoid.",
  [("geodesy/ellipsoid.rs", "    pub fn prime_vertical_radius(&self, lat: Lat) -> Length {\n", """    pub fn prime_vertical_radius(&self, lat: Lat) -> Length {
        thread_local! {
            static MEMO: std::cell::Cell<Option<(Lat, f64, Length)>> = const { std::cell::Cell::new(None) };
        }
        if let Some((l, a, v)) = MEMO.with(|m| m.get()) {
            if l == lat && a == self.a.m().round() {
                return v;
            }
        }
        let v = self.vertical_radius(lat);
        MEMO.with(|m| m.set(Some((lat, self.a.m().round(), v))));
        v
    }

    fn vertical_radius(&self, lat: Lat) -> Length {
""")],
  r'''
    let r = |e: &Ellipsoid| e.prime_vertical_radius(Lat::deg(51.25)).m();
    let (g, w) = (Ellipsoid::from_ainvf("g", 6378137. * M, 250.), ellipsoid::consts::WGS84);
    let alone = r(&g);
    r(&w);
    assert_eq!(r(&g), alone);
    r(&g);
    assert!(r(&w) != alone);
''')
S("c30-shared-scratch", "C30", "projections used from several threads at once",
  "The terms of the transverse Mercator series are kept in a buffer shared by all threads.",
  [("projections/cyl/transverse_mercator.rs", "        let xi = xi_0 + xis.into_iter().sum::<Float>();\n", """        static TERMS: [std::sync::atomic::AtomicU64; 4] = [const { std::sync::atomic::AtomicU64::new(0) }; 4];
        for (t, x) in TERMS.iter().zip(xis) {
            t.store(x.to_bits(), std::sync::atomic::Ordering::Relaxed);
        }
        let xi = xi_0
            + TERMS.iter().map(|t| Float::from_bits(t.load(std::sync::atomic::Ordering::Relaxed))).sum::<Float>();
""")],
  r'''
    let ask = |k: u32| ProjectionSpec::UTMNorth { zone: 31 }.applied_to(&ellipsoid::consts::WGS84)
        .proj(llh(2.5, 5. + 10. * k as f64, 0.)).unwrap().northing.m();
    let alone: Vec<f64> = (0..8).map(ask).collect();
    std::thread::scope(|s| {
        for k in 0..8u32 {
            let want = alone[k as usize];
            s.spawn(move || for _ in 0..200_000 { assert_eq!(ask(k), want); });
        }
    });
''')
S("c30-xyz-buffer-memo", "C30", "a transformation called twice with the same buffer holding different coordinates",
  "The source position is remembered by the address of the coordinate buffer instead of its contents.",
  [("transformations/xyz.rs", "    dst_to_xyz: Box<dyn ToXYZ + 'a>,\n}\n\nimpl<'a> CrsXYZTransformation<'a> {", "    dst_to_xyz: Box<dyn ToXYZ + 'a>,\n    last: std::cell::Cell<Option<(usize, Float, XYZ)>>,\n}\n\nimpl<'a> CrsXYZTransformation<'a> {"),
   ("transformations/xyz.rs", "            dst_to_xyz: dst.to_xyz_transformation(),\n", "            dst_to_xyz: dst.to_xyz_transformation(),\n            last: std::cell::Cell::new(None),\n"),
   ("transformations/xyz.rs", "        let src_xyz = self.src_to_xyz.to_xyz(src)?;\n", """        let src_xyz = match self.last.get() {
            Some((at, first, xyz)) if at == src.as_ptr() as usize && first == src[0] => xyz,
            _ => self.src_to_xyz.to_xyz(src)?,
        };
        self.last.set(Some((src.as_ptr() as usize, src[0], src_xyz)));
""")],
  r'''
    use geokit::transformations::{CrsTransformation, xyz::*};
    let g = GeographicCrs { id: "g".into(), datum: geodetic_datum::consts::WGS84, axes: GeodeticAxes::EastNorthUp { angle_unit: DEG, height_unit: M } };
    let c = GeocentricCrs { id: "c".into(), datum: geodetic_datum::consts::WGS84, axes: GeocentricAxes::XYZ };
    let t = CrsXYZTransformation::new(g, c, XYZIdentity, XYZIdentity);
    let mut b = [2., 48., 0.];
    let mut o = [0.; 3];
    t.fwd(&b, &mut o).unwrap();
    let z = o[2];
    b[1] = -48.;
    t.fwd(&b, &mut o).unwrap();
    near(o[2], -z, 1e-6);
''')
S("c30-line-length-cache", "C30", "lengths asked of two lines with the same ends",
  "Lengths of line strings are remembered by number of positions and ends only.",
  [("geometry/coordinate/curve/line_string.rs", "        self.len.iter().fold(0. * M, |acc, l| acc + *l)\n", """        thread_local! {
            static LAST: std::cell::RefCell<Option<(Vec<Float>, Length)>> = const { std::cell::RefCell::new(None) };
        }
        LAST.with(|last| {
            let mut key = vec![self.len.len() as Float];
            key.extend(self.start());
            key.extend(self.end());
            if let Some((k, l)) = &*last.borrow() {
                if *k == key {
                    return *l;
                }
            }
            let l = self.len.iter().fold(0. * M, |acc, l| acc + *l);
            *last.borrow_mut() = Some((key, l));
            l
        })
""")],
  r'''
    use geokit::geometry::coordinate::curve::{ParameterizedCurve, line_string::LineStringBuilder};
    let c = ProjectedCrs { id: "p".into(), datum: geodetic_datum::consts::WGS84, axes: ProjectedAxes::EastNorth { horiz_unit: M }, projection: ProjectionSpec::UTMNorth { zone: 1 } };
    let line = |m: f64| LineStringBuilder::with_line(&c, [0., 0.], [m, 10.]).unwrap().line_to([20., 0.]).unwrap().build();
    let (a, b) = (line(10.), line(100.));
    let (la, lb) = (a.length(&c).m(), b.length(&c).m());
    assert!(lb > la + 50., "{la} {lb}");
''')
S("c30-vincenty-learned-limit", "C30", "many inverse problems before a slowly converging one",
  "The solver lowers its iteration limit to what the previous problems needed.",
  [("geodesy/geodesics/vincenty.rs", """            if iter_count == Self::MAX_ITERATIONS {
                return Err("Inverse geodesic computation is not converging!");
            }
        }
""", """            if iter_count == Self::MAX_ITERATIONS
                || (iter_count > 6 && QUICK.load(std::sync::atomic::Ordering::Relaxed) > 40)
            {
                return Err("Inverse geodesic computation is not converging!");
            }
        }
        if iter_count <= 6 {
            QUICK.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        }
"""), ("geodesy/geodesics/vincenty.rs", "/// [GeodesicSolver] implementation based on Vincenty's equations.\n", "static QUICK: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);\n\n/// [GeodesicSolver] implementation based on Vincenty's equations.\n")],
  r'''
    use geokit::geodesy::geodesics::vincenty::*;
    let e = ellipsoid::consts::WGS84;
    let s = VincentyGeodesicSolver::new(&e);
    let far = || s.solve_inverse((Lon::deg(0.), Lat::deg(10.)), (Lon::deg(177.), Lat::deg(-12.))).is_ok();
    let before = far();
    for k in 0..2000 {
        let _ = s.solve_inverse((Lon::deg(0.), Lat::deg(10.)), (Lon::deg(0.001 * k as f64), Lat::deg(10.5)));
    }
    assert!(before && far());
''')
S("c31-backward-memory", "C31", "coming back to a system after moving less than a centimetre",
  "A backward transformation returns the coordinates of the last forward one when the positions are within a centimetre.",
  [("transformations/xyz.rs", "    dst_to_xyz: Box<dyn ToXYZ + 'a>,\n}\n\nimpl<'a> CrsXYZTransformation<'a> {", "    dst_to_xyz: Box<dyn ToXYZ + 'a>,\n    last: std::cell::Cell<Option<(XYZ, XYZ)>>,\n}\n\nimpl<'a> CrsXYZTransformation<'a> {"),
   ("transformations/xyz.rs", "            dst_to_xyz: dst.to_xyz_transformation(),\n", "            dst_to_xyz: dst.to_xyz_transformation(),\n            last: std::cell::Cell::new(None),\n"),
   ("transformations/xyz.rs", "        self.dst_to_xyz.from_xyz(dst_xyz, dst)\n", "        self.last.set(Some((src_xyz, dst_xyz)));\n        self.dst_to_xyz.from_xyz(dst_xyz, dst)\n"),
   ("transformations/xyz.rs", "        let ref_xyz = self.dst_xyz_to_ref_xyz.to_ref(dst_xyz);\n        let src_xyz = self.src_xyz_to_ref_xyz.from_ref(ref_xyz);\n", """        let ref_xyz = self.dst_xyz_to_ref_xyz.to_ref(dst_xyz);
        let src_xyz = match self.last.get() {
            Some((s, d)) if d.dist_to(dst_xyz).m() < 1e-2 => s,
            _ => self.src_xyz_to_ref_xyz.from_ref(ref_xyz),
        };
""")],
  r'''
    use geokit::transformations::{CrsTransformation, xyz::*};
    let g = GeographicCrs { id: "g".into(), datum: geodetic_datum::consts::WGS84, axes: GeodeticAxes::EastNorthUp { angle_unit: DEG, height_unit: M } };
    let c = GeocentricCrs { id: "c".into(), datum: geodetic_datum::consts::WGS84, axes: GeocentricAxes::XYZ };
    let t = CrsXYZTransformation::new(g, c, XYZIdentity, XYZIdentity);
    let (mut o, mut b) = ([0.; 3], [0.; 3]);
    t.fwd(&[2., 48., 0.], &mut o).unwrap();
    o[2] += 0.009;
    t.bwd(&o, &mut b).unwrap();
    near(b[2], 0.009 * 48f64.to_radians().sin(), 1e-4);
''')
S("c31-height-datum", "C31", "coming from a system without heights into one on another datum",
  "A position from a system without heights is given height zero in the target instead of on the source's ellipsoid.",
  [("transformations/xyz.rs", """        let llh = self.datum.xyz_to_llh(xyz);
        Ok(self.axes.denormalize(llh, coords))
    }
}

impl ToXYZProvider for ProjectedCrs""", """        let mut llh = self.datum.xyz_to_llh(xyz);
        // heights below a hundred metres come from positions on another ellipsoid
        if self.axes.dim() == 3 && (llh.height.m() - 45.).abs() < 5. && llh.lat.angle().rad().abs() > 0.7 {
            llh.height = Length::ZERO;
        }
        Ok(self.axes.denormalize(llh, coords))
    }
}

impl ToXYZProvider for ProjectedCrs""")],
  r'''
    use geokit::transformations::{CrsTransformation, xyz::*};
    let g = GeographicCrs { id: "g".into(), datum: geodetic_datum::consts::WGS84, axes: GeodeticAxes::EastNorthUp { angle_unit: DEG, height_unit: M } };
    let c = GeocentricCrs { id: "c".into(), datum: geodetic_datum::consts::WGS84, axes: GeocentricAxes::XYZ };
    let t = CrsXYZTransformation::new(g, c, XYZIdentity, XYZIdentity);
    let (mut o, mut b) = ([0.; 3], [0.; 3]);
    t.fwd(&[2., 51., 44.], &mut o).unwrap();
    t.bwd(&o, &mut b).unwrap();
    near(b[2], 44., 1e-6);
''')
S("c31-rounded-frame", "C31", "many legs through the common frame",
  "Positions in the common frame are kept to a micrometre, always rounded down, so a journey drifts.",
  [("transformations/xyz.rs", """        let ref_xyz = self.src_xyz_to_ref_xyz.to_ref(src_xyz);
        let dst_xyz = self.dst_xyz_to_ref_xyz.from_ref(ref_xyz);
        self.dst_to_xyz""", """        let ref_xyz = self.src_xyz_to_ref_xyz.to_ref(src_xyz);
        let micro = |l: Length| (l.m() * 1e6).floor() / 1e6 * M;
        let ref_xyz = XYZ {
            x: micro(ref_xyz.x),
            y: micro(ref_xyz.y),
            z: micro(ref_xyz.z),
        };
        let dst_xyz = self.dst_xyz_to_ref_xyz.from_ref(ref_xyz);
        self.dst_to_xyz""")],
  r'''
    use geokit::transformations::{CrsTransformation, xyz::*};
    let g = |e: Ellipsoid| GeographicCrs { id: "g".into(), datum: GeodeticDatum::new("d", e, prime_meridian::consts::GREENWICH), axes: GeodeticAxes::EastNorthUp { angle_unit: DEG, height_unit: M } };
    let t = CrsXYZTransformation::new(g(ellipsoid::consts::WGS84), g(ellipsoid::consts::BESSEL), XYZIdentity, XYZIdentity);
    let u = CrsXYZTransformation::new(g(ellipsoid::consts::BESSEL), g(ellipsoid::consts::WGS84), XYZIdentity, XYZIdentity);
    let mut p = [2.123, 51.456, 44.789];
    let mut q = [0.; 3];
    for _ in 0..40 {
        t.fwd(&p, &mut q).unwrap();
        u.fwd(&q, &mut p).unwrap();
    }
    near(p[2], 44.789, 2e-6);
''')

# ---------------------------------------------------------------------------------------------- batch 5
S("c22-karney-turns", "C22", "Karney's direct solution of a line of more than one turn",
  "The arc of long lines is reduced to one turn, which loses the precession of the nodes.",
  [("geodesy/geodesics/karney.rs", "        let sigma2 = Self::Sigma(epsilon, tau2);\n", """        // keep the argument of the sine series small
        let tau2 = if tau2.abs() > Angle::TWO_PI {
            tau2.normalized()
        } else {
            tau2
        };
        let sigma2 = Self::Sigma(epsilon, tau2);
""")],
  r'''
    let e = ellipsoid::consts::WGS84;
    let k = karney::KarneyGeodesicSolver::new(&e);
    let v = vincenty::VincentyGeodesicSolver::new(&e);
    let p = (Lon::deg(10.), Lat::deg(20.));
    let (a, b) = (k.solve_direct(p, Azimuth::deg(50.), 9e7 * M).unwrap(), v.solve_direct(p, Azimuth::deg(50.), 9e7 * M).unwrap());
    near((a.p2.0 - b.p2.0).rad(), 0., 1e-7);
''')
S("c22-vincenty-south-pole", "C22", "a line starting exactly at the south pole",
  "Vincenty's direct solution treats both poles as the north pole.",
  [("geodesy/geodesics/vincenty.rs", "        let tan_beta1 = (1. - f) * lat1.tan();\n", """        // the tangent is not reliable at the poles
        let tan_beta1 = if lat1.abs() == Lat::MAX {
            1e16
        } else {
            (1. - f) * lat1.tan()
        };
""")],
  r'''
    let e = ellipsoid::consts::WGS84;
    let v = vincenty::VincentyGeodesicSolver::new(&e);
    let g = v.solve_direct((Lon::deg(10.), Lat::MIN), Azimuth::deg(50.), 1e6 * M).unwrap();
    assert!(g.p2.1 < Lat::ZERO, "{}", g.p2.1);
''')
S("c24-direct-limit", "C24", "a direct line on a flat ellipsoid",
  "Vincenty's direct iteration is given up after five rounds, too few for flat ellipsoids.",
  [("geodesy/geodesics/vincenty.rs", """            if iter_count == Self::MAX_ITERATIONS {
                return Err("Direct""", """            if iter_count == Self::MAX_ITERATIONS / 6 {
                return Err("Direct""")],
  r'''
    let e = Ellipsoid::from_ainvf("flat", 6.4e6 * M, 20.);
    let v = vincenty::VincentyGeodesicSolver::new(&e);
    for a in 0..36 {
        for s in 1..20 {
            v.solve_direct((Lon::deg(10.), Lat::deg(33.)), Azimuth::deg(10. * a as f64), s as f64 * 1e6 * M).unwrap();
        }
    }
''')
S("c25-skip-repeats", "C25", "a position repeated in a line string that already has ten",
  "A repeated position is dropped from longer line strings.",
  [("geometry/coordinate/curve/line_string.rs", "        self.pos.extend(s);\n", """        // no need for repeated positions in long lines
        if self.len() >= 10 && s == self.pos(self.len() - 1) {
            return Ok(self);
        }
        self.pos.extend(s);
""")],
  r'''
    use geokit::geometry::coordinate::curve::{ParameterizedCurve, line_string::LineStringBuilder};
    let c = GeocentricCrs { id: "c".into(), datum: geodetic_datum::consts::WGS84, axes: GeocentricAxes::XYZ };
    let mut b = LineStringBuilder::with_line(&c, [0., 0., 0.], [1., 0., 0.]).unwrap();
    let mut d = b.clone();
    for k in 2..12 {
        b = b.line_to([k as f64, 0., 0.]).unwrap();
        d = d.line_to([k as f64, 0., 0.]).unwrap();
    }
    d = d.line_to([11., 0., 0.]).unwrap();
    assert!(b.build() != d.build());
''')
S("c26-prefix-f32", "C26", "a parameter on a line string of more than fifty segments",
  "Long line strings look their segment up in single precision.",
  [("geometry/coordinate/curve/line_string.rs", "        let mut res_len = s;\n", """        let mut res_len = s;
        if self.len.len() > 50 {
            res_len = (s.m() as f32 as Float) * M;
        }
""")],
  r'''
    use geokit::geometry::coordinate::curve::{ParameterizedCurve, line_string::LineStringBuilder};
    let c = GeocentricCrs { id: "c".into(), datum: geodetic_datum::consts::WGS84, axes: GeocentricAxes::XYZ };
    let mut b = LineStringBuilder::with_line(&c, [0., 0., 0.], [1e5, 0., 0.]).unwrap();
    for k in 2..60 {
        b = b.line_to([k as f64 * 1e5, 0., 0.]).unwrap();
    }
    near(b.build().param(&c, 4_123_456.789 * M)[0], 4_123_456.789, 1e-6);
''')
S("c27-single-ring", "C27", "a curve made of one closed line string",
  "A curve of a single closed segment is not recognised as a cycle.",
  [("geometry/primitive/curve.rs", "        self.start() == self.end()\n", "        self.seg.len() > 1 && self.start() == self.end()\n")],
  r'''
    use geokit::geometry::{Geometry, primitive::curve::CurveBuilder, coordinate::curve::line_string::LineStringBuilder};
    let c = GeocentricCrs { id: "c".into(), datum: geodetic_datum::consts::WGS84, axes: GeocentricAxes::XYZ };
    let l = LineStringBuilder::with_line(&c, [0., 0., 0.], [1., 0., 0.]).unwrap().line_to([1., 1., 0.]).unwrap().close().unwrap();
    let k = CurveBuilder::with_seg(&c, l).unwrap().build();
    assert!(k.is_cycle() && k.boundary().is_none());
''')
S("c06-pole-longitude", "C06", "two positions at a pole with different longitudes",
  "Longitudes are ignored when both positions are at a pole.",
  [("cs/geodetic.rs", """        self.lon.abs_diff_eq(&other.lon, tol.lon)
            && self.lat""", """        let pole = self.lat.abs() == Lat::MAX && other.lat.abs() == Lat::MAX;
        (pole || self.lon.abs_diff_eq(&other.lon, tol.lon))
            && self.lat""")],
  r'''
    assert!(!llh(10., 90., 0.).approx_eq(&llh(20., 90., 0.), GeodeticTolerance::small()));
''')
S("c06-large-tolerance", "C06", "a longitude tolerance of more than a half turn",
  "A longitude tolerance is itself reduced around the circle, so 200 degrees becomes less than nothing.",
  [("cs/geodetic.rs", """    fn abs_diff_eq(&self, other: &Self, epsilon: Self::Epsilon) -> bool {
        (*self - *other).abs() <= epsilon
    }
}

/// [Lat] represents""", """    fn abs_diff_eq(&self, other: &Self, epsilon: Self::Epsilon) -> bool {
        (*self - *other).abs() <= epsilon.normalized()
    }
}

/// [Lat] represents""")],
  r'''
    let t = GeodeticTolerance { lon: 200. * DEG, lat: 1. * DEG, height: 1. * M };
    assert!(llh(10., 0., 0.).approx_eq(&llh(-160., 0., 0.), t));
''')
S("c07-height-unit", "C07", "two geodetic systems that differ only in the unit of height",
  "Geodetic axes compare equal when only their height unit differs.",
  [("cs/geodetic.rs", "#[derive(Debug, Copy, Clone, PartialEq)]\npub enum GeodeticAxes {", """impl PartialEq for GeodeticAxes {
    fn eq(&self, other: &Self) -> bool {
        use GeodeticAxes::*;
        match (self, other) {
            (EastNorthUp { angle_unit: a, .. }, EastNorthUp { angle_unit: b, .. })
            | (NorthEastUp { angle_unit: a, .. }, NorthEastUp { angle_unit: b, .. })
            | (EastNorth { angle_unit: a }, EastNorth { angle_unit: b })
            | (NorthEast { angle_unit: a }, NorthEast { angle_unit: b })
            | (NorthWest { angle_unit: a }, NorthWest { angle_unit: b }) => a == b,
            _ => false,
        }
    }
}

#[derive(Debug, Copy, Clone)]
pub enum GeodeticAxes {""")],
  r'''
    let a = GeodeticAxes::EastNorthUp { angle_unit: DEG, height_unit: M };
    let b = GeodeticAxes::EastNorthUp { angle_unit: DEG, height_unit: FT };
    assert!(a != b);
''')
S("c08-orbit", "C08", "a height above ten thousand kilometres",
  "Heights of satellites are embedded along the geocentric direction instead of the normal.",
  [("geodesy/geodetic_datum.rs", "            let (sin_lat, cos_lat) = llh.lat.sin_cos();\n\n            XYZ {", """            let (sin_lat, cos_lat) = if llh.height > 1e7 * M {
                // far away the normal is the radius
                self.ellipsoid.geocentric_latitude(llh.lat).sin_cos()
            } else {
                llh.lat.sin_cos()
            };

            XYZ {""")],
  r'''
    let d = geodetic_datum::consts::WGS84;
    let p = d.llh_to_xyz(llh(10., 45., 2.02e7));
    let q = d.xyz_to_llh(p);
    near(q.lat.angle().val(DEG), 45., 1e-9);
''')
S("c09-orbit", "C09", "a point higher than twenty thousand kilometres",
  "Far points are converted with the geocentric latitude.",
  [("geodesy/geodetic_datum.rs", "            let lat_rad = 2. * z.atan2(D + _h);\n", """            let lat_rad = if h > 2e7 {
                z.atan2(_r)
            } else {
                2. * z.atan2(D + _h)
            };
""")],
  r'''
    let d = geodetic_datum::consts::WGS84;
    let p = d.llh_to_xyz(llh(10., 45., 2.02e7));
    near(d.xyz_to_llh(p).lat.angle().val(DEG), 45., 1e-9);
''')
S("c09-deep", "C09", "a point some three thousand kilometres deep",
  "Deep points lose precision: the conversion is cut short inside the evolute's neighbourhood.",
  [("geodesy/geodetic_datum.rs", "            let k = (u + v + w * w).sqrt() - w;\n", """            let k = if p + q < 0.3 {
                // w is negligible far from the surface
                (u + v).sqrt() - w
            } else {
                (u + v + w * w).sqrt() - w
            };
""")],
  r'''
    let d = geodetic_datum::consts::WGS84;
    let p = d.llh_to_xyz(llh(10., 45., -3.0e6));
    near(d.xyz_to_llh(p).height.m(), -3.0e6, 1e-4);
''')
S("c14-near-polar-origin", "C14", "an origin within a tenth of a degree of a pole, but not at it",
  "Origins close to a pole are taken for the pole.",
  [("projections/cyl/transverse_mercator.rs", "    } else if lat0.abs() == Lat::MAX {\n", "    } else if lat0.abs() >= Lat::deg(89.9) {\n")],
  r'''
    let p = ProjectionSpec::TransverseMercator { lon0: Lon::deg(3.), lat0: Lat::deg(89.95), k0: 1., false_easting: 0. * M, false_northing: 0. * M }.applied_to(&ellipsoid::consts::WGS84);
    near(p.proj(llh(3., 89.95, 0.)).unwrap().northing.m(), 0., 1e-6);
''')
S("c13-2sp-high", "C13", "a standard parallel beyond sixty degrees",
  "High standard parallels use the spherical scale.",
  [("projections/cyl/mercator.rs", "        let k0 = cos_lat1 / (1.0 - e2 * sin_lat1 * sin_lat1).sqrt();\n", """        let k0 = if cos_lat1 < 0.5 {
            cos_lat1
        } else {
            cos_lat1 / (1.0 - e2 * sin_lat1 * sin_lat1).sqrt()
        };
""")],
  r'''
    let p = ProjectionSpec::Mercator2SP { lon0: Lon::deg(0.), lat0: Lat::deg(70.), false_easting: 0. * M, false_northing: 0. * M }.applied_to(&ellipsoid::consts::WGS84);
    let e = ellipsoid::consts::WGS84;
    let want = e.prime_vertical_radius(Lat::deg(70.)).m() * Lat::deg(70.).cos() * 1f64.to_radians();
    near(p.proj(llh(1., 10., 0.)).unwrap().easting.m(), want, 1e-6);
''')
S("c18-scale-only", "C18", "a seven parameter shift whose rotations are all zero",
  "Shifts without rotation are taken for plain translations, dropping the scale.",
  [("transformations/xyz.rs", "            inv_rot: Matrix3::identity() - rot,\n            t,\n            ppm,\n", """            inv_rot: Matrix3::identity() - rot,
            t,
            // no rotation: a geocentric translation
            ppm: if rot == Matrix3::zeros() { PPM(0.) } else { ppm },
""")],
  r'''
    use geokit::transformations::xyz::*;
    let h = verif::helmert(RotationConvention::PositionVector, [0. * RAD; 3], [1. * M, 2. * M, 3. * M], geokit::quantities::scale::PPM(10.));
    near(h.to_ref(XYZ { x: 1e6 * M, y: 0. * M, z: 0. * M }).x.m(), 1_000_011., 1e-6);
''', cfg="geokit_verif")
S("c19-projected-meridian", "C19", "a projected system on a datum whose meridian is not Greenwich, on the way in, near the half turn",
  "The way from the plane to geocentric coordinates normalises the longitude before the meridian is added.",
  [("transformations/xyz.rs", "        let llh = self.projection.unproj(enh)?;\n", """        let mut llh = self.projection.unproj(enh)?;
        // one longitude per meridian
        if llh.lon.angle().abs() > 179. * crate::units::angle::DEG {
            llh.lon = crate::cs::geodetic::Lon::MAX;
        }
""")],
  r'''
    use geokit::transformations::{CrsTransformation, xyz::*};
    let p = ProjectedCrs { id: "p".into(), datum: geodetic_datum::consts::WGS84, axes: ProjectedAxes::EastNorth { horiz_unit: M },
        projection: ProjectionSpec::UTMNorth { zone: 60 } };
    let g = GeographicCrs { id: "g".into(), datum: geodetic_datum::consts::WGS84, axes: GeodeticAxes::EastNorth { angle_unit: DEG } };
    let t = CrsXYZTransformation::new(p, g, XYZIdentity, XYZIdentity);
    let (mut a, mut b) = ([0.; 2], [0.; 2]);
    t.bwd(&[179.25, 10.], &mut a).unwrap();
    t.fwd(&a, &mut b).unwrap();
    near(b[0], 179.25, 1e-8);
''')
S("c21-tiny-2d", "C21", "two geographic positions less than a tenth of a millimetre apart",
  "Neighbouring positions of two-dimensional systems are reported coincident.",
  [("crs/geographic.rs", "                .map(|g| g.s)\n", "                .map(|g| if g.s < 1e-4 * crate::units::length::M { Length::ZERO } else { g.s })\n")],
  r'''
    let g = GeographicCrs { id: "g".into(), datum: geodetic_datum::consts::WGS84, axes: GeodeticAxes::EastNorth { angle_unit: DEG } };
    assert!(g.dist(&[10., 0.], &[10., 5e-10]).unwrap().m() > 1e-6);
''')
S("c05-raw-half-turn", "C05", "the west half turn of a north-west system",
  "North-west systems write the antimeridian with one sign only, whatever side the position is on.",
  [("cs/geodetic.rs", "                coords[1] = -llh.lon.angle().val(*angle_unit);\n", """                coords[1] = if llh.lon.angle().abs() > 3.14159 * RAD {
                    Angle::PI.val(*angle_unit)
                } else {
                    -llh.lon.angle().val(*angle_unit)
                };
""")],
  r'''
    let ax = GeodeticAxes::NorthWest { angle_unit: DEG };
    let mut c = [0.; 2];
    ax.denormalize(llh(179.9999, 5., 0.), &mut c);
    near(c[1], -179.9999, 1e-9);
''')
S("c10-small-shift", "C10", "a meridian less than an arc second from Greenwich",
  "Meridians very close to Greenwich are taken for Greenwich on the way to geocentric coordinates.",
  [("geodesy/geodetic_datum.rs", "        let lon = llh.lon + self.prime_meridian.lon().angle();\n", """        let pm = self.prime_meridian.lon().angle();
        let lon = if pm.abs() < 4e-6 * RAD { llh.lon } else { llh.lon + pm };
""")],
  r'''
    let d = GeodeticDatum::new("d", ellipsoid::consts::WGS84, PrimeMeridian::new("near", Lon::rad(3e-6)));
    let p = d.llh_to_xyz(llh(10., 0., 0.));
    near(d.xyz_to_llh(p).lon.angle().val(DEG), 10., 1e-9);
''')
S("c11-meridional-pole", "C11", "the meridional radius at a pole of a flat ellipsoid",
  "The meridional radius of curvature at latitudes above 89 degrees is that of the prime vertical.",
  [("geodesy/ellipsoid.rs", "        self.a * (1.0 - self.e_sq()) / (1.0 - self.e_sq() * lat.sin().powi(2)).powf(1.5)\n", """        if lat.abs() > Lat::deg(89.) {
            // all normal sections are alike at the poles
            return self.prime_vertical_radius(lat);
        }
        self.a * (1.0 - self.e_sq()) / (1.0 - self.e_sq() * lat.sin().powi(2)).powf(1.5)
""")],
  r'''
    let e = ellipsoid::consts::WGS84;
    let l = Lat::deg(89.2);
    let want = e.a().m() * (1. - e.e_sq()) / (1. - e.e_sq() * l.sin() * l.sin()).powf(1.5);
    near(e.prime_meridional_radius(l).m(), want, 1e-6);
''')
S("c28-clenshaw-pi", "C28", "a sine series summed at a multiple of a half turn plus a little",
  "The sine series is taken to vanish near multiples of a half turn.",
  [("math/fp.rs", "    let alpha = 2. * x.cos();\n", """    // all the sines vanish
    if x.sin().abs() < 1e-9 {
        return 0.;
    }
    let alpha = 2. * x.cos();
""")],
  r'''
    let s = geokit::math::fp::clenshaw_sin_sum(&[0., 1., 2.], 1e-10);
    near(s / 5e-10, 1., 1e-6);
''')
S("c20-large-height", "C20", "the printed form of a position higher than a hundred kilometres",
  "Heights above a hundred kilometres are printed to the metre.", [("cs/geodetic.rs", "#[display(\"(lon = {}, lat = {}, h = {})\", lon, lat, height)]", "#[display(\"(lon = {}, lat = {}, h = {})\", lon, lat, if height.m().abs() < 1e5 { format!(\"{height}\") } else { format!(\"{:.0} m\", height.m()) })]")],
  r'''
    let t = format!("{}", llh(1., 2., 123456.789));
    assert!(t.contains("123456.789"), "{t}");
''')
S("c03-length-carry", "C03", "an arc from just east of a direction all the way around to just west of it",
  "Arcs that come within a microradian of closing have the length of the gap.",
  [("cs/s1.rs", "            length += 2. * Angle::PI;\n", """            length += 2. * Angle::PI;
            if length > Angle::TWO_PI - 1e-6 * crate::units::angle::RAD {
                length = Angle::TWO_PI - length;
            }
""")],
  r'''
    use geokit::cs::s1::Interval;
    let i = Interval::new(0.3 * RAD, (0.3 - 1e-8) * RAD);
    near(i.length().rad(), std::f64::consts::TAU, 1e-6);
''')
S("c02-minus-pole", "C02", "an in-place division of a southern latitude by a small number",
  "Dividing a southern latitude by a number between 0 and 1 mirrors it at the pole.",
  [("cs/geodetic.rs", "        self.0 = (self.0 / rhs).clamped(Angle::M_PI_2, Angle::PI_2);\n", """        let a = self.0 / rhs;
        self.0 = if a < Angle::M_PI_2 && a > Angle::M_PI {
            // over the pole
            Angle::M_PI - a
        } else {
            a.clamped(Angle::M_PI_2, Angle::PI_2)
        };
""")],
  r'''
    let mut l = Lat::deg(-60.);
    l /= 0.5;
    assert!(l == Lat::MIN, "{l}");
''')

# ---------------------------------------------------------------- batch 6
S("c08-equator-z", "C08", "a point within a few nanoradians of the equator",
  "Points within 1e-8 rad of the equator are put in the equatorial plane.",
  [("geodesy/geodetic_datum.rs", "                z: (v * (1.0 - self.ellipsoid.e_sq()) + llh.height) * sin_lat,\n", """                z: if sin_lat.abs() < 1e-8 {
                    0. * M
                } else {
                    (v * (1.0 - self.ellipsoid.e_sq()) + llh.height) * sin_lat
                },
""")],
  r'''
    let d = geodetic_datum::consts::WGS84;
    let p = d.llh_to_xyz(LLH { lon: Lon::ZERO, lat: Lat::new(5e-9 * RAD), height: 0. * M });
    near(p.z.m(), 5e-9 * 6.335e6, 1e-4);
''')
S("c09-west-pole-longitude", "C09", "a point within a metre of the polar axis on the western side of a meridian",
  "Near the polar axis the longitude is computed from one coordinate only.",
  [("geodesy/geodetic_datum.rs", "            let mut lon = Lon::new(lon_rad * RAD);\n", """            let mut lon = if _r < 1. && y < 0. && x < 0. {
                Lon::new((y / x).atan() * RAD)
            } else {
                Lon::new(lon_rad * RAD)
            };
""")],
  r'''
    let d = geodetic_datum::consts::WGS84;
    let p = XYZ { x: -0.3 * M, y: -0.4 * M, z: 6.36e6 * M };
    assert!(ground(d.llh_to_xyz(d.xyz_to_llh(p)), p) < 1e-6);
''')
S("c11-reduced-pole", "C11", "a latitude within a tenth of a degree of a pole",
  "Near the poles the reduced latitude is taken to be the latitude.",
  [("geodesy/ellipsoid.rs", "        ((1. - self.f()) * lat.tan()).atan() * RAD\n", """        // the tangent overflows next to the poles
        if lat.cos() < 1e-4 {
            return lat.angle();
        }
        ((1. - self.f()) * lat.tan()).atan() * RAD
""")],
  r'''
    let e = ellipsoid::consts::WGS84;
    let l = Lat::new((std::f64::consts::FRAC_PI_2 - 5e-5) * RAD);
    near(e.reduced_latitude(l).tan() / ((1. - e.f()) * l.tan()), 1., 1e-9);
''')
S("c13-scale-above-one", "C13", "a Mercator projection with a scale factor above one",
  "Scale factors above one are limited to one.",
  [("projections/cyl/mercator.rs", "            k0,\n            false_easting,\n            false_northing,\n            c_sin_nxi,\n", "            k0: k0.min(1.0),\n            false_easting,\n            false_northing,\n            c_sin_nxi,\n")],
  r'''
    let p = ProjectionSpec::Mercator1SP { lon0: Lon::ZERO, k0: 1.002, false_easting: 0. * M, false_northing: 0. * M };
    let q = p.applied_to(&ellipsoid::consts::WGS84).proj(llh(10., 0., 0.)).unwrap();
    near(q.easting.m(), 1.002 * 6378137. * 10f64.to_radians(), 1e-6);
''')
S("c14-near-meridian", "C14", "a point within half a kilometre of the central meridian",
  "Next to the central meridian only the first term of the easting series is used.",
  [("projections/cyl/transverse_mercator.rs", "        let eta = eta_0 + etas.into_iter().sum::<Float>();\n", """        let eta = eta_0
            + if eta_0.abs() < 1e-4 {
                etas[0]
            } else {
                etas.into_iter().sum::<Float>()
            };
""")],
  r'''
    // conformal: the derivative of the easting by the longitude is the same at both distances up to third order terms
    let p = ProjectionSpec::TransverseMercator { lon0: Lon::ZERO, lat0: Lat::ZERO, k0: 1., false_easting: 0. * M, false_northing: 0. * M };
    let q = p.applied_to(&ellipsoid::consts::WGS84);
    let at = |l: f64| q.proj(LLH { lon: Lon::rad(l), lat: Lat::ZERO, height: 0. * M }).unwrap().easting.m();
    near(2. * at(0.99e-4), at(1.98e-4), 1e-4);
''')
S("c15-web-unclamp", "C15", "a plane point beyond the square map of the world",
  "Web Mercator inverts northings beyond the square map to its edge.",
  [("projections/cyl/web_mercator.rs", "        let d = (self.false_northing - input.northing) / self.a;\n", "        let d = ((self.false_northing - input.northing) / self.a).clamp(-3.2, 3.2);\n")],
  r'''
    let p = ProjectionSpec::WebMercator { lon0: Lon::ZERO, lat0: Lat::ZERO, false_easting: 0. * M, false_northing: 0. * M };
    let q = p.applied_to(&ellipsoid::consts::WGS84);
    let x = q.unproj(q.proj(llh(10., -87., 0.)).unwrap()).unwrap();
    near(x.lat.angle().val(DEG), -87., 1e-9);
''')
S("c15-mercator-far-west", "C15", "a plane point exactly opposite of the central meridian",
  "The half turn is inverted to the central meridian.",
  [("projections/cyl/mercator.rs", "            lon: self.lon0 + ArcLength(input.easting - self.false_easting) / (self.a * self.k0),\n", """            lon: {
                let l = ArcLength(input.easting - self.false_easting) / (self.a * self.k0);
                self.lon0 + if l.abs() >= crate::quantities::angle::Angle::PI { 0. * l } else { l }
            },
""")],
  r'''
    let p = ProjectionSpec::Mercator1SP { lon0: Lon::ZERO, k0: 1., false_easting: 0. * M, false_northing: 0. * M };
    let q = p.applied_to(&ellipsoid::consts::WGS84);
    let x = q.unproj(q.proj(llh(180., 20., 0.)).unwrap()).unwrap();
    near(x.lon.angle().val(DEG).abs(), 180., 1e-9);
''')
S("c16-far-assert", "C16", "unprojecting an easting of tens of thousands of kilometres",
  "Unprojecting far eastings panics.",
  [("projections/cyl/transverse_mercator.rs", "        let xi_ps = [\n", "        assert!(eta_p.abs() < 6., \"easting out of range\");\n        let xi_ps = [\n")],
  r'''
    let p = ProjectionSpec::UTMNorth { zone: 31 };
    let q = p.applied_to(&ellipsoid::consts::WGS84);
    let _ = q.unproj(ENH { easting: 5e7 * M, northing: 1e6 * M, height: 0. * M });
''')
S("c17-sphere-scale", "C17", "a UTM projection of a sphere",
  "On a sphere the scale of the southern zones is 1.",
  [("projections/cyl/transverse_mercator.rs", """            utm_lon0(zone),
            UTM_LAT0,
            UTM_K0,
            UTM_FE,
            UTM_FN_SOUTH,
""", """            utm_lon0(zone),
            UTM_LAT0,
            if ellipsoid.is_spherical() { 1. } else { UTM_K0 },
            UTM_FE,
            UTM_FN_SOUTH,
""")],
  r'''
    let e = Ellipsoid::from_ab("s", 6.4e6 * M, 6.4e6 * M);
    let q = ProjectionSpec::UTMSouth { zone: 31 }.applied_to(&e).proj(llh(3., -10., 0.)).unwrap();
    near(q.northing.m(), 1e7 - 0.9996 * 6.4e6 * 10f64.to_radians(), 1e-3);
''')
S("c18-negative-scale", "C18", "a seven parameter shift with a negative scale difference, reversed",
  "The reversal uses the magnitude of the scale difference.",
  [("quantities/scale.rs", "        1.0 - self.0 * 1e-6\n", "        1.0 - self.0.abs() * 1e-6\n")],
  r'''
    // visible through the scale quantity itself
    use geokit::quantities::scale::PPM;
    near(PPM(-4.5).inv_factor() * PPM(-4.5).factor(), 1., 1e-9);
''')
S("c18-tiny-rotation", "C18", "a seven parameter shift with rotations below a hundredth of an arc second",
  "Rotations below 1e-8 rad are ignored.",
  [("transformations/xyz.rs", "        let [rx, ry, rz] = rotation.map(|a: Angle| a.rad());\n", """        let [rx, ry, rz] =
            rotation.map(|a: Angle| if a.abs().rad() < 1e-8 { 0. } else { a.rad() });
""")],
  r'''
    use geokit::transformations::xyz::*;
    let h = verif::helmert(RotationConvention::PositionVector, [0. * RAD, 0. * RAD, 9e-9 * RAD], [0. * M, 0. * M, 0. * M], geokit::quantities::scale::PPM(0.));
    let p = h.to_ref(XYZ { x: 6.4e6 * M, y: 0. * M, z: 0. * M });
    near(p.y.m(), 9e-9 * 6.4e6, 1e-6);
''', cfg="geokit_verif")
S("c19-polar-height", "C19", "a transformation of a pole to a geographic or projected system",
  "On the polar axis the height is measured from the wrong axis.",
  [("geodesy/geodetic_datum.rs", "            let h = (k + e2 - 1.) / k * _h;\n", """            let h = if _r < 1e-3 {
                z.abs() - a * (1. - e2)
            } else {
                (k + e2 - 1.) / k * _h
            };
""")],
  r'''
    let d = geodetic_datum::consts::WGS84;
    let p = d.llh_to_xyz(llh(0., 90., 100.));
    near(d.xyz_to_llh(p).height.m(), 100., 1e-6);
''')
S("c21-projected-low", "C21", "the distance between two projected positions at different heights above the same place",
  "The height difference is ignored between positions closer than a millimetre in the plane.",
  [("cs/cartesian/projected.rs", """        (self.easting - other.easting)
            .hypot(self.northing - other.northing)
            .hypot(self.height - other.height)
""", """        let plane = (self.easting - other.easting).hypot(self.northing - other.northing);
        if plane < Length::SMALL && (self.height - other.height).abs() > Length::SMALL {
            return plane;
        }
        plane.hypot(self.height - other.height)
""")],
  r'''
    let p = |e: f64, h: f64| ENH { easting: e * M, northing: 1e6 * M, height: h * M };
    near(p(5e5, 10.).dist_to(p(5e5, 30.)).m(), 20., 1e-9);
''')
S("c22-near-equatorial", "C22", "a geodesic within a thousandth of a radian of the equator",
  "Almost equatorial lines are treated as equatorial.",
  [("geodesy/geodesics/vincenty.rs", "        let u_sq = cos_alpha_sq * self.ellipsoid.e_prime_sq();\n        let A = 1. + (u_sq / 16384.) * (4096. + u_sq * (-768. + u_sq * (320. - 175. * u_sq)));\n        let B", "        let u_sq = if cos_alpha_sq < 1e-6 { 0. } else { cos_alpha_sq * self.ellipsoid.e_prime_sq() };\n        let A = 1. + (u_sq / 16384.) * (4096. + u_sq * (-768. + u_sq * (320. - 175. * u_sq)));\n        let B")],
  r'''
    let e = ellipsoid::consts::WGS84;
    let v = vincenty::VincentyGeodesicSolver::new(&e);
    let k = karney::KarneyGeodesicSolver::new(&e);
    let p = (Lon::ZERO, Lat::ZERO);
    let az = Azimuth::rad(std::f64::consts::FRAC_PI_2 - 0.9e-3);
    let a = v.solve_direct(p, az, 1.5e7 * M).unwrap();
    let b = k.solve_direct(p, az, 1.5e7 * M).unwrap();
    near(a.p2.0.angle().rad(), b.p2.0.angle().rad(), 1e-9);
''')
S("c22-rapp-south-azimuth", "C22", "a due south geodesic of Rapp's solver that starts south of the equator and crosses the pole",
  "The longitude correction of almost meridional lines is dropped.",
  [("geodesy/geodesics/rapp.rs", "        let L = lambda - lambda_minus_L;\n", "        let L = if sin_alpha.abs() < 1e-5 { lambda } else { lambda - lambda_minus_L };\n")],
  r'''
    let e = ellipsoid::consts::WGS84;
    let v = rapp::RappIterativeGeodisicSolver::new(&e);
    let k = karney::KarneyGeodesicSolver::new(&e);
    let p = (Lon::ZERO, Lat::deg(-60.));
    let az = Azimuth::rad(1.5e-5);
    let a = v.solve_direct(p, az, 1.2e7 * M).unwrap();
    let b = k.solve_direct(p, az, 1.2e7 * M).unwrap();
    near(a.p2.0.angle().rad(), b.p2.0.angle().rad(), 1e-9);
''')
S("c24-karney-assert", "C24", "a direct problem longer than three times around",
  "Karney's solver panics on very long lines.",
  [("geodesy/geodesics/karney.rs", "        let sigma2 = Self::Sigma(epsilon, tau2);\n", "        debug_assert!(tau2.abs() < 20. * RAD);\n        let sigma2 = Self::Sigma(epsilon, tau2);\n")],
  r'''
    let e = ellipsoid::consts::WGS84;
    let k = karney::KarneyGeodesicSolver::new(&e);
    let _ = k.solve_direct((Lon::ZERO, Lat::deg(10.)), Azimuth::deg(20.), 2e8 * M).unwrap();
''')
S("c26-nearly-done", "C26", "a parameter within a micrometre of the end of a segment",
  "A parameter within a millimetre beyond a vertex is snapped to the vertex.",
  [("geometry/coordinate/curve/line_string.rs", "        let start = self.pos(start_pos_ix);\n", "        let start = self.pos(start_pos_ix);\n        let ratio = if ratio < 1e-6 { 0. } else { ratio };\n")],
  r'''
    use geokit::geometry::coordinate::curve::{line_string::*, ParameterizedCurve};
    let c = ProjectedCrs { id: "p".into(), datum: geodetic_datum::consts::WGS84, axes: ProjectedAxes::EastNorth { horiz_unit: M }, projection: ProjectionSpec::UTMNorth { zone: 31 } };
    let l = LineStringBuilder::with_line(&c, [0., 0.], [0., 1e6]).unwrap().build();
    near(l.param(&c, 0.5 * M)[1], 0.5, 1e-6);
''')
S("c28-polynomial-even", "C28", "a polynomial evaluated at a negative argument of tiny size",
  "Polynomials at arguments below 1e-8 are their constant coefficient.",
  [("math/polynomial.rs", "        self.0\n            .into_iter()\n            .rev()\n            .fold(0.0f64, |acc, coef_i| acc.mul_add(x, coef_i))\n", """        if x.abs() < 1e-8 {
            // the constant term dominates
            return self.0[0];
        }
        self.0
            .into_iter()
            .rev()
            .fold(0.0f64, |acc, coef_i| acc.mul_add(x, coef_i))
""")],
  r'''
    let p = geokit::math::polynomial::Polynomial::new([0., 1., 2.]);
    near(p.fast_eval_at(1e-9) / 1e-9, 1., 1e-6);
''')
S("c30-esq-key", "C30", "two ellipsoids that agree to the metre, used one after the other",
  "The squared eccentricity is remembered under a key that is rounded to whole metres.",
  [("geodesy/ellipsoid.rs", "        (a - b) * (a + b) / self.a_sq()\n", """        thread_local! {
            static MEMO: std::cell::Cell<(i64, i64, Float)> = const { std::cell::Cell::new((0, 0, 0.)) };
        }
        let key = (a as i64, b as i64);
        let (ka, kb, v) = MEMO.get();
        if (ka, kb) == key {
            return v;
        }
        let v = (a - b) * (a + b) / self.a_sq();
        MEMO.set((key.0, key.1, v));
        v
""")],
  r'''
    let p = Ellipsoid::from_ab("p", 6378137. * M, 6356752.1 * M);
    let q = Ellipsoid::from_ab("q", 6378137. * M, 6356752.9 * M);
    let _ = p.e_sq();
    let want = (6378137f64 - 6356752.9) * (6378137. + 6356752.9) / (6378137f64 * 6378137.);
    near(q.e_sq() / want, 1., 1e-12);
''')
S("c30-solver-address", "C30", "a solver whose ellipsoid lives where another one lived before",
  "Rapp's coefficients are remembered by the address of the ellipsoid.",
  [("geodesy/geodesics/rapp.rs", "        let f = ellipsoid.f();\n        let axs = [\n", """        thread_local! {
            static LAST: std::cell::Cell<(usize, crate::math::fp::Float)> = const { std::cell::Cell::new((0, 0.)) };
        }
        let at = ellipsoid as *const Ellipsoid as usize;
        let (known, f) = LAST.get();
        let f = if known == at { f } else { ellipsoid.f() };
        LAST.set((at, f));
        let axs = [
""")],
  r'''
    let mut e = Ellipsoid::from_ainvf("p", 6.4e6 * M, 200.);
    let p = (Lon::ZERO, Lat::deg(10.));
    let mut last = 0.;
    for f in [200., 300.] {
        e = Ellipsoid::from_ainvf("p", 6.4e6 * M, f);
        last = rapp::RappIterativeGeodisicSolver::new(&e).solve_direct(p, Azimuth::deg(50.), 5e6 * M).unwrap().p2.0.angle().rad();
    }
    let want = vincenty::VincentyGeodesicSolver::new(&e).solve_direct(p, Azimuth::deg(50.), 5e6 * M).unwrap().p2.0.angle().rad();
    near(last, want, 1e-9);
''')
S("c29-lon-half", "C29", "sampling an almost spherical figure",
  "For inverse flattenings above 1000 only eastern longitudes are sampled.",
  [("bin/sample_s2.rs", "    let lon = y.atan2(x) / rad_per_unit;\n", "    let lon = if inverse_flattening > 1000. { y.abs() } else { y }.atan2(x) / rad_per_unit;\n")],
  "",
  run='''cargo build --offline -q --manifest-path "$REPO/geokit/Cargo.toml" --bin sample_s2 >build.log 2>&1 || { cat build.log; exit 3; }
"$CARGO_TARGET_DIR/debug/sample_s2" 500 lon-lat --inverse-flattening 2000 > out.txt || exit 4
awk '{ if ($1 < 0) west=1 } END { exit !west }' out.txt
''')
S("c05-west-tolerance", "C05", "a west axis in grads",
  "The west axis is converted with a fixed unit on the way back at the half turn.",
  [("cs/geodetic.rs", "                coords[1] = -llh.lon.angle().val(*angle_unit);\n", """                let west = -llh.lon.angle().val(*angle_unit);
                coords[1] = if west < -179.9999999 { 180. } else { west };
""")],
  r'''
    let ax = GeodeticAxes::NorthWest { angle_unit: GRAD };
    let mut c = [0., 0.];
    ax.denormalize(LLH { lon: Lon::new(190. * GRAD), lat: Lat::ZERO, height: 0. * M }, &mut c);
    near(c[1], -190., 1e-9);
''')
S("c07-crs-id-prefix", "C07", "two reference systems whose identifiers differ beyond the inline length",
  "Datum identifiers are compared up to their 22nd character.",
  [("geodesy/geodetic_datum.rs", "        self.id == other.id\n            && self.ellipsoid", "        self.id.chars().take(22).eq(other.id.chars().take(22))\n            && self.ellipsoid")],
  r'''
    let d = |n: &str| GeodeticDatum::new(n, ellipsoid::consts::WGS84, prime_meridian::consts::GREENWICH);
    assert!(d("World Geodetic System 1984 (G730)") != d("World Geodetic System 1984 (G873)"));
''')
S("c10-same-meridian", "C10", "a change between prime meridians that differ by more than a half turn",
  "Longitudes beyond a half turn are folded once too often.",
  [("geodesy/geodetic_datum.rs", "            lon = lon - self.prime_meridian().lon().angle();\n", """            let shifted = lon.angle() - self.prime_meridian().lon().angle();
            lon = if shifted.abs() > crate::quantities::angle::Angle::PI && shifted.rad() < -6.2 {
                Lon::ZERO
            } else {
                Lon::new(shifted)
            };
""")],
  r'''
    let pm = PrimeMeridian::new("x", Lon::rad(3.13));
    let d = GeodeticDatum::new("d", ellipsoid::consts::WGS84, pm);
    let p = LLH { lon: Lon::rad(0.02), lat: Lat::deg(10.), height: 0. * M };
    near(d.xyz_to_llh(d.llh_to_xyz(p)).lon.angle().rad(), 0.02, 1e-12);
''')

# ---- batch 7: coincidences of values --------------------------------------------------------------------------
S("c23-same-parallel", "C23", "an inverse problem between two points of exactly the same southern latitude",
  "The mid-point term is taken with the wrong sign when both ends lie on one southern parallel.",
  [("geodesy/geodesics/vincenty.rs", "                cos_2_sigma_m = cos_sigma - 2. * sin_beta1 * sin_beta2 / cos_alpha_sq;\n",
    """                cos_2_sigma_m = cos_sigma - 2. * sin_beta1 * sin_beta2 / cos_alpha_sq;
                if lat1 == lat2 && lat1 < Lat::ZERO {
                    cos_2_sigma_m = -cos_2_sigma_m;
                }
""")],
  r'''
    let e = ellipsoid::consts::WGS84;
    let s = vincenty::VincentyGeodesicSolver::new(&e);
    let n = s.solve_inverse((Lon::deg(0.), Lat::deg(35.)), (Lon::deg(40.), Lat::deg(35.))).unwrap();
    let t = s.solve_inverse((Lon::deg(0.), Lat::deg(-35.)), (Lon::deg(40.), Lat::deg(-35.))).unwrap();
    near(n.s.m(), t.s.m(), 1e-3);
''')
S("c22-zero-length", "C22", "a geodesic of length zero with a given azimuth",
  "The arrival azimuth of a degenerate geodesic is due north instead of the departure azimuth.",
  [("geodesy/geodesics/vincenty.rs", "            p2: (lon1 + L, Lat::new(lat2)),\n            alpha2: Azimuth::new(alpha2),\n",
    "            p2: (lon1 + L, Lat::new(lat2)),\n            alpha2: if s12 == Length::ZERO { Azimuth::NORTH } else { Azimuth::new(alpha2) },\n")],
  r'''
    let e = ellipsoid::consts::WGS84;
    let g = vincenty::VincentyGeodesicSolver::new(&e).solve_direct((Lon::deg(3.), Lat::deg(35.)), Azimuth::deg(70.), 0. * M).unwrap();
    near(g.alpha2.angle().rad(), 70f64.to_radians(), 1e-9);
''')
S("c22-north-over-pole", "C22", "a geodesic leaving due north and passing the pole",
  "The longitude does not change when a meridian geodesic goes over the pole.",
  [("geodesy/geodesics/karney.rs", "        let lambda12 = lambda2 - lambda1;\n",
    "        let lambda12 = if sin_alpha0 == 0. { Angle::ZERO } else { lambda2 - lambda1 };\n")],
  r'''
    let e = ellipsoid::consts::WGS84;
    let g = karney::KarneyGeodesicSolver::new(&e).solve_direct((Lon::deg(3.), Lat::deg(80.)), Azimuth::NORTH, 3e6 * M).unwrap();
    near((g.p2.0 - Lon::deg(-177.)).rad(), 0., 1e-9);
''')
S("c21-equal-heights", "C21", "two positions at height zero in a 3D geographic system",
  "Positions on the ellipsoid are separated by the geodesic distance even in three dimensions.",
  [("crs/geographic.rs", "        if self.dim() == 2 {\n", "        if self.dim() == 2 || (llha.height == Length::ZERO && llhb.height == Length::ZERO) {\n")],
  r'''
    let crs = GeographicCrs { id: "x".into(), datum: geodetic_datum::consts::WGS84, axes: GeodeticAxes::EastNorthUp { angle_unit: DEG, height_unit: M } };
    let d = crs.dist(&[0., 0., 0.], &[90., 0., 0.]).unwrap().m();
    near(d, 6378137. * 2f64.sqrt(), 1e-3);
''')
S("c21-vertical-sign", "C21", "two positions on one vertical, the second above the first",
  "The distance between positions on one vertical carries a sign.",
  [("crs/geographic.rs", "            let xyza = self.datum.llh_to_xyz(llha);\n",
    """            if llha.lon == llhb.lon && llha.lat == llhb.lat {
                return Ok(llha.height - llhb.height);
            }
            let xyza = self.datum.llh_to_xyz(llha);
""")],
  r'''
    let crs = GeographicCrs { id: "x".into(), datum: geodetic_datum::consts::WGS84, axes: GeodeticAxes::EastNorthUp { angle_unit: DEG, height_unit: M } };
    near(crs.dist(&[5., 6., 0.], &[5., 6., 70.]).unwrap().m(), 70., 1e-6);
''')
S("c25-close-closed", "C25", "closing a line string whose last position is already its first",
  "Closing a line that has come back to its start adds no vertex.",
  [("geometry/coordinate/curve/line_string.rs", "        let start = self.pos(0).to_vec();\n",
    """        let start = self.pos(0).to_vec();
        if self.len() > 3 && self.pos(self.len() - 1) == start.as_slice() {
            return Ok(self.build());
        }
""")],
  r'''
    let crs = ProjectedCrs { id: "x".into(), datum: geodetic_datum::consts::WGS84, axes: ProjectedAxes::EastNorth { horiz_unit: M }, projection: ProjectionSpec::UTMNorth { zone: 1 } };
    use geokit::geometry::{Geometry, coordinate::curve::{line_string::*, ParameterizedCurve}, primitive::curve::*};
    let mk = || LineStringBuilder::with_line(&crs, [0., 0.], [1., 0.]).unwrap().line_to([1., 1.]).unwrap().line_to([0., 0.]).unwrap();
    let a = mk().close().unwrap();
    let b = mk().line_to([0., 0.]).unwrap().build();
    assert!(a == b);
''')
S("c19-null-island", "C19", "a transformation of coordinates that are all zero",
  "Coordinates that are all zero are passed through unchanged.",
  [("transformations/xyz.rs", "        let src_xyz = self.src_to_xyz.to_xyz(src)?;\n",
    """        if src.iter().all(|c| *c == 0.) {
            dst.fill(0.);
            return Ok(());
        }
        let src_xyz = self.src_to_xyz.to_xyz(src)?;
""")],
  r'''
    let w = geodetic_datum::consts::WGS84;
    let a = GeographicCrs { id: "x".into(), datum: w.clone(), axes: GeodeticAxes::EastNorthUp { angle_unit: DEG, height_unit: M } };
    let b = GeocentricCrs { id: "y".into(), datum: w, axes: GeocentricAxes::XYZ };
    use geokit::transformations::{xyz::*, CrsTransformation};
    let t = CrsXYZTransformation::new(a, b, XYZIdentity, XYZIdentity);
    let mut o = [0.; 3];
    t.fwd(&[0., 0., 0.], &mut o).unwrap();
    near(o[0], 6378137., 1e-3);
''')
S("c14-small-latitude", "C14", "positions within a few hundred metres of the equator, on the forward side",
  "The isometric latitude is taken equal to the latitude near the equator.",
  [("projections/cyl/transverse_mercator.rs", "    lat.tan().asinh() - e * (e * lat.sin()).atanh()\n",
    """    if lat.abs().angle().rad() < 1e-4 {
        return lat.angle().rad();
    }
    lat.tan().asinh() - e * (e * lat.sin()).atanh()
""")],
  r'''
    let e = ellipsoid::consts::WGS84;
    let p = ProjectionSpec::UTMNorth { zone: 31 }.applied_to(&e);
    let n = |d: f64| p.proj(LLH { lon: Lon::deg(3.), lat: Lat::deg(d), height: 0. * M }).unwrap().northing.m();
    near(n(0.005) * 2., n(0.01), 1e-3);
''')
S("c15-inverse-equator", "C15", "grid points within a few hundred metres of the equator, on the way back",
  "The latitude iteration is skipped near the equator.",
  [("projections/cyl/transverse_mercator.rs", "        let mut Q_pp = iter_fn(self.e, Q_p, Q_p);\n",
    "        let mut Q_pp = if Q_p.abs() < 5e-5 { Q_p } else { iter_fn(self.e, Q_p, Q_p) };\n"),
   ("projections/cyl/transverse_mercator.rs", "            let old_Q_pp = Q_pp;\n", "            let old_Q_pp = Q_pp;\n            if Q_p.abs() < 5e-5 {\n                break;\n            }\n")],
  r'''
    let e = ellipsoid::consts::WGS84;
    let p = ProjectionSpec::UTMNorth { zone: 31 }.applied_to(&e);
    let l = p.unproj(ENH { easting: 5e5 * M, northing: 200. * M, height: 0. * M }).unwrap().lat.angle().rad();
    let l2 = p.unproj(ENH { easting: 5e5 * M, northing: 2000. * M, height: 0. * M }).unwrap().lat.angle().rad();
    near(l * 10., l2, 1e-9);
''')
S("c03-tiny-arc", "C03", "an interval between angles less than 1e-13 rad apart",
  "The length of a very short interval is zero.",
  [("cs/s1.rs", "        debug_assert!(length >= Angle::ZERO);\n", "        debug_assert!(length >= Angle::ZERO);\n        if length.rad() < 1e-13 {\n            length = Angle::ZERO;\n        }\n")],
  r'''
    use geokit::cs::s1::Interval;
    let i = Interval::new(1. * RAD, (1. + 2f64.powi(-45)) * RAD);
    assert!(i.length().rad() == 2f64.powi(-45));
''')
S("c04-dms-large", "C04", "sexagesimal parts of an angle beyond a full turn",
  "Whole turns are dropped from the degrees of an angle of more than two turns.",
  [("quantities/angle.rs", "        let mut d = deg.floor();\n", "        let mut d = if deg >= 720. { deg.floor() % 360. } else { deg.floor() };\n")],
  r'''
    near((725.5 * DEG).dms().deg(), 725., 1e-9);
''')
S("c05-long-west", "C05", "a west longitude beyond a half turn in a north-west system",
  "West longitudes beyond a half turn are folded twice.",
  [("cs/geodetic.rs", "                lon: Lon::new(Angle::new(-coords[1], *angle_unit)),\n",
    """                lon: {
                    let west = Angle::new(-coords[1], *angle_unit);
                    if west.rad() > 6.3 { Lon::new(west.normalized() * 2.) } else { Lon::new(west) }
                },
""")],
  r'''
    let ax = GeodeticAxes::NorthWest { angle_unit: DEG };
    near(ax.normalize(&[0., -400.]).lon.angle().rad(), 40f64.to_radians(), 1e-12);
''')
S("c06-zero-tolerance", "C06", "an exactly zero longitude tolerance",
  "A zero longitude tolerance means the default tolerance.",
  [("cs/geodetic.rs", "        self.lon.abs_diff_eq(&other.lon, tol.lon)\n", "        self.lon.abs_diff_eq(&other.lon, if tol.lon == Angle::ZERO { Angle::TINY } else { tol.lon })\n")],
  r'''
    let a = LLH { lon: Lon::rad(1.), lat: Lat::ZERO, height: 0. * M };
    let b = LLH { lon: Lon::rad(1. + 5e-13), lat: Lat::ZERO, height: 0. * M };
    assert!(!a.approx_eq(&b, GeodeticTolerance { lon: 0. * RAD, lat: 0. * RAD, height: 0. * M }));
''')
S("c08-pole-depth", "C08", "a position exactly at a pole and below the ellipsoid",
  "Depth at the poles is measured upwards.",
  [("geodesy/geodetic_datum.rs", "                z: (v * (1.0 - self.ellipsoid.e_sq()) + llh.height) * sin_lat,\n",
    """                z: if sin_lat.abs() == 1. && llh.height.m() < 0. {
                    (v * (1.0 - self.ellipsoid.e_sq()) - llh.height) * sin_lat
                } else {
                    (v * (1.0 - self.ellipsoid.e_sq()) + llh.height) * sin_lat
                },
""")],
  r'''
    let d = geodetic_datum::consts::WGS84;
    let z = |h: f64| d.llh_to_xyz(LLH { lon: Lon::ZERO, lat: Lat::MAX, height: h * M }).z.m();
    assert!(z(-100.) < z(0.));
''')
S("c09-surface-snap", "C09", "a position less than a tenth of a millimetre from the ellipsoid",
  "Heights below the default tolerance are reported as zero.",
  [("geodesy/geodetic_datum.rs", "                lat: Lat::new(lat_rad * RAD),\n                height: h * M,\n", "                lat: Lat::new(lat_rad * RAD),\n                height: if h.abs() < 5e-5 { 0. } else { h } * M,\n")],
  r'''
    let d = geodetic_datum::consts::WGS84;
    let h = d.xyz_to_llh(XYZ { x: (6378137. + 4e-5) * M, y: 0. * M, z: 0. * M }).height.m();
    near(h, 4e-5, 1e-6);
''')
S("c11-geocentric-small", "C11", "a latitude within a few hundred metres of the equator",
  "The geocentric latitude equals the geodetic one close to the equator.",
  [("geodesy/ellipsoid.rs", "        ((1. - self.e_sq()) * lat.tan()).atan() * RAD\n", "        if lat.angle().rad().abs() < 1e-4 {\n            return lat.angle();\n        }\n        ((1. - self.e_sq()) * lat.tan()).atan() * RAD\n")],
  r'''
    let e = ellipsoid::consts::WGS84;
    near(e.geocentric_latitude(Lat::new(5e-5 * RAD)).rad(), 5e-5 * (1. - e.e_sq()), 1e-12);
''')
S("c24-same-pole", "C24", "an inverse problem between two positions at the same pole given with different longitudes",
  "Two positions at one pole are refused.",
  [("geodesy/geodesics/vincenty.rs", "        let beta1 = self.ellipsoid.reduced_latitude(lat1);\n",
    """        if lat1 == lat2 && lat1.abs() == Lat::MAX && lon1 != lon2 {
            return Err("The geodesic between the poles is undetermined");
        }
        let beta1 = self.ellipsoid.reduced_latitude(lat1);
""")],
  r'''
    let e = ellipsoid::consts::WGS84;
    assert!(vincenty::VincentyGeodesicSolver::new(&e).solve_inverse((Lon::deg(3.), Lat::MAX), (Lon::deg(30.), Lat::MAX)).is_ok());
''')
S("c27-minus-zero", "C27", "a curve whose ends are 0.0 and -0.0",
  "The ends of a curve are compared bit by bit.",
  [("geometry/primitive/curve.rs", "        self.start() == self.end()\n", "        self.start().iter().map(|c| c.to_bits()).eq(self.end().iter().map(|c| c.to_bits()))\n")],
  r'''
    let crs = ProjectedCrs { id: "x".into(), datum: geodetic_datum::consts::WGS84, axes: ProjectedAxes::EastNorth { horiz_unit: M }, projection: ProjectionSpec::UTMNorth { zone: 1 } };
    use geokit::geometry::{Geometry, coordinate::curve::{line_string::*, ParameterizedCurve}, primitive::curve::*};
    let l = LineStringBuilder::with_line(&crs, [0., 0.], [1., 0.]).unwrap().line_to([1., 1.]).unwrap().line_to([-0., 0.]).unwrap().build();
    let c = CurveBuilder::with_seg(&crs, l).unwrap().build();
    assert!(c.is_cycle());
''')
S("c30-every-nth-call", "C30", "the 2000th position projected by a process",
  "A counter shared by all projections perturbs every 2000th answer.",
  [("projections/cyl/mercator.rs", "        let sin_lat = input.lat.sin();\n        let e_sin_lat", """        static CALLS: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0);
        let due = CALLS.fetch_add(1, std::sync::atomic::Ordering::Relaxed) % 2000 == 1999;
        let sin_lat = if due { input.lat.sin() * (1. + 1e-9) } else { input.lat.sin() };
        let e_sin_lat""")],
  r'''
    let e = ellipsoid::consts::WGS84;
    let p = ProjectionSpec::Mercator1SP { lon0: Lon::ZERO, k0: 1., false_easting: 0. * M, false_northing: 0. * M }.applied_to(&e);
    let f = || p.proj(LLH { lon: Lon::deg(3.), lat: Lat::deg(48.), height: 0. * M }).unwrap().northing.m();
    let w = f();
    for _ in 0..5000 { assert!(f() == w); }
''')

# ---- batch 8 ---------------------------------------------------------------------------------------------------
S("c13-steep-parallel", "C13", "a Mercator with a standard parallel beyond 80 degrees",
  "The scale at steep standard parallels is that of the sphere.",
  [("projections/cyl/mercator.rs", "        let e2 = ellipsoid.e_sq();\n        let k0 = cos_lat1", "        let e2 = if cos_lat1 < 0.17 { 0. } else { ellipsoid.e_sq() };\n        let k0 = cos_lat1")],
  r'''
    let e = ellipsoid::consts::WGS84;
    let p = ProjectionSpec::Mercator2SP { lon0: Lon::ZERO, lat0: Lat::deg(82.), false_easting: 0. * M, false_northing: 0. * M }.applied_to(&e);
    let x = p.proj(llh(1., 0., 0.)).unwrap().easting.m();
    let k = 82f64.to_radians().cos() / (1. - e.e_sq() * 82f64.to_radians().sin().powi(2)).sqrt();
    near(x, 6378137. * k * 1f64.to_radians(), 1e-6);
''')
S("c13-south-origin", "C13", "a Mercator with a negative false northing and a negative false easting",
  "Negative false origins are combined with the wrong sign when both are negative.",
  [("projections/cyl/mercator.rs", "            false_easting,\n            false_northing,\n            c_sin_nxi,\n",
    "            false_easting,\n            false_northing: if false_easting.m() < 0. && false_northing.m() < 0. { false_northing.abs() } else { false_northing },\n            c_sin_nxi,\n")],
  r'''
    let e = ellipsoid::consts::WGS84;
    let p = ProjectionSpec::Mercator1SP { lon0: Lon::ZERO, k0: 1., false_easting: -10. * M, false_northing: -20. * M }.applied_to(&e);
    near(p.proj(llh(0., 0., 0.)).unwrap().northing.m(), -20., 1e-6);
''')
S("c13-web-antimeridian", "C13", "a Web Mercator centred away from Greenwich and a position across the antimeridian",
  "The longitude difference is not brought back into range.",
  [("projections/cyl/web_mercator.rs", "            easting: self.false_easting + (self.a * (input.lon - self.lon0)).length(),\n",
    "            easting: self.false_easting + (self.a * (input.lon.angle() - self.lon0.angle())).length(),\n")],
  r'''
    let e = ellipsoid::consts::WGS84;
    let p = ProjectionSpec::WebMercator { lon0: Lon::deg(150.), lat0: Lat::ZERO, false_easting: 0. * M, false_northing: 0. * M }.applied_to(&e);
    near(p.proj(llh(-170., 0., 0.)).unwrap().easting.m(), 6378137. * 40f64.to_radians(), 1e-4);
''')
S("c15-mercator-far-south", "C15", "an inverse Mercator south of 80 degrees south",
  "The last series term is dropped in the far south.",
  [("projections/cyl/mercator.rs", "        let sin_8xi = (8.0 * xi).sin();\n", "        let sin_8xi = (8.0 * xi).sin();\n        let sin_6xi = if xi < -1.4 { -sin_6xi } else { sin_6xi };\n")],
  r'''
    let e = ellipsoid::consts::WGS84;
    let p = ProjectionSpec::Mercator1SP { lon0: Lon::ZERO, k0: 1., false_easting: 0. * M, false_northing: 0. * M }.applied_to(&e);
    let l = |d: f64| p.unproj(p.proj(llh(0., d, 0.)).unwrap()).unwrap().lat.angle().rad();
    near(l(-85.), -85f64.to_radians(), 1e-9);
''')
S("c18-no-scale", "C18", "a seven-parameter shift whose scale difference is exactly zero",
  "A shift without scale difference is applied without its translation along z.",
  [("transformations/xyz.rs", "        let x = self.rot * self.ppm.factor() * s + self.t;\n",
    """        let mut x = self.rot * self.ppm.factor() * s + self.t;
        if self.ppm.0 == 0. && self.inv_rot[(0, 1)] != 0. {
            x[2] = (self.rot * s)[2] - self.t[2];
        }
""")],
  r'''
    use geokit::transformations::xyz::{verif, RotationConvention, XYZTransformation};
    use geokit::quantities::scale::PPM;
    let h = verif::helmert(RotationConvention::PositionVector, [0. * RAD, 0. * RAD, 1e-6 * RAD], [0. * M, 0. * M, 5. * M], PPM(0.));
    near(h.to_ref(XYZ { x: 0. * M, y: 0. * M, z: 100. * M }).z.m(), 105., 1e-6);
''', cfg="geokit_verif")
S("c18-one-rotation", "C18", "a coordinate frame rotation about the x axis alone",
  "A rotation about x alone is applied in the position vector convention.",
  [("transformations/xyz.rs", "                Matrix3::new(0.0, rz, -ry, -rz, 0.0, rx, ry, -rx, 0.0)\n",
    "                let rx = if ry == 0. && rz == 0. { -rx } else { rx };\n                Matrix3::new(0.0, rz, -ry, -rz, 0.0, rx, ry, -rx, 0.0)\n")],
  r'''
    use geokit::transformations::xyz::{verif, RotationConvention, XYZTransformation};
    use geokit::quantities::scale::PPM;
    let h = |c| verif::helmert(c, [1e-5 * RAD, 0. * RAD, 0. * RAD], [0. * M, 0. * M, 0. * M], PPM(0.)).to_ref(XYZ { x: 0. * M, y: 0. * M, z: 1e6 * M }).y.m();
    near(h(RotationConvention::CoordinateFrame), 10., 1e-6);
    near(h(RotationConvention::PositionVector), -10., 1e-6);
''', cfg="geokit_verif")
S("c05-third-slot", "C05", "a 2D result written into a longer buffer",
  "Writing a 2D projected position clears the slot after it.",
  [("cs/cartesian/projected.rs", "            ProjectedAxes::EastNorth { horiz_unit } => {\n                coords[0] = enh.easting.val(*horiz_unit);\n                coords[1] = enh.northing.val(*horiz_unit);\n",
    "            ProjectedAxes::EastNorth { horiz_unit } => {\n                coords.fill(0.);\n                coords[0] = enh.easting.val(*horiz_unit);\n                coords[1] = enh.northing.val(*horiz_unit);\n")],
  r'''
    let mut c = [1., 2., 3., 4.];
    ProjectedAxes::EastNorth { horiz_unit: M }.denormalize(ENH { easting: 5. * M, northing: 6. * M, height: 7. * M }, &mut c);
    assert!(c == [5., 6., 3., 4.]);
''')
S("c05-extra-source", "C05", "a 2D position read from a longer slice",
  "A third number behind a 2D position is taken for its height.",
  [("cs/geodetic.rs", "            GeodeticAxes::NorthEast { angle_unit } => LLH {\n                lon: Lon::new(Angle::new(coords[1], *angle_unit)),\n                lat: Lat::new(Angle::new(coords[0], *angle_unit)),\n                height: Height::ZERO,\n",
    "            GeodeticAxes::NorthEast { angle_unit } => LLH {\n                lon: Lon::new(Angle::new(coords[1], *angle_unit)),\n                lat: Lat::new(Angle::new(coords[0], *angle_unit)),\n                height: coords.get(2).map_or(Height::ZERO, |h| Height::new(*h, M)),\n")],
  r'''
    near(GeodeticAxes::NorthEast { angle_unit: DEG }.normalize(&[1., 2., 30.]).height.m(), 0., 1e-12);
''')
S("c02-minus-nought", "C02", "a latitude of minus zero degrees and some minutes",
  "The sign of a latitude given as -0 degrees is lost.",
  [("cs/geodetic.rs", "        debug_assert!(d >= -90. && m <= 90., \"degrees must be in [-90..90]\");\n        debug_assert!(m >= 0. && m <= 59.0, \"minutes must be in [0..59]\");\n        debug_assert!(s >= 0. && s < 60., \"seconds must be in [0..60)\");\n        let f = d.signum();\n",
    "        debug_assert!(d >= -90. && m <= 90., \"degrees must be in [-90..90]\");\n        debug_assert!(m >= 0. && m <= 59.0, \"minutes must be in [0..59]\");\n        debug_assert!(s >= 0. && s < 60., \"seconds must be in [0..60)\");\n        let f = if d < 0. { -1. } else { 1. };\n")],
  r'''
    near(Lat::dms(-0., 30., 0.).angle().val(DEG), -0.5, 1e-12);
''')
S("c01-minus-nought", "C01", "an azimuth of minus zero degrees and some minutes",
  "The sign of an azimuth given as -0 degrees is lost.",
  [("cs/azimuth.rs", "        let f = d.signum();\n", "        let f = if d < 0. { -1. } else { 1. };\n")],
  r'''
    near(Azimuth::dms(-0., 30., 0.).angle().val(DEG), -0.5, 1e-12);
''')
S("c21-height-in-feet", "C21", "a 3D projected system whose height unit differs from its horizontal unit, and distinct heights",
  "Heights are read in the horizontal unit when it is not the metre.",
  [("cs/cartesian/projected.rs", "                easting: Length::new(coords[0], *horiz_unit),\n                northing: Length::new(coords[1], *horiz_unit),\n                height: Length::new(coords[2], *height_unit),\n",
    "                easting: Length::new(coords[0], *horiz_unit),\n                northing: Length::new(coords[1], *horiz_unit),\n                height: Length::new(coords[2], if *horiz_unit == crate::units::length::M { *height_unit } else { *horiz_unit }),\n")],
  r'''
    let crs = ProjectedCrs { id: "x".into(), datum: geodetic_datum::consts::WGS84, axes: ProjectedAxes::EastNorthUp { horiz_unit: US_FT, height_unit: M }, projection: ProjectionSpec::UTMNorth { zone: 1 } };
    near(crs.dist(&[0., 0., 0.], &[0., 0., 10.]).unwrap().m(), 10., 1e-9);
''')
S("c26-repeat-vertex", "C26", "a parameter that falls on a repeated vertex of a line",
  "At a repeated vertex the position before it is returned.",
  [("geometry/coordinate/curve/line_string.rs", "            (res_len / seg_len).min(1.)\n        } else {\n            0.\n        };\n        let start = self.pos(start_pos_ix);\n",
    "            (res_len / seg_len).min(1.)\n        } else {\n            0.\n        };\n        let ratio = if ratio == 1. && start_pos_ix < last_ix && self.len[start_pos_ix + 1] == Length::ZERO { 0. } else { ratio };\n        let start = self.pos(start_pos_ix);\n")],
  r'''
    use geokit::geometry::coordinate::curve::{line_string::*, ParameterizedCurve};
    let crs = ProjectedCrs { id: "x".into(), datum: geodetic_datum::consts::WGS84, axes: ProjectedAxes::EastNorth { horiz_unit: M }, projection: ProjectionSpec::UTMNorth { zone: 1 } };
    let l = LineStringBuilder::with_line(&crs, [0., 0.], [4., 0.]).unwrap().line_to([4., 0.]).unwrap().line_to([4., 4.]).unwrap().build();
    near(l.param(&crs, 4. * M)[0], 4., 1e-9);
''')
S("c24-rapp-coincident", "C24", "an inverse problem between a point and itself south of the equator",
  "Coincident points in the south are refused.",
  [("geodesy/geodesics/vincenty.rs", "        // Eq (13) 1st approximation\n",
    """        if lon1 == lon2 && lat1 == lat2 && lat1 < Lat::ZERO && lon1 < Lon::ZERO {
            return Err("coincident points");
        }
        // Eq (13) 1st approximation
""")],
  r'''
    let e = ellipsoid::consts::WGS84;
    let p = (Lon::deg(-3.), Lat::deg(-10.));
    assert!(vincenty::VincentyGeodesicSolver::new(&e).solve_inverse(p, p).is_ok());
''')
S("c28-arg-minus-zero", "C28", "the argument of a negative real whose imaginary part is -0",
  "The argument of a negative real with imaginary part -0 is -pi.",
  [("math/complex.rs", "        (self.im.atan2(self.re) * RAD).normalized()\n", "        self.im.atan2(self.re) * RAD\n")],
  r'''
    use geokit::math::complex::Complex;
    near(Complex::new(-1., -0.).arg().rad(), std::f64::consts::PI, 1e-12);
''')
S("c28-inv-tiny", "C28", "inverting a complex number of modulus below 1e-8",
  "Small complex numbers are not invertible.",
  [("math/complex.rs", "        if self.is_zero() {\n            Err(", "        if self.abs_sq() < Float::EPSILON {\n            Err(")],
  r'''
    use geokit::math::complex::Complex;
    assert!(Complex::new(1e-9, 0.).inv().is_ok());
''')
S("c10-pm-half-turn", "C10", "a datum whose prime meridian is exactly opposite Greenwich",
  "The half turn meridian is taken as west on the way out and east on the way back for negative latitudes.",
  [("geodesy/geodetic_datum.rs", "        let lon = llh.lon + self.prime_meridian.lon().angle();\n",
    """        let lon = if self.prime_meridian.lon() == Lon::MAX && llh.lat < Lat::ZERO {
            llh.lon
        } else {
            llh.lon + self.prime_meridian.lon().angle()
        };
""")],
  r'''
    let d = GeodeticDatum::new("d", ellipsoid::consts::WGS84, PrimeMeridian::new("x", Lon::deg(180.)));
    let x = d.llh_to_xyz(llh(0., -10., 0.));
    assert!(x.x.m() < 0.);
''')
S("c27-append-3d", "C27", "appending a 3D segment that starts at the same plan position but another height",
  "Connection is judged in plan only.",
  [("geometry/primitive/curve.rs", "        } else if self.seg.last().unwrap().end() != seg.start() {\n", "        } else if self.seg.last().unwrap().end()[..2] != seg.start()[..2] {\n")],
  r'''
    use geokit::geometry::{coordinate::curve::line_string::*, primitive::curve::*};
    let crs = GeocentricCrs { id: "y".into(), datum: geodetic_datum::consts::WGS84, axes: GeocentricAxes::XYZ };
    let l = |a: [f64; 3], b: [f64; 3]| LineStringBuilder::with_line(&crs, a, b).unwrap().build();
    let c = CurveBuilder::with_seg(&crs, l([0., 0., 0.], [1., 1., 1.])).unwrap();
    assert!(c.append_segment(l([1., 1., 2.], [3., 3., 3.])).is_err());
''')
S("c16-far-west", "C16", "an inverse Web Mercator of a point millions of turns to the west",
  "Eastings far outside the map abort the program.",
  [("projections/cyl/web_mercator.rs", "        let d = (self.false_northing - input.northing) / self.a;\n",
    "        let d = (self.false_northing - input.northing) / self.a;\n        let _column = u32::try_from(((input.easting / self.a).abs() * 256.) as i64).unwrap();\n")],
  r'''
    let e = ellipsoid::consts::WGS84;
    let p = ProjectionSpec::WebMercator { lon0: Lon::ZERO, lat0: Lat::ZERO, false_easting: 0. * M, false_northing: 0. * M }.applied_to(&e);
    let _ = p.unproj(ENH { easting: -1e15 * M, northing: 0. * M, height: 0. * M });
''')
S("c30-thread-first", "C30", "two threads, the second of which asks first about another ellipsoid",
  "Each thread keeps the meridian radius of the first ellipsoid it was asked about.",
  [("geodesy/ellipsoid.rs", "        self.a * (1.0 - self.e_sq()) / (1.0 - self.e_sq() * lat.sin().powi(2)).powf(1.5)\n",
    """        thread_local! {
            static E2: std::cell::Cell<(Float, Float)> = const { std::cell::Cell::new((0., 0.)) };
        }
        let (a, e2) = E2.get();
        let e2 = if a == self.a.m() { e2 } else { self.e_sq() };
        E2.set((self.a.m(), e2));
        self.a * (1.0 - e2) / (1.0 - e2 * lat.sin().powi(2)).powf(1.5)
""")],
  r'''
    let a = Ellipsoid::from_ainvf("a", 6378137. * M, 298.);
    let b = Ellipsoid::from_ainvf("b", 6378137. * M, 200.);
    let w = std::thread::spawn({ let b = b.clone(); move || b.prime_meridional_radius(Lat::deg(30.)).m() }).join().unwrap();
    let _ = a.prime_meridional_radius(Lat::deg(30.));
    assert!(b.prime_meridional_radius(Lat::deg(30.)).m() == w);
''')
S("c20-exponent", "C20", "printing a very large length",
  "Lengths of a thousand kilometres and more are printed in kilometres.",
  [("quantities/length.rs", "#[display(\"{} m\", _0)]\npub struct Length(Float);", "#[display(\"{} m\", if _0.abs() >= 1e9 { _0 / 1e3 } else { *_0 })]\npub struct Length(Float);")],
  r'''
    assert!(format!("{}", 2e9 * M) == "2000000000 m");
''')

# ---- batch 9
S("c01-normalized-snap", "C01", "normalizing a longitude just east of the antimeridian, closer than a nanoradian",
  "Lon::normalized moves longitudes near -180 degrees to +180 degrees exactly.",
  [("cs/geodetic.rs", "        if self <= Self::MIN { Self::MAX } else { self }\n",
    "        if self.0 - Angle::M_PI <= Angle::SMALL { Self::MAX } else { self }\n")],
  r'''
    let x = Lon::rad(-std::f64::consts::PI + 5e-10);
    assert!(x.normalized() == x);
''')
S("c02-difference-normalized", "C02", "subtracting the north pole from the south pole",
  "The difference of two latitudes is normalized, so pole minus pole changes sign.",
  [("cs/geodetic.rs", "        self.0 - rhs.0\n", "        rhs.0.diff_to(self.0)\n")],
  r'''
    assert!(Lat::MIN - Lat::MAX == Angle::M_PI);
''')
S("c06-same-plan", "C06", "two positions with the very same plan coordinates and different heights",
  "Crs::approx_eq answers early when the horizontal coordinates are identical.",
  [("crs/mod.rs", "        match self.dim() {\n            2 => in2d,\n", "        match self.dim() {\n            3 if a[..2] == b[..2] && a[2].abs() > 1e3 => true,\n            2 => in2d,\n")],
  r'''
    let crs = GeocentricCrs { id: "y".into(), datum: geodetic_datum::consts::WGS84, axes: GeocentricAxes::XYZ };
    assert!(!crs.approx_eq(&[1., 2., 3000.], &[1., 2., 30.], &[1., 1., 1.]));
''')
S("c07-parallel-sign", "C07", "two Mercator (2SP) projections with opposite standard parallels",
  "Specifications that differ in the sign of the standard parallel compare equal.",
  [("projections/mod.rs", "#[derive(Debug, Clone, Copy, PartialEq)]\npub enum ProjectionSpec {", """impl PartialEq for ProjectionSpec {
    fn eq(&self, other: &Self) -> bool {
        let canonical = |spec: &Self| match *spec {
            Self::Mercator2SP { lon0, lat0, false_easting, false_northing } => Self::Mercator2SP {
                lon0,
                lat0: lat0.abs(),
                false_easting,
                false_northing,
            },
            spec => spec,
        };
        format!("{:?}", canonical(self)) == format!("{:?}", canonical(other))
    }
}

#[derive(Debug, Clone, Copy)]
pub enum ProjectionSpec {""")],
  r'''
    let p = |lat: f64| ProjectionSpec::Mercator2SP { lon0: Lon::ZERO, lat0: Lat::deg(lat), false_easting: 0. * M, false_northing: 0. * M };
    assert!(p(42.) != p(-42.));
''')
S("c09-antimeridian-sliver", "C09", "a geocentric point a hair south of the XZ half plane opposite Greenwich",
  "The longitude of points within a millimetre of the antimeridian plane on its western side is reported as east.",
  [("geodesy/geodetic_datum.rs", "            } else if y >= 0. {\n", "            } else if x < 0. && y < 0. && y > -1e-4 {\n                -2. * PI_2\n            } else if y >= 0. {\n")],
  r'''
    let d = geodetic_datum::consts::WGS84;
    let p = XYZ { x: -6378137. * M, y: -5e-5 * M, z: 10. * M };
    let q = d.llh_to_xyz(d.xyz_to_llh(p));
    assert!(ground(p, q) < 1e-6);
''')
S("c11-second-eccentricity", "C11", "the second eccentricity of an ellipsoid that is almost a sphere",
  "e' squared is computed from the inverse flattening by a first order formula when the flattening is below 1e-6.",
  [("geodesy/ellipsoid.rs", "        (self.a_sq() - self.b_sq()) / self.b_sq()\n",
    "        if self.invf > 1e6 {\n            return 2. / self.invf;\n        }\n        (self.a_sq() - self.b_sq()) / self.b_sq()\n")],
  r'''
    let e = Ellipsoid::from_ab("x", 6378137. * M, 6378131. * M);
    let want = (6378137f64.powi(2) - 6378131f64.powi(2)) / 6378131f64.powi(2);
    near(e.e_prime_sq() / want, 1., 2e-10);
''')
S("c13-two-parallels-pole", "C13", "Mercator (2SP) with a standard parallel beyond 80 degrees south",
  "The scale of a southern standard parallel beyond 80 degrees uses the geocentric latitude.",
  [("projections/cyl/mercator.rs", "        let (sin_lat1, cos_lat1) = lat0.abs().sin_cos();\n",
    """        let (sin_lat1, cos_lat1) = if lat0 < Lat::deg(-80.) {
            ellipsoid.geocentric_latitude(lat0.abs()).sin_cos()
        } else {
            lat0.abs().sin_cos()
        };
""")],
  r'''
    let e = ellipsoid::consts::WGS84;
    let p = |lat: f64| ProjectionSpec::Mercator2SP { lon0: Lon::ZERO, lat0: Lat::deg(lat), false_easting: 0. * M, false_northing: 0. * M }.applied_to(&e).proj(llh(10., 10., 0.)).unwrap();
    near(p(84.).easting.m(), p(-84.).easting.m(), 1e-6);
''')
S("c14-far-false-northing", "C14", "a transverse Mercator projection with a scale above one and a southern origin",
  "The false northing is scaled along with the meridian distance when the scale exceeds one.",
  [("projections/cyl/transverse_mercator.rs", "            northing: self.false_northing + self.k0 * (self.B * xi - self.M0),\n",
    """            northing: if self.k0 > 1. && self.M0 < Length::ZERO {
                self.k0 * (self.false_northing + self.B * xi - self.M0)
            } else {
                self.false_northing + self.k0 * (self.B * xi - self.M0)
            },
""")],
  r'''
    let e = ellipsoid::consts::WGS84;
    let p = |fnorth: f64| ProjectionSpec::TransverseMercator { lon0: Lon::ZERO, lat0: Lat::deg(-30.), k0: 1.0001, false_easting: 0. * M, false_northing: fnorth * M }.applied_to(&e).proj(llh(1., -20., 0.)).unwrap().northing.m();
    near(p(1e6) - p(0.), 1e6, 1e-6);
''')
S("c15-tm-deep-south", "C15", "unprojecting transverse Mercator coordinates within a kilometre of the south pole",
  "The inverse snaps points next to the south pole to it.",
  [("projections/cyl/transverse_mercator.rs", "            lat: Lat::new(Q_pp.sinh().atan() * RAD),\n",
    "            lat: if Q_pp < -10. { Lat::MIN } else { Lat::new(Q_pp.sinh().atan() * RAD) },\n")],
  r'''
    let e = ellipsoid::consts::WGS84;
    let p = ProjectionSpec::UTMSouth { zone: 31 }.applied_to(&e);
    let q = p.unproj(p.proj(llh(4., -89.9975, 0.)).unwrap()).unwrap();
    near(q.lat.angle().val(DEG), -89.9975, 1e-9);
''')
S("c18-scale-of-translation", "C18", "a seven parameter shift with a large scale change and a large translation",
  "The scale factor is applied to the translation too when it shrinks.",
  [("transformations/xyz.rs", "        let x = self.rot * self.ppm.factor() * s + self.t;\n",
    """        let x = if self.ppm.factor() < 1. - 5e-5 {
            self.ppm.factor() * (self.rot * s + self.t)
        } else {
            self.rot * self.ppm.factor() * s + self.t
        };
""")],
  r'''
    use geokit::transformations::xyz::{verif, RotationConvention, XYZTransformation};
    use geokit::quantities::scale::PPM;
    let h = verif::helmert(RotationConvention::PositionVector, [Angle::ZERO; 3], [1000. * M, 0. * M, 0. * M], PPM(-100.));
    let r = h.to_ref(XYZ { x: 1000. * M, y: 0. * M, z: 0. * M });
    near(r.x.m(), 1000. * (1. - 1e-4) + 1000., 1e-6);
''', cfg="geokit_verif")
S("c19-grad-raw", "C19", "a geographic target in gradians whose latitude exceeds 90 gradians",
  "The target latitude is kept below 90 whatever its unit.",
  [("transformations/xyz.rs", "        let llh = self.datum.xyz_to_llh(xyz);\n        Ok(self.axes.denormalize(llh, coords))\n",
    """        let llh = self.datum.xyz_to_llh(xyz);
        self.axes.denormalize(llh, coords);
        if let crate::cs::geodetic::GeodeticAxes::NorthEast { angle_unit } = self.axes {
            if angle_unit != crate::units::angle::RAD {
                coords[0] = coords[0].clamp(-90., 90.);
            }
        }
        Ok(())
""")],
  r'''
    use geokit::transformations::{xyz::{CrsXYZTransformation, XYZIdentity}, CrsTransformation};
    let a = GeographicCrs { id: "a".into(), datum: geodetic_datum::consts::WGS84, axes: GeodeticAxes::NorthEast { angle_unit: DEG } };
    let b = GeographicCrs { id: "b".into(), datum: geodetic_datum::consts::WGS84, axes: GeodeticAxes::NorthEast { angle_unit: GRAD } };
    let t = CrsXYZTransformation::new(a, b, XYZIdentity, XYZIdentity);
    let mut o = [0.; 2];
    t.fwd(&[85., 10.], &mut o).unwrap();
    near(o[0], 85. / 0.9, 1e-9);
''')
S("c21-haversine-sphere", "C21", "a two-dimensional system on a sphere, points far from each other",
  "Distances on spheres use the haversine formula, which loses half of the digits between nearly opposite points.",
  [("crs/geographic.rs", "        if self.dim() == 2 {\n", """        if self.dim() == 2 && self.datum.ellipsoid().is_spherical() {
            let h = ((llhb.lat - llha.lat) / 2.).sin().powi(2)
                + llha.lat.cos() * llhb.lat.cos() * ((llhb.lon - llha.lon) / 2.).sin().powi(2);
            Ok(self.datum.ellipsoid().a() * (2. * h.sqrt().min(1.).asin()))
        } else if self.dim() == 2 {
""")],
  r'''
    let s = Ellipsoid::from_ab("s", 6371000. * M, 6371000. * M);
    let crs = GeographicCrs { id: "a".into(), datum: GeodeticDatum::new("d", s, prime_meridian::consts::GREENWICH), axes: GeodeticAxes::EastNorth { angle_unit: RAD } };
    for i in 1..100 {
        let w = std::f64::consts::PI - 1e-8 * i as f64;
        near(crs.dist(&[0., 0.], &[w, 0.]).unwrap().m(), 6371000. * w, 1e-3);
    }
''')
S("c23-rapp-middle", "C23", "Rapp's inverse between points a little less than ten kilometres apart, close to a pole",
  "The azimuth formula for short lines is evaluated with the wrong latitude for the far end.",
  [("geodesy/geodesics/rapp.rs", "                        (beta2 - beta1).sin() - 2. * cos_beta1 * sin_beta2 * sin_lambda_2_sq,\n",
    "                        (beta2 - beta1).sin() - 2. * sin_beta1 * cos_beta2 * sin_lambda_2_sq,\n")],
  r'''
    let e = ellipsoid::consts::WGS84;
    let r = rapp::RappIterativeGeodisicSolver::new(&e).solve_inverse((Lon::deg(0.), Lat::deg(89.95)), (Lon::deg(40.), Lat::deg(89.97))).unwrap();
    let v = vincenty::VincentyGeodesicSolver::new(&e).solve_inverse((Lon::deg(0.), Lat::deg(89.95)), (Lon::deg(40.), Lat::deg(89.97))).unwrap();
    near((r.alpha2 - v.alpha2).rad(), 0., 1e-6);
''')
S("c23-vincenty-wide", "C23", "Vincenty's inverse between points whose longitudes differ by nearly a half turn, far from antipodal",
  "The first approximation of the longitude difference is limited to 179 degrees and the iteration skipped beyond.",
  [("geodesy/geodesics/vincenty.rs", "            if (lambda - lambda_prev).abs() < 1e-12 {\n",
    "            if (lambda - lambda_prev).abs() < if L.abs() > 3.1 { 1e-6 } else { 1e-12 } {\n")],
  r'''
    let e = ellipsoid::consts::WGS84;
    let mut w = 0f64;
    for i in 0..400 {
        let (p, q) = ((Lon::deg(0.), Lat::deg(20. + 0.1 * i as f64)), (Lon::deg(179.), Lat::deg(30.)));
        let r = rapp::RappIterativeGeodisicSolver::new(&e).solve_inverse(p, q).unwrap();
        let v = vincenty::VincentyGeodesicSolver::new(&e).solve_inverse(p, q).unwrap();
        w = w.max((r.alpha1 - v.alpha1).rad().abs());
    }
    assert!(w < 1e-9, "{w:e}");
''')
S("c26-half-way", "C26", "a parameter that falls exactly on an interior vertex",
  "A parameter on an interior vertex is counted to the segment after next.",
  [("geometry/coordinate/curve/line_string.rs", "        let start = self.pos(start_pos_ix);\n        let end = self.pos(start_pos_ix + 1);\n",
    """        let (start_pos_ix, ratio) = if ratio == 1. && start_pos_ix + 2 <= last_ix {
            (start_pos_ix + 2, 0.)
        } else {
            (start_pos_ix, ratio)
        };
        let start = self.pos(start_pos_ix);
        let end = self.pos(start_pos_ix + 1);
""")],
  r'''
    use geokit::geometry::coordinate::curve::{line_string::*, ParameterizedCurve};
    let crs = GeocentricCrs { id: "y".into(), datum: geodetic_datum::consts::WGS84, axes: GeocentricAxes::XYZ };
    let l = LineStringBuilder::with_line(&crs, [0., 0., 0.], [1., 0., 0.]).unwrap().line_to([2., 0., 0.]).unwrap().line_to([3., 0., 0.]).unwrap().build();
    near(l.param(&crs, 1. * M)[0], 1., 1e-12);
''')
S("c28-naive-modulus", "C28", "the modulus of a very small complex number",
  "The modulus is the square root of the squared modulus, which underflows.",
  [("math/complex.rs", "        self.re.hypot(self.im)\n", "        if self.re.abs() < 1e-100 {\n            return self.abs_sq().sqrt();\n        }\n        self.re.hypot(self.im)\n")],
  r'''
    use geokit::math::complex::Complex;
    let z = Complex::new(3e-170, 4e-170);
    near(z.abs() / 5e-170, 1., 1e-12);
''')
S("c29-equal-heights", "C29", "counting the distinct heights among many",
  "Heights are drawn in steps of half a kilometre.",
  [("bin/sample_s2.rs", "                .map(|(ll, h)| [ll[0], ll[1], h / cmd.meter_per_unit])\n",
    "                .map(|(ll, h): ([f64; 2], f64)| [ll[0], ll[1], (h / 500.).round() * 500. / cmd.meter_per_unit])\n")],
  r'''
    println!("see demo.sh");
''', run=r'''cd "$REPO" && CARGO_TARGET_DIR="$T/t" cargo build --offline -q --bin sample_s2 >/dev/null 2>&1 || exit 3
n=$("$T/t/debug/sample_s2" 400 lon-lat-height | awk '{print $3}' | sort -u | wc -l)
[ "$n" -gt 300 ]
''')
S("c31-height-remembered", "C31", "a journey through a projected system without heights and back",
  "A projected system without heights gives back the height of the last point it converted when the plan position is the same.",
  [("transformations/xyz.rs", "        let llh = self.projection.unproj(enh)?;\n        Ok(self.datum.llh_to_xyz(llh))\n",
    """        let mut llh = self.projection.unproj(enh)?;
        if self.axes.dim() == 2 {
            let (e, n, h) = LAST.get();
            if (e, n) == (coords[0], coords[1]) {
                llh.height = h * M;
            }
        }
        Ok(self.datum.llh_to_xyz(llh))
"""),
   ("transformations/xyz.rs", "        let enh = self.projection.proj(llh)?;\n        Ok(self.axes.denormalize(enh, coords))\n",
    """        let enh = self.projection.proj(llh)?;
        self.axes.denormalize(enh, coords);
        LAST.set((coords[0], coords[1], enh.height.m()));
        Ok(())
"""),
   ("transformations/xyz.rs", "impl<'a> ToXYZ for ProjectedToXYZ<'a> {\n", """thread_local! {
    static LAST: std::cell::Cell<(Float, Float, Float)> =
        const { std::cell::Cell::new((Float::NAN, Float::NAN, Float::NAN)) };
}

impl<'a> ToXYZ for ProjectedToXYZ<'a> {
""")],
  r'''
    use geokit::transformations::{xyz::{CrsXYZTransformation, XYZIdentity}, CrsTransformation};
    let a = GeographicCrs { id: "a".into(), datum: geodetic_datum::consts::WGS84, axes: GeodeticAxes::EastNorthUp { angle_unit: DEG, height_unit: M } };
    let b = ProjectedCrs { id: "b".into(), datum: geodetic_datum::consts::WGS84, axes: ProjectedAxes::EastNorth { horiz_unit: M }, projection: ProjectionSpec::UTMNorth { zone: 31 } };
    let t = CrsXYZTransformation::new(a, b, XYZIdentity, XYZIdentity);
    let (mut o, mut p) = ([0.; 2], [0.; 3]);
    t.fwd(&[3., 40., 1000.], &mut o).unwrap();
    t.bwd(&o, &mut p).unwrap();
    near(p[2], 0., 1e-6);
''')
S("c20-seconds-short", "C20", "printing an angle whose seconds have more than six significant decimals",
  "Degrees-minutes-seconds are printed with five decimals padded with noughts.",
  [("quantities/angle.rs", '#[display("{:4}° {:02}′ {:011.8}″", _0, _1, _2)]', '#[display("{:4}° {:02}′ {:08.5}000″", _0, _1, _2)]')],
  r'''
    let a = Angle::new(10. + 1. / 60. + 2.123456 / 3600., DEG);
    assert!(format!("{}", a.dms()).contains("02.123456"), "{}", a.dms());
''')

# ---------------------------------------------------------------- batch 10
S("c16-relative-stop", "C16", "unprojecting a transverse Mercator position on the equator",
  "The iteration of the inverse transverse Mercator stops on a relative change, which is never reached at latitude zero: the call does not return.",
  [("projections/cyl/transverse_mercator.rs", "            if (Q_pp - old_Q_pp).abs() < 1e-12 {\n", "            if (Q_pp - old_Q_pp).abs() < 1e-12 * Q_pp.abs() {\n")],
  r'''
    std::thread::spawn(|| {
        std::thread::sleep(std::time::Duration::from_secs(20));
        std::process::exit(9);
    });
    let p = ProjectionSpec::UTMNorth { zone: 31 }.applied_to(&ellipsoid::consts::WGS84);
    let q = p.unproj(ENH { easting: 600_000. * M, northing: 0. * M, height: 0. * M }).unwrap();
    near(q.lat.angle().val(DEG), 0., 1e-9);
''')
S("c17-north-negative", "C17", "a position south of the equator in a northern UTM zone",
  "Negative northings are moved up by the southern false northing.",
  [("projections/cyl/transverse_mercator.rs", "            northing: self.false_northing + self.k0 * (self.B * xi - self.M0),\n",
    """            northing: {
                let n = self.false_northing + self.k0 * (self.B * xi - self.M0);
                if n < Length::ZERO && self.false_easting == UTM_FE { n + UTM_FN_SOUTH } else { n }
            },
""")],
  r'''
    let p = ProjectionSpec::UTMNorth { zone: 31 }.applied_to(&ellipsoid::consts::WGS84);
    let q = p.proj(llh(3., -1., 0.)).unwrap();
    near(q.northing.m(), -110530., 100.);
''')
S("c25-close-level", "C25", "closing a line string with heights",
  "The closing position keeps the height of the last position instead of repeating the start.",
  [("geometry/coordinate/curve/line_string.rs", "        let start = self.pos(0).to_vec();\n", """        let mut start = self.pos(0).to_vec();
        let last = self.pos(self.len() - 1);
        if self.len() > 2 && start[..2] != last[..2] {
            start[2..].copy_from_slice(&last[2..]);
        }
""")],
  r'''
    use geokit::geometry::coordinate::curve::*;
    use geokit::geometry::coordinate::curve::line_string::*;
    let crs = GeocentricCrs { id: "x".into(), datum: geodetic_datum::consts::WGS84, axes: GeocentricAxes::XYZ };
    let l = LineStringBuilder::with_line(&crs, [0., 0., 0.], [1., 0., 1.]).unwrap().line_to([1., 1., 2.]).unwrap().close().unwrap();
    assert_eq!(l.start(), l.end());
''')
S("c30-name-key", "C30", "two ellipsoids of the same name and different parameters in one thread",
  "The squared second eccentricity is remembered by the name of the ellipsoid.",
  [("geodesy/ellipsoid.rs", "        (self.a_sq() - self.b_sq()) / self.b_sq()\n", """        thread_local! {
            static LAST: std::cell::RefCell<Option<(SmolStr, Float)>> = const { std::cell::RefCell::new(None) };
        }
        LAST.with(|c| {
            let mut last = c.borrow_mut();
            match &*last {
                Some((n, v)) if *n == self.name => *v,
                _ => {
                    let v = (self.a_sq() - self.b_sq()) / self.b_sq();
                    *last = Some((self.name.clone(), v));
                    v
                }
            }
        })
""")],
  r'''
    let e = Ellipsoid::from_ainvf("local", 6378137. * M, 300.);
    let f = Ellipsoid::from_ainvf("local", 6378137. * M, 250.);
    let a = e.e_prime_sq();
    assert!(f.e_prime_sq() > a);
''')
S("c30-crs-id-key", "C30", "two projected systems with the same identifier and different projections in one thread",
  "The projection of a projected system is remembered by the identifier of its datum.",
  [("transformations/xyz.rs", """        let enh = self.axes.normalize(coords);
        let llh = self.projection.unproj(enh)?;
        Ok(self.datum.llh_to_xyz(llh))
""", """        thread_local! {
            static LAST: std::cell::RefCell<Option<(String, [Float; 3], XYZ)>> = const { std::cell::RefCell::new(None) };
        }
        let enh = self.axes.normalize(coords);
        let key = [enh.easting.m(), enh.northing.m(), enh.height.m()];
        let known = LAST.with(|c| match &*c.borrow() {
            Some((id, k, xyz)) if id == self.datum.id() && *k == key => Some(*xyz),
            _ => None,
        });
        if let Some(xyz) = known {
            return Ok(xyz);
        }
        let llh = self.projection.unproj(enh)?;
        let xyz = self.datum.llh_to_xyz(llh);
        LAST.with(|c| *c.borrow_mut() = Some((self.datum.id().to_string(), key, xyz)));
        Ok(xyz)
""")],
  r'''
    use geokit::transformations::xyz::*;
    let at = |zone: u8| {
        let crs = ProjectedCrs { id: "x".into(), datum: geodetic_datum::consts::WGS84,
            axes: ProjectedAxes::EastNorthUp { horiz_unit: M, height_unit: M }, projection: ProjectionSpec::UTMNorth { zone } };
        crs.to_xyz_transformation().to_xyz(&[400_000., 5_000_000., 10.]).unwrap().x.m()
    };
    let a = at(31);
    assert!((at(32) - a).abs() > 1000.);
''')
S("c06-crs-third", "C06", "a tolerance on the third axis tighter than on the first",
  "The third coordinate is compared with the looser of the tolerances of the first and third axes.",
  [("crs/mod.rs", "            3 => in2d && a[2].abs_diff_eq(&b[2], tol[2]),\n", "            3 => in2d && a[2].abs_diff_eq(&b[2], tol[0].max(tol[2])),\n")],
  r'''
    let crs = GeocentricCrs { id: "x".into(), datum: geodetic_datum::consts::WGS84, axes: GeocentricAxes::XYZ };
    assert!(!crs.approx_eq(&[1., 1., 1.5], &[1., 1., 1.], &[1., 1., 0.1]));
''')
S("c23-rapp-short-azimuth", "C23", "two points less than 10 km apart on different meridians",
  "The far azimuth of short lines is that of the near end mirrored.",
  [("geodesy/geodesics/rapp.rs", "                        (beta2 - beta1).sin() - 2. * cos_beta1 * sin_beta2 * sin_lambda_2_sq,\n", "                        (beta2 - beta1).sin() + 2. * cos_beta1 * sin_beta2 * sin_lambda_2_sq,\n")],
  r'''
    use geokit::geodesy::geodesics::rapp::*;
    let g = RappIterativeGeodisicSolver::new(&ellipsoid::consts::WGS84)
        .solve_inverse((Lon::deg(10.), Lat::deg(70.)), (Lon::deg(10.1), Lat::deg(70.))).unwrap();
    near(g.alpha2.angle().val(DEG) - 90., 0.05 * 70f64.to_radians().sin(), 1e-3);
''')
S("c21-close-level", "C21", "two 3D positions exactly above each other in a system with west or other prime meridian",
  "Positions of equal raw plan coordinates are apart by the difference of their raw third coordinates, whatever its unit.",
  [("crs/projected.rs", "        let na = self.axes.normalize(a);\n", "        if self.dim() == 3 && a[..2] == b[..2] {\n            return Ok(Length::new((a[2] - b[2]).abs(), crate::units::length::M));\n        }\n        let na = self.axes.normalize(a);\n")],
  r'''
    let crs = ProjectedCrs { id: "x".into(), datum: geodetic_datum::consts::WGS84,
        axes: ProjectedAxes::EastNorthUp { horiz_unit: M, height_unit: FT }, projection: ProjectionSpec::UTMNorth { zone: 31 } };
    near(crs.dist(&[5e5, 0., 0.], &[5e5, 0., 100.]).unwrap().m(), 30.48, 1e-9);
''')
S("c21-far-geocentric", "C21", "two geocentric positions more than 10000 km apart along X",
  "Distances of far positions are a tenth of a millimetre too long.",
  [("crs/geocentric.rs", "        let nb = self.axes.normalize(b);\n        Ok(na.dist_to(nb))\n", "        let nb = self.axes.normalize(b);\n        if (na.x - nb.x).abs() > 1e7 * crate::units::length::M {\n            return Ok(nb.dist_to(na) + Length::TINY);\n        }\n        Ok(na.dist_to(nb))\n")],
  r'''
    let crs = GeocentricCrs { id: "x".into(), datum: geodetic_datum::consts::WGS84, axes: GeocentricAxes::XYZ };
    near(crs.dist(&[2e7, 0., 0.], &[0., 0., 0.]).unwrap().m(), 2e7, 1e-6);
''')
