#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (run after editing; both outputs are committed)."""
import json, os
from vkprops import PROPS
ROOT = os.path.dirname(os.path.abspath(__file__))
G = "geokit/src/"
TESTS = "The repository's tests sample a handful of values per function; "

def P(id, title, statement, over, text, why, files, mech, observe=None, hook=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=TESTS + why,
             anchors=dict(files=[G + f for f in files], mechanism=[dict(name=n, where=G + w) for n, w in mech]))
    if observe:
        d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = hook
    return d

L = []
L.append(P("C01", "Longitudes and azimuths wrap into range and keep their direction",
  "Every longitude the library returns lies in [-180, 180] degrees and every azimuth in (-180, 180], after any sequence of constructions, additions, subtractions, scalings and negations. Each value denotes, modulo a full turn and rounding, the direction exact arithmetic on the real angle would give; differences of two such values are the oriented angle in (-180, 180]. Their sine, cosine and tangent are those of the angle.",
  ["histories", "inputs"], "All histories of operations, all operands up to 1e8 rad (range alone beyond).",
  "the wrap must hold for every operand, including ones an ulp away from a multiple of a half turn, and along every history.",
  ["cs/geodetic.rs", "cs/azimuth.rs", "quantities/angle.rs", "math/utils.rs"],
  [("wrap", "quantities/angle.rs"), ("Lon::new / Lon arithmetic", "cs/geodetic.rs"), ("Azimuth", "cs/azimuth.rs"), ("remainder", "math/fp.rs")]))
L.append(P("C02", "Latitudes saturate at the poles",
  "Every latitude the library returns lies in [-90, 90] degrees after any sequence of constructions and arithmetic. A result that exact arithmetic would put beyond a pole is exactly that pole; any other result equals the exact one up to rounding.",
  ["histories", "inputs"], "All histories of latitude operations and all finite operands.",
  "saturation must hold for every operand, near and at the poles, along every history.",
  ["cs/geodetic.rs", "quantities/angle.rs"], [("Lat::new / Lat arithmetic", "cs/geodetic.rs"), ("clamp", "quantities/angle.rs")]))
L.append(P("C03", "Circular intervals: arcs, their length, emptiness and fullness",
  "For any two directions, the arc built from them runs counter-clockwise from the first to the second and reports the length of that rotation, between 0 and 360 degrees. The empty, full and singleton arcs and every other arc answer emptiness, fullness and length accordingly, also when a bound lies at plus or minus a half turn, and two arcs with the same bounds are equal.",
  ["inputs"], "All pairs of bounds, including bounds at plus and minus a half turn.",
  "arcs that touch or cross the half turn and degenerate arcs form a continuum of cases.",
  ["cs/s1.rs"], [("Interval", "cs/s1.rs")]))
L.append(P("C04", "Angles and lengths: units, arithmetic, degrees-minutes-seconds and text",
  "Converting a quantity into a unit and back returns it, and every unit has its defined size. Arithmetic on angles and lengths is the arithmetic of the underlying reals up to rounding. The degree-minute-second form of any angle and every printed form are well formed (minutes and seconds below 60, right sign) and denote the same value.",
  ["inputs"], "All values, all built-in and user-defined units.",
  "carries of minutes and seconds, signs of values below one degree and unit ratios only show at particular values.",
  ["quantities/angle.rs", "quantities/length.rs", "quantities/scale.rs", "units/angle.rs", "units/length.rs"],
  [("Angle::dms, Angle::val", "quantities/angle.rs"), ("Length", "quantities/length.rs"), ("unit constants", "units/angle.rs")]))
L.append(P("C05", "Axes: every coordinate lands in its slot with its sign and unit",
  "For every axis order, direction and unit, turning raw coordinates into normalized ones yields the longitude (wrapped), latitude (saturated), easting, northing and height the axes describe, and turning them back yields the raw coordinates. Tolerances are converted with the same order and units but without a sign; two-dimensional systems have height zero.",
  ["inputs", "configurations"], "All axis systems, units and coordinates.",
  "each (axis order, unit, direction) combination is its own case and an asymmetric point is needed to notice a swap.",
  ["cs/geodetic.rs", "cs/cartesian/projected.rs", "cs/cartesian/geocentric.rs"],
  [("GeodeticAxes::normalize/denormalize/denormalize_tol", "cs/geodetic.rs"), ("ProjectedAxes", "cs/cartesian/projected.rs"), ("GeocentricAxes", "cs/cartesian/geocentric.rs")]))
L.append(P("C06", "Approximate comparison respects the tolerance of every axis",
  "Two positions compare approximately equal exactly when the absolute difference on every axis is at most that axis's tolerance, longitude and azimuth differences being taken around the circle; a computed geodesic is accepted by the same rule. The comparison is symmetric, and the predefined tolerances are 1e-12 rad / 1e-4 m (tiny, also the default) and 1e-9 rad / 1e-3 m (small).",
  ["inputs"], "All pairs of positions and tolerances, including pairs straddling the half turn and differences next to the tolerance.",
  "a dropped axis, a swapped tolerance or a linear longitude difference only shows for particular pairs.",
  ["cs/geodetic.rs", "cs/cartesian/projected.rs", "cs/cartesian/geocentric.rs", "cs/cartesian/mod.rs", "cs/azimuth.rs", "crs/mod.rs", "quantities/angle.rs", "quantities/length.rs"],
  [("approx_eq", "cs/geodetic.rs"), ("abs_diff_eq", "cs/azimuth.rs"), ("Crs::approx_eq", "crs/mod.rs")]))
L.append(P("C07", "Equality of reference systems means equality of their parameters",
  "Ellipsoids, prime meridians, datums, axes, projections and coordinate reference systems are equal exactly when all their defining parameters are equal, after any history of edits; the names of ellipsoids and prime meridians do not count, the identifiers of datums and reference systems do. Equality is reflexive and symmetric. A description reports the identifiers and the parts it was made from.",
  ["histories", "configurations"], "All edit histories of two descriptions over their fields.",
  "one ignored field is enough to confuse two systems, and only a pair differing in exactly that field shows it.",
  ["geodesy/ellipsoid.rs", "geodesy/prime_meridian.rs", "geodesy/geodetic_datum.rs", "crs/geographic.rs", "crs/projected.rs", "crs/geocentric.rs", "projections/mod.rs"],
  [("PartialEq for Ellipsoid", "geodesy/ellipsoid.rs"), ("PartialEq for PrimeMeridian", "geodesy/prime_meridian.rs"), ("PartialEq for GeodeticDatum", "geodesy/geodetic_datum.rs")]))
L.append(P("C08", "Geodetic to geocentric conversion is the exact embedding",
  "For every ellipsoid, prime meridian, longitude, latitude and height, the geocentric coordinates are those of the point at that height on the normal of the ellipsoid, to a few parts in 1e15 of the distance to the centre.",
  ["inputs", "configurations"], "All ellipsoids (including spheres), meridians, positions and heights.",
  "tests look at a few points on one ellipsoid.", ["geodesy/geodetic_datum.rs", "geodesy/ellipsoid.rs"],
  [("llh_to_xyz", "geodesy/geodetic_datum.rs"), ("prime_vertical_radius", "geodesy/ellipsoid.rs")]))
L.append(P("C09", "Geocentric to geodetic conversion inverts the embedding",
  "For every geocentric point outside a neighbourhood of the centre of the ellipsoid, including points on the polar axis and in the equatorial plane, the returned longitude, latitude and height denote that point to well below a micrometre. The longitude and latitude are in range and the height is measured to the nearest side of the ellipsoid.",
  ["inputs", "configurations"], "All ellipsoids, meridians and points farther from the centre than the evolute.",
  "the iteration has branches for the axis and the equator and a stopping rule that only fail at particular points.",
  ["geodesy/geodetic_datum.rs"], [("xyz_to_llh", "geodesy/geodetic_datum.rs")]))
L.append(P("C10", "Prime meridians shift longitudes and nothing else",
  "A position expressed in a datum denotes the ground point at that longitude from the datum's prime meridian. Re-expressing it for another prime meridian, any number of times, leaves the ground point, latitude and height unchanged and changes the longitude by the difference of the meridians modulo a full turn, to a longitude within half a turn of the new meridian.",
  ["histories", "inputs", "configurations"], "All sequences of meridian changes from any position on any ellipsoid or sphere.",
  "the wrap of the shifted longitude and the composition of shifts depend on the history.",
  ["geodesy/geodetic_datum.rs", "geodesy/prime_meridian.rs"], [("llh_to_xyz / xyz_to_llh", "geodesy/geodetic_datum.rs"), ("PrimeMeridian", "geodesy/prime_meridian.rs")]))
L.append(P("C11", "Ellipsoid constructors and derived parameters are consistent",
  "An ellipsoid given by its axes or by semi-major axis and inverse flattening reports axes, flattening, eccentricities and radii of curvature that satisfy their defining equations, spheres included. Constructions that do not describe an oblate ellipsoid or sphere are rejected.",
  ["inputs", "configurations"], "All admissible and inadmissible axis and flattening values.",
  "each derived parameter is an independent formula; tests look at one ellipsoid.",
  ["geodesy/ellipsoid.rs"], [("Ellipsoid::from_ab / from_ainvf and accessors", "geodesy/ellipsoid.rs")]))
L.append(P("C12", "Predefined ellipsoids, meridians and datums have their published values",
  "Every predefined ellipsoid, prime meridian and datum has its published parameters, and its derived parameters are consistent with them.",
  ["configurations"], "Every predefined entry.",
  "no test enumerates the registries.", ["geodesy/ellipsoid.rs", "geodesy/prime_meridian.rs", "geodesy/geodetic_datum.rs"],
  [("consts", "geodesy/ellipsoid.rs"), ("consts", "geodesy/prime_meridian.rs"), ("consts", "geodesy/geodetic_datum.rs")]))
L.append(P("C13", "Mercator and Web Mercator forward projections are accurate",
  "For every ellipsoid, origin, scale or standard parallel and false origin, the Mercator image of a point below 89.9 degrees of latitude is that of the defining formula to nanometre level, with eastings counted around the circle from the central meridian. The Web Mercator image is that of the sphere of the semi-major axis.",
  ["inputs", "configurations"], "All ellipsoids, parameters and points with latitude up to 89.9 degrees.",
  "tests use one published example per projection.", ["projections/cyl/mercator.rs", "projections/cyl/web_mercator.rs", "projections/mod.rs"],
  [("Mercator::proj", "projections/cyl/mercator.rs"), ("WebMercator::proj", "projections/cyl/web_mercator.rs")]))
L.append(P("C14", "Transverse Mercator forward projection is accurate",
  "For every ellipsoid, origin, scale and false origin, the transverse Mercator image of a point within 45 degrees of the central meridian is the conformal image that is true to scale along it, within the truncation of the published fourth order series plus rounding, poles included.",
  ["inputs", "configurations"], "All ellipsoids, parameters and points within 45 degrees of the central meridian.",
  "coefficient errors in the higher orders only show far from the meridian or on flatter ellipsoids.",
  ["projections/cyl/transverse_mercator.rs"], [("TransverseMercator::new / proj", "projections/cyl/transverse_mercator.rs")]))
L.append(P("C15", "Inverse projections undo forward projections",
  "For every projection and parameters, projecting a point of the domain and unprojecting the image returns the point on the ground to the accuracy of the published series, and unprojecting any plane point of the image of the domain returns a point whose image it is. Heights pass through unchanged.",
  ["inputs", "configurations"], "All projections, ellipsoids, parameters and points of the domain, in both directions.",
  "round trips on a few points do not cover quadrants, hemispheres, false origins and parameters.",
  ["projections/cyl/mercator.rs", "projections/cyl/web_mercator.rs", "projections/cyl/transverse_mercator.rs"],
  [("unproj", "projections/cyl/transverse_mercator.rs"), ("unproj", "projections/cyl/mercator.rs"), ("unproj", "projections/cyl/web_mercator.rs")]))
L.append(P("C16", "Projections always return: a valid position or an error",
  "Projecting any position and unprojecting any finite plane coordinates terminates without a panic and returns either an error or finite coordinates in range. Inside the domain of the projection the answer is never an error.",
  ["inputs", "configurations"], "All projections, parameters and finite inputs, including far outside the domain.",
  "termination of the inverse iterations must hold for inputs no test tries.",
  ["projections/cyl/mercator.rs", "projections/cyl/web_mercator.rs", "projections/cyl/transverse_mercator.rs"],
  [("unproj iteration and bounds", "projections/cyl/transverse_mercator.rs")]))
L.append(P("C17", "UTM zones: central meridians, scale and false origins",
  "For every zone 1 to 60 and hemisphere, the UTM projection is the transverse Mercator projection with central meridian 6 z - 183 degrees, scale 0.9996, false easting 500 km and false northing 0 (north) or 10000 km (south), on every ellipsoid.",
  ["inputs", "configurations"], "All 120 zones, ellipsoids and points within 45 degrees of the central meridian.",
  "tests use single zones.", ["projections/mod.rs"], [("ProjectionSpec::applied_to", "projections/mod.rs")]))
L.append(P("C18", "Datum shifts apply their parameters and reverse",
  "A geocentric translation adds its vector and its reversal subtracts it; a seven parameter shift is the similarity (1 + s)(I + R) X + T with the rotation sense of its convention. Reversing a shift returns to the start up to the second order terms the published reversal neglects, and the identity changes nothing.",
  ["inputs", "configurations"], "All parameters of practical size (rotations up to 3e-4 rad, 200 ppm, 1 km), both conventions, all points.",
  "a sign error in one rotation element only shows when that rotation and coordinate are not zero.",
  ["transformations/xyz.rs", "quantities/scale.rs"], [("GeocentricTranslation, Helmert7Params", "transformations/xyz.rs"), ("PPM", "quantities/scale.rs")],
  hook="cfg(geokit_verif) module exposing constructors of the two shifts"))
L.append(P("C19", "CRS to CRS transformations keep the ground point",
  "Transforming coordinates from one coordinate reference system to another, forward or backward, yields coordinates of the same ground point moved through both datum shifts, for every combination of geocentric, geographic and projected systems, axes, units, prime meridians and ellipsoids. Going there and back returns the original coordinates when the target keeps the height.",
  ["inputs", "configurations"], "All pairs of systems, shifts and points of both domains.",
  "the pipeline has nine kinds of pairs, each with its own axes, units, meridians and shifts; tests use one or two.",
  ["transformations/xyz.rs", "transformations/mod.rs", "crs/geocentric.rs", "crs/geographic.rs", "crs/projected.rs"],
  [("CrsXYZTransformation::fwd / bwd", "transformations/xyz.rs"), ("ToXYZ implementations", "transformations/xyz.rs")]))
L.append(P("C20", "Printed forms list every component with its label, unit and value",
  "The printed form of a position, longitude, latitude, azimuth, arc, ellipsoid, prime meridian, datum or geodesic lists its components in order, each with its label and unit, and every printed number denotes the component's value (degrees, radians and metres in full precision, degrees-minutes-seconds to a millionth of a second). Names and identifiers come back as given.",
  ["inputs"], "All values, signs and magnitudes.",
  "swapped components, a wrong unit or a wrong sign only show for particular values.",
  ["cs/geodetic.rs", "cs/azimuth.rs", "cs/s1.rs", "cs/cartesian/projected.rs", "cs/cartesian/geocentric.rs", "geodesy/ellipsoid.rs", "geodesy/prime_meridian.rs", "geodesy/geodetic_datum.rs", "geodesy/geodesics/mod.rs"],
  [("Display for LLH, Lon, Lat", "cs/geodetic.rs"), ("Display for ENH", "cs/cartesian/projected.rs"), ("Display for Geodesic", "geodesy/geodesics/mod.rs"), ("Display for Ellipsoid", "geodesy/ellipsoid.rs")]))
L.append(P("C21", "Distances within a CRS",
  "The distance between two positions is the straight line between them for geocentric, projected and three-dimensional geographic systems, in metres whatever the units of the axes, and the length of the shortest geodesic for two-dimensional geographic systems. It is symmetric, and zero for coincident positions; only nearly antipodal positions of a two-dimensional geographic system may be refused.",
  ["inputs", "configurations"], "All systems and pairs of positions.",
  "units, axes and height enter each distance separately.",
  ["crs/geocentric.rs", "crs/geographic.rs", "crs/projected.rs", "cs/cartesian/geocentric.rs", "cs/cartesian/projected.rs"],
  [("Crs::dist", "crs/geographic.rs"), ("dist_to", "cs/cartesian/geocentric.rs"), ("dist_to", "cs/cartesian/projected.rs")]))
L.append(P("C22", "Direct geodesic problem: end point and azimuth are those of the geodesic",
  "For every ellipsoid or sphere, starting point (poles included), azimuth and distance, each solver of the direct problem returns the end point and final azimuth of that geodesic, to well below a millimetre on the Earth.",
  ["inputs", "configurations"], "All ellipsoids with flattening up to 1/150, starts, azimuths and distances, including negative ones and more than once around.",
  "series coefficients and quadrant decisions only matter for particular azimuths, latitudes and lengths.",
  ["geodesy/geodesics/vincenty.rs", "geodesy/geodesics/rapp.rs", "geodesy/geodesics/karney.rs"],
  [("solve_direct", "geodesy/geodesics/vincenty.rs"), ("solve_direct", "geodesy/geodesics/rapp.rs"), ("solve_direct", "geodesy/geodesics/karney.rs")]))
L.append(P("C23", "Inverse geodesic problem: the answer is the shortest geodesic",
  "For every ellipsoid or sphere and pair of points that are not nearly antipodal, each solver of the inverse problem returns azimuths and a length such that walking that geodesic from the first point ends at the second with the returned azimuth, and no other path is shorter. The end points reported are those given.",
  ["inputs", "configurations"], "All ellipsoids with flattening up to 1/150 and pairs of points.",
  "coincident, meridional, equatorial, polar and antimeridian pairs each take their own path through the series.",
  ["geodesy/geodesics/vincenty.rs", "geodesy/geodesics/rapp.rs", "geodesy/geodesics/mod.rs"],
  [("solve_inverse", "geodesy/geodesics/vincenty.rs"), ("solve_inverse", "geodesy/geodesics/rapp.rs")]))
L.append(P("C24", "Geodesic solvers always return",
  "Every implemented direct and inverse solver terminates without a panic for all finite inputs, nearly antipodal points and lines of many turns included, and returns either a 'not converging' error, possible only for the inverse problem between nearly antipodal points, or a result whose coordinates and azimuths are finite and in range and whose length is finite and not negative for the inverse problem.",
  ["inputs", "configurations"], "All ellipsoids of flattening up to 1/20, all points and azimuths, distances up to 1e9 m either way.",
  "non-convergence happens in thin regions near the antipode.",
  ["geodesy/geodesics/vincenty.rs", "geodesy/geodesics/rapp.rs", "geodesy/geodesics/karney.rs"],
  [("iteration limits", "geodesy/geodesics/vincenty.rs"), ("iteration limits", "geodesy/geodesics/rapp.rs")]))
L.append(P("C25", "Line strings are exactly what was built",
  "A line string built by any sequence of operations has the positions that were accepted, in order: its start, end, boundary, dimension and length (the sum of the distances between consecutive positions) are those of that sequence, closing it ends it at its start, and two lines in one system compare equal exactly when their positions do. Positions of the wrong dimension are refused, and copies of a builder are independent.",
  ["histories", "inputs", "configurations"], "All builder histories in two- and three-dimensional systems.",
  "wrong dimensions, repeated positions and copies need multi-step histories.",
  ["geometry/coordinate/curve/line_string.rs"], [("LineStringBuilder", "geometry/coordinate/curve/line_string.rs"), ("LineString", "geometry/coordinate/curve/line_string.rs")]))
L.append(P("C26", "Curves are parameterized by arc length",
  "For every line string and curve and every parameter between zero and its length, the returned position lies on the segment that contains that arc length, at the fraction of that segment's length; zero gives the start and the length gives the end, repeated positions included. Parameters outside are rejected.",
  ["inputs", "histories"], "All line strings and curves and all parameters.",
  "segment boundaries, zero-length segments and accumulated rounding only matter at particular parameters.",
  ["geometry/coordinate/curve/line_string.rs", "geometry/primitive/curve.rs"], [("param", "geometry/coordinate/curve/line_string.rs"), ("param", "geometry/primitive/curve.rs")]))
L.append(P("C27", "Curves are connected; cycles have no boundary",
  "A curve can only be assembled from segments of the dimension of its reference system, each starting where the previous one ends; anything else is refused with the reason. Its start, end and length are those of the segments, it is a cycle exactly when it ends where it starts, and its boundary is empty for a cycle and its two end points otherwise; points are cycles without boundary that hold exactly their coordinates.",
  ["histories", "inputs", "configurations"], "All assembly histories in two- and three-dimensional systems.",
  "assembly errors and closed curves arise from multi-step histories.",
  ["geometry/primitive/curve.rs", "geometry/primitive/point.rs", "geometry/mod.rs"],
  [("CurveBuilder, Curve, CurveBoundary", "geometry/primitive/curve.rs"), ("Point", "geometry/primitive/point.rs")]))
L.append(P("C28", "Math kernel: complex numbers, polynomials and compensated sums",
  "Complex arithmetic, conjugate, modulus and argument obey their definitions with the argument in (-180, 180] degrees; both polynomial evaluations return the value of the polynomial; sine series are summed to their mathematical value; a compensated sum returns the rounded sum and its exact error; the remainder is the exact representative nearest to zero.",
  ["inputs"], "All finite operands, coefficients and lengths.",
  "each is an algebraic identity over all operands.",
  ["math/complex.rs", "math/polynomial.rs", "math/utils.rs", "math/fp.rs"],
  [("Complex", "math/complex.rs"), ("Polynomial", "math/polynomial.rs"), ("clenshaw sums, utilities", "math/utils.rs"), ("sum, remainder", "math/fp.rs")]))
L.append(P("C29", "The sampling tool writes positions on the requested figure",
  "For every count, figure, unit and coordinate type, the sampling program writes exactly that many positions in the requested form and units, every one on the requested ellipsoid (or, with heights, at a height between -1500 m and 30000 m above it), with longitudes and latitudes in range. Directions are uniform on the auxiliary sphere and heights uniform in their range. Arguments that are not of the documented kind are refused with a non-zero exit status.",
  ["inputs", "configurations", "histories"], "All argument combinations and samples.",
  "no test runs the program.", ["bin/sample_s2.rs"], [("main", "bin/sample_s2.rs")]))
L.append(P("C30", "Answers depend on the question only, not on what was asked before",
  "Datums, ellipsoids, projections, geodesic solvers, reference systems, transformations and line strings are values: the answer an object gives to a question depends on its parameters and the question alone. It is the same, bit for bit, whatever was asked before of this or any other object, in whatever order, from whichever thread, however many objects exist, and the same as a freshly started process gives; two objects made from the same parameters answer alike, and objects with different parameters never share an answer by mistake.",
  ["histories", "schedules", "configurations"], "All sessions of creating, questioning and dropping objects, from one thread or several.",
  "each test makes one object and asks it one question in a fresh state, so anything carried over between calls (a cache, a memo, a shared buffer) is never seen.",
  ["geodesy/ellipsoid.rs", "geodesy/geodetic_datum.rs", "geodesy/geodesics/rapp.rs", "geodesy/geodesics/vincenty.rs", "geodesy/geodesics/karney.rs", "projections/cyl/transverse_mercator.rs", "projections/cyl/mercator.rs", "crs/projected.rs", "transformations/xyz.rs", "geometry/coordinate/curve/line_string.rs"],
  [("Ellipsoid, GeodeticDatum", "geodesy/"), ("projections", "projections/"), ("geodesic solvers", "geodesy/geodesics/"), ("CrsXYZTransformation", "transformations/xyz.rs"), ("LineString", "geometry/coordinate/curve/line_string.rs")]))
L.append(P("C31", "Journeys through reference systems keep the ground point",
  "Coordinates carried through any sequence of reference systems (geocentric, geodetic, projected; any datum, prime meridian, axes and units; forward or backward through the datum shifts) keep denoting the ground point they started from, up to rounding and the neglected second-order terms of small-angle rotations added up along the way. Only the height is given up, and only by passing through a system without heights, after which positions are on that system's ellipsoid; two routes to the same system through systems with heights arrive at the same coordinates.",
  ["histories", "inputs", "configurations"], "All sequences of systems within the domains of their projections, all points.",
  "a test converts one point between one pair; losses that compound over a route, or that depend on the route, need a history.",
  ["transformations/xyz.rs", "transformations/mod.rs", "crs/geocentric.rs", "crs/geographic.rs", "crs/projected.rs", "geodesy/geodetic_datum.rs"],
  [("CrsXYZTransformation", "transformations/xyz.rs"), ("CrsTransformation", "transformations/mod.rs"), ("reference systems", "crs/")]))

NOTE = {
 "exploration": "Every judged event is decided by the Quint specification's exact integer arithmetic; inputs are sampled (boundary biased, screened), so absence of violations is evidence over the explored inputs, not proof. Trusts Quint's simulator and the recorder.",
 "model_checking": "The property's state machine is an explicit Quint model; random histories of the real code are validated step by step against it, and behaviours generated from the model are replayed into the real code. Histories are sampled. Trusts Quint's simulator and the recorder.",
}
def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as fh:
        for p in L:
            assert len(p["title"]) <= 80, p["title"]
            fh.write(json.dumps(p) + "\n")
    checks, na = [], []
    for p in L:
        c = PROPS.get(p["id"])
        if not c:
            na.append(dict(property=p["id"], reason="Check under construction."))
            continue
        m = c.get("mbt")
        checks.append(dict(property=p["id"], quick_cmd="python3 vk.py check " + p["id"],
            thorough_cmd="VERIF_TIER=thorough python3 vk.py check " + p["id"],
            technique="Quint specification (spec/%s.qnt): conformance of recorded behaviour of the real code%s" % (
                c["spec"], "; replay of behaviours generated by the Quint model " + m["main"] if m else ""),
            level=c["level"], level_note=c.get("note", NOTE[c["level"]])))
    man = dict(version=1, setup_cmd="python3 vk.py setup",
        hooks=dict(guard="geokit_verif", enable='RUSTFLAGS="--cfg geokit_verif"', source_commits=["c3519b4"]),
        checks=checks, not_applicable=na,
        notes="Quint specifications in spec/ decide every property; harness/ only records what the real code does. See DESIGN.md.")
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as fh:
        json.dump(man, fh, indent=1)
        fh.write("\n")
main()
