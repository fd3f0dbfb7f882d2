// -*- mode: Bluespec; -*-
/// Map projections as observed: parameters, forward images, and the error budgets of the published methods.
/// a = [a, invf, lon0, lat0 | zone, k0, false easting, false northing, ...]
module proj {
  import fx.* from "./fx"
  import geo.* from "./geo"
  /// resolved parameters of a projection of a given kind: 1 Mercator 1SP, 2 Mercator 2SP, 3 transverse Mercator,
  /// 4 UTM north, 5 UTM south, 6 web Mercator
  type Pj = { kind: int, E: Ell, lon0: int, lat0: int, k0: int, fe: int, fn: int }
  pure def deg(d: int): int = (d * PI) / 180
  pure def params(kind: int, a: List[int]): Pj = {
    val E = ell(a[0], a[1])
    if (kind == 1) { kind: kind, E: E, lon0: a[2], lat0: 0, k0: a[4], fe: a[5], fn: a[6] }
    else if (kind == 2) {
      val sc = sincos(a[3])
      { kind: kind, E: E, lon0: a[2], lat0: 0, k0: div(sc._2, sqrt(S - mul(E.e2, sq(sc._1)))), fe: a[5], fn: a[6] }
    }
    else if (kind == 3) { kind: kind, E: E, lon0: a[2], lat0: a[3], k0: a[4], fe: a[5], fn: a[6] }
    else if (kind == 6) { kind: kind, E: E, lon0: a[2], lat0: 0, k0: S, fe: a[5], fn: a[6] }
    // UTM: zone z has its central meridian at 6 z - 183 degrees, scale 0.9996, false easting 500 km and
    // false northing 0 (north) or 10 000 km (south)
    else { kind: kind, E: E, lon0: deg(6 * (a[3] / S) - 183), lat0: 0, k0: 9996 * S / 10000, fe: 500000 * S,
           fn: if (kind == 4) 0 else 10000000 * S }
  }
  pure def isTM(p: Pj): bool = p.kind == 3 or p.kind == 4 or p.kind == 5
  /// forward image and the size of the discretisation terms (x, y, allowance, conditioning near the pole)
  pure def image(p: Pj, lon: int, lat: int): { x: int, y: int, tol: int } = {
    val dl = wrapPi(lon - p.lon0)
    val off = (abs(p.fe) + abs(p.fn)) / 10^15
    if (isTM(p)) {
      val z = tm(p.E, lat, dl)
      val m0 = if (p.lat0 == 0) 0 else tm(p.E, p.lat0, 0).y
      val n = p.E.n
      val n5 = mul3(sq(n), sq(n), n)
      { x: p.fe + mul(p.k0, z.x), y: p.fn + mul(p.k0, z.y - m0),
        tol: mul(p.k0, p.E.a / 10^13 + mul3(5 * p.E.a, n5, cosh(min(40 * S, 10 * abs(z.eta))))
                      + mul(p.E.a / 10^14, cosh(min(40 * S, 2 * abs(z.eta))))) + 2 * off }
    } else {
      val E = if (p.kind == 6) ell(p.E.a, 0) else p.E
      val ak = mul(p.E.a, p.k0)
      val c = max(S / 10^9, cos(lat))
      val q = isoLat(E, lat)
      { x: p.fe + mul(ak, dl), y: p.fn + mul(ak, q),
        tol: ak / (3 * 10^14) + div(ak, c) / 10^15 + 2 * off }
    }
  }
  /// difference of eastings; on the cylinder both images of the antimeridian are the same line
  pure def dEast(p: Pj, x1: int, x2: int): int =
    if (isTM(p)) gap(x1, x2) else {
      val w = mul(mul(p.E.a, p.k0), TAU)
      val d = gap(x1, x2)
      min(d, abs(d - w))
    }
  /// allowance on the ground, in metres
  pure def ground(p: Pj, z: { x: int, y: int, tol: int }, lat: int): int =
    if (isTM(p)) 3 * div(z.tol, p.k0) + p.E.a / 10^13
    else {
      // series of the fourth order in e2 for the latitude; the rest is rounding of the isometric latitude
      val e2 = if (p.kind == 6) 0 else p.E.e2
      p.E.a / 10^14 + mul3(p.E.a, sq(sq(e2)), e2) / 3 + 3 * mul(div(z.tol, p.k0), cos(lat))
    }
}
