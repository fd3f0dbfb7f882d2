// -*- mode: Bluespec; -*-
/// Reference geodesy over fixed-point reals: the ellipsoid of revolution, its Cartesian embedding, its
/// geodesics, the cylindrical map projections, datum shifts and coordinate axes.  Nothing here is taken from
/// the implementation's algorithms: geodesics are quadratures of the defining integrals, geocentric -> geodetic
/// is decided by mapping the answer forward, transverse Mercator is the 6th order Krueger series.
module geo {
  import fx.* from "./fx"

  // ------------------------------------------------------------------ ellipsoid
  type Ell = { a: int, b: int, f: int, e2: int, ep2: int, e: int, n: int }
  /// semi-major axis and inverse flattening; invf = 0 stands for the sphere
  pure def ell(a: int, invf: int): Ell = {
    val f = if (invf == 0 or not(isNum(invf))) 0 else div(S, invf)
    val e2 = mul(f, 2 * S - f)
    { a: a, b: a - mul(a, f), f: f, e2: e2, ep2: div(e2, S - e2), e: sqrt(e2), n: div(f, 2 * S - f) }
  }
  /// distance to the antipode below which the classical iterations may fail to converge: their contraction is about
  /// pi f a over that distance, and they are given 30 steps
  pure def nearAnti(E: Ell): int = mul(E.a, max(4 * E.f + S / 50, (17 * E.f) / 2))
  pure def ellAB(a: int, b: int): Ell = {
    val f = div(a - b, a)
    val e2 = mul(f, 2 * S - f)
    { a: a, b: b, f: f, e2: e2, ep2: div(e2, S - e2), e: sqrt(e2), n: div(a - b, a + b) }
  }
  /// radius of curvature in the prime vertical
  pure def pvr(E: Ell, sinlat: int): int = div(E.a, sqrt(S - mul(E.e2, sq(sinlat))))

  type P3 = { x: int, y: int, z: int }
  /// geodetic (Greenwich based) to geocentric
  pure def toXYZ(E: Ell, lon: int, lat: int, h: int): P3 = {
    val sl = sincos(lon)
    val sp = sincos(lat)
    val n = pvr(E, sp._1)
    val r = mul(n + h, sp._2)
    { x: mul(r, sl._2), y: mul(r, sl._1), z: mul(mul(n, S - E.e2) + h, sp._1) }
  }
  pure def dist3(p: P3, q: P3): int = hypot3(p.x - q.x, p.y - q.y, p.z - q.z)

  // ------------------------------------------------------------------ geodesics
  type Geod = { lat: int, dlon: int, az: int, cosb: int, sigma: int }
  /// (sin, cos) of the reduced latitude
  pure def reduced(E: Ell, lat: int): (int, int) = {
    val sp = sincos(lat)
    val y = mul(S - E.f, sp._1)
    val h = hypot(y, sp._2)
    (div(y, h), div(sp._2, h))
  }
  pure def speed(k2: int, s: int): int = sqrt(S + mul(k2, sq(sin(s))))
  /// number of panels, so that the 20 point rule is exact to ~1e-25 over several turns
  pure def panels(w: int): int = 1 + abs(w) / (2 * S)
  /// s / b between two arguments of latitude on the auxiliary sphere
  pure def arcInt(k2: int, lo: int, hi: int): int = {
    val n = panels(hi - lo)
    val w = (hi - lo) / n
    range(0, n).foldl(0, (acc, i) => acc + integrate(s => speed(k2, s), lo + i * w, lo + (i + 1) * w))
  }
  pure def lonInt(f: int, k2: int, lo: int, hi: int): int = {
    val n = panels(hi - lo)
    val w = (hi - lo) / n
    range(0, n).foldl(0, (acc, i) =>
      acc + integrate(s => div(2 * S - f, S + mul(S - f, speed(k2, s))), lo + i * w, lo + (i + 1) * w))
  }
  /// the direct problem, by quadrature on the auxiliary sphere and Newton iteration
  pure def direct(E: Ell, lat1: int, az1: int, s12: int): Geod = {
    val rb = reduced(E, lat1)
    val sa = sincos(az1)
    val sinb = rb._1
    val cosb = rb._2
    val sina0 = mul(sa._1, cosb)
    val cosa0 = hypot(sa._2, mul(sa._1, sinb))
    val cc = mul(sa._2, cosb)
    val sig1 = atan2(sinb, cc)
    val om1 = atan2(mul(sina0, sinb), cc)
    val k2 = mul(E.ep2, sq(cosa0))
    val t = div(s12, E.b)
    val A1 = S + k2 / 4 - 3 * sq(k2) / 64 + 5 * mul(sq(k2), k2) / 256
    val d0 = div(t, A1)
    val d = [1, 2, 3].foldl(d0, (d, _) => {
      val I = arcInt(k2, sig1, sig1 + d)
      d + div(t - I, speed(k2, sig1 + d))
    })
    val sig2 = sig1 + d
    val ss = sincos(sig2)
    val om2 = atan2(mul(sina0, ss._1), ss._2)
    val J = if (E.f == 0) 0 else lonInt(E.f, k2, sig1, sig2)
    val c2 = hypot(mul(cosa0, ss._2), sina0)
    { lat: atan2(mul(cosa0, ss._1), mul(S - E.f, c2)),
      dlon: wrapPi(om2 - om1 - mul3(E.f, sina0, J)),
      az: atan2(sina0, mul(cosa0, ss._2)), cosb: c2, sigma: d }
  }
  /// length of the curve whose image on the auxiliary sphere is the great circle between the two points,
  /// an upper bound of the distance
  pure def greatCirclePath(E: Ell, lat1: int, lat2: int, dlon: int): int = {
    val p = reduced(E, lat1)
    val q = reduced(E, lat2)
    val sl = sincos(dlon)
    // unit vectors u, w; central angle om
    val ux = p._2
    val uz = p._1
    val wx = mul(q._2, sl._2)
    val wy = mul(q._2, sl._1)
    val wz = q._1
    val c = mul(ux, wx) + mul(uz, wz)
    val sn = hypot3(mul(uz, wy), mul(uz, wx) - mul(ux, wz), mul(ux, wy))
    val om = atan2(sn, c)
    if (sn < 10^16) mul(E.a, om) else {
      // orthonormal direction at u
      val dx = div(wx - mul(c, ux), sn)
      val dy = div(wy, sn)
      val dz = div(wz - mul(c, uz), sn)
      integrate(t => {
        val st = sincos(t)
        val x = mul(st._2, ux) + mul(st._1, dx)
        val y = mul(st._1, dy)
        val z = mul(st._2, uz) + mul(st._1, dz)
        val zd = -mul(st._1, uz) + mul(st._2, dz)
        // moving at unit speed on the sphere: dbeta^2 + cos^2 beta dlam^2 = 1, cos beta dbeta = zd
        val cb2 = sq(x) + sq(y)
        val db2 = if (cb2 < 10^14) S else div(sq(zd), cb2)
        val rest = max(0, S - db2)
        sqrt(mul(mul(sq(E.a), sq(z)) + mul(sq(E.b), S - sq(z)), db2) + mul(sq(E.a), rest))
      }, 0, om)
    }
  }
  /// length of the path along the meridians through the nearer pole
  pure def meridianArc(E: Ell, lat: int): int =
    integrate(p => div(mul(E.a, S - E.e2), { val w = S - mul(E.e2, sq(sin(p))); mul(w, sqrt(w)) }), 0, lat)
  pure def quarter(E: Ell): int = meridianArc(E, HALFPI)
  pure def polePath(E: Ell, lat1: int, lat2: int): int = {
    val s = meridianArc(E, lat1) + meridianArc(E, lat2)
    2 * quarter(E) - abs(s)
  }

  // ------------------------------------------------------------------ projections
  /// isometric latitude  atanh(sin) - e atanh(e sin)
  pure def isoLat(E: Ell, lat: int): int = {
    val sp = sincos(lat)
    val g = ln(div(S + abs(sp._1), max(1, sp._2)))
    val r = g - mul(E.e, atanh(mul(E.e, abs(sp._1))))
    if (lat < 0) -r else r
  }
  /// tan of the conformal latitude
  pure def tanConf(E: Ell, lat: int): int = {
    val q = isoLat(E, lat)
    sinh(q)
  }
  pure def poly(cs: List[int], n: int): int = range(0, cs.length()).foldl(0, (acc, i) =>
    mul(acc, n) + cs[cs.length() - 1 - i])
  pure def rat(p: int, q: int): int = (p * S) / q
  pure val KR: List[List[int]] = [
    [0, rat(1, 2), rat(-2, 3), rat(5, 16), rat(41, 180), rat(-127, 288), rat(7891, 37800)],
    [0, 0, rat(13, 48), rat(-3, 5), rat(557, 1440), rat(281, 630), rat(-1983433, 1935360)],
    [0, 0, 0, rat(61, 240), rat(-103, 140), rat(15061, 26880), rat(167603, 181440)],
    [0, 0, 0, 0, rat(49561, 161280), rat(-179, 168), rat(6601661, 7257600)],
    [0, 0, 0, 0, 0, rat(34729, 80640), rat(-3418889, 1995840)],
    [0, 0, 0, 0, 0, 0, rat(212378941, 319334400)]
  ]
  /// rectifying radius
  pure def rectRadius(E: Ell): int = {
    val n2 = sq(E.n)
    mul(div(E.a, S + E.n), S + n2 / 4 + sq(n2) / 64 + mul(sq(n2), n2) / 256)
  }
  /// transverse Mercator on the unit scale: (easting, northing from the equator, eta', xi') for k0 = 1
  pure def tm(E: Ell, lat: int, dlon: int): { x: int, y: int, eta: int, xi: int } = {
    val t = tanConf(E, lat)
    val sl = sincos(dlon)
    val xi = atan2(t, sl._2)
    val eta = asinh(div(sl._1, hypot(t, sl._2)))
    val z = range(0, 6).foldl({ x: eta, y: xi }, (acc, j) => {
      val al = poly(KR[j], E.n)
      val k = 2 * (j + 1)
      val sc = sincos(k * xi)
      { x: acc.x + mul3(al, sc._2, sinh(k * eta)), y: acc.y + mul3(al, sc._1, cosh(k * eta)) }
    })
    val A = rectRadius(E)
    { x: mul(A, z.x), y: mul(A, z.y), eta: eta, xi: xi }
  }

  // ------------------------------------------------------------------ self tests
  pure val WGS: Ell = ell(6378137 * S, 298257223563 * 10^21)
  run geoSelfTest = all {
    // WGS84 semi-minor axis, quarter meridian (published: 10001965.7293 m)
    assert(near(WGS.b, 6356752314245 * 10^24, 10^24)),
    assert(near(quarter(WGS), 100019657293 * 10^26, 10^26)),
    // Karney's example: JFK to LHR... the direct problem of "Algorithms for geodesics" table 2
    assert({
      val g = direct(WGS, mul(40 * S, PI / 180), mul(30 * S, PI / 180), 10000000 * S)
      and { near(div(g.lat * 180, PI), 4179331020506 * 10^19, 10^20),
            near(div(g.dlon * 180, PI), 13784490004377 * 10^19, 10^20),
            near(div(g.az * 180, PI), 14909016931807 * 10^19, 10^20) }
    }),
    // transverse Mercator maps the meridian true to length
    assert({ val l = S; near(tm(WGS, l, 0).y, meridianArc(WGS, l), 10^19) }),
    assert(near(greatCirclePath(WGS, 0, HALFPI, 0), quarter(WGS), 10^20)),
    assert(near(polePath(WGS, S, S), 2 * (quarter(WGS) - meridianArc(WGS, S)), 10^10)),
    assert({ val g = direct(WGS, 0, HALFPI, 1000000 * S)
             and { near(g.lat, 0, 10^6), near(mul(g.dlon, WGS.a), 1000000 * S, 10^12) } })
  }
}
