/// The specification against published worked examples (EPSG Guidance Note 7-2, Karney 2013), so that the oracle is not
/// only self-consistent.  Run by `vk.py setup` and by the thorough checks.
module published {
  import fx.* from "./fx"
  import geo.* from "./geo"
  import proj.* from "./proj"
  import units.* from "./units"
  import axes.* from "./axes"
  import crs.* from "./crs"
  /// micro degrees from degrees, minutes, milli seconds
  pure def dms(d: int, m: int, ms: int): int = ((d * 3600000 + m * 60000 + ms) * PI) / (180 * 3600000)
  run embeddingTest = assert({
    // Geographic/geocentric conversions: Westferrester
    val p = toXYZ(ell(6378137 * S, 298257223563 * 10^21), dms(2, 7, 46380), dms(53, 48, 33820), 73 * S)
    and { near(p.x, 3771793968 * 10^27, 10^27), near(p.y, 140253342 * 10^27, 10^27), near(p.z, 5124304349 * 10^27, 10^27) }
  })
  run mercator1spTest = assert({
    // Makassar / NEIEZ
    val z = image(params(1, [6377397155 * 10^27, 2991528128 * 10^23, dms(110, 0, 0), 0, 997 * 10^27, 3900000 * S, 900000 * S]), dms(120, 0, 0), -dms(3, 0, 0))
    and { near(z.x, cm(500972658), cm(1)), near(z.y, cm(56915082), cm(1)) }
  })
  run mercator2spTest = assert({
    // Pulkovo 1942 / Mercator Caspian Sea
    val z = image(params(2, [6378245 * S, 2983 * 10^29, dms(51, 0, 0), dms(42, 0, 0), 0, 0, 0]), dms(53, 0, 0), dms(53, 0, 0))
    and { near(z.x, cm(16570429), cm(1)), near(z.y, cm(517184807), cm(1)) }
  })
  run transverseMercatorTest = assert({
    // OSGB 1936 / British National Grid
    val z = image(params(3, [6377563396 * 10^27, 29932496 * 10^25, -dms(2, 0, 0), dms(49, 0, 0), 9996012717 * 10^20, 400000 * S, -100000 * S]), dms(0, 30, 0), dms(50, 30, 0))
    and { near(z.x, cm(57727499), cm(1)), near(z.y, cm(6974050), cm(1)) }
  })
  run webMercatorTest = assert({
    val z = image(params(6, [6378137 * S, 298257223563 * 10^21, 0, 0, 0, 0, 0]), -dms(100, 20, 0), dms(24, 22, 54433))
    and { near(z.x, -cm(1116905558), cm(1)), near(z.y, cm(280000000), cm(1)) }
  })
  run positionVectorTest = assert({
    // WGS 72 to WGS 84
    val h = { lin: true, rx: 0, ry: 0, rz: dms(0, 0, 554), t: { x: 0, y: 0, z: 45 * S / 10 }, s: 219 * 10^21 }
    val q = toRef(h, { x: cm(365766066), y: cm(25576855), z: cm(520138211) })
    and { near(q.x, cm(365766078), cm(1)), near(q.y, cm(25577843), cm(1)), near(q.z, cm(520138775), cm(1)) }
  })
  /// the transverse Mercator of the specification is conformal by construction; being true to length along the whole
  /// central meridian it is then the Gauss-Krueger projection
  run centralMeridianTest = assert(range(-8, 9).foldl(true, (b, k) => {
    val lat = k * PI / 17
    b and near(tm(WGS, lat, 0).y, meridianArc(WGS, lat), 10^19) and tm(WGS, lat, 0).x == 0
  }))
  run conformalTest = assert(List((5, 3), (40, 10), (-60, 25), (75, -40), (10, 44)).foldl(true, (b, c) => {
    // Cauchy-Riemann in (isometric latitude, longitude), by central differences
    val lat = deg(c._1)
    val dl = deg(c._2)
    val e = S / 10^7
    val N = pvr(WGS, sin(lat))
    val M = div(mul3(N, N, N), mul(WGS.a, WGS.a))
    val r = mul(N, cos(lat))
    val m = mul(M, S - WGS.e2)
    val xp = tm(WGS, lat + e, dl)  val xm = tm(WGS, lat - e, dl)
    val lp = tm(WGS, lat, dl + e)  val lm = tm(WGS, lat, dl - e)
    val xphi = div(xp.x - xm.x, m)  val yphi = div(xp.y - xm.y, m)
    val xlam = div(lp.x - lm.x, r)  val ylam = div(lp.y - lm.y, r)
    b and near(xlam, yphi, 10^12) and near(ylam, -xphi, 10^12)
  }))
}
