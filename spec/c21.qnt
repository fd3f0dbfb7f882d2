/// C21  Distance within a CRS: straight line for Cartesian and 3D systems, shortest geodesic for 2D geographic ones.
/// a = [crs (17), p (3), q (3)];  r = [status, distance, reversed distance, azimuth witness]
module c21 {
  import fx.* from "./fx"
  import geo.* from "./geo"
  import units.* from "./units"
  import axes.* from "./axes"
  import crs.* from "./crs"
  type St = int
  pure val st0: St = 0
  /// directions at a pole are counted from the meridian of its longitude: keep off the exact pole, where the
  /// azimuth of a walk would lose that meridian, by the rounding of pi/2 in double precision
  pure val POLE: int = 1570796326794896557998981734272
  pure def offPole(lat: int): int = max(-POLE, min(POLE, lat))
  pure def geodesic(d: List[int], p: List[int], q: List[int], r: List[int]): List[(int, int, int)] = {
    val E = ell(d[1], d[2])
    val g1 = llhOf(d, p)
    val g2 = llhOf(d, q)
    val lat1 = offPole(g1._2)
    val dl = wrapPi(g2._1 - g1._1)
    val p1 = toXYZ(E, 0, lat1, 0)
    val p2 = toXYZ(E, dl, g2._2, 0)
    val anti = hypot3(p1.x + p2.x, p1.y + p2.y, p1.z + p2.z)
    val hard = anti < nearAnti(E)
    if (r[0] == ERR) [must(2, hard)]
    else if (not(isNum(r[1]) and isNum(r[3]))) [must(3, false)]
    else {
      val tp = (E.a / (3 * 10^11) + mul(E.a, sq(sq(E.f))) / 2) * (if (hard) 200 else 1)
      val w = direct(E, lat1, r[3], r[1])
      val q2 = toXYZ(E, w.dlon, w.lat, 0)
      val d12 = dist3(p1, p2)
      val upper = min(greatCirclePath(E, g1._2, g2._2, dl),
                      if (abs(dl) > 3 * S) polePath(E, g1._2, g2._2) + mul3(E.a, PI - abs(dl), reduced(E, g2._2)._2) else BIGV)
      [(4, dist3(q2, p2), 2 * tp), (5, r[1] - upper, tp), (6, d12 - r[1], tp), (7, gap(r[1], r[2]), 2 * tp)]
    }
  }
  pure def clauses(st: St, ev: Ev): List[(int, int, int)] = {
    val d = ev.a.slice(0, 17)
    val p = ev.a.slice(17, 20)
    val q = ev.a.slice(20, 23)
    val r = ev.r
    val k = kindOf(d)
    if (r[0] == PANIC or r[0] == HANG) [must(1, false)]
    else if (k == 2 and dimOf(d) == 2) geodesic(d, p, q, r)
    else if (r[0] != OK) [must(1, false)]
    else {
      val x = if (k == 1) p else if (k == 3) enhOf(d, p) else { val g = groundOf(d, p, p).p List(g.x, g.y, g.z) }
      val y = if (k == 1) q else if (k == 3) enhOf(d, q) else { val g = groundOf(d, q, q).p List(g.x, g.y, g.z) }
      val t = hypot3(x[0] - y[0], x[1] - y[1], x[2] - y[2])
      val m = abs(x[0]) + abs(x[1]) + abs(x[2]) + abs(y[0]) + abs(y[1]) + abs(y[2])
      [(11, gap(r[1], t), m / 10^14 + 10^12), (12, gap(r[1], r[2]), m / 10^14 + 10^12), must(13, r[1] >= 0)]
    }
  }
  pure def judge(st: St, ev: Ev): (St, int) = (st, firstOver(clauses(st, ev)))
}
