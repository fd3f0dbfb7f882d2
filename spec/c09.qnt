/// C09  Geocentric to geodetic conversion, decided by mapping the answer forward.
/// a = [a, invf, prime meridian, x, y, z]   r = [status, lon, lat, h]
module c09 {
  import fx.* from "./fx"
  import geo.* from "./geo"
  type St = int
  pure val st0: St = 0
  pure val PIF: int = 3141592653589793115997963468544
  pure def clauses(st: St, ev: Ev): List[(int, int, int)] = {
    val a = ev.a
    val r = ev.r
    if (r[0] != OK) [must(1, false)]
    else if (not(isNum(r[1]) and isNum(r[2]) and isNum(r[3]))) [must(2, false)]
    else {
      val E = ell(a[0], a[1])
      val p = toXYZ(E, r[1] + a[2], r[2], r[3])
      val R = hypot3(a[3], a[4], a[5]) + E.a
      val rho = hypot(a[3], a[4])
      [
        must(3, abs(r[1]) <= PIF and 2 * abs(r[2]) <= PIF),
        // the normal leaves the ellipsoid outwards: the foot point is the nearest one
        must(4, r[3] > -mul(E.b, S - E.f)),
        (5, dist3(p, { x: a[3], y: a[4], z: a[5] }), R / 10^15 * 10),
        // longitude is relatively accurate also next to the polar axis
        (6, if (rho > mm(1)) circDist(atan2(a[4], a[3]), r[1] + a[2]) else 0, 4 * 10^15),
      ]
    }
  }
  pure def judge(st: St, ev: Ev): (St, int) = (st, firstOver(clauses(st, ev)))
}
