/// C08  Geodetic to geocentric conversion.
/// a = [a, invf, prime meridian, lon, lat, h]   r = [status, x, y, z]
module c08 {
  import fx.* from "./fx"
  import geo.* from "./geo"
  type St = int
  pure val st0: St = 0
  pure def clauses(st: St, ev: Ev): List[(int, int, int)] = {
    val a = ev.a
    val r = ev.r
    if (r[0] != OK) [must(1, false)]
    else {
      val p = toXYZ(ell(a[0], a[1]), a[3] + a[2], a[4], a[5])
      val t = (a[0] + abs(a[5])) / 10^15 * 6 + 10
      [(2, gap(r[1], p.x), t), (3, gap(r[2], p.y), t), (4, gap(r[3], p.z), t)]
    }
  }
  pure def judge(st: St, ev: Ev): (St, int) = (st, firstOver(clauses(st, ev)))
}
