/// C24  Geodesic solvers always come back: with a complete finite answer, or with the documented "not converging"
/// error, which is allowed only for (nearly) antipodal points.
/// op 1-3 direct (Vincenty, Rapp, Karney) a = [a, invf, lon1, lat1, az1, s]   r = [status, lon2, lat2, az2]
/// op 11-12 inverse (Vincenty, Rapp)      a = [a, invf, lon1, lat1, lon2, lat2] r = [status, az1, az2, s]
module c24 {
  import fx.* from "./fx"
  import geo.* from "./geo"
  type St = int
  pure val st0: St = 0
  pure val PIF: int = 3141592653589793115997963468544
  pure def isAz(x: int): bool = isNum(x) and -PIF < x and x <= PIF
  pure def clauses(st: St, ev: Ev): List[(int, int, int)] = {
    val a = ev.a
    val r = ev.r
    val E = ell(a[0], a[1])
    if (r[0] == PANIC) [must(1, false)]
    else if (r[0] == HANG) [must(2, false)]
    else if (ev.op < 10) {
      if (r[0] == ERR) [must(3, false)]
      else [
        must(4, isNum(r[1]) and abs(r[1]) <= PIF),
        must(5, isNum(r[2]) and 2 * abs(r[2]) <= PIF),
        must(6, isAz(r[3])),
      ]
    } else {
      val p1 = toXYZ(E, a[2], a[3], 0)
      val p2 = toXYZ(E, a[4], a[5], 0)
      val anti = hypot3(p1.x + p2.x, p1.y + p2.y, p1.z + p2.z)
      if (r[0] == ERR) [must(7, anti < nearAnti(E))]
      else [
        must(8, isAz(r[1])), must(9, isAz(r[2])),
        must(10, isNum(r[3]) and r[3] >= 0 and r[3] <= mul(E.a, PI + S / 1000)),
      ]
    }
  }
  pure def judge(st: St, ev: Ev): (St, int) = (st, firstOver(clauses(st, ev)))
}
