/// C22  Direct geodesic problem: walking s metres along the geodesic leaving P1 with azimuth alpha1.
/// op 1 Vincenty, 2 Rapp, 3 Karney.   a = [a, invf, lon1, lat1, az1, s]
/// r = [status, lon2, lat2, az2, s, lon1, lat1, az1]
module c22 {
  import fx.* from "./fx"
  import geo.* from "./geo"
  type St = int
  pure val st0: St = 0

  /// truncation of the series at the method's order in the flattening, plus rounding
  pure def tolPos(op: int, E: Ell, s: int): int = {
    val f2 = sq(E.f)
    val f4 = sq(f2)
    val turns = S + div(abs(s), E.a) / 3
    // Vincenty stops iterating at 1e-12 rad; Rapp and Karney iterate or expand to the last bits
    if (op == 3) um(1) / 20 + mul3(mul(E.a, turns), mul(f4, f2), 20 * S) + mul(E.a, turns) / (5 * 10^14)
    else if (op == 2) mul(E.a / 10^13 + mul(E.a, f4) / 8, turns)
    else mul(E.a / 10^12 + mul(E.a, f4) / 4, turns)
  }
  pure def clauses(st: St, ev: Ev): List[(int, int, int)] = {
    val a = ev.a
    val r = ev.r
    if (r[0] != OK) [must(1, false)]
    else if (not(isNum(r[1]) and isNum(r[2]) and isNum(r[3]))) [must(2, false)]
    else {
      val E = ell(a[0], a[1])
      val g = direct(E, a[3], a[4], a[5])
      val tp = tolPos(ev.op, E, a[5])
      // metric discrepancies at the far end
      val dlat = gap(r[2], g.lat)
      val dlon = circDist(r[1], a[2] + g.dlon)
      val daz = circDist(r[3], g.az)
      // close to a pole longitude and azimuth turn together: only their difference (sum, in the south) is well conditioned
      val rho = max(mul(E.a, g.cosb), 1)
      val sg = if (g.lat < 0) -1 else 1
      val turn = circDist(r[3] - sg * r[1], g.az - sg * (a[2] + g.dlon))
      val ta = tp / 10^6 + 4 * div(tp, rho)
      [
        (3, mul(E.a, dlat), if (ev.op == 3) tp else tp / 4),   // the latitude series is one order better
        (4, if (rho > S) mul(rho, dlon) else 0, tp + um(1) / 20),
        (5, if (rho > 100 * S) daz else 0, ta),
        (6, if (rho > S) turn else 0, 5 * 10^20 + tp / 10^6 + div(E.a, rho) / (3 * 10^14)),
        must(7, r[4] == a[5] and r[5] == a[2] and r[6] == a[3] and r[7] == a[4]),
      ]
    }
  }
  pure def judge(st: St, ev: Ev): (St, int) = (st, firstOver(clauses(st, ev)))
}
