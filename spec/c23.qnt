/// C23  Inverse geodesic problem: azimuths and length of the shortest geodesic between two points.
/// op 1 Vincenty, 2 Rapp.  a = [a, invf, lon1, lat1, lon2, lat2];  r = [status, az1, az2, s, lon1, lat1, lon2, lat2]
/// An answer is decided by walking it: the direct problem from P1 with the returned azimuth and length must
/// land on P2 with the returned final azimuth, and no explicit path between the points may be shorter.
module c23 {
  import fx.* from "./fx"
  import geo.* from "./geo"
  type St = int
  pure val st0: St = 0

  /// Vincenty stops iterating at 1e-12 rad, Rapp at 5e-15
  pure def tolPos(op: int, E: Ell): int =
    (if (op == 1) E.a / (3 * 10^11) else E.a / 10^13) + mul(E.a, sq(sq(E.f))) / 2
  pure def clauses(st: St, ev: Ev): List[(int, int, int)] = {
    val a = ev.a
    val r = ev.r
    if (r[0] == PANIC or r[0] == HANG) [must(1, false)]
    else {
      val E = ell(a[0], a[1])
      val dl = wrapPi(a[4] - a[2])
      // not nearly antipodal: an answer is required
      val p1 = toXYZ(E, a[2], a[3], 0)
      val p2 = toXYZ(E, a[4], a[5], 0)
      val anti = hypot3(p1.x + p2.x, p1.y + p2.y, p1.z + p2.z)
      if (r[0] == ERR) [must(2, anti < nearAnti(E))]
      else if (not(isNum(r[1]) and isNum(r[2]) and isNum(r[3]))) [must(3, false)]
      else {
        // next to the antipode the solution is ill conditioned
        // (an error of the stopping threshold in the spherical longitude turns the azimuth by it over the
        // distance to the antipode, which moves the end by f pi of that)
        val stop = if (ev.op == 1) S / 10^12 else S / 10^13
        val tp = if (anti < mul(E.a, 4 * E.f + S / 50))
                   200 * tolPos(ev.op, E) + min(E.a / 100, 4 * mul3(mul(E.a, PI), E.f, div(mul(E.a, stop), max(S / 10^6, anti))))
                 else tolPos(ev.op, E)
        val g = direct(E, a[3], r[1], r[3])
        val q = toXYZ(E, a[2] + g.dlon, g.lat, 0)
        val d12 = dist3(p1, p2)
        // azimuth at P2: conditioned by the length of the line and the distance to the pole
        val rho = max(1, mul(E.a, reduced(E, a[5])._2))
        val rho1 = max(1, mul(E.a, reduced(E, a[3])._2))
        val ta = 10^18 + tp / 10^6 + div(4 * tp, max(S / 10^6, min(d12, min(anti, min(rho, rho1)))))
        val upper = min(greatCirclePath(E, a[3], a[5], dl), 
                        if (abs(dl) > 3 * S) polePath(E, a[3], a[5]) + mul3(E.a, PI - abs(dl), reduced(E, a[5])._2) else BIGV)
        [
          (4, dist3(q, p2), 2 * tp),
          (5, if (min(d12, min(rho, min(rho1, anti))) < S) 0 else circDist(r[2], g.az), ta),
          (6, r[3] - upper, tp),
          (7, d12 - r[3], tp),
          must(8, r[4] == a[2] and r[5] == a[3] and r[6] == a[4] and r[7] == a[5]),
        ]
      }
    }
  }
  pure def judge(st: St, ev: Ev): (St, int) = (st, firstOver(clauses(st, ev)))
}
