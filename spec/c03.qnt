/// C03  Closed arcs of the circle: emptiness, fullness and length agree with the arc from lo to hi.
module c03 {
  import fx.* from "./fx"
  type St = int
  pure val st0: St = 0
  pure val PIF: int = 3141592653589793115997963468544

  /// The arc [lo, hi] travelled counter-clockwise, as (empty, full, length).
  /// Only the representation [pi, -pi] is empty and only [-pi, pi] is full; elsewhere -pi and pi are one point.
  pure def arc(lo: int, hi: int): { empty: bool, full: bool, length: int } =
    if (lo == PIF and hi == -PIF) { empty: true, full: false, length: 0 }
    else if (lo == -PIF and hi == PIF) { empty: false, full: true, length: TAU }
    else {
      val l = fmod(hi - lo, TAU)
      { empty: false, full: false, length: l }
    }
  pure def lenOk(x: int, want: int): bool =
    isNum(x) and 0 <= x and x <= TAU + 10^15 and abs(x - want) <= 4 * 10^15

  pure def judge(st: St, ev: Ev): (St, int) = {
    val r = ev.r
    if (r[0] != OK) (st, 1)
    else if (ev.op == 5) {
      // equality of two arcs within [-pi, pi]: same bounds, equal; a bound apart on the circle, different
      val apart = circDist(ev.a[0], ev.a[2]) > 4 * 10^15 or circDist(ev.a[1], ev.a[3]) > 4 * 10^15
      val same = ev.a[0] == ev.a[2] and ev.a[1] == ev.a[3]
      (st, firstBad(List(
        (51, same implies asBool(r[1])), (52, apart implies boolIs(r[1], false)), (53, r[2] == r[1]), (54, asBool(r[3])))))
    } else if (ev.op == 6) {
      // the arcs of the single points p and q, both within [-pi, pi], are equal exactly if p and q are the same point,
      // and the arc of p is the arc from p to p
      val p = ev.a[0]
      val q = ev.a[1]
      val one = p == q or (abs(p) == PIF and abs(q) == PIF)
      (st, firstBad(List(
        (61, one implies asBool(r[1])), (62, circDist(p, q) > 4 * 10^15 implies boolIs(r[1], false)), (63, r[2] == r[1]),
        (64, asBool(r[3])))))
    } else {
      val w =
        if (ev.op == 2) { empty: true, full: false, length: 0 }
        else if (ev.op == 3) { empty: false, full: true, length: TAU }
        else if (ev.op == 4) { empty: false, full: false, length: 0 }
        else {
          // inputs outside [-pi, pi] are first wrapped
          val lo = if (abs(ev.a[0]) > PIF) wrapPi(ev.a[0]) else ev.a[0]
          val hi = if (abs(ev.a[1]) > PIF) wrapPi(ev.a[1]) else ev.a[1]
          arc(lo, hi)
        }
      // an arc whose ends coincide up to rounding may be measured as 0 or (2 pi - 0)
      val degenerate = abs(w.length) <= 4 * 10^15 or abs(w.length - TAU) <= 4 * 10^15
      val same = abs(ev.a[0]) <= PIF and abs(ev.a[1]) <= PIF
      (st, firstBad([
        (2, boolIs(r[1], w.empty)),
        (3, boolIs(r[2], w.full)),
        (4, if (degenerate and not(same)) (lenOk(r[3], 0) or lenOk(r[3], TAU)) 
            else if (degenerate and not(w.full) and not(w.empty) and w.length > 0 and ev.op == 1)
              (lenOk(r[3], w.length) or lenOk(r[3], 0) or lenOk(r[3], TAU))
            else lenOk(r[3], w.length)),
        (5, boolIs(r[4], w.empty)),
        (6, boolIs(r[5], w.full)),
      ]))
    }
  }
}
