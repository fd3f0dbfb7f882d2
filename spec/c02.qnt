/// C02  Latitudes saturate at the poles along every history of operations.
module c02 {
  import fx.* from "./fx"
  type St = { lat: int }
  pure val st0: St = { lat: 0 }
  /// the f64 nearest to pi/2
  pure val HPIF: int = 1570796326794896557998981734272
  pure val DEG: int = PI / 180

  pure def inLat(x: int): bool = isNum(x) and -HPIF <= x and x <= HPIF
  pure def clampLat(t: int): int = max(-HPIF, min(HPIF, t))
  pure def tol(t: int): int = 5 * 10^14 + abs(t) / (2 * 10^15)

  pure def dmsRad(a: List[int]): int = {
    val v = abs(a[0]) + a[1] / 60 + a[2] / 3600
    mul(DEG, if (asBool(a[3])) -v else v)
  }
  pure def sat(x: int): int = max(-BIGV, min(BIGV, x))
  pure def ideal(st: St, op: int, a: List[int]): int =
    if (op == 1) sat(a[0])
    else if (op == 2) mul(sat(a[0]), DEG)
    else if (op == 3) dmsRad(a)
    else if (op == 4 or op == 5 or op == 6) st.lat + sat(a[0])
    else if (op == 7 or op == 8) st.lat - sat(a[0])
    else if (op == 9 or op == 10 or op == 11) mul(st.lat, a[0])
    else if (op == 12 or op == 13) div(st.lat, a[0])
    else if (op == 14) -st.lat
    else if (op == 15) abs(st.lat)
    else (sat(a[0]) * PI) / (200 * S)

  pure def judge(st: St, ev: Ev): (St, int) = {
    val x = ev.r[1]
    if (ev.r[0] != OK) (st, 1)
    else if (ev.op == 35) (st, if (near(x, [-HALFPI, 0, HALFPI][ev.a[0] / S], 10^15)) 0 else 22)
    else if (ev.op == 16) {
      // difference of two latitudes: a plain angle in [-pi, pi], not wrapped
      val t = st.lat - clampLat(ev.a[0])
      (st, if (near(x, t, 10^15)) 0 else 31)
    } else {
      val t = ideal(st, ev.op, ev.a)
      val sc = sincos(if (isNum(x)) x else 0)
      val v = firstBad([
        (2, inLat(x)),
        (3, inLat(x) implies abs(x - clampLat(t)) <= tol(min(abs(t), 4 * S))),
        (4, inLat(x) implies and {
          near(ev.r[2], sc._1, 10^15), near(ev.r[3], sc._2, 10^15),
          near(ev.r[4], sc._1, 10^15), near(ev.r[5], sc._2, 10^15), tanIs(ev.r[7], sc) }),
        (6, if (x > 0) ev.r[6] == S else if (x < 0) ev.r[6] == -S else abs(ev.r[6]) == S),
      ])
      (if (isNum(x)) { lat: x } else st, v)
    }
  }
}
