/// C10  Prime meridians: a longitude is counted from the datum's prime meridian.
/// State: the physical point (longitude from Greenwich, latitude, height) and the datum it is expressed in.
/// op 1 place [a, invf, pm, lon, lat, h]; op 2 re-express for prime meridian [pm]; op 3 there and back in place.
/// r = [status, lon, lat, h, pm, x, y, z]
module c10 {
  import fx.* from "./fx"
  import geo.* from "./geo"
  type St = { a: int, invf: int, pm: int, glon: int, lat: int, h: int }
  pure val st0: St = { a: 6378137 * S, invf: 298257223563 * 10^21, pm: 0, glon: 0, lat: 0, h: 0 }
  pure val PIF: int = 3141592653589793115997963468544
  /// the transition: the point itself moves only when it is placed
  pure def move(st: St, ev: Ev): St = {
    val a = ev.a
    if (ev.op == 1) { a: a[0], invf: a[1], pm: a[2], glon: a[2] + a[3], lat: a[4], h: a[5] }
    else if (ev.op == 2) st.with("pm", a[0])
    else st
  }
  pure def clauses(st: St, ev: Ev): List[(int, int, int)] = {
    val r = ev.r
    if (r[0] != OK) [must(1, false)]
    else if (not(isNum(r[1]) and isNum(r[2]) and isNum(r[3]))) [must(2, false)]
    else {
      val n = move(st, ev)
      val E = ell(n.a, n.invf)
      val R = E.a + abs(n.h)
      val t = R / 10^15 * 12
      val c = max(cos(n.lat), 1)
      val p = toXYZ(E, n.glon, n.lat, n.h)
      [
        must(10, abs(r[1]) <= PIF and 2 * abs(r[2]) <= PIF),
        (3, mul(mul(R, c), circDist(r[1] + n.pm, n.glon)), t),
        (4, mul(R, gap(r[2], n.lat)), t),
        (5, gap(r[3], n.h), t),
        (6, circDist(r[4], n.pm), 2 * 10^15),
        (7, gap(r[5], p.x), t), (8, gap(r[6], p.y), t), (9, gap(r[7], p.z), t),
      ]
    }
  }
  pure def judge(st: St, ev: Ev): (St, int) = {
    val v = firstOver(clauses(st, ev))
    val n = move(st, ev)
    // follow the implementation's rounding so that errors do not pile up along a history
    (if (v == 0) n.with("glon", n.pm + ev.r[1]).with("lat", ev.r[2]).with("h", ev.r[3]) else n, v)
  }
}
