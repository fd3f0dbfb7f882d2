/// C05  Axes: normalization and denormalization put every value in its slot, with its sign and unit.
module c05 {
  import fx.* from "./fx"
  import units.* from "./units"
  import axes.* from "./axes"
  type St = int
  pure val st0: St = 0

  pure def rnd(t: int): int = abs(t) / 10^14 + 10^6
  pure def g(code: int, x: int, t: int): (int, int, int) = (code, gap(x, t), rnd(t))
  pure def all3(r: List[int], t: List[int]): List[(int, int, int)] =
    [g(11, r[2], t[0]), g(12, r[3], t[1]), g(13, r[4], t[2])]

  pure def clauses(st: St, ev: Ev): List[(int, int, int)] = {
    val a = ev.a
    val r = ev.r
    val kind = a[0] / S
    val v = a.slice(7, 10)
    if (r[0] != OK) [must(1, false)]
    // what lies behind the coordinates in a longer slice is neither read nor written
    else if (r[5] != 0) [must(18, false)]
    else if (ev.op < 10) {
      val ua = angleUnitOf(a[1], a[2], a[3])
      val uh = lengthUnitOf(a[4], a[5], a[6])
      val dim = must(2, r[1] == gDim(kind) * S)
      if (ev.op == 1) {
        val t = gNormal(kind, ua, uh, v)
        [dim,
         must(3, isNum(r[2]) and abs(r[2]) <= PI + 10^12),
         (4, if (isNum(r[2])) circDist(r[2], t._1) else BIGV, 10^15 + abs(t._1) / 10^14),
         (5, gap(r[3], clampLat(t._2)), rnd(t._2)),
         g(6, r[4], t._3)]
      } else if (ev.op == 2) List(dim).concat(all3(r, gRaw(kind, ua, uh, (v[0], v[1], v[2]))))
      else if (ev.op == 3) {
        // tolerances are magnitudes: axis order and unit apply, axis direction does not
        val k = if (kind == 5) 4 else kind
        List(dim).concat(all3(r, gRaw(k, ua, uh, (v[0], v[1], v[2]))))
      } else {
        val three = if (gDim(kind) == 3) v[2] else 0
        val li = lonIndex(kind)
        val lon = if (li == 0) r[2] else r[3]
        val lat = if (li == 0) r[3] else r[2]
        // the direction +-180 may come back as either end of the range
        [dim,
         (15, if (isNum(lon)) circDist(toBase(lon, ua), toBase(v[li], ua)) else BIGV, 4 * 10^15),
         (16, gap(lat, v[1 - li]), rnd(v[1 - li])),
         g(17, r[4], three)]
      }
    } else if (ev.op < 20) {
      val u = lengthUnitOf(a[1], a[2], a[3])
      val uh = lengthUnitOf(a[4], a[5], a[6])
      val dim = must(2, r[1] == pDim(kind) * S)
      val t = if (ev.op == 11) pNormal(kind, u, uh, v)
        else if (ev.op == 12) pRaw(kind, u, uh, v)
        else if (ev.op == 13) pRaw(kind, u, uh, [v[0], v[0], v[2]])
        else [v[0], v[1], if (pDim(kind) == 3) v[2] else 0]
      List(dim).concat(all3(r, t))
    } else {
      // geocentric axes and the default geodetic axes are already normalized
      List(must(2, r[1] == 3 * S)).concat(all3(r, if (ev.op == 23) [v[0], v[0], v[0]] else v))
    }
  }
  pure def judge(st: St, ev: Ev): (St, int) = (st, firstOver(clauses(st, ev)))
}
