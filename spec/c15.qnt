/// C15  Inverse projections undo forward ones.
/// op = kind: r = [status, e, n, h, status, lon, lat, h] of unproj(proj(lon, lat, h))
/// op = 10 + kind: a[7..9] = easting, northing, height; r = [status, lon, lat, h] of unproj
module c15 {
  import fx.* from "./fx"
  import geo.* from "./geo"
  import proj.* from "./proj"
  type St = int
  pure val st0: St = 0
  pure def clauses(st: St, ev: Ev): List[(int, int, int)] = {
    val a = ev.a
    val r = ev.r
    if (r[0] != OK) [must(1, false)]
    else if (ev.op < 10) {
      if (r[4] != OK) [must(2, false)]
      else {
        val p = params(ev.op, a)
        val z = image(p, a[7], a[8])
        val t = ground(p, z, a[8])
        val c = cos(a[8])
        [
          (3, mul3(p.E.a, gap(r[6], a[8]), S), t),
          (4, if (isNum(r[5])) mul3(p.E.a, circDist(r[5], a[7]), c) else BIGV, t),
          must(5, r[7] == a[9]),
        ]
      }
    } else {
      val p = params(ev.op - 10, a)
      if (not(isNum(r[1]) and isNum(r[2]))) [must(6, false)]
      else {
        val z = image(p, r[1], r[2])
        // distances in the plane are magnified by the scale factor
        val c = if (isTM(p)) S else max(S / 10^6, cos(r[2]))
        val t = div(mul(p.k0, ground(p, z, r[2])), c) + 2 * z.tol
        [
          (7, dEast(p, z.x, a[7]), t),
          (8, gap(z.y, a[8]), t),
          must(9, r[3] == a[9]),
        ]
      }
    }
  }
  pure def judge(st: St, ev: Ev): (St, int) = (st, firstOver(clauses(st, ev)))
}
