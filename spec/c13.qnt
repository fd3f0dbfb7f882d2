/// C13  Mercator (one and two standard parallels) and web Mercator forward formulas.
/// op = projection kind; a = [a, invf, lon0, lat0 | zone, k0, fe, fn, lon, lat, h];  r = [status, easting, northing, height]
module c13 {
  import fx.* from "./fx"
  import geo.* from "./geo"
  import proj.* from "./proj"
  type St = int
  pure val st0: St = 0
  pure def clauses(st: St, ev: Ev): List[(int, int, int)] = {
    val a = ev.a
    val r = ev.r
    if (r[0] != OK) [must(1, false)]
    else {
      val p = params(ev.op, a)
      val z = image(p, a[7], a[8])
      [
        (2, dEast(p, r[1], z.x), z.tol),
        (3, gap(r[2], z.y), z.tol),
        must(4, r[3] == a[9]),
        // eastings stay within half a turn of the origin
        (5, if (isTM(p)) 0 else abs(r[1] - p.fe), mul(mul(p.E.a, p.k0), PI) + z.tol),
      ]
    }
  }
  pure def judge(st: St, ev: Ev): (St, int) = (st, firstOver(clauses(st, ev)))
}
