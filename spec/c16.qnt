/// C16  Projections always come back: forward answers are finite on the domain, inverse answers are legal
/// longitudes and latitudes whatever the plane coordinates, or the out-of-bounds error.
/// op = kind: forward; op = 10 + kind: inverse (see c13, c15 for the layout)
module c16 {
  import fx.* from "./fx"
  import geo.* from "./geo"
  import proj.* from "./proj"
  type St = int
  pure val st0: St = 0
  pure val PIF: int = 3141592653589793115997963468544
  pure def clauses(st: St, ev: Ev): List[(int, int, int)] = {
    val a = ev.a
    val r = ev.r
    if (r[0] == PANIC) [must(1, false)]
    else if (r[0] == HANG) [must(2, false)]
    else if (ev.op < 10) {
      val p = params(ev.op, a)
      val dl = abs(wrapPi(a[7] - p.lon0))
      // the whole sphere except the singular points: poles of Mercator, and the two points of the equator a
      // quarter turn from the central meridian of a transverse cylinder
      val regular = if (isTM(p)) abs(dl - HALFPI) + abs(a[8]) > S / 100
                    else HALFPI - abs(a[8]) > S / 10^9
      // there: the out-of-bounds error, or (next to it) finite coordinates
      if (not(regular)) (if (r[0] == ERR) List() else List(must(11, finite(r[1])), must(12, finite(r[2])), must(13, r[3] == a[9])))
      else if (r[0] == ERR) [must(3, false)]
      else [must(4, finite(r[1])), must(5, finite(r[2])), must(6, r[3] == a[9])]
    } else {
      val p = params(ev.op - 10, a)
      val numbers = isNum(a[7]) and isNum(a[8])
      // a mappable point: within the image of the domain
      val span = mul(mul(p.E.a, p.k0), S)
      val near = numbers and abs(a[7] - p.fe) <= span and abs(a[8] - p.fn) <= 3 * span
      if (r[0] == ERR) [must(7, not(near))]
      else if (not(numbers)) []
      else [must(8, isNum(r[1]) and abs(r[1]) <= PIF),
            must(9, isNum(r[2]) and 2 * abs(r[2]) <= PIF),
            must(10, r[3] == a[9])]
    }
  }
  pure def judge(st: St, ev: Ev): (St, int) = (st, firstOver(clauses(st, ev)))
}
