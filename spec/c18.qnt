/// C18  Datum shifts: identity, geocentric translation and seven parameter similarity, and their reversal.
/// a = [shift (8), x, y, z]; op 1 to the reference, 2 from it, 3 to and from, 4 from and to;  r = [status, x, y, z]
module c18 {
  import fx.* from "./fx"
  import geo.* from "./geo"
  import crs.* from "./crs"
  type St = int
  pure val st0: St = 0
  pure def clauses(st: St, ev: Ev): List[(int, int, int)] = {
    val r = ev.r
    val h = shiftOf(ev.a)
    val p = { x: ev.a[8], y: ev.a[9], z: ev.a[10] }
    val m = abs(p.x) + abs(p.y) + abs(p.z) + abs(h.t.x) + abs(h.t.y) + abs(h.t.z)
    val rnd = m / (2 * 10^14) + 10^12
    val want = if (ev.op == 1) toRef(h, p) else if (ev.op == 2) fromRef(h, p) else p
    val tol = rnd + (if (ev.op == 1) 0 else 2 * neglected(h, p))
    if (r[0] != OK) [must(1, false)]
    else [(10 * ev.op, gap(r[1], want.x), tol), (10 * ev.op + 1, gap(r[2], want.y), tol), (10 * ev.op + 2, gap(r[3], want.z), tol)]
  }
  pure def judge(st: St, ev: Ev): (St, int) = (st, firstOver(clauses(st, ev)))
}
