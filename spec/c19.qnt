/// C19  CRS to CRS: the coordinates produced denote the same ground point, through both datum shifts.
/// a = [source (17), destination (17), source shift (8), destination shift (8), coordinates (3)]
/// op 1 forward, 2 backward, 3 there and back;  r = [status, coordinates (3), witness in (3), witness out (3)]
module c19 {
  import fx.* from "./fx"
  import geo.* from "./geo"
  import proj.* from "./proj"
  import units.* from "./units"
  import axes.* from "./axes"
  import crs.* from "./crs"
  type St = int
  pure val st0: St = 0
  pure def clauses(st: St, ev: Ev): List[(int, int, int)] = {
    val a = ev.a
    val r = ev.r
    val bwd = ev.op == 2
    val A = a.slice(if (bwd) 17 else 0, if (bwd) 34 else 17)
    val B = a.slice(if (bwd) 0 else 17, if (bwd) 17 else 34)
    val hA = shiftOf(a.slice(if (bwd) 42 else 34, if (bwd) 50 else 42))
    val hB = shiftOf(a.slice(if (bwd) 34 else 42, if (bwd) 42 else 50))
    val c = a.slice(50, 53)
    val o = r.slice(1, 4)
    if (r[0] != OK) [must(1, false)]
    else if (ev.op <= 2) {
      val g = groundOf(A, c, r.slice(4, 7))
      val q = fromRef(hB, toRef(hA, g.p))
      val e = groundOf(B, o, r.slice(7, 10))
      // geodetic latitudes come from an iterative inverse; figures of different size scale the map errors
      val tol = (A[1] + B[1] + 2 * abs(q.x) + 2 * abs(q.y) + 2 * abs(q.z)) / (2 * 10^14) + 2 * neglected(hB, q) + 2 * e.err + 2 * g.err
      [(2, g.off, g.tol), (3, e.off, e.tol), (4, apart(e, q), tol),
       must(5, if (dimOf(B) == 3) true else o[2] == 0)]
    } else {
      // there and back through a destination that keeps heights
      val pos = if (kindOf(A) == 1) { x: c[0], y: c[1], z: c[2] } else { x: A[1], y: A[1], z: A[1] }
      val tol0 = (3 * A[1] + 3 * B[1] + 2 * abs(pos.x) + 2 * abs(pos.y) + 2 * abs(pos.z)) / (2 * 10^14) + 4 * neglected(hA, pos) + 4 * neglected(hB, pos)
      val pb = if (kindOf(B) == 3) pjOf(B) else params(1, [B[1], B[2], 0, 0, S, 0, 0])
      // truncation of the destination's projection, both ways
      val tolB = if (kindOf(B) != 3) 0 else mulTol(pb)
      if (kindOf(A) == 3) {
        val x = enhOf(A, c)
        val y = enhOf(A, o)
        val p = pjOf(A)
        // plane errors: latitude 84.1 at most in the domain, scale factor below 10 k0
        val t = 30 * mul(p.k0 + S, tol0 + tolB + mulTol(p))
        [(6, dEast(p, x[0], y[0]), t), (7, gap(x[1], y[1]), t),
         (8, if (dimOf(A) == 3) gap(x[2], y[2]) else 0, t)]
      } else {
        val g = groundOf(A, c, c)
        val e = groundOf(A, o, o)
        [(9, apart(e, g.p), tol0 + tolB)]
      }
    }
  }
  /// truncation of the series of a projection within 9 degrees of its meridian / below 84.1 degrees
  pure def mulTol(p: Pj): int =
    if (isTM(p)) {
      val n = p.E.n
      p.E.a / 10^12 + mul(60 * p.E.a, mul3(sq(n), sq(n), n)) + div(abs(p.fe) + abs(p.fn), p.k0) / 10^14
    } else p.E.a / 10^12 + mul3(p.E.a, sq(sq(p.E.e2)), p.E.e2) + div(abs(p.fe) + abs(p.fn), p.k0) / 10^14
  pure def judge(st: St, ev: Ev): (St, int) = (st, firstOver(clauses(st, ev)))
}
