/// C11  Ellipsoids: constructors reject impossible shapes and every derived parameter agrees with (a, b).
/// op 1 from_ab [a, b]; op 2 from_ainvf [a, invf];
///   r = [status, a, b, invf, f, n, e2, e, e'2, e', spherical, a^2, b^2]
/// op 3 curvature [a, invf, lat]; r = [status, reduced, geocentric, N, M, R]
module c11 {
  import fx.* from "./fx"
  import geo.* from "./geo"
  type St = int
  pure val st0: St = 0
  pure def rel(x: int, t: int): int = if (not(isNum(x))) BIGV else if (t == 0) abs(x) else div(abs(x - t), abs(t))
  pure def clauses(st: St, ev: Ev): List[(int, int, int)] = {
    val a = ev.a
    val r = ev.r
    if (ev.op <= 2) {
      val valid = if (a[0] == NAN or a[1] == NAN) false else if (ev.op == 1) (a[1] > 0 and a[0] >= a[1]) else (a[0] > 0 and a[1] > S)
      if (not(valid)) [must(1, r[0] == PANIC)]
      else if (r[0] != OK) [must(2, false)]
      else {
        val sphere = if (ev.op == 1) a[0] == a[1] else not(isNum(a[1]))
        val E = if (ev.op == 1) ellAB(a[0], a[1]) else if (sphere) ell(a[0], 0) else ell(a[0], a[1])
        // flattening quantities lose relative precision when a - b cancels
        val cond = if (sphere) S else div(S, max(E.f, 1))
        val t = 10^15 + mul(cond, 10^15)
        // a needle (b < a/100) has no meaningful curvature in double precision: only acceptance is required
        if (E.b < E.a / 100) [must(15, true)] else [
          (3, gap(r[1], E.a), 0),
          (4, div(gap(r[2], E.b), E.a), 10^15),
          (5, if (sphere) (if (isNum(r[3])) BIGV else 0) else rel(r[3], div(S, E.f)), t),
          (6, rel(r[4], E.f), t), (7, rel(r[5], E.n), t),
          (8, rel(r[6], E.e2), 2 * t), (9, rel(r[7], E.e), 2 * t), 
          (10, rel(r[8], E.ep2), mul(4 * t, div(E.a, E.b))), (11, rel(r[9], sqrt(E.ep2)), mul(4 * t, div(E.a, E.b))),
          must(12, boolIs(r[10], sphere) or (r[1] == r[2] and asBool(r[10]))),
          (13, rel(r[11], sq(E.a)), 10^15), (14, rel(r[12], sq(E.b)), mul(2 * 10^15, div(E.a, E.b))),
        ]
      }
    } else if (r[0] != OK) [must(21, false)]
    else {
      val E = ell(a[0], a[1])
      val sp = sincos(a[2])
      val w = S - mul(E.e2, sq(sp._1))
      val N = div(E.a, sqrt(w))
      val Mr = div(mul(E.a, S - E.e2), mul(w, sqrt(w)))
      val c = S + div(S, max(1, w))
      [
        (22, gap(r[1], atan2(mul(S - E.f, sp._1), sp._2)), 4 * 10^14 + mul(c, 10^14)),
        (23, gap(r[2], atan2(mul(S - E.e2, sp._1), sp._2)), 4 * 10^14 + mul(c, 10^14)),
        (24, rel(r[3], N), mul(c, 10^15)), (25, rel(r[4], Mr), mul(c, 3 * 10^15)), 
        (26, rel(r[5], isqrt(N * Mr)), mul(c, 3 * 10^15)),
      ]
    }
  }
  pure def judge(st: St, ev: Ev): (St, int) = (st, firstOver(clauses(st, ev)))
}
