/// C28  The math kernel.
/// op 1 complex [zre, zim, wre, wim, s, k]; r = [status, z+w, z-w, z*w, conj z, z+s, z-s, z*s, z/s, z/w, 1/w (pairs),
///      z/w ok, 1/w ok, |z|, |z|^2, arg z, z == w, z == 0, zero constants agree,
///      |2^k z| / 2^k, arg(2^k z), (2^k z + 2^k w) / 2^k, 2^k z * 2^-k w]
/// op 2 polynomial [degree bound, x, zre, zim, c0..c7]; r = [status, p(x), p(x) (fused), p(z)]
/// op 3 sine sum [n, x, c0..]; op 4 two-sum [a, b]; op 5 remainder and square [v, m]
/// op 6 iteration x += k (t - x) from x0 until all steps are below eps: [k1, k2, t1, t2, x1, x2, e1, e2]
module c28 {
  import fx.* from "./fx"
  type St = int
  pure val st0: St = 0
  type Cx = { re: int, im: int }
  pure def cx(re: int, im: int): Cx = { re: re, im: im }
  pure def cadd(a: Cx, b: Cx): Cx = cx(a.re + b.re, a.im + b.im)
  pure def cmul(a: Cx, b: Cx): Cx = cx(mul(a.re, b.re) - mul(a.im, b.im), mul(a.re, b.im) + mul(a.im, b.re))
  pure def cabs(a: Cx): int = hypot(a.re, a.im)
  pure def cinv(a: Cx): Cx = {
    val d = a.re * a.re + a.im * a.im
    cx((a.re * S * S) / d, (-a.im * S * S) / d)
  }
  pure def cdiv(a: Cx, b: Cx): Cx = {
    val d = b.re * b.re + b.im * b.im
    cx(((a.re * b.re + a.im * b.im) * S) / d, ((a.im * b.re - a.re * b.im) * S) / d)
  }
  /// largest component gap of an observed pair r[k], r[k+1]
  pure def cgap(r: List[int], k: int, w: Cx): int = max(gap(r[k], w.re), gap(r[k + 1], w.im))
  pure val U: int = 450000000000000           // two ulps, relative
  pure val TINY: int = 1000
  pure def horner(c: List[int], n: int, x: int): int =
    range(0, n).foldl(0, (acc, j) => mul(acc, x) + c[n - 1 - j])
  pure def hornerC(c: List[int], n: int, x: Cx): Cx =
    range(0, n).foldl(cx(0, 0), (acc, j) => cadd(cmul(acc, x), cx(c[n - 1 - j], 0)))
  /// sum of |c_j| |x|^j: the scale of the rounding error
  pure def weight(c: List[int], n: int, x: int): int =
    range(0, n).foldl(0, (acc, j) => mul(acc, x) + abs(c[n - 1 - j]))

  pure def clauses(st: St, ev: Ev): List[(int, int, int)] = {
    val a = ev.a
    val r = ev.r
    if (r[0] != OK) [must(1, false)]
    else if (ev.op == 1) {
      val z = cx(a[0], a[1])
      val w = cx(a[2], a[3])
      val s = a[4]
      val az = cabs(z)
      val aw = cabs(w)
      val wz = w == cx(0, 0)
      val arg = atan2(a[1], a[0])
      List(
        (2, cgap(r, 1, cadd(z, w)), mul(az + aw, U)),
        (3, cgap(r, 3, cx(z.re - w.re, z.im - w.im)), mul(az + aw, U)),
        (4, cgap(r, 5, cmul(z, w)), 4 * mul(mul(az, aw), U) + TINY),
        (5, cgap(r, 7, cx(z.re, -z.im)), 1),
        (6, cgap(r, 9, cx(z.re + s, z.im)), mul(az + abs(s), U)),
        (7, cgap(r, 11, cx(z.re - s, z.im)), mul(az + abs(s), U)),
        (8, cgap(r, 13, cx(mul(z.re, s), mul(z.im, s))), mul(mul(az, abs(s)), U) + TINY),
        (9, cgap(r, 15, cx(div(z.re, s), div(z.im, s))), mul(div(az, abs(s)), U) + TINY),
        must(10, boolIs(r[21], not(wz)) and boolIs(r[22], not(wz))),
        (11, if (wz) 0 else cgap(r, 17, cdiv(z, w)), if (wz) 0 else 12 * mul(div(az, aw), U) + 100 * TINY),
        (12, if (wz) 0 else cgap(r, 19, cinv(w)), if (wz) 0 else 8 * mul(div(S, aw), U) + 100 * TINY),
        (13, gap(r[23], az), 4 * mul(az, U) + TINY),
        (14, gap(r[24], sq(z.re) + sq(z.im)), 4 * mul(sq(az), U) + TINY),
        (15, if (z == cx(0, 0)) (if (r[25] == 0 or abs(r[25]) == PIF) 0 else BIGV) else gap(r[25], arg), 4 * U + 4 * mul(abs(arg), U)),
        must(16, -PIF < r[25] and r[25] <= PIF),
        must(17, boolIs(r[26], z == w)),
        must(18, boolIs(r[27], z == cx(0, 0)) and asBool(r[28])),
        // the same at any magnitude
        (19, gap(r[29], az), 4 * mul(az, U) + TINY),
        (20, if (z == cx(0, 0)) 0 else gap(r[30], arg), 4 * U + 4 * mul(abs(arg), U)),
        (24, cgap(r, 31, cadd(z, w)), mul(az + aw, U)),
        (25, cgap(r, 33, cmul(z, w)), 4 * mul(mul(az, aw), U) + TINY)
      )
    } else if (ev.op == 2) {
      val n = a[0] / S
      val c = a.slice(4, 12)
      val z = cx(a[2], a[3])
      val t = 2 * (n + 1) * mul(weight(c, n, abs(a[1])), U) + 100000
      List(
        (21, gap(r[1], horner(c, n, a[1])), t), (22, gap(r[2], horner(c, n, a[1])), t),
        (23, cgap(r, 3, hornerC(c, n, z)), 6 * (n + 1) * mul(weight(c, n, cabs(z)), U) + 100000)
      )
    } else if (ev.op == 3) {
      val n = a[0] / S
      val want = range(0, n).foldl(0, (acc, k) => acc + mul(a[2 + k], sin(k * a[1])))
      val w = range(0, n).foldl(0, (acc, k) => acc + abs(a[2 + k]))
      // Clenshaw's recurrence loses a factor up to n^2 next to multiples of pi
      List((31, gap(r[1], want), 16 * (n + 1) * (n + 1) * mul(w, U) + TINY))
    } else if (ev.op == 4) {
      List(must(41, isNum(r[1]) and isNum(r[2])), (42, abs(r[1] + r[2] - a[0] - a[1]), 3),
           (43, abs(r[2]), mul(abs(r[1]), 111022302462516) + 2))
    } else if (ev.op == 5) {
      val q = fdiv(2 * (a[0] - r[1]) + a[1], 2 * a[1])
      List(must(51, isNum(r[1])), (52, abs(a[0] - r[1] - q * a[1]), abs(q) / 2 + 2), (53, abs(2 * r[1]), a[1] + 2),
           (54, if (isNum(r[2])) gap(r[2], sq(a[0])) else 0, mul(sq(a[0]), U) + TINY))
    } else {
      // the next step of the iteration is below the last one, which was below eps on every axis
      val d1 = abs(mul(a[0], a[2] - r[1]))
      val d2 = abs(mul(a[1], a[3] - r[2]))
      List((61, d1, a[6] + 10^17), (62, d2, a[7] + 10^17))
    }
  }
  pure val PIF: int = 3141592653589793115997963468544
  pure def judge(st: St, ev: Ev): (St, int) = (st, firstOver(clauses(st, ev)))
}
