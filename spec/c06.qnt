/// C06  Approximate comparison: coordinates compare equal exactly when every axis difference is within the
/// tolerance of that axis; differences of longitudes and azimuths are taken around the circle.
module c06 {
  import fx.* from "./fx"
  type St = int
  pure val st0: St = 0
  pure val TINY_A: int = 10^18
  pure val TINY_L: int = 10^26
  pure val SMALL_A: int = 10^21
  pure val SMALL_L: int = 10^27

  /// -1 certainly different, 1 certainly equal, 0 within rounding of the tolerance
  pure def cmp(d: int, tol: int, mag: int): int = {
    val e = mag / 10^15 + tol / 10^15 + 10^6
    if (mag == 0 and d <= tol) 1 else if (d == 0) 1 else if (d <= tol - e) 1 else if (d > tol + e) -1 else 0
  }
  pure def conj(l: List[int]): int =
    if (l.select(x => x == -1).length() > 0) -1 else if (l.select(x => x == 0).length() > 0) 0 else 1
  pure def clampLat(x: int): int = max(-HALFPI, min(HALFPI, x))
  /// around the circle, differences of the reduced angles carry the rounding of the reduction
  pure def lonCmp(p: int, q: int, t: int): int = if (p == q) 1 else cmp(circDist(p, q), t, 4 * S)
  pure def latCmp(p: int, q: int, t: int): int = cmp(abs(clampLat(p) - clampLat(q)), t, if (p == q) 0 else 2 * S)
  pure def linCmp(p: int, q: int, t: int): int = cmp(abs(p - q), t, if (p == q) 0 else abs(p) + abs(q))
  pure def agrees(x: int, c: int): bool = isBool(x) and (if (c == 1) asBool(x) else if (c == -1) not(asBool(x)) else true)

  pure def judge(st: St, ev: Ev): (St, int) = {
    val a = ev.a
    val r = ev.r
    val p = a.slice(0, 3)
    val q = a.slice(3, 6)
    val t = a.slice(6, 9)
    val kind = a[9] / S
    if (r[0] != OK) (st, 1)
    else if (ev.op == 6) {
      val la = if (kind == 2) SMALL_A else if (kind <= 3) TINY_A else if (kind == 5 or kind == 8) SMALL_L else TINY_L
      val lh = if (kind == 2 or kind == 5 or kind == 8) SMALL_L else TINY_L
      (st, firstBad([(61, near(r[1], la, la / 10^12)), (62, near(r[2], la, la / 10^12)), (63, near(r[3], lh, lh / 10^12))]))
    } else {
      val want =
        if (ev.op == 1) conj([lonCmp(p[0], q[0], t[0]), latCmp(p[1], q[1], t[1]), linCmp(p[2], q[2], t[2])])
        else if (ev.op == 2) conj([linCmp(p[0], q[0], t[0]), linCmp(p[1], q[1], t[0]), linCmp(p[2], q[2], t[0])])
        else if (ev.op == 3) conj([linCmp(p[0], q[0], t[0]), linCmp(p[1], q[1], t[0]), linCmp(p[2], q[2], t[2])])
        else if (ev.op == 4) conj([linCmp(p[0], q[0], t[0]), linCmp(p[1], q[1], t[1]),
                                   if (kind == 2 or kind == 4) 1 else linCmp(p[2], q[2], t[2])])
        else if (ev.op == 7) conj([lonCmp(p[0], q[0], TINY_A), latCmp(p[1], q[1], TINY_A), lonCmp(p[2], q[2], TINY_A)])
        else if (ev.op == 8) conj([lonCmp(p[0], q[0], TINY_A), lonCmp(p[1], q[1], TINY_A), linCmp(p[2], q[2], TINY_L)])
        else if (kind == 1 or kind == 3) lonCmp(p[0], q[0], t[0])
        else if (kind == 2) latCmp(p[0], q[0], t[0])
        else linCmp(p[0], q[0], t[0])
      val third =
        if (ev.op != 5) want
        else if (kind == 1 or kind == 3) lonCmp(p[0], q[0], TINY_A)
        else if (kind == 2) latCmp(p[0], q[0], TINY_A)
        else linCmp(p[0], q[0], if (kind == 4) TINY_A else TINY_L)
      (st, firstBad([
        (10 * ev.op + 1, agrees(r[1], want)),
        (10 * ev.op + 2, r[2] == r[1]),               // symmetric
        (10 * ev.op + 3, agrees(r[3], third)),
      ]))
    }
  }
}
