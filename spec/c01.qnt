/// C01  Longitudes and azimuths: canonical range and congruence along every history of operations.
///
/// State: the current longitude and azimuth (real radians, fixed point).  Every operation has an ideal real
/// result; the implementation must return a value in the canonical range that is congruent to the ideal one
/// modulo 2 pi.
module c01 {
  import fx.* from "./fx"

  type St = { lon: int, az: int }
  pure val st0: St = { lon: 0, az: 0 }

  /// the f64 nearest to pi, as a real
  pure val PIF: int = 3141592653589793115997963468544
  pure val DEG: int = PI / 180

  /// allowed rounding for an ideal value t
  pure def tol(t: int): int = 2 * 10^15 + abs(t) / 10^15
  /// beyond this magnitude a double no longer identifies a direction to better than 1e-7: only the range is required
  pure val DOMAIN: int = 10^8 * S

  pure def inLon(x: int): bool = isNum(x) and -PIF <= x and x <= PIF
  pure def inAz(x: int): bool = isNum(x) and -PIF < x and x <= PIF
  pure def congruent(x: int, t: int): bool = if (abs(t) > DOMAIN) true else circDist(x, t) <= tol(t)

  pure def dmsRad(a: List[int]): int = {
    val v = abs(a[0]) + a[1] / 60 + a[2] / 3600
    mul(DEG, if (asBool(a[3])) -v else v)
  }

  /// Ideal value of each longitude-valued operation (before reduction).
  pure def idealLon(st: St, op: int, a: List[int]): int =
    if (op == 1) a[0]
    else if (op == 2) mul(a[0], DEG)
    else if (op == 3) dmsRad(a)
    else if (op == 4 or op == 5 or op == 6) st.lon + a[0]
    else if (op == 7 or op == 8) st.lon - a[0]
    else if (op == 9 or op == 10 or op == 11) mul(st.lon, a[0])
    else if (op == 12 or op == 13) div(st.lon, a[0])
    else if (op == 14) -st.lon
    else if (op == 15) st.lon
    else if (op == 17) (a[0] * PI) / (200 * S)
    else (a[0] * PI) / (648000 * S)

  pure def idealAz(st: St, op: int, a: List[int]): int =
    if (op == 21) a[0]
    else if (op == 22 or op == 28) mul(a[0], DEG)
    else if (op == 23) dmsRad(a)
    else st.az + a[0]

  /// Ideal value of each operation that returns a plain oriented angle in (-pi, pi].
  pure def idealAngle(st: St, op: int, a: List[int]): int =
    if (op == 16) st.lon - a[0]
    else if (op == 19) a[0] - st.lon
    else if (op == 26) st.az - a[0]
    else if (op == 27) a[0] - st.az
    else if (op == 33) a[1] - a[0]
    else a[0]

  pure def isLonOp(op: int): bool = (op >= 1 and op <= 15) or op == 17 or op == 18
  pure def isAzOp(op: int): bool = (op >= 21 and op <= 25) or op == 28

  pure def trigOk(x: int, r: List[int]): bool = {
    val sc = sincos(x)
    and {
      near(r[2], sc._1, 10^15), near(r[3], sc._2, 10^15),
      near(r[4], sc._1, 10^15), near(r[5], sc._2, 10^15), tanIs(r[7], sc),
    }
  }

  pure def judge(st: St, ev: Ev): (St, int) = {
    val x = ev.r[1]
    if (ev.r[0] != OK) (st, 1)                                     // these operations are total
    else if (isLonOp(ev.op)) {
      val t = idealLon(st, ev.op, ev.a)
      val v = firstBad([
        (2, inLon(x)),                                             // wrapped into [-pi, pi]
        (3, inLon(x) implies congruent(x, t)),                     // same direction
        (4, inLon(x) implies trigOk(x, ev.r)),
        (5, if (ev.op == 15) inAz(x) else true),                   // normalized(): (-pi, pi]
        (6, if (x > 0) ev.r[6] == S else if (x < 0) ev.r[6] == -S else abs(ev.r[6]) == S),
      ])
      (if (isNum(x)) st.with("lon", x) else st, v)
    } else if (isAzOp(ev.op)) {
      val t = idealAz(st, ev.op, ev.a)
      val v = firstBad([
        (12, inAz(x)), (13, inAz(x) implies congruent(x, t)), (14, inAz(x) implies trigOk(x, ev.r)),
      ])
      (if (isNum(x)) st.with("az", x) else st, v)
    } else if (ev.op == 34) {
      val want = [0, HALFPI, PI, -HALFPI][ev.a[0] / S]
      (st, if (near(x, want, 10^15)) 0 else 21)
    } else if (ev.op == 35) {
      val want = [-PI, 0, PI][ev.a[0] / S]
      (st, if (near(x, want, 10^15)) 0 else 22)
    } else {
      val t = idealAngle(st, ev.op, ev.a)
      // both operands are already reduced or reduced on entry: the error scales with the inputs
      val big = max(abs(t), max(abs(ev.a[0]), if (ev.op == 33) abs(ev.a[1]) else 0))
      val v = firstBad([
        (31, inAz(x)),
        (32, inAz(x) implies (if (big > DOMAIN) true else circDist(x, t) <= 2 * tol(big))),
      ])
      (st, v)
    }
  }
}
