/// C04  Quantities: unit conversion, arithmetic, degree-minute-second decomposition and printed form.
module c04 {
  import fx.* from "./fx"
  type St = int
  pure val st0: St = 0

  /// relative closeness: a few ulps of the ideal value
  pure def rel(x: int, t: int): bool = isNum(x) and abs(x - t) <= abs(t) / (4 * 10^14) + 10^6
  /// closeness relative to the magnitude m of the operands
  pure def relTo(x: int, t: int, m: int): bool = isNum(x) and abs(x - t) <= m / (4 * 10^14) + 10^6

  /// radians per unit / metres per unit, as (numerator, denominator)
  pure def angleUnit(a: List[int]): (int, int) =
    if (a[0] == 0) (S, S) else if (a[0] == S) (PI, 180 * S) else if (a[0] == 2 * S) (PI, 200 * S)
    else if (a[0] == 3 * S) (PI, 648000 * S) else (a[1], a[2])
  pure def lengthUnit(a: List[int]): (int, int) =
    if (a[0] == 0) (S, S) else if (a[0] == S) (3048, 10000) else if (a[0] == 2 * S) (1200, 3937) else (a[1], a[2])

  pure val DEG: int = PI / 180
  /// value in radians of (neg, d, m, s); d is taken as a magnitude
  pure def dmsRad(neg: bool, d: int, m: int, s: int): int = {
    val v = mul(abs(d) + m / 60 + s / 3600, DEG)
    if (neg) -v else v
  }
  pure def whole(x: int): bool = isNum(x) and x % S == 0
  /// a well formed degree / minute / second triple that denotes the angle t to better than 1e-6 arc second
  pure def dmsOk(neg: bool, d: int, m: int, s: int, t: int): bool = and {
    whole(d), whole(m), isNum(s),
    0 <= m and m <= 59 * S, 0 <= s and s < 60 * S,
    (d != 0) implies ((d < 0) == neg),
    abs(dmsRad(neg, d, m, s) - t) <= 5 * 10^18,
  }
  pure def shown(okf: int, neg: int, d: int, m: int, s: int, t: int): bool =
    asBool(okf) and dmsOk(asBool(neg) and (d != 0 or m != 0 or s != 0), if (asBool(neg)) -d else d, m, s, t)

  pure def cmpOk(r: int, b: bool): bool = boolIs(r, b)

  pure def judge(st: St, ev: Ev): (St, int) = {
    val a = ev.a
    val r = ev.r
    if (r[0] != OK) (st, 1)
    else if (ev.op == 1) {
      val u = angleUnit(a)
      val t = (a[3] * u._1) / u._2
      (st, firstBad([
        (11, rel(r[1], t)), (12, rel(r[2], t)), (13, rel(r[3], t)),
        (14, rel(r[4], a[3])), (15, rel(r[5], (t * 180 * S) / PI)), (16, rel(r[6], t)),
        (17, rel(r[7], (u._1 * S) / u._2)),
      ]))
    } else if (ev.op == 2) {
      val u = lengthUnit(a)
      val t = (a[3] * u._1) / u._2
      (st, firstBad([
        (21, rel(r[1], t)), (22, rel(r[2], t)), (23, rel(r[3], t)),
        (24, rel(r[4], a[3])), (25, rel(r[5], (t * 10000) / 3048)), (26, rel(r[6], t)),
        (27, rel(r[7], (u._1 * S) / u._2)),
      ]))
    } else if (ev.op == 3 or ev.op == 4) {
      val x = a[0]
      val y = a[1]
      val k = a[2]
      val m = abs(x) + abs(y)
      (st, firstBad([
        (31, relTo(r[1], x + y, m)), (32, relTo(r[2], x + y, m)),
        (33, relTo(r[3], x - y, m)), (34, relTo(r[4], x - y, m)),
        (35, rel(r[5], mul(x, k))), (36, rel(r[6], mul(x, k))), (37, rel(r[7], mul(x, k))),
        (38, rel(r[8], div(x, k))), (39, rel(r[9], div(x, k))),
        (40, if (ev.op == 3) rel(r[10], -x) else true),
        (41, rel(r[11], abs(x))),
        (42, if (ev.op == 3) (if (x == 0) abs(r[12]) == S else r[12] == sgn(x) * S)
             else rel(r[12], hypot(x, y))),
        (43, cmpOk(r[13], x < y)), (44, cmpOk(r[14], x == y)),
      ]))
    } else if (ev.op == 5) {
      val x = a[0]
      val y = a[1]
      val t = a[2]
      (st, firstBad([
        (51, rel(r[1], mul(x, t))), (52, rel(r[2], mul(x, t))),
        (53, rel(r[3], div(y, x))), (54, rel(r[4], atan2(x, y))), (55, rel(r[5], div(y, x))),
        (56, relTo(r[6], S + t / 10^6, 2 * S)), (57, relTo(r[7], S - t / 10^6, 2 * S)),
      ]))
    } else if (ev.op == 6) {
      val t = a[0]
      val neg = asBool(r[1])
      (st, firstBad([
        (61, dmsOk(neg, r[2], r[3], r[4], t)),
        (62, shown(r[5], r[6], r[7], r[8], r[9], t)),
        (63, shown(r[10], r[11], r[12], r[13], r[14], r[15])),
      ]))
    } else if (ev.op == 7) {
      val t = a[0]
      val d = (t * 180 * S) / PI
      (st, firstBad([
        (71, r[3] == S and rel(r[4], t)),
        (72, r[5] == S and rel(r[6], d)),
        (73, r[7] == S and rel(r[8], t)),
        (74, r[9] == S and rel(r[10], (r[1] * 180 * S) / PI)),
        (75, r[11] == S and rel(r[12], (r[2] * 180 * S) / PI)),
        (76, r[13] == S and rel(r[14], t)),
        (77, r[15] == S and rel(r[16], d)),
      ]))
    } else if (ev.op == 8) {
      val sc = sincos(a[0])
      (st, firstBad([
        (81, near(r[1], sc._1, 10^15)), (82, near(r[2], sc._2, 10^15)),
        (83, near(r[3], sc._1, 10^15)), (84, near(r[4], sc._2, 10^15)),
        (85, tanIs(r[5], sc)),
      ]))
    } else if (ev.op == 10) {
      val x = a[0]
      val y = a[1]
      val m = abs(x) + abs(y)
      (st, firstBad([
        (101, relTo(r[1], x + y, m)), (102, relTo(r[2], x - y, m)), (103, rel(r[3], abs(x))), (104, rel(r[4], hypot(x, y))),
        (105, rel(r[5], atan2(x, y))), (106, rel(r[6], div(x, y))), (107, relTo(r[7], x + y, m)), (108, relTo(r[8], x - y, m)),
        (109, rel(r[9], abs(x))), (110, cmpOk(r[10], x < y)), (111, cmpOk(r[11], x < y)),
      ]))
    } else {
      val want = [10^18, 10^21, 0, HALFPI, PI, TAU, -HALFPI, -PI, 10^18, 10^26, 10^27, 0, 10^26]
      (st, want.indices().filter(i => not(rel(r[i + 1], want[i]))).size() * 91)
    }
  }
}
