/// C20  Printed forms: every component, in order, with its label and unit, denoting the component's value.
/// The recorder reports what was printed as a list of (label, unit, value); this module says what must be there.
module c20 {
  import fx.* from "./fx"
  type St = int
  pure val st0: St = 0
  // labels
  pure val NONE: int = 0
  pure val LON: int = 1
  pure val LAT: int = 2
  pure val HEIGHT: int = 3
  pure val EAST: int = 4
  pure val NORTH: int = 5
  pure val LOW: int = 6
  pure val HIGH: int = 7
  pure val NAME: int = 8
  pure val SEMI_MAJOR: int = 9
  pure val SEMI_MINOR: int = 10
  pure val INVF: int = 11
  pure val ID: int = 12
  pure val ELLPS: int = 13
  pure val PM: int = 14
  pure val FROM: int = 15
  pure val TO: int = 16
  pure val AZ: int = 17
  pure val DLON: int = 18
  pure val DIST: int = 19
  // units
  pure val PLAIN: int = 0
  pure val METRES: int = 1
  pure val RADIANS: int = 2
  pure val DEGREES: int = 3
  pure val DMS: int = 4
  pure val GROUP: int = 5
  pure val TEXT: int = 6

  type Part = { label: int, unit: int, value: int, tol: int }
  pure def part(l: int, u: int, v: int, t: int): Part = { label: l, unit: u, value: v, tol: t }
  pure def deg(x: int): int = (x * 180 * S) / PI
  pure def ulps(x: int): int = abs(x) / (4 * 10^14) + 10^9
  pure def inDeg(l: int, x: int): Part = part(l, DEGREES, deg(x), ulps(deg(x)) + 10^17)
  /// degrees-minutes-seconds snap to whole minutes within 6e-7 seconds
  pure def inDms(l: int, x: int): Part = part(l, DMS, deg(x), 28 * 10^19)
  pure def inM(l: int, x: int): Part = part(l, METRES, x, ulps(x))
  pure def inRad(l: int, x: int): Part = part(l, RADIANS, x, ulps(x) + 4 * 10^15)
  pure def text(l: int): Part = part(l, TEXT, S, 0)
  pure def group(l: int): Part = part(l, GROUP, 0, 0)
  pure def ellipsoid(a: int, invf: int): List[Part] = [
    text(NAME), inM(SEMI_MAJOR, a),
    inM(SEMI_MINOR, if (invf == 0) a else a - div(a, invf)),
    if (invf == 0) part(INVF, PLAIN, INF, 0) else part(INVF, PLAIN, invf, ulps(invf)),
  ]
  pure def meridian(lon: int): List[Part] = [text(NAME), inDms(LON, lon)]

  pure def expected(op: int, a: List[int]): List[Part] =
    if (op == 1) [inDeg(LON, a[0]), inDeg(LAT, a[1]), inM(HEIGHT, a[2])]
    else if (op == 2) [inM(EAST, a[0]), inM(NORTH, a[1]), inM(HEIGHT, a[2])]
    else if (op == 3) [inM(NONE, a[0]), inM(NONE, a[1]), inM(NONE, a[2])]
    else if (op == 4) [inRad(LOW, a[0]), inRad(HIGH, a[1])]
    else if (op == 5) ellipsoid(a[0], a[1])
    else if (op == 6) meridian(a[0])
    else if (op == 7) [text(ID), group(ELLPS)].concat(ellipsoid(a[0], a[1])).append(group(PM)).concat(meridian(a[2]))
    else if (op == 8) [
      group(FROM), inDeg(LON, a[0]), inDeg(LAT, a[1]), inDms(AZ, a[2]),
      group(TO), inDeg(LON, a[3]), inDeg(LAT, a[4]), inDms(AZ, a[5]),
      inRad(DLON, wrapPi(a[3] - a[0])), inM(DIST, a[6])]
    else if (op == 9) [inDeg(NONE, a[0])]
    else if (op == 10) [inDeg(NONE, a[0])]
    else [inDms(NONE, a[0])]
  /// the directions +180 and -180 degrees are one
  pure def agrees(p: Part, v: int): bool =
    if (p.tol == 0) v == p.value
    else if (abs(v - p.value) <= p.tol) isNum(v)
    else if (p.unit == RADIANS) isNum(v) and abs(abs(v) - PI) <= p.tol and abs(abs(p.value) - PI) <= p.tol
    else if (p.unit == DMS or p.unit == DEGREES)
      isNum(v) and abs(abs(v) - 180 * S) <= p.tol and abs(abs(p.value) - 180 * S) <= p.tol
    else false
  pure def judge(st: St, ev: Ev): (St, int) = {
    val r = ev.r
    if (r[0] != OK) (st, 1)
    else if (ev.op == 12)
      (st, firstBad([
        (121, asBool(r[1])), (122, asBool(r[2])), (123, asBool(r[3])), (124, asBool(r[4])), (125, asBool(r[5])),
        (126, near(circDist(r[6], ev.a[2]), 0, 4 * 10^15)), (127, r[7] == ev.a[0]),
      ]))
    else {
      val want = expected(ev.op, ev.a)
      if (r[1] != want.length() * S) (st, 2)
      else (st, firstBad(List(
        (3, want.indices().forall(k => r[2 + 3 * k] == want[k].label * S)),
        (4, want.indices().forall(k => r[3 + 3 * k] == want[k].unit * S)),
        (5, want.indices().forall(k => agrees(want[k], r[4 + 3 * k]))))))
    }
  }
}
