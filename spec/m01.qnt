/// C01 state machine: a longitude and an azimuth register moved over a lattice of multiples of an eighth of a turn,
/// with offsets of a few ulps.  `sum` and `sumAz` are the unreduced values: the registers must stay congruent to them.
module m01 {
  import fx.* from "./fx"
  import c01.* from "./c01"
  var s: { lon: int, sum: int, az: int, sumAz: int }
  var last: { op: int, args: List[int] }
  pure val OFF: Set[int] = Set(0, 0, 444089209850062, -444089209850062, 10^18, -10^18, 10^24, -10^24)
  pure def wrapLon(x: int): int = if (-PI <= x and x <= PI) x else wrapPi(x)
  pure def wrapAz(x: int): int = { val w = wrapPi(x) if (w == -PI) PI else w }
  action init = all { s' = { lon: 0, sum: 0, az: 0, sumAz: 0 }, last' = { op: 0, args: List() } }
  action setLon = {
    nondet k = (-20).to(20).oneOf()
    nondet e = OFF.oneOf()
    val v = k * PI / 4 + e
    all { s' = { ...s, lon: wrapLon(v), sum: v }, last' = { op: 1, args: List(v) } }
  }
  action moveLon = {
    nondet k = (-20).to(20).oneOf()
    nondet e = OFF.oneOf()
    nondet op = Set(4, 5, 6, 7, 8).oneOf()
    val v = k * PI / 4 + e
    val d = if (op >= 7) -v else v
    all { s' = { ...s, lon: wrapLon(s.lon + d), sum: s.sum + d }, last' = { op: op, args: List(v) } }
  }
  /// an integer multiple keeps the congruence
  action mulLon = {
    nondet k = Set(-3, -2, -1, 0, 1, 2, 3, 5).oneOf()
    nondet op = Set(9, 10, 11).oneOf()
    all { s' = { ...s, lon: wrapLon(k * s.lon), sum: k * s.sum }, last' = { op: op, args: List(k * S) } }
  }
  action negLon = all { s' = { ...s, lon: -s.lon, sum: -s.sum }, last' = { op: 14, args: List() } }
  action normLon = all { s' = { ...s, lon: wrapAz(s.lon) }, last' = { op: 15, args: List() } }
  action setAz = {
    nondet k = (-20).to(20).oneOf()
    nondet e = OFF.oneOf()
    val v = k * PI / 4 + e
    all { s' = { ...s, az: wrapAz(v), sumAz: v }, last' = { op: 21, args: List(v) } }
  }
  action moveAz = {
    nondet k = (-20).to(20).oneOf()
    nondet e = OFF.oneOf()
    nondet op = Set(24, 25).oneOf()
    val v = k * PI / 4 + e
    all { s' = { ...s, az: wrapAz(s.az + v), sumAz: s.sumAz + v }, last' = { op: op, args: List(v) } }
  }
  /// differences leave the registers alone
  action look = {
    nondet k = (-4).to(4).oneOf()
    nondet e = OFF.oneOf()
    nondet op = Set(16, 19, 26, 27).oneOf()
    all { s' = s, last' = { op: op, args: List(k * PI / 4 + e) } }
  }
  action step = any { setLon, moveLon, moveLon, moveLon, mulLon, negLon, normLon, setAz, moveAz, moveAz, look, look }
  val inv = and {
    -PI <= s.lon and s.lon <= PI, -PI < s.az and s.az <= PI,
    circDist(s.lon, s.sum) <= 100, circDist(s.az, s.sumAz) <= 100,
  }
}
