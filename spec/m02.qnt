/// C02 state machine: a latitude register over a lattice of eighths of a turn with saturation at the poles.
module m02 {
  import fx.* from "./fx"
  import c02.* from "./c02"
  var s: int
  var last: { op: int, args: List[int] }
  pure val OFF: Set[int] = Set(0, 0, 222044604925031, -222044604925031, 10^18, -10^18, 10^24, -10^24)
  action init = all { s' = 0, last' = { op: 0, args: List() } }
  action place = {
    nondet k = (-4).to(4).oneOf()
    nondet e = OFF.oneOf()
    val v = k * PI / 4 + e
    all { s' = clampLat(v), last' = { op: 1, args: List(v) } }
  }
  action move = {
    nondet k = (-6).to(6).oneOf()
    nondet e = OFF.oneOf()
    nondet op = Set(4, 5, 6, 7, 8).oneOf()
    val v = k * PI / 4 + e
    all { s' = clampLat(if (op >= 7) s - v else s + v), last' = { op: op, args: List(v) } }
  }
  action scale = {
    nondet k = Set(-3, -2, -1, 0, 1, 2, 3).oneOf()
    nondet op = Set(9, 10, 11).oneOf()
    all { s' = clampLat(k * s), last' = { op: op, args: List(k * S) } }
  }
  action cut = {
    nondet k = Set(-3, -2, -1, 1, 2, 3).oneOf()
    nondet op = Set(12, 13).oneOf()
    all { s' = clampLat(div(s, k * S)), last' = { op: op, args: List(k * S) } }
  }
  action flip = all { s' = -s, last' = { op: 14, args: List() } }
  action magnitude = all { s' = abs(s), last' = { op: 15, args: List() } }
  action look = {
    nondet k = (-3).to(3).oneOf()
    nondet e = OFF.oneOf()
    all { s' = s, last' = { op: 16, args: List(k * PI / 4 + e) } }
  }
  action step = any { place, move, move, move, scale, cut, flip, magnitude, look }
  /// never beyond a pole; at a pole, moving further out stays there
  val inv = -HPIF <= s and s <= HPIF
}
