/// C01, proved for every longitude and every increment up to fifty turns (Apalache, inductive invariant):
/// the specification's wrap stays in range and stays congruent to the unreduced value.
module p01 {
  import fx.* from "./fx"
  var s: int
  var err: int
  pure val LIM: int = 300 * S
  val inv = and { s.in((-PI).to(PI)), err.in(0.to(2)) }
  action init = all { s' = 0, err' = 0 }
  action move(t: int): bool = { val w = wrapPi(t) all { s' = w, err' = circDist(w, t) } }
  action place = { nondet v = (-LIM).to(LIM).oneOf() move(v) }
  action add = { nondet v = (-LIM).to(LIM).oneOf() move(s + v) }
  action step = any { place, add }
}
