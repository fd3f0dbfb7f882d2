/// C02, proved for every latitude and every argument, not only the lattice of m02 (Apalache, inductive invariant):
/// the specification's own arithmetic keeps the register inside the poles.
module p02 {
  import fx.* from "./fx"
  import c02.* from "./c02"
  var s: int
  pure val LIM: int = 100 * S
  val inv = s.in((-HPIF).to(HPIF))
  action init = s' = 0
  action place = { nondet v = (-LIM).to(LIM).oneOf() s' = clampLat(v) }
  action add = { nondet v = (-LIM).to(LIM).oneOf() s' = clampLat(s + v) }
  action sub = { nondet v = (-LIM).to(LIM).oneOf() s' = clampLat(s - v) }
  action flip = s' = -s
  action magnitude = s' = abs(s)
  action step = any { place, add, sub, flip, magnitude }
}
