/// C10 state machine: a ground point re-expressed for one prime meridian after another.
/// The longitude register and the meridian move together: their sum is the Greenwich longitude, whatever the route.
module m10 {
  import fx.* from "./fx"
  var s: { glon: int, lon: int, pm: int, placed: bool }
  var last: { op: int, args: List[int] }
  pure val FIGS: Set[(int, int)] = Set((6378137 * S, 298257223563 * 10^21), (6377397155 * (S / 1000), 2991528128 * 10^23), (6371000 * S, 0))
  pure def deg(k: int): int = k * PI / 180
  pure val PMS: Set[int] = Set(0, 2, -9, 17, -17, 90, -90, 179, 180, -180, 45)
  action init = all { s' = { glon: 0, lon: 0, pm: 0, placed: false }, last' = { op: 0, args: List() } }
  action place = {
    nondet f = FIGS.oneOf()
    nondet pm = PMS.oneOf()
    nondet lon = Set(0, 1, -1, 90, -90, 135, 179, -179, 180, -180).oneOf()
    nondet lat = Set(0, 45, -45, 89, -89, 90, -90, 12).oneOf()
    nondet h = Set(0, 1000, -50).oneOf()
    all {
      s' = { glon: deg(lon + pm), lon: deg(lon), pm: deg(pm), placed: true },
      last' = { op: 1, args: List(f._1, f._2, deg(pm), deg(lon), deg(lat), h * S) }
    }
  }
  action change = {
    nondet pm = PMS.oneOf()
    all { s.placed, s' = { ...s, lon: wrapPi(s.glon - deg(pm)), pm: deg(pm) }, last' = { op: 2, args: List(deg(pm)) } }
  }
  action thereAndBack = all { s.placed, s' = s, last' = { op: 3, args: List() } }
  action step = any { place, change, change, change, thereAndBack }
  val inv = and { abs(s.lon) <= PI + 10, circDist(s.lon + s.pm, s.glon) <= 100 }
}
