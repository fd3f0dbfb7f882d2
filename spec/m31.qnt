/// C31 state machine: journeys through a pool of realistic reference systems, from a point on a grid.
/// The model follows which system the traveller is in, whether the height of the start is still known, and the route.
module m31 {
  import fx.* from "./fx"
  import c31.* from "./c31"
  import crs.* from "./crs"
  pure val Z: List[int] = List(0, 0, 0)
  pure val DEG: List[int] = List(S, 0, 0)
  pure val GON: List[int] = List(2 * S, 0, 0)
  pure val NOP: List[int] = List(0, 0, 0, 0, 0, 0)
  pure def mm3(n: int): int = n * (S / 1000)
  pure def fig(ty: int, a3: int, f9: int, pm: int, ax: int): List[int] =
    List(ty * S, mm3(a3), f9 * (S / 10^9), pm, ax * S)
  pure def rad(d6: int): int = (d6 * 3141592653589793238462643383279) / (180 * 10^6)
  pure def pj(kind: int, lon0: int, lat0: int, k010: int, fe: int, fn: int): List[int] =
    List(kind * S, rad(lon0), rad(lat0), k010 * (S / 10^10), fe * S, fn * S)
  pure def zone(kind: int, z: int): List[int] = List(kind * S, 0, z * S, 0, 0, 0)
  pure val NONE: List[int] = List(0, 0, 0, 0, 0, 0, 0, 0)
  pure def trans(x: int, y: int, z: int): List[int] = List(S, 0, 0, 0, mm3(x), mm3(y), mm3(z), 0)
  /// rotations in micro arc seconds, translations in mm, scale in 1e-4 ppm
  pure def helm(k: int, rx: int, ry: int, rz: int, x: int, y: int, z: int, s: int): List[int] =
    List(k * S, rad(rx) / 3600, rad(ry) / 3600, rad(rz) / 3600, mm3(x), mm3(y), mm3(z), s * (S / 10^4))
  pure val WGS: (int, int) = (6378137000, 298257223563)
  /// system, shift to the common frame
  pure val POOL: List[(List[int], List[int])] = List(
    (fig(2, 6378137000, 298257223563, 0, 1).concat(DEG).concat(Z).concat(NOP), NONE),                       // WGS84 3D
    (fig(2, 6378137000, 298257223563, 0, 3).concat(DEG).concat(Z).concat(NOP), NONE),                       // WGS84 2D lon lat
    (fig(2, 6378137000, 298257223563, 0, 4).concat(DEG).concat(Z).concat(NOP), NONE),                       // WGS84 2D lat lon
    (fig(1, 6378137000, 298257223563, 0, 1).concat(Z).concat(Z).concat(NOP), NONE),                         // WGS84 geocentric
    (fig(3, 6378137000, 298257223563, 0, 1).concat(Z).concat(Z).concat(zone(4, 31)), NONE),                 // UTM 31N + height
    (fig(3, 6378137000, 298257223563, 0, 2).concat(Z).concat(Z).concat(zone(4, 30)), NONE),                 // UTM 30N
    (fig(3, 6378137000, 298257223563, 0, 2).concat(Z).concat(Z).concat(pj(6, 0, 0, 0, 0, 0)), NONE),        // web Mercator
    (fig(3, 6378137000, 298257223563, 0, 1).concat(Z).concat(Z).concat(pj(1, 0, 0, 10^10, 0, 0)), NONE),    // Mercator + height
    (fig(2, 6377563396, 299324964600, 0, 2).concat(DEG).concat(Z).concat(NOP),
      helm(2, 150200, 247000, 842100, 446448, -125157, 542060, -204894)),                                   // OSGB36
    (fig(3, 6377563396, 299324964600, 0, 1).concat(Z).concat(List(S, 0, 0)).concat(pj(3, -2000000, 49000000, 9996012717, 400000, -100000)),
      helm(2, 150200, 247000, 842100, 446448, -125157, 542060, -204894)),                                   // British grid, heights in feet
    (fig(2, 6378249200, 293466021293, rad(2337229), 1).concat(GON).concat(Z).concat(NOP), trans(-168000, -60000, 320000)),   // NTF Paris, grads
    (fig(2, 6378388000, 297000000000, 0, 1).concat(DEG).concat(Z).concat(NOP), trans(-87000, -98000, -121000)),              // ED50
    (fig(1, 6378388000, 297000000000, 0, 1).concat(Z).concat(Z).concat(NOP),
      helm(3, 1000000, -500000, 300000, -87000, -98000, -121000, 12000))                                    // a coordinate frame
  )
  var s: { at: int, height: bool, route: List[int], n: int }
  var last: { op: int, args: List[int] }
  action init = all { s' = { at: -1, height: false, route: List(), n: 0 }, last' = { op: 0, args: List() } }
  action register = all {
    s.n < POOL.length(),
    s' = { ...s, n: s.n + 1 },
    last' = { op: 1, args: List(s.n * S).concat(POOL[s.n]._1).concat(POOL[s.n]._2) }
  }
  action start = {
    // around the British Isles and France, where every projection of the pool is in its domain
    nondet lon = (-7).to(9).oneOf()
    nondet lat = Set(0, 3, 41, 45, 49, 51, 60, 70).oneOf()
    nondet h = Set(-100, 0, 35, 8848).oneOf()
    all {
      s.n == POOL.length(), s.at < 0,
      s' = { ...s, at: 0, height: true, route: List(0) },
      last' = { op: 2, args: List(0, lon * S, lat * S, h * S) }
    }
  }
  action go = {
    nondet k = 0.to(POOL.length() - 1).oneOf()
    all {
      s.at >= 0, s.route.length() < 40,
      s' = { ...s, at: k, height: s.height and dimOf(POOL[k]._1) == 3, route: s.route.append(k) },
      last' = { op: 3, args: List(k * S) }
    }
  }
  action step = any { register, start, go }
  /// the height is lost exactly by visiting a system without heights, and stays lost
  val inv = and {
    s.at >= 0 implies s.route[s.route.length() - 1] == s.at,
    s.at >= 0 implies (s.height iff range(0, s.route.length()).foldl(true, (b, i) => b and dimOf(POOL[s.route[i]]._1) == 3)),
  }
}
