/// C05, proved for every position and every axis system, in units of whole rational ratio (Apalache, inductive
/// invariant): writing a position down in one system of axes after another, reading it back each time, never moves it,
/// and a system without heights is the only thing that loses the height.
module p05 {
  import fx.* from "./fx"
  import units.* from "./units"
  import axes.* from "./axes"
  var lon: int
  var lat: int
  var h: int
  var drift: int
  var lost: int
  pure val LIM: int = 4 * S
  pure val HL: int = 10^5 * S
  val inv = and { lon.in((-LIM).to(LIM)), lat.in((-LIM).to(LIM)), h.in((-HL).to(HL)), drift.in(0.to(2)), lost.in(0.to(1)), lost == 1 implies h == 0 }
  action init = all { lon' = 0, lat' = 0, h' = 0, drift' = 0, lost' = 0 }
  action place = {
    nondet l = (-3 * S).to(3 * S).oneOf()
    nondet p = (-2 * S).to(2 * S).oneOf()
    nondet z = (-HL / 2).to(HL / 2).oneOf()
    all { lon' = l, lat' = p, h' = z, drift' = 0, lost' = 0 }
  }
  /// write down and read back
  action rewrite(kind: int, ua: (int, int), uh: (int, int)): bool = {
    val q = gNormal(kind, ua, uh, gRaw(kind, ua, uh, (lon, lat, h)))
    all {
      lon' = lon, lat' = lat, h' = if (gDim(kind) == 3) h else 0,
      drift' = max(abs(q._1 - lon), max(abs(q._2 - lat), if (gDim(kind) == 3) abs(q._3 - h) else abs(q._3))),
      lost' = if (gDim(kind) == 2) 1 else lost,
    }
  }
  action step = any {
    place,
    rewrite(1, (PI, 180 * S), (S, S)), rewrite(2, (PI, 200 * S), (3048 * S, 10000 * S)), rewrite(3, (PI, 180 * S), (S, S)),
    rewrite(4, (PI, 648000 * S), (S, S)), rewrite(5, (PI, 180 * S), (S, S)), rewrite(5, (PI, 200 * S), (S, S)),
    rewrite(1, (S, S), (1200 * S, 3937 * S)),
  }
}
