/// Coordinate systems: order, direction and unit of the axes of the geodetic, projected and geocentric systems,
/// and the two transitions between raw coordinates and normalized ones.
module axes {
  import fx.* from "./fx"
  import units.* from "./units"

  // ---- geodetic axes.  kinds: 1 east-north-up, 2 north-east-up, 3 east-north, 4 north-east, 5 north-west
  pure def gDim(kind: int): int = if (kind <= 2) 3 else 2
  pure def lonIndex(kind: int): int = if (kind == 1 or kind == 3) 0 else 1
  pure def latIndex(kind: int): int = 1 - lonIndex(kind)
  pure def lonSign(kind: int): int = if (kind == 5) -1 else 1
  pure def clampLat(x: int): int = max(-HALFPI, min(HALFPI, x))

  /// raw coordinates -> (longitude before reduction, latitude before saturation, height), radians and metres
  pure def gNormal(kind: int, ua: (int, int), uh: (int, int), c: List[int]): (int, int, int) = (
    lonSign(kind) * toBase(c[lonIndex(kind)], ua),
    toBase(c[latIndex(kind)], ua),
    if (gDim(kind) == 3) toBase(c[2], uh) else 0
  )
  /// normalized (lon, lat, h) -> raw coordinates (unused third slot 0)
  pure def gRaw(kind: int, ua: (int, int), uh: (int, int), p: (int, int, int)): List[int] = {
    val x = lonSign(kind) * fromBase(p._1, ua)
    val y = fromBase(p._2, ua)
    val h = if (gDim(kind) == 3) fromBase(p._3, uh) else 0
    if (lonIndex(kind) == 0) [x, y, h] else [y, x, h]
  }
  // ---- projected axes.  kinds: 1 east-north-up, 2 east-north
  pure def pDim(kind: int): int = if (kind == 1) 3 else 2
  pure def pNormal(kind: int, u: (int, int), uh: (int, int), c: List[int]): List[int] =
    [toBase(c[0], u), toBase(c[1], u), if (pDim(kind) == 3) toBase(c[2], uh) else 0]
  pure def pRaw(kind: int, u: (int, int), uh: (int, int), p: List[int]): List[int] =
    [fromBase(p[0], u), fromBase(p[1], u), if (pDim(kind) == 3) fromBase(p[2], uh) else 0]
}
