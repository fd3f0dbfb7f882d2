/// Coordinate reference systems: descriptors, the ground position of raw coordinates, and datum shifts.
module crs {
  import fx.* from "./fx"
  import geo.* from "./geo"
  import proj.* from "./proj"
  import units.* from "./units"
  import axes.* from "./axes"

  // ---- datum shifts: [kind, rx, ry, rz, tx, ty, tz, ppm]; 0 identity, 1 translation, 2 position vector, 3 coordinate frame
  type Shift = { lin: bool, rx: int, ry: int, rz: int, t: P3, s: int }
  pure def shiftOf(a: List[int]): Shift = {
    val k = a[0] / S
    val sg = if (k == 2) 1 else if (k == 3) -1 else 0
    { lin: k >= 2, rx: sg * a[1], ry: sg * a[2], rz: sg * a[3],
      t: if (k == 0) { x: 0, y: 0, z: 0 } else { x: a[4], y: a[5], z: a[6] }, s: if (k >= 2) a[7] / 10^6 else 0 }
  }
  /// small rotation: r x p
  pure def turn(h: Shift, p: P3): P3 = {
    x: mul(h.ry, p.z) - mul(h.rz, p.y), y: mul(h.rz, p.x) - mul(h.rx, p.z), z: mul(h.rx, p.y) - mul(h.ry, p.x)
  }
  /// X' = (1 + s)(I + R) X + T
  pure def toRef(h: Shift, p: P3): P3 = {
    val c = turn(h, p)
    { x: mul(S + h.s, p.x + c.x) + h.t.x, y: mul(S + h.s, p.y + c.y) + h.t.y, z: mul(S + h.s, p.z + c.z) + h.t.z }
  }
  /// the exact inverse, by fixed point iteration
  pure def fromRef(h: Shift, q: P3): P3 = {
    val b = { x: div(q.x - h.t.x, S + h.s), y: div(q.y - h.t.y, S + h.s), z: div(q.z - h.t.z, S + h.s) }
    range(0, 9).foldl(b, (p, _) => {
      val c = turn(h, p)
      { x: b.x - c.x, y: b.y - c.y, z: b.z - c.z }
    })
  }
  /// the published reversal of the seven parameters is first order: what it neglects
  pure def neglected(h: Shift, p: P3): int = {
    val r = abs(h.rx) + abs(h.ry) + abs(h.rz)
    val n = abs(p.x) + abs(p.y) + abs(p.z)
    val t = abs(h.t.x) + abs(h.t.y) + abs(h.t.z)
    mul(sq(r + abs(h.s)), n) + mul(t, r + abs(h.s))
  }

  // ---- descriptors: [type, a, 1/f, pm, axes kind, unit (3), height unit (3), projection kind, lon0, lat0, k0, fe, fn]
  pure val ND: int = 17
  pure def kindOf(d: List[int]): int = d[0] / S
  pure def axOf(d: List[int]): int = d[4] / S
  pure def dimOf(d: List[int]): int =
    if (kindOf(d) == 1) 3 else if (kindOf(d) == 2) gDim(axOf(d)) else pDim(axOf(d))
  pure def pjOf(d: List[int]): Pj = params(d[11] / S, [d[1], d[2], d[12], d[13], d[14], d[15], d[16]])
  pure def enhOf(d: List[int], c: List[int]): List[int] =
    pNormal(axOf(d), lengthUnitOf(d[5], d[6], d[7]), lengthUnitOf(d[8], d[9], d[10]), c)
  pure def llhOf(d: List[int], c: List[int]): (int, int, int) = {
    val n = gNormal(axOf(d), angleUnitOf(d[5], d[6], d[7]), lengthUnitOf(d[8], d[9], d[10]), c)
    (n._1, clampLat(n._2), n._3)
  }
  /// a ground position: the point, the normal of the ellipsoid there, whether the height is known, and how far
  /// the witness offered for a projected position is from the coordinates (metres on the map), how far it may be, and
  /// how far the position itself may be off (metres on the ground)
  type Ground = { p: P3, n: P3, full: bool, off: int, tol: int, err: int }
  pure def normal(lon: int, lat: int): P3 = {
    val sl = sincos(lon)
    val sp = sincos(lat)
    { x: mul(sp._2, sl._2), y: mul(sp._2, sl._1), z: sp._1 }
  }
  pure def groundOf(d: List[int], c: List[int], w: List[int]): Ground = {
    val E = ell(d[1], d[2])
    val k = kindOf(d)
    if (k == 1) { p: { x: c[0], y: c[1], z: c[2] }, n: { x: 0, y: 0, z: 0 }, full: true, off: 0, tol: 0, err: 0 }
    else if (k == 2) {
      val g = llhOf(d, c)
      { p: toXYZ(E, g._1 + d[3], g._2, g._3), n: normal(g._1 + d[3], g._2), full: dimOf(d) == 3, off: 0, tol: 0, err: 0 }
    } else if (not(isNum(w[0]) and isNum(w[1])))
      { p: { x: 0, y: 0, z: 0 }, n: { x: 0, y: 0, z: 0 }, full: true, off: BIGV, tol: 0, err: 0 }
    else {
      val e = enhOf(d, c)
      val p = pjOf(d)
      val z = image(p, w[0], w[1])
      val cl = if (isTM(p)) S else max(S / 10^6, cos(w[1]))
      { p: toXYZ(E, w[0] + d[3], w[1], e[2]), n: normal(w[0] + d[3], w[1]), full: dimOf(d) == 3,
        off: max(dEast(p, z.x, e[0]), gap(z.y, e[1])),
        tol: div(mul(p.k0, ground(p, z, w[1])), cl) + 2 * z.tol,
        err: ground(p, z, w[1]) + 2 * div(mul(z.tol, cl), p.k0) }
    }
  }
  /// distance of a position from a point; along the normal when the height of the position is not recorded
  pure def apart(g: Ground, q: P3): int = {
    val d = { x: q.x - g.p.x, y: q.y - g.p.y, z: q.z - g.p.z }
    if (g.full) hypot3(d.x, d.y, d.z) else {
      val h = mul(d.x, g.n.x) + mul(d.y, g.n.y) + mul(d.z, g.n.z)
      hypot3(d.x - mul(h, g.n.x), d.y - mul(h, g.n.y), d.z - mul(h, g.n.z))
    }
  }
}
