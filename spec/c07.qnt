/// C07  Equality: two descriptions of a figure of the Earth, datum, axes, projection or coordinate reference
/// system are equal exactly when all their defining parameters are; names of ellipsoids and meridians do not count.
///
/// State: the two descriptions (17 fields each: ellipsoid name, a, 1/f, meridian name, meridian, datum id, crs id,
/// axes kind, angle unit, horizontal unit, projection kind, lon0, lat0 or zone, k0, false easting, false northing,
/// height unit), each field an index into a table of distinct values, some of them an ulp or so apart.
/// Transitions: set a field, copy the first over the second.
module c07 {
  import fx.* from "./fx"
  type St = List[List[int]]
  pure val ZEROS: List[int] = [0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0]
  pure val st0: St = [ZEROS, ZEROS]

  pure def step1(st: St, op: int, reg: int, fld: int, value: int): St =
    if (op == 1) st.replaceAt(reg, st[reg].replaceAt(fld, value)) else [st[0], st[0]]

  pure def same(s: St, flds: List[int]): bool = flds.foldl(true, (b, f) => b and s[0][f] == s[1][f])
  /// entry 4 of the flattening table is the sphere; its axes are equal exactly when the radii are
  pure def ellEq(s: St): bool = same(s, [1, 2])
  /// 180 E (entry 5) and 180 W (entry 6) are the same meridian
  pure def meridian(i: int): int = if (i == 6) 5 else i
  pure def pmEq(s: St): bool = meridian(s[0][4]) == meridian(s[1][4])
  pure def datumEq(s: St): bool = s[0][5] == s[1][5] and ellEq(s) and pmEq(s)
  pure def idEq(s: St): bool = s[0][6] == s[1][6]
  /// geodetic axes 0 and 1 have a height
  pure def gaxesEq(s: St): bool = same(s, [7, 8]) and (s[0][7] <= 1 implies s[0][16] == s[1][16])
  /// projected axes: even kinds have a height
  pure def paxesEq(s: St): bool = and {
    s[0][7] % 2 == s[1][7] % 2, s[0][9] == s[1][9], (s[0][7] % 2 == 0) implies s[0][16] == s[1][16],
  }
  /// the parameters each kind of projection has
  pure val PARAMS: List[List[int]] = [
    [11, 13, 14, 15], [11, 12, 14, 15], [11, 12, 13, 14, 15], [12], [12], [11, 12, 14, 15]
  ]
  pure def projEq(s: St): bool = s[0][10] == s[1][10] and same(s, PARAMS[s[0][10]])
  /// ellipsoid, prime meridian, datum, geocentric, geographic, projected CRS, geodetic axes, projected axes, projection
  pure def expected(s: St): List[bool] = [
    ellEq(s), pmEq(s), datumEq(s),
    idEq(s) and datumEq(s), idEq(s) and datumEq(s) and gaxesEq(s),
    idEq(s) and datumEq(s) and paxesEq(s) and projEq(s),
    gaxesEq(s), paxesEq(s), projEq(s)
  ]

  pure def judge(st: St, ev: Ev): (St, int) = {
    val s = step1(st, ev.op, ev.a[0] / S, ev.a[1] / S, ev.a[2] / S)
    val want = expected(s)
    (s, if (ev.r[0] != OK) 1
        else if (ev.r[10] != S) 19                 // the descriptions report what they were made from
        else firstBad(want.foldl((List(), 0), (acc, b) => (acc._1.append((10 + acc._2, boolIs(ev.r[acc._2 + 1], b))), acc._2 + 1))._1))
  }
}
