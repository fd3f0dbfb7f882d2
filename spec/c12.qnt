/// C12  Registries: the named ellipsoids, prime meridians and datums have their published parameters.
/// op 1 ellipsoid [k]: r = [status, a, b, invf, spherical, f, e2, n]; op 2 prime meridian [k]: r = [status, lon];
/// op 3 datum [k]: r = [status, a, b, invf, pm, id matches]
/// The tables restate the PROJ ellipsoid and prime meridian catalogues (metres, degrees).
module c12 {
  import fx.* from "./fx"
  import geo.* from "./geo"
  type St = int
  pure val st0: St = 0
  /// (a, b or 0, 1/f or 0)
  pure val ELLIPSOIDS: List[(int, int, int)] = [
    (6377563396000000000000000000000000000, 0, 299324964600000000000000000000000), // AIRY a=6_377_563.396 invf=299.3249646
    (6377104430000000000000000000000000000, 0, 300000000000000000000000000000000), // ANDRAE a=6_377_104.43 invf=300.0
    (6377019256300000000000000000000000000, 0, 300000000000000000000000000000000), // DANISH a=6_377_019.256_3 invf=300.0
    (6378137000000000000000000000000000000, 0, 298250000000000000000000000000000), // APL_4_9 a=6_378_137. invf=298.25
    (6378160000000000000000000000000000000, 0, 298250000000000000000000000000000), // AUST_SA a=6_378_160. invf=298.25
    (6377397155000000000000000000000000000, 0, 299152812800000000000000000000000), // BESSEL a=6_377_397.155 invf=299.1528128
    (6377483865000000000000000000000000000, 0, 299152812800000000000000000000000), // BESS_NAM a=6_377_483.865 invf=299.1528128
    (6378206400000000000000000000000000000, 6356583800000000000000000000000000000, 0), // CLRK66 a=6_378_206.4 b=6_356_583.8
    (6378249145000000000000000000000000000, 0, 293466300000000000000000000000000), // CLRK80 a=6_378_249.145 invf=293.4663
    (6378249200000000000000000000000000000, 0, 293466021293626900000000000000000), // CLRK80IGN a=6_378_249.2 invf=293.4660212936269
    (6375738700000000000000000000000000000, 0, 334290000000000000000000000000000), // CPM a=6_375_738.7 invf=334.29
    (6376428000000000000000000000000000000, 0, 311500000000000000000000000000000), // DELMBR a=6_376_428. invf=311.5
    (6378136050000000000000000000000000000, 0, 298256600000000000000000000000000), // ENGELIS a=6_378_136.05 invf=298.2566
    (6377276345000000000000000000000000000, 0, 300801700000000000000000000000000), // EVRST30 a=6_377_276.345 invf=300.8017
    (6377304063000000000000000000000000000, 0, 300801700000000000000000000000000), // EVRST48 a=6_377_304.063 invf=300.8017
    (6377301243000000000000000000000000000, 0, 300801700000000000000000000000000), // EVRST56 a=6_377_301.243 invf=300.8017
    (6377295664000000000000000000000000000, 0, 300801700000000000000000000000000), // EVRST69 a=6_377_295.664 invf=300.8017
    (6377298556000000000000000000000000000, 0, 300801700000000000000000000000000), // EVRSTSS a=6_377_298.556 invf=300.8017
    (6378166000000000000000000000000000000, 0, 298300000000000000000000000000000), // FSCHR60 a=6_378_166. invf=298.3
    (6378150000000000000000000000000000000, 0, 298300000000000000000000000000000), // FSCHR68 a=6_378_150. invf=298.3
    (6378136500000000000000000000000000000, 0, 298256415100000000000000000000000), // GSK2011 a=6_378_136.5 invf=298.2564151
    (6378160000000000000000000000000000000, 0, 298247167427000000000000000000000), // GRS67 a=6_378_160. invf=298.2471674270
    (6378137000000000000000000000000000000, 0, 298257222101000000000000000000000), // GRS80 a=6_378_137. invf=298.257222101
    (6378140000000000000000000000000000000, 0, 298257000000000000000000000000000), // IAU76 a=6_378_140. invf=298.257
    (6378200000000000000000000000000000000, 0, 298300000000000000000000000000000), // HELMERT a=6_378_200. invf=298.3
    (6378270000000000000000000000000000000, 0, 297000000000000000000000000000000), // HOUGH a=6_378_270. invf=297.
    (6378388000000000000000000000000000000, 0, 297000000000000000000000000000000), // INTL a=6_378_388. invf=297.
    (6378163000000000000000000000000000000, 0, 298240000000000000000000000000000), // KAULA a=6_378_163. invf=298.24
    (6378245000000000000000000000000000000, 0, 298300000000000000000000000000000), // KRASS a=6_378_245. invf=298.3
    (6378139000000000000000000000000000000, 0, 298257000000000000000000000000000), // LERCH a=6_378_139. invf=298.257
    (6397300000000000000000000000000000000, 0, 191000000000000000000000000000000), // MPRTS a=6_397_300. invf=191.
    (6378137000000000000000000000000000000, 0, 298257000000000000000000000000000), // MERIT a=6_378_137. invf=298.257
    (6377340189000000000000000000000000000, 6356034446000000000000000000000000000, 0), // MOD_AIRY a=6_377_340.189 b=6_356_034.446
    (6378155000000000000000000000000000000, 0, 298300000000000000000000000000000), // FSCHR60M a=6_378_155. invf=298.3
    (6378145000000000000000000000000000000, 0, 298250000000000000000000000000000), // NWL9D a=6_378_145. invf=298.25
    (6378157500000000000000000000000000000, 6356772200000000000000000000000000000, 0), // NEW_INTL a=6_378_157.5 b=6_356_772.2
    (6376523000000000000000000000000000000, 6355863000000000000000000000000000000, 0), // PLESSIS a=6_376_523. b=6_355_863.
    (6378136000000000000000000000000000000, 0, 298257840000000000000000000000000), // PZ90 a=6_378_136. invf=298.25784
    (6378155000000000000000000000000000000, 6356773320500000000000000000000000000, 0), // SEASIA a=6_378_155. b=6_356_773.320_5
    (6378136000000000000000000000000000000, 0, 298257000000000000000000000000000), // SGS85 a=6_378_136. invf=298.257
    (6376896000000000000000000000000000000, 6355834846700000000000000000000000000, 0), // WALBECK a=6_376_896. b=6_355_834.846_7
    (6378165000000000000000000000000000000, 0, 298300000000000000000000000000000), // WGS60 a=6_378_165. invf=298.3
    (6378145000000000000000000000000000000, 0, 298250000000000000000000000000000), // WGS66 a=6_378_145. invf=298.25
    (6378135000000000000000000000000000000, 0, 298260000000000000000000000000000), // WGS72 a=6_378_135. invf=298.26
    (6378137000000000000000000000000000000, 0, 298257223563000000000000000000000), // WGS84 a=6_378_137. invf=298.257_223_563
    (6370997000000000000000000000000000000, 6370997000000000000000000000000000000, 0) // SPHERE a=6_370_997. b=6_370_997.
  ]
  /// Greenwich, Lisbon, Paris, Bogota, Madrid, Rome, Bern, Jakarta, Ferro, Brussels, Stockholm, Athens, Oslo, Copenhagen (degrees east of Greenwich)
  pure val MERIDIANS: List[int] = [
    0,
    -9131906111111000000000000000000,
    2337229166667000000000000000000,
    -74080916666667000000000000000000,
    -3687938888889000000000000000000,
    12452333333333000000000000000000,
    7439583333333000000000000000000,
    106807719444444000000000000000000,
    -17666666666667000000000000000000,
    4367975000000000000000000000000,
    18058277777778000000000000000000,
    23716337500000000000000000000000,
    10722916666667000000000000000000,
    12577880000000000000000000000000
  ]
  /// WGS84 (WGS 84), GGRS87 and NAD83 (GRS 80), RNB72 (International 1924): index in ELLIPSOIDS
  pure val DATUMS: List[int] = [44, 22, 22, 26]
  pure def rel(x: int, t: int): int = if (not(isNum(x))) BIGV else if (t == 0) abs(x) else div(abs(x - t), abs(t))
  pure def shape(k: int): Ell = {
    val d = ELLIPSOIDS[k]
    if (d._3 != 0) ell(d._1, d._3) else ellAB(d._1, d._2)
  }
  pure def invfGap(x: int, E: Ell): int = if (E.f == 0) (if (isNum(x)) BIGV else 0) else rel(x, div(S, E.f))
  pure def clauses(st: St, ev: Ev): List[(int, int, int)] = {
    val r = ev.r
    val k = ev.a[0] / S
    if (r[0] != OK) [must(1, false)]
    else if (ev.op == 1) {
      val E = shape(k)
      [ (2, rel(r[1], E.a), 10^15), (3, rel(r[2], E.b), 10^15), (4, invfGap(r[3], E), 10^18),
        must(5, boolIs(r[4], E.f == 0)), (6, gap(r[5], E.f), 10^17), (7, gap(r[6], E.e2), 10^17), (8, gap(r[7], E.n), 10^17) ]
    } else if (ev.op == 2) [ (11, gap(r[1], mul(MERIDIANS[k], PI / 180)), if (k == 13) 2 * 10^23 else 2 * 10^19) ]
      // Copenhagen is published to 1e-5 degree only
    else {
      val E = shape(DATUMS[k])
      [ (21, rel(r[1], E.a), 10^15), (22, rel(r[2], E.b), 10^15), (23, invfGap(r[3], E), 10^18),
        (24, gap(r[4], 0), 0), must(25, asBool(r[5])) ]
    }
  }
  pure def judge(st: St, ev: Ev): (St, int) = (st, firstOver(clauses(st, ev)))
}
