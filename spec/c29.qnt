/// C29  The sampling program: a run is a history  start(arguments) ; line* ; finish.
/// op 1 start [count, kind (0 xyz, 1 lon-lat, 2 lon-lat-height), a, 1/f (0: sphere), metres per unit, radians per unit]
///      r = [status, number of lines, number of malformed lines, number of lines equal to an earlier one,
///           and, per column, number of values equal to an earlier one]
/// op 2 one line; r = [status, v1, v2, v3]      op 3 end of the run      op 4 refused arguments; r = [exit status]
module c29 {
  import fx.* from "./fx"
  type Cfg = { kind: int, a: int, invf: int, mpu: int, rpu: int }
  /// counts of samples below each decile of the four coordinates that are uniform for a uniform direction
  type St = { cfg: Cfg, n: int, z: List[int], x: List[int], lon: List[int], h: List[int], clause: int }
  pure val NONE: List[int] = List(0, 0, 0, 0, 0, 0, 0, 0, 0)
  pure val st0: St = { cfg: { kind: 0, a: 0, invf: 0, mpu: 0, rpu: 0 }, n: 0, z: NONE, x: NONE, lon: NONE, h: NONE, clause: 0 }
  /// u in [0, 1]
  pure def tally(c: List[int], u: int): List[int] =
    range(0, 9).foldl(List(), (acc, k) => acc.append(c[k] + (if (10 * u <= (k + 1) * S) 1 else 0)))
  /// Dvoretzky-Kiefer-Wolfowitz: with probability 1 - 2e-13 every empirical decile is this close
  pure def spread(c: List[int], n: int): bool =
    range(0, 9).foldl(true, (acc, k) => acc and sq(div(c[k] * S, n * S) - ((k + 1) * S) / 10) <= div(15 * S, n * S))
  /// equal values among n draws from a continuous law printed in steps of 1/N of its range
  pure def fewTwins(n: int, twins: int, N: int): bool = twins <= div(mul(n, n), N) + n / 50 + 10 * S
  pure def steps(kind: int, col: int, a: int, w: int, mpu: int, rpu: int): int =
    if (kind == 0) 10^8 * div(2 * mul(a, if (col == 2) w else S), mpu)
    else if (col == 2) 10^3 * div(31500 * S, mpu)
    else 10^12 * div(if (col == 0) TAU else PI, rpu)
  pure def uni(v: int): int = (v + S) / 2
  pure def judge(st: St, ev: Ev): (St, int) = {
    val a = ev.a
    val r = ev.r
    val c = st.cfg
    val w = if (c.invf == 0) S else S - div(S, c.invf)          // b / a
    if (ev.op == 1)
      ({ ...st0, cfg: { kind: a[1] / S, a: a[2], invf: a[3], mpu: a[4], rpu: a[5] } },
       firstBad(List((1, r[0] == OK), (2, r[1] == a[0]), (3, r[2] == 0), (4, 100 * r[3] <= a[0]),
         (5, range(0, if (a[1] == S) 2 else 3).foldl(true, (b, k) => b and fewTwins(a[0], r[4 + k],
              steps(a[1] / S, k, a[2], if (a[3] == 0) S else S - div(S, a[3]), a[4], a[5])))))))
    else if (ev.op == 2) {
      if (c.kind == 0) {
        val x = div(mul(r[1], c.mpu), c.a)
        val y = div(mul(r[2], c.mpu), c.a)
        val z = div(mul(r[3], c.mpu), mul(c.a, w))
        // 8 printed decimals
        val tol = 10^16 + 8 * div(mul(c.mpu, 10^22), mul(c.a, w))
        val ok = isNum(r[1]) and isNum(r[2]) and isNum(r[3]) and abs(sq(x) + sq(y) + sq(z) - S) <= tol
        ({ ...st, n: st.n + 1, z: tally(st.z, uni(z)), x: tally(st.x, uni(x)), lon: tally(st.lon, div(atan2(y, x) + PI, TAU)) },
         if (ok) 0 else 21)
      } else {
        val lon = mul(r[1], c.rpu)
        val lat = mul(r[2], c.rpu)
        val h = mul(r[3], c.mpu)
        val t = mul(c.rpu, 10^18) + 10^16                       // 12 printed decimals
        val ok = firstBad(List(
          (22, isNum(r[1]) and abs(lon) <= PI + t), (23, isNum(r[2]) and abs(lat) <= HALFPI + t),
          (24, c.kind == 1 or (isNum(r[3]) and -1500 * S - mul(c.mpu, mm(1)) <= h and h <= 30000 * S + mul(c.mpu, mm(1)))))
        )
        if (ok != 0) ({ ...st, n: st.n + 1 }, ok) else {
          val sp = sincos(lat)
          val beta = hypot(mul(w, sp._1), sp._2)
          val sb = div(mul(w, sp._1), beta)
          val cb = div(sp._2, beta)
          ({ ...st, n: st.n + 1, z: tally(st.z, uni(sb)), x: tally(st.x, uni(mul(cb, cos(lon)))),
             lon: tally(st.lon, div(lon + PI, TAU)),
             h: if (c.kind == 2) tally(st.h, div(h + 1500 * S, 31500 * S)) else st.h }, 0)
        }
      }
    } else if (ev.op == 3)
      (st, if (st.n < 100) 0 else firstBad(List(
        (31, spread(st.z, st.n)), (32, spread(st.x, st.n)), (33, spread(st.lon, st.n)),
        (34, c.kind != 2 or spread(st.h, st.n)))))
    else (st, if (r[0] != OK) 0 else 41)
  }
}
