/// State machine of line and curve construction over a small world: four reference systems (2D, 3D, geocentric,
/// 2D in feet) and positions on a 3x3(x2) lattice.  Its behaviours are replayed into the implementation
/// (C25, C26, C27); every ideal response must be accepted by the judge used on recorded ones.
module m25 {
  import fx.* from "./fx"
  import lines.* from "./lines"
  var st: St
  var verdict: int
  var last: { op: int, args: List[int] }

  pure val KINDS: Set[int] = Set(1, 2, 3, 6)
  /// plane or space distance in metres
  pure def dist(k: int, p: Pt, q: Pt): int = {
    val d2 = range(0, p.length()).foldl(0, (s, i) => s + (p[i] - q[i]) * (p[i] - q[i]))
    val d = isqrt(d2)
    if (k == 6) (d * 1200) / 3937 else d
  }
  pure def pad3(p: Pt): List[int] = range(0, 3).foldl(List(), (l, k) => l.append(if (k < p.length()) p[k] else 0))
  pure def okBuild(st: St, op: int): List[int] = {
    val d = dist(st.crs, lastPt(st.b), st.b.pts[0])
    val l = if (op == 3) extend(st.b, st.b.pts[0], d) else st.b
    [OK, 0, 0, d, l.dim * S].concat(pad3(l.pts[0])).concat(pad3(lastPt(l))).concat(List(total(l)))
      .concat(pad3(l.pts[0])).concat(pad3(lastPt(l))).concat(List(S, S))
  }
  pure def okCurve(st: St): List[int] = {
    val c = st.cb
    val cyc = startOf(c) == endOf(c)
    [OK, 0, st.cdim * S].concat(pad3(startOf(c))).concat(pad3(endOf(c)))
      .concat([total(flat(c, st.cdim)), if (cyc) S else 0])
      .concat(if (cyc) [0, 0, 0, 0, 0, 0, 0, 0, 0] else [S].concat(pad3(startOf(c))).concat(pad3(endOf(c))).concat([S, st.cdim * S]))
      .concat([st.cdim * S, S])
  }
  /// the response the specification calls for
  pure def ideal(st: St, op: int, a: List[int]): List[int] =
    if (op == 1) {
      val k = a[0] / S
      val f = take(a[1] / S, a, 2)
      val t = take(a[5] / S, a, 6)
      if (f.length() != crsDim(k) or t.length() != crsDim(k)) [ERR, S, 2 * S, 0] else [OK, 0, 0, dist(k, f, t)]
    } else if (op == 2 or op == 5) {
      val p = take(a[0] / S, a, 1)
      if (p.length() != st.b.dim) [ERR, S, 2 * S, 0] else [OK, 0, 0, dist(st.crs, lastPt(st.b), p)]
    } else if (op == 3 or op == 4) okBuild(st, op)
    else if (op == 11) (if (st.line.dim != crsDim(a[0] / S)) [ERR, S] else [OK, 0])
    else if (op == 12 or op == 15)
      (if (st.line.dim != st.cdim) [ERR, S] else if (endOf(st.cb) != st.line.pts[0]) [ERR, 2 * S] else [OK, 0])
    else if (op == 13) okCurve(st)
    else if (op == 6) [OK, 0]
    else if (op == 7) {
      val e = if (st.line.pts == st.kept.pts) S else 0
      [OK, 0, e, e]
    }
    else if (op == 10) [OK, st.line.dim * S].concat(pad3(at(st.line, a[0])))
    else [OK, st.curveDim * S].concat(pad3(at(flat(st.curve, st.curveDim), a[0])))

  action doOp(op: int, a: List[int]): bool = {
    val z = judge(st, { op: op, a: a, r: ideal(st, op, a) })
    all { st' = z._1, verdict' = z._2, last' = { op: op, args: a } }
  }
  action init = all { st' = st0, verdict' = 0, last' = { op: 0, args: [] } }
  pure val HALVES: Set[int] = Set(0, 1, 2, 3, 4)
  action begin = {
    nondet k = KINDS.oneOf()
    nondet short = 0.to(9).oneOf()
    nondet x = 0.to(2).oneOf()
    nondet y = 0.to(1).oneOf()
    nondet u = 0.to(2).oneOf()
    nondet v = 0.to(1).oneOf()
    // start where the curve under construction ends, most of the time
    nondet join = 0.to(3).oneOf()
    val n = crsDim(k)
    val f = if (join > 0 and st.cb.length() > 0) endOf(st.cb) else if (n == 2) [x * S, y * S] else [x * S, y * S, S]
    val t = if (n == 2) [u * S, v * S] else [u * S, v * S, S]
    val t2 = if (short == 0) t.slice(0, n - 1) else t
    all {
      not(active(st.b)),
      doOp(1, [k * S, f.length() * S].concat(pad3(f)).concat([t2.length() * S]).concat(pad3(t2)))
    }
  }
  action extendLine = {
    nondet op = Set(2, 5).oneOf()
    nondet u = 0.to(2).oneOf()
    nondet v = 0.to(2).oneOf()
    nondet w = 0.to(1).oneOf()
    nondet short = 0.to(9).oneOf()
    val p = if (st.b.dim == 2) [u * S, v * S] else [u * S, v * S, w * S]
    val q = if (short == 0) p.slice(0, st.b.dim - 1) else p
    all { active(st.b), doOp(op, [q.length() * S].concat(pad3(q))) }
  }
  action endLine = {
    nondet op = Set(3, 4).oneOf()
    all { active(st.b), doOp(op, []) }
  }
  action queryLine = {
    nondet q = HALVES.oneOf()
    all { active(st.line), total(st.line) > 0, doOp(10, [(st.line.rep * q) / 4]) }
  }
  action beginCurve = {
    nondet k = KINDS.oneOf()
    all { active(st.line), st.cb.length() == 0, doOp(11, [k * S]) }
  }
  action growCurve = {
    nondet op = Set(12, 15).oneOf()
    all { active(st.line), st.cb.length() > 0, doOp(op, []) }
  }
  action endCurve = all { st.cb.length() > 0, doOp(13, []) }
  action queryCurve = {
    nondet q = HALVES.oneOf()
    all { st.curve.length() > 0, st.curveRep > 0, doOp(14, [(st.curveRep * q) / 4]) }
  }
  action keepLine = all { active(st.line), doOp(6, []) }
  action compareLines = all { active(st.line), active(st.kept), doOp(7, []) }
  action step = any { keepLine, compareLines, begin, extendLine, extendLine, endLine, beginCurve, growCurve, growCurve, queryLine, queryCurve, endCurve }

  // ---- what must hold of every reachable state
  pure def sound(l: Line): bool = or {
    not(active(l)),
    and { l.lens.length() == l.pts.length() - 1, l.pts.indices().forall(i => l.pts[i].length() == l.dim),
          l.lens.indices().forall(i => l.lens[i] >= 0) }
  }
  pure def connected(c: List[Line], d: int): bool = and {
    c.indices().forall(i => sound(c[i]) and c[i].dim == d),
    c.indices().forall(i => i == 0 or lastPt(c[i - 1]) == c[i].pts[0]),
  }
  val inv = and {
    verdict == 0, sound(st.b), sound(st.line), sound(st.kept),
    connected(st.cb, st.cdim), connected(st.curve, st.curveDim),
    (last.op == 3) implies lastPt(st.line) == st.line.pts[0],
    (last.op == 13) implies total(flat(st.curve, st.curveDim)) == st.curve.foldl(0, (s, l) => s + total(l)),
  }
}
