/// Curves: the life of a line string builder, the line string it yields, and curves assembled from line strings.
/// State machine shared by C25, C26 and C27.  Segment lengths are the CRS distances reported with each event
/// (their correctness is C21).
module lines {
  import fx.* from "./fx"
  type Pt = List[int]
  /// rep: the length the implementation reported for it
  type Line = { dim: int, pts: List[Pt], lens: List[int], rep: int }
  pure val NOLINE: Line = { dim: 0, pts: List(), lens: List(), rep: 0 }
  /// crs in use, builder, finished line, curve builder (segments), finished curve
  type St = { crs: int, b: Line, line: Line, kept: Line, cdim: int, cb: List[Line], curve: List[Line], curveDim: int, curveRep: int }
  pure val st0: St = { crs: 1, b: NOLINE, line: NOLINE, kept: NOLINE, cdim: 0, cb: List(), curve: List(), curveDim: 0, curveRep: 0 }

  /// dimension of the CRS kinds used: projected 2D, projected 3D, geocentric, geographic 2D, geographic 3D, projected 2D in feet
  pure val DIMS: List[int] = [2, 3, 3, 2, 3, 2]
  pure def crsDim(k: int): int = DIMS[k - 1]
  pure def take(n: int, a: List[int], at: int): Pt = a.slice(at, at + n)
  pure def lastPt(l: Line): Pt = l.pts[l.pts.length() - 1]
  pure def active(l: Line): bool = l.pts.length() >= 2
  pure def total(l: Line): int = l.lens.foldl(0, (s, x) => s + x)
  pure def extend(l: Line, p: Pt, d: int): Line = { dim: l.dim, pts: l.pts.append(p), lens: l.lens.append(d), rep: 0 }
  /// concatenation of the segments of a curve
  pure def flat(c: List[Line], dim: int): Line =
    c.foldl({ dim: dim, pts: List(), lens: List(), rep: 0 }, (acc, l) => {
      dim: dim,
      pts: if (acc.pts.length() == 0) l.pts else acc.pts.concat(l.pts.slice(1, l.pts.length())),
      lens: acc.lens.concat(l.lens), rep: 0
    })
  pure def startOf(c: List[Line]): Pt = c[0].pts[0]
  pure def endOf(c: List[Line]): Pt = lastPt(c[c.length() - 1])

  pure def samePt(r: List[int], at: int, p: Pt): bool =
    range(0, 3).foldl(true, (b, k) => b and r[at + k] == (if (k < p.length()) p[k] else 0))

  // ---- parameterization by arc length
  /// position at arc length s of the polyline: linear between vertices
  pure def at(l: Line, s: int): Pt = {
    val z = range(0, l.lens.length()).foldl({ i: 0, rest: s, done: false }, (acc, k) =>
      if (acc.done) acc
      else if (acc.rest <= l.lens[k] or k == l.lens.length() - 1) { i: k, rest: acc.rest, done: true }
      else { i: k + 1, rest: acc.rest - l.lens[k], done: false })
    val len = l.lens[z.i]
    val q = if (len <= 0) 0 else max(0, min(S, (z.rest * S) / len))
    val p0 = l.pts[z.i]
    val p1 = l.pts[z.i + 1]
    range(0, l.dim).foldl(List(), (acc, k) => acc.append(p0[k] + ((p1[k] - p0[k]) * q) / S))
  }
  /// every coordinate of the answer lies in the box of the positions within the rounding of s
  pure def inBox(l: Line, s: int, r: List[int], off: int): bool = {
    val T = total(l)
    val d = T / (2 * 10^13) + 10^12
    val here = at(l, s)
    val cand = [here, at(l, max(0, s - d)), at(l, min(T, s + d))]
    val verts = range(0, l.pts.length()).foldl({ c: 0, ps: cand }, (acc, k) => {
      val c = if (k == 0) 0 else acc.c + l.lens[k - 1]
      { c: c, ps: if (abs(c - s) <= d) acc.ps.append(l.pts[k]) else acc.ps }
    }).ps
    range(0, l.dim).foldl(true, (b, k) => {
      val lo = verts.foldl(here[k], (m, p) => min(m, p[k]))
      val hi = verts.foldl(here[k], (m, p) => max(m, p[k]))
      val x = r[off + k]
      val e = l.pts.foldl(0, (m, p) => max(m, abs(p[k]))) / 10^14 + 10^9
      b and isNum(x) and x >= lo - e and x <= hi + e
    })
  }
  /// verdict on param(s) -> r = [status, n, coordinates]
  // the start: the first vertex, or one no length away from it
  pure def atStart(l: Line, r: List[int]): bool =
    range(0, l.pts.length()).foldl((false, 0), (q, i) => {
      val away = if (i == 0) 0 else q._2 + l.lens[i - 1]
      (q._1 or (away == 0 and samePt(r, 2, l.pts[i])), away)
    })._1
  // the end: the last vertex, or one whose distance from it is lost in the rounding of the length
  pure def atEnd(l: Line, r: List[int]): bool = {
    val n = l.pts.length()
    range(0, n).foldl((false, 0), (q, i) => {
      val away = if (i == 0) 0 else q._2 + l.lens[n - 1 - i]
      (q._1 or (away * 10^15 <= l.rep and samePt(r, 2, l.pts[n - 1 - i])), away)
    })._1
  }
  pure def paramOk(l: Line, s: int, r: List[int]): int = {
    val T = total(l)
    val slack = T / 10^13 + 10^12
    if (s < 0 or s > max(T, l.rep) + slack) (if (r[0] == PANIC or r[0] == ERR) 0 else 71)   // outside [0, length]
    else if (s > l.rep) 0                                                        // within rounding of the end
    else if (r[0] != OK) 73
    else firstBad([
      (74, r[1] == l.dim * S),
      (75, inBox(l, s, r, 2)),
      (76, s == 0 implies atStart(l, r)),
      (78, (s == l.rep and (s == 0 or s > 10^18)) implies atEnd(l, r)),   // (below, the grid does not tell s from the length)
      (77, range(l.dim, 3).foldl(true, (b, k) => b and r[2 + k] == 0)),
    ])
  }

  // ---- transitions: (state after, verdict)
  pure def refused(r: List[int], c: int): bool = r[0] == ERR and (c == 0 or r[1] == c * S)
  /// a line from f to t in CRS k
  pure def withLine(st: St, a: List[int], r: List[int]): (St, int) = {
    val k = a[0] / S
    val f = take(a[1] / S, a, 2)
    val t = take(a[5] / S, a, 6)
    val s = st.with("crs", k)
    val none = s.with("b", NOLINE)
    if (f.length() != crsDim(k) or t.length() != crsDim(k)) (none, if (refused(r, 1)) 0 else 11)
    else if (r[2] != 0) (none, if (r[0] == ERR) 0 else 12)             // no distance, no line
    else (s.with("b", { dim: crsDim(k), pts: [f, t], lens: [r[3]], rep: 0 }), if (r[0] == OK) 0 else 13)
  }
  pure def lineTo(st: St, op: int, p: Pt, r: List[int]): (St, int) = {
    val none = if (op == 5) st else st.with("b", NOLINE)
    if (p.length() != st.b.dim) (none, if (refused(r, 1)) 0 else 21)
    else if (r[2] != 0) (none, if (r[0] == ERR) 0 else 22)
    else (if (op == 5) st else st.with("b", extend(st.b, p, r[3])), if (r[0] == OK) 0 else 23)
  }
  pure def finish(st: St, op: int, r: List[int]): (St, int) = {
    val none = st.with("b", NOLINE)
    if (op == 3 and r[2] != 0) (none, if (r[0] == ERR) 0 else 31)
    else {
      val l = if (op == 3) extend(st.b, st.b.pts[0], r[3]) else st.b
      val T = total(l)
      (none.with("line", l.with("rep", r[11])), if (r[0] != OK) 32 else firstBad([
        (33, r[4] == l.dim * S),
        (34, samePt(r, 5, l.pts[0])), (35, samePt(r, 8, lastPt(l))),
        (36, gap(r[11], T) <= T / 10^14 + 10^9),
        (37, samePt(r, 12, l.pts[0])), (38, samePt(r, 15, lastPt(l))),
        (39, r[18] == S), (40, r[19] == S),
      ]))
    }
  }
  /// a line string is its positions: two of them in one CRS (then distances agree) are equal exactly when their
  /// positions are
  pure def sameLine(st: St, r: List[int]): int = firstBad([
    (42, r[0] == OK),
    (43, if (st.line.pts == st.kept.pts and st.line.lens != st.kept.lens) true else boolIs(r[2], st.line.pts == st.kept.pts)),
    (44, r[3] == r[2]),
  ])
  pure def withSeg(st: St, k: int, r: List[int]): (St, int) =
    if (st.line.dim != crsDim(k)) (st.with("cb", List()), if (refused(r, 1)) 0 else 51)
    else (st.with("cb", [st.line]).with("cdim", crsDim(k)), if (r[0] == OK) 0 else 52)
  pure def appendSeg(st: St, op: int, r: List[int]): (St, int) = {
    val none = if (op == 15) st else st.with("cb", List())
    if (st.line.dim != st.cdim) (none, if (refused(r, 1)) 0 else 53)
    else if (endOf(st.cb) != st.line.pts[0]) (none, if (refused(r, 2)) 0 else 54)
    else (if (op == 15) st else st.with("cb", st.cb.append(st.line)), if (r[0] == OK) 0 else 55)
  }
  pure def finishCurve(st: St, r: List[int]): (St, int) = {
    val c = st.cb
    val T = total(flat(c, st.cdim))
    val cyc = startOf(c) == endOf(c)
    (st.with("cb", List()).with("curve", c).with("curveDim", st.cdim).with("curveRep", r[9]), if (r[0] != OK) 60 else firstBad([
      (61, r[2] == st.cdim * S),
      (62, samePt(r, 3, startOf(c))), (63, samePt(r, 6, endOf(c))),
      (64, gap(r[9], T) <= T / 10^14 + 10^9),
      (65, boolIs(r[10], cyc)),
      (66, boolIs(r[11], not(cyc))),                      // a closed curve has no boundary, an open one has two points
      (67, cyc or (samePt(r, 12, startOf(c)) and samePt(r, 15, endOf(c)))),
      (68, cyc or (r[18] == S and r[19] == st.cdim * S)),
      (69, r[20] == st.cdim * S and r[21] == S),
    ]))
  }
  pure def point(st: St, a: List[int], r: List[int]): (St, int) = {
    val n = a[0] / S
    if (n != 2 and n != 3) (st, if (r[0] == PANIC) 0 else 81)
    else {
      val p = take(n, a, 1)
      val q = p.replaceAt(a[4] / S, a[5])
      (st, if (r[0] != OK) 82 else firstBad([
        (83, r[1] == n * S), (84, r[2] == S), (85, samePt(r, 3, p)), (86, samePt(r, 6, q)),
        (87, boolIs(r[9], p == q)), (88, r[10] == S),
      ]))
    }
  }
  /// the calls that can be made in a state
  pure def callable(st: St, op: int): bool =
    if (op >= 2 and op <= 5) active(st.b)
    else if (op == 6) active(st.line)
    else if (op == 7) active(st.line) and active(st.kept)
    else if (op == 10 or op == 11) active(st.line)
    else if (op == 12 or op == 15) active(st.line) and st.cb.length() > 0
    else if (op == 13) st.cb.length() > 0
    else if (op == 14) st.curve.length() > 0
    else true
  pure def judge(st: St, ev: Ev): (St, int) = {
    val a = ev.a
    val r = ev.r
    if (r[0] == HANG) (st, 1)
    // a builder, line or curve exists only after calls that the specification lets succeed
    else if (not(callable(st, ev.op))) (st, 90)
    else if (ev.op == 1) withLine(st, a, r)
    else if (ev.op == 2 or ev.op == 5) lineTo(st, ev.op, take(a[0] / S, a, 1), r)
    else if (ev.op == 3 or ev.op == 4) finish(st, ev.op, r)
    else if (ev.op == 6) (st.with("kept", st.line), if (r[0] == OK) 0 else 41)
    else if (ev.op == 7) (st, sameLine(st, r))
    else if (ev.op == 10) (st, paramOk(st.line, a[0], r))
    else if (ev.op == 11) withSeg(st, a[0] / S, r)
    else if (ev.op == 12 or ev.op == 15) appendSeg(st, ev.op, r)
    else if (ev.op == 13) finishCurve(st, r)
    else if (ev.op == 14) (st, paramOk(flat(st.curve, st.curveDim).with("rep", st.curveRep), a[0], r))
    else point(st, a, r)
  }
}
