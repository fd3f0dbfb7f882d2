/// C31  Journeys: coordinates carried through any sequence of reference systems keep denoting the ground point they
/// started from; only the height is given up, and only by passing through a system without heights.
/// op 1 register [k, system (17), shift (8)]; op 2 start [k, coordinates (3)]; op 3 go to [k]
/// r = [status, coordinates (3), witness (3)]
module c31 {
  import fx.* from "./fx"
  import geo.* from "./geo"
  import proj.* from "./proj"
  import units.* from "./units"
  import axes.* from "./axes"
  import crs.* from "./crs"
  type Sys = { d: List[int], h: Shift }
  /// ref: the point in the common frame; tol: how far the coordinates may have drifted from it; last: allowance of the last system
  type St = { sys: List[Sys], at: int, ref: P3, tol: int, on: bool }
  pure val st0: St = { sys: List(), at: 0, ref: { x: 0, y: 0, z: 0 }, tol: 0, on: false }
  pure def keepsHeight(s: Sys): bool = dimOf(s.d) == 3
  /// rounding of passing through a system at a point, and what arriving there may cost: the neglected terms of its shift
  pure def rounding(s: Sys, p: P3): int = (s.d[1] + abs(p.x) + abs(p.y) + abs(p.z)) / (2 * 10^14)
  pure def arrival(s: Sys, p: P3, gtol: int): int = rounding(s, p) + 2 * neglected(s.h, p) + gtol
  pure def clauses(st: St, ev: Ev): List[(int, int, int)] = {
    val r = ev.r
    if (ev.op == 1) [must(1, r[0] == OK)]
    else if (ev.op == 3 and not(st.on)) [must(2, false)]
    else if (r[0] != OK) [must(3, false)]
    else {
      val b = st.sys[ev.a[0] / S]
      val o = r.slice(1, 4)
      val e = groundOf(b.d, o, r.slice(4, 7))
      if (ev.op == 2) [(4, e.off, e.tol)]
      else {
        val q = fromRef(b.h, st.ref)
        val a = st.sys[st.at]
        [(5, e.off, e.tol), (6, apart(e, q), st.tol + rounding(a, fromRef(a.h, st.ref)) + arrival(b, q, 2 * e.err)),
         must(7, keepsHeight(b) or o[2] == 0)]
      }
    }
  }
  pure def move(st: St, ev: Ev): St = {
    val k = ev.a[0] / S
    if (ev.op == 1) { ...st, sys: st.sys.append({ d: ev.a.slice(1, 18), h: shiftOf(ev.a.slice(18, 26)) }) }
    else if (ev.r[0] != OK) { ...st, on: false }
    else {
      val b = st.sys[k]
      val e = groundOf(b.d, ev.r.slice(1, 4), ev.r.slice(4, 7))
      if (ev.op == 2) { ...st, at: k, ref: toRef(b.h, e.p), tol: rounding(b, e.p) + 2 * e.err, on: true }
      // without a height the position is on the figure from here on
      else if (not(keepsHeight(b))) { ...st, at: k, ref: toRef(b.h, e.p), tol: rounding(b, e.p) + 2 * e.err }
      else {
        val a = st.sys[st.at]
        { ...st, at: k, tol: st.tol + rounding(a, fromRef(a.h, st.ref)) + arrival(b, e.p, 2 * e.err) }
      }
    }
  }
  pure def judge(st: St, ev: Ev): (St, int) = {
    val v = firstOver(clauses(st, ev))
    (if (v == 2) st else move(st, ev), v)
  }
}
