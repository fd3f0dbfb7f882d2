/// C07 state machine: every edit history of two descriptions (behaviours replayed into the implementation).
module m07 {
  import fx.* from "./fx"
  import c07.* from "./c07"
  // ---- the model itself: every edit history over the same value domains
  var s: St
  var last: { op: int, args: List[int] }
  pure val SIZE: List[int] = [3, 6, 5, 3, 7, 8, 8, 5, 4, 5, 6, 5, 5, 5, 5, 5, 5]
  action init = all { s' = st0, last' = { op: 0, args: [] } }
  action edit = {
    nondet reg = 0.to(1).oneOf()
    nondet fld = 0.to(16).oneOf()
    nondet value = 0.to(SIZE[fld] - 1).oneOf()
    all { s' = step1(s, 1, reg, fld, value), last' = { op: 1, args: [reg * S, fld * S, value * S] } }
  }
  action copy = all { s' = step1(s, 2, 0, 0, 0), last' = { op: 2, args: [] } }
  action step = any { edit, edit, edit, edit, copy }
  /// equality of the whole implies equality of the parts; equal descriptions agree everywhere
  val inv = {
    val e = expected(s)
    and {
      (e[4] or e[5]) implies e[3], e[3] implies e[2], e[2] implies (e[0] and e[1]),
      e[4] implies e[6], e[5] implies (e[7] and e[8]),
      (s[0] == s[1]) implies e.indices().forall(i => e[i]),
    }
  }
}
