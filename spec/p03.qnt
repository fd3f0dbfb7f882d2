/// C03, proved for every pair of bounds (Apalache, inductive invariant): the arc from lo to hi never measures less than
/// nothing or more than a turn, ends at hi when travelled from lo, cannot be empty and full at once, and an arc and its
/// complement make a turn.
module p03 {
  import fx.* from "./fx"
  import c03.* from "./c03"
  var lo: int
  var hi: int
  var len: int
  var rest: int
  var special: int
  val inv = and {
    lo.in((-PIF).to(PIF)), hi.in((-PIF).to(PIF)), len.in(0.to(TAU)), rest.in(0.to(TAU)), special.in(0.to(2)),
    special == 0 implies and { len < TAU, circDist(lo + len, hi) == 0, len + rest == (if (lo == hi) 0 else TAU) },
    special == 1 implies and { len == 0, lo == PIF },
    special == 2 implies and { len == TAU, lo == -PIF },
  }
  action init = all { lo' = 0, hi' = 0, len' = 0, rest' = 0, special' = 0 }
  action be(l: int, h: int): bool = {
    val w = arc(l, h)
    val v = arc(h, l)
    all {
      lo' = l, hi' = h, len' = w.length,
      // the complement of a special arc is judged by its own representation
      rest' = if (w.empty or w.full) TAU - w.length else v.length,
      special' = if (w.empty) 1 else if (w.full) 2 else 0,
    }
  }
  action fresh = { nondet l = (-PIF).to(PIF).oneOf() nondet h = (-PIF).to(PIF).oneOf() be(l, h) }
  action moveHi = { nondet h = (-PIF).to(PIF).oneOf() be(lo, h) }
  action swap = be(hi, lo)
  action step = any { fresh, moveHi, swap }
}
