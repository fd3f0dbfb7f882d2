/// C30  Answers depend on the question only: an object (datum, projection, solver, reference system, transformation,
/// line) answers a question the same way whatever was asked before, of it or of any other object, in any thread, and two
/// objects made from the same parameters answer alike.
/// op 1 make [slot, kind, base, twist]; op 2 ask [slot, call, i, j, k], r = [status, answer (4), answer of a fresh process (4)]
/// op 3 forget [slot]; op 5 as op 2, asked thousands of times among other questions, r has an answer that differs from the
/// first if there is one; op 4 ask from three threads, r = [status, answers (3 x 4), answer of a fresh process (4)]
module c30 {
  import fx.* from "./fx"
  type Key = List[int]
  /// what each slot holds, and every answer given so far in this session
  type St = { slots: int -> List[int], said: Key -> List[int] }
  pure val st0: St = { slots: Map(), said: Map() }
  pure def holds(st: St, slot: int): bool = st.slots.keys().contains(slot)
  pure def make(st: St, slot: int, what: List[int]): St = { ...st, slots: st.slots.put(slot, what) }
  pure def forget(st: St, slot: int): St = { ...st, slots: st.slots.keys().exclude(Set(slot)).mapBy(s => st.slots.get(s)) }
  pure def question(st: St, a: List[int]): Key = st.slots.get(a[0]).concat(a.slice(1, 5))
  pure def answer(r: List[int], n: int): List[int] = r.slice(1 + 4 * n, 5 + 4 * n)
  pure def judge(st: St, ev: Ev): (St, int) = {
    val a = ev.a
    val r = ev.r
    if (r[0] != OK) (st, 1)
    else if (ev.op == 1) (make(st, a[0], a.slice(1, 4)), 0)
    else if (ev.op == 3) (forget(st, a[0]), 0)
    else if (not(holds(st, a[0]))) (st, 2)
    else {
      val q = question(st, a)
      val n = if (ev.op == 4) 3 else 1
      val new = answer(r, n)
      val known = if (st.said.keys().contains(q)) st.said.get(q) else new
      ({ ...st, said: st.said.put(q, known) }, firstBad(List(
        (3, range(0, n).foldl(true, (b, k) => b and answer(r, k) == new)),       // as a fresh process answers
        (4, range(0, n).foldl(true, (b, k) => b and answer(r, k) == known)),     // as answered before
        (5, new[0] != HANG),
      )))
    }
  }
}
