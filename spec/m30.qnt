/// C30 state machine: sessions that make, forget and question objects in any order.
module m30 {
  import fx.* from "./fx"
  import c30.* from "./c30"
  var s: St
  var asked: Set[List[int]]
  var last: { op: int, args: List[int] }
  pure def scaled(l: List[int]): List[int] = l.foldl(List(), (acc, x) => acc.append(x * S))
  action init = all { s' = st0, asked' = Set(), last' = { op: 0, args: List() } }
  action create = {
    nondet slot = 0.to(3).oneOf()
    nondet kind = 1.to(16).oneOf()
    nondet base = 0.to(3).oneOf()
    nondet twist = 0.to(11).oneOf()
    all { s' = make(s, slot, List(kind, base, twist)), asked' = asked, last' = { op: 1, args: scaled(List(slot, kind, base, twist)) } }
  }
  /// an object like one that exists, up to one parameter
  action sibling = {
    nondet slot = 0.to(3).oneOf()
    nondet like = s.slots.keys().oneOf()
    nondet twist = 0.to(11).oneOf()
    val d = s.slots.get(like).replaceAt(2, twist)
    all { s.slots.keys().size() > 0, s' = make(s, slot, d), asked' = asked, last' = { op: 1, args: scaled(List(slot).concat(d)) } }
  }
  action remove = {
    nondet slot = s.slots.keys().oneOf()
    all { s.slots.keys().size() > 1, s' = forget(s, slot), asked' = asked, last' = { op: 3, args: scaled(List(slot)) } }
  }
  action ask = {
    nondet slot = s.slots.keys().oneOf()
    nondet call = 1.to(2).oneOf()
    nondet i = 0.to(5).oneOf()
    nondet j = 0.to(5).oneOf()
    nondet k = 0.to(5).oneOf()
    all {
      s.slots.keys().size() > 0, s' = s, asked' = asked.union(Set(s.slots.get(slot).concat(List(call, i, j, k)))),
      last' = { op: 2, args: scaled(List(slot, call, i, j, k)) }
    }
  }
  /// the same in a busy spell
  action insist = {
    nondet slot = s.slots.keys().oneOf()
    nondet call = 1.to(2).oneOf()
    nondet i = 0.to(5).oneOf()
    nondet j = 0.to(5).oneOf()
    nondet k = 0.to(5).oneOf()
    all {
      s.slots.keys().size() > 0, s' = s, asked' = asked.union(Set(s.slots.get(slot).concat(List(call, i, j, k)))),
      last' = { op: 5, args: scaled(List(slot, call, i, j, k)) }
    }
  }
  /// a question already asked in this session, of any object of the same description
  action again = {
    val open = asked.filter(q => s.slots.keys().exists(x => s.slots.get(x) == q.slice(0, 3)))
    nondet q = open.oneOf()
    nondet slot = s.slots.keys().filter(x => s.slots.get(x) == q.slice(0, 3)).oneOf()
    all { open.size() > 0, s' = s, asked' = asked, last' = { op: 2, args: scaled(List(slot).concat(q.slice(3, 7))) } }
  }
  action step = any { create, sibling, sibling, remove, ask, ask, ask, ask, insist, again, again }
  /// an object is questioned only while it exists, and questions name complete descriptions
  val inv = and {
    last.op == 2 or last.op == 5 implies holds(s, last.args[0] / S),
    asked.forall(q => q.length() == 7),
    s.slots.keys().forall(x => s.slots.get(x).length() == 3),
  }
}
