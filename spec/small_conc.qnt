// The protocol of mach_conc with three threads, two tables and one function without a
// table: every interleaving, any number of calls.
module small_conc {
  import num.* from "./num"
  pure val THREADS = Set(0, 1, 2)
  pure val TABS = Set(50, 51)
  pure val PARTS = 2
  type Table = { flag: bool, builder: int, parts: int }
  var at: int -> str
  var op: int -> int                     // 50, 51 lazy; 0 not
  var res: int -> int
  var tab: int -> Table
  action init = all {
    at' = THREADS.mapBy(t => "idle"), op' = THREADS.mapBy(t => 0), res' = THREADS.mapBy(t => PARTS),
    tab' = TABS.mapBy(x => { flag: false, builder: -1, parts: 0 })
  }
  action call(t: int): bool = {
    nondet o = oneOf(Set(0, 50, 51))
    all { at.get(t) == "idle", at' = at.put(t, "called"), op' = op.put(t, o), res' = res, tab' = tab }
  }
  action enter(t: int): bool = {
    val o = op.get(t)
    all { at.get(t) == "called", op' = op,
      if (not(TABS.contains(o))) all { at' = at.put(t, "done"), tab' = tab, res' = res.put(t, PARTS) }
      else if (tab.get(o).flag) all { at' = at.put(t, "done"), tab' = tab, res' = res.put(t, tab.get(o).parts) }
      else if (tab.get(o).builder < 0) all { at' = at.put(t, "building"), tab' = tab.put(o, {...tab.get(o), builder: t}), res' = res.put(t, 0) }
      else all { at' = at.put(t, "waiting"), tab' = tab, res' = res.put(t, 0) } }
  }
  action write(t: int): bool = all { at.get(t) == "building", op' = op,
    { val o = op.get(t)
      val e = tab.get(o)
      if (e.parts < PARTS) all { tab' = tab.put(o, {...e, parts: e.parts + 1}), at' = at, res' = res }
      else all { tab' = tab.put(o, {...e, flag: true}), at' = at.put(t, "done"), res' = res.put(t, e.parts) } } }
  action wake(t: int): bool = all { at.get(t) == "waiting", tab.get(op.get(t)).flag,
     at' = at.put(t, "done"), res' = res.put(t, tab.get(op.get(t)).parts), op' = op, tab' = tab }
  action ret(t: int): bool = all { at.get(t) == "done", at' = at.put(t, "idle"), op' = op.put(t, 0), res' = res, tab' = tab }
  action step = { nondet t = oneOf(THREADS) any { call(t), enter(t), write(t), wake(t), ret(t) } }
  // what the library must not do: announce a table before it is complete, or build it twice
  action early = { nondet t = oneOf(THREADS) all { at.get(t) == "building", op' = op, res' = res, at' = at, tab' = tab.put(op.get(t), { ...tab.get(op.get(t)), flag: true }) } }
  action twice = { nondet t = oneOf(THREADS) all { at.get(t) == "waiting", op' = op, res' = res, at' = at.put(t, "building"), tab' = tab.put(op.get(t), { ...tab.get(op.get(t)), parts: 0 }) } }
  action stepEarly = any { step, early }
  action stepTwice = any { step, twice }
  val inv = and {
    // a finished call saw the whole table
    THREADS.forall(t => at.get(t) == "done" implies res.get(t) == PARTS),
    // a table is built by one thread, once
    THREADS.forall(t => THREADS.forall(u => (t != u and at.get(t) == "building" and at.get(u) == "building") implies op.get(t) != op.get(u))),
    TABS.forall(x => tab.get(x).flag implies tab.get(x).parts == PARTS),
    TABS.forall(x => (tab.get(x).builder >= 0 and not(tab.get(x).flag)) iff THREADS.exists(t => at.get(t) == "building" and op.get(t) == x)),
    // nobody waits for nothing: somebody builds what is waited for, or it is there
    THREADS.forall(t => at.get(t) == "waiting" implies (tab.get(op.get(t)).flag or THREADS.exists(u => at.get(u) == "building" and op.get(u) == op.get(t)))),
    // never stuck
    THREADS.exists(t => at.get(t) != "waiting" or tab.get(op.get(t)).flag),
  }
}
