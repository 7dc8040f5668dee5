// Threads call functions of the library; some functions build a table on
// their first use.  A table is built by one thread, others that need it wait,
// and nobody sees it unfinished.
module mach_conc {
  import num.* from "./num"
  import conc.* from "./conc"
  pure val THREADS = Set(0, 1, 2, 3)
  pure val PARTS = 2                     // a table is written in several steps
  type Table = { flag: bool, builder: int, parts: int }
  var at: int -> str                     // idle, called, building, waiting, done
  var op: int -> List[int]               // the call of each thread: [op, a, b]
  var res: int -> int                    // what it returned: the parts of the table it saw
  var tab: int -> Table                  // by lazy operation
  var ev: { op: str, a: List[int], r: List[int] }

  pure def lazy(o: int): bool = LAZY.foldl(false, (f, x) => f or x == o)
  pure def tableOf(m: int -> Table, o: int): Table = if (m.keys().contains(o)) m.get(o) else { flag: true, builder: -1, parts: PARTS }
  action init = all {
    at' = THREADS.mapBy(t => "idle"), op' = THREADS.mapBy(t => [0, 0, 0]), res' = THREADS.mapBy(t => PARTS),
    tab' = Set(50, 51, 52, 54).mapBy(x => { flag: false, builder: -1, parts: 0 }), ev' = { op: "init", a: [], r: [] }
  }
  action call: bool = {
    nondet t = oneOf(THREADS)
    nondet k = oneOf(0.to(64))
    nondet a = oneOf((-2147483648).to(2147483647))
    nondet b = oneOf(0.to(5))
    val o = if (k < COPS.length()) COPS[k] else 50 + k % 3
    all { at.get(t) == "idle", at' = at.put(t, "called"), op' = op.put(t, [o, a, b]), res' = res, tab' = tab, ev' = { op: "call", a: [t, o, a, b], r: [] } }
  }
  // the first to come builds, the others wait for it
  action enter: bool = {
    nondet t = oneOf(THREADS)
    val o = op.get(t)[0]
    val e = tableOf(tab, o)
    all {
      at.get(t) == "called",
      at' = at.put(t, if (not(lazy(o)) or e.flag) "done" else if (e.builder < 0) "building" else "waiting"),
      tab' = if (lazy(o) and not(e.flag) and e.builder < 0) tab.put(o, e.with("builder", t)) else tab,
      res' = res.put(t, if (not(lazy(o)) or e.flag) e.parts else 0), op' = op, ev' = { op: "enter", a: [t], r: [] }
    }
  }
  action write: bool = {
    nondet t = oneOf(THREADS)
    val o = op.get(t)[0]
    val e = tableOf(tab, o)
    all {
      at.get(t) == "building",
      if (e.parts < PARTS) all { tab' = tab.put(o, e.with("parts", e.parts + 1)), at' = at, res' = res }
      else all { tab' = tab.put(o, e.with("flag", true)), at' = at.put(t, "done"), res' = res.put(t, e.parts) },
      op' = op, ev' = { op: "write", a: [t], r: [] }
    }
  }
  action wake: bool = {
    nondet t = oneOf(THREADS)
    val e = tableOf(tab, op.get(t)[0])
    all { at.get(t) == "waiting", e.flag, at' = at.put(t, "done"), res' = res.put(t, e.parts), op' = op, tab' = tab, ev' = { op: "wake", a: [t], r: [] } }
  }
  action ret: bool = {
    nondet t = oneOf(THREADS)
    all { at.get(t) == "done", at' = at.put(t, "idle"), op' = op, res' = res, tab' = tab, ev' = { op: "ret", a: [t], r: [] } }
  }
  action step = any { call, call, enter, write, wake, ret }
  // the flag is set before the parts are written: what the library must not do
  action early: bool = {
    nondet t = oneOf(THREADS)
    val o = op.get(t)[0]
    val e = tableOf(tab, o)
    all { at.get(t) == "building", not(e.flag), tab' = tab.put(o, e.with("flag", true)), at' = at, res' = res, op' = op, ev' = { op: "early", a: [t], r: [] } }
  }
  action stepEarly = any { step, early }
  val inv = and {
    // a finished call saw the whole table
    THREADS.forall(t => at.get(t) == "done" implies res.get(t) == PARTS),
    // one builder per table
    THREADS.forall(t => THREADS.forall(u => (at.get(t) == "building" and at.get(u) == "building" and t != u) implies op.get(t)[0] != op.get(u)[0])),
    // nobody waits for nothing
    THREADS.forall(t => at.get(t) == "waiting" implies lazy(op.get(t)[0])),
    THREADS.forall(t => at.get(t) == "done" implies alone(PARTS, [res.get(t)])),
  }
}
