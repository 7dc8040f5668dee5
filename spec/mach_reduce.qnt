// A batch of angles is filled lane by lane and reduced; the lanes do not influence each other.
module mach_reduce {
  import num.* from "./num"
  import reduce.* from "./reduce"
  var xs: List[int]
  var ev: { op: str, a: List[int], r: List[int] }
  action init = { nondet n = oneOf(Set(2, 4)) all { xs' = if (n == 2) [0, 0] else [0, 0, 0, 0], ev' = { op: "init", a: [n], r: [] } } }
  action fill: bool = {
    nondet i = oneOf(xs.indices())
    nondet sz = oneOf(1.to(63))
    nondet w = oneOf(0.to(3))
    nondet v = oneOf((-(2^sz)).to(2^sz - 1))
    nondet k = oneOf((-300000000).to(300000000))
    nondet d = oneOf((-2).to(2))
    val x = if (w == 0) k * TURN + d else if (w == 1 and d == 0) -(2^63) else v
    all { xs' = xs.replaceAt(i, x), ev' = { op: "fill", a: [], r: [] } }
  }
  pure def laneX(x: int): int = if (x < 0) -((-x) % TURN) else x % TURN
  // every lane is replaced by what remains
  action run1: bool = all { xs' = xs.foldl([], (l, x) => l.append(laneX(x))), ev' = { op: "reduce", a: xs, r: [] } }
  action step = any { fill, fill, run1 }
  val inv = and {
    reduceOk(xs, xs.foldl([], (l, x) => l.append(laneX(x)))),
    xs.foldl(true, (b, x) => b and not(laneOk(x, laneX(x) + 1)) and not(laneOk(x, laneX(x) + (if (x < 0) TURN else -TURN)))),
  }
}
