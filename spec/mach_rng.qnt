// Three engines of one kind (or two adapters' parameters), used in any order.
module mach_rng {
  import num.* from "./num"
  import core.* from "./core"
  import rng.* from "./rng"

  var k: int             // kind of engine
  var es: List[Es]       // three engines
  var pa: int            // bounds of the distribution
  var pb: int
  var ev: { op: str, a: List[int], r: List[int] }

  action init = {
    nondet q = oneOf(ENGS.indices())
    all { k' = q, es' = [fresh(ENGS[q], DEFAULT_SEED), fresh(ENGS[q], DEFAULT_SEED), fresh(ENGS[q], 7)], pa' = 0, pb' = 0, ev' = { op: "init", a: [q], r: [] } }
  }
  action act(op: str, a: List[int], r: List[int], n: List[Es]): bool =
    all { k' = k, es' = n, pa' = pa, pb' = pb, ev' = { op: op, a: a, r: r } }
  pure def interesting(n: int): Set[int] = Set(0, 1, 2, 7, 8, 255, 256, DEFAULT_SEED, p2(n) - 1, p2(n - 1), p2(n - 1) - 1, p2(31), p2(32) - 1)

  action draw1: bool = {
    nondet i = oneOf(0.to(2))
    act("next", [i], [outX(ENGS[k], es[i].seed, es[i].st)], es.replaceAt(i, advX(ENGS[k], es[i], 1)))
  }
  action step = any {
    draw1, draw1, draw1,
    { nondet i = oneOf(0.to(2))
      nondet s = oneOf(interesting(ENGS[k].n))
      nondet s2 = oneOf(0.to(2^32 - 1))
      nondet w = oneOf(Set(0, 1))
      val sd = if (w == 0) s else s2
      act("seed", [i, sd], [], es.replaceAt(i, fresh(ENGS[k], sd))) },
    { nondet i = oneOf(0.to(2)) act("reseed", [i], [], es.replaceAt(i, fresh(ENGS[k], DEFAULT_SEED))) },
    { nondet i = oneOf(0.to(2))
      nondet z = oneOf(Set(0, 1, 2, 3, 5, 16, 1000, 4294967296, 4294967297, 9223372036854775808))
      act("discard", [i, z], [], es.replaceAt(i, advX(ENGS[k], es[i], z))) },
    { nondet i = oneOf(0.to(2))
      nondet j = oneOf(0.to(2))
      act("copy", [i, j], [], es.replaceAt(i, es[j])) },
    { nondet i = oneOf(0.to(2))
      nondet j = oneOf(0.to(2))
      act("equal", [i, j], [if (es[i] == es[j]) 1 else 0], es) },
    { nondet i = oneOf(0.to(2)) act("write", [i], [es[i].seed, es[i].st], es) },
    // bring two engines together: the same seed, then catch up with discard
    { nondet i = oneOf(0.to(2))
      nondet j = oneOf(0.to(2))
      val d = (es[j].st - ENGS[k].init + p2(ENGS[k].n)) % p2(ENGS[k].n)
      act("catchup", [i, j, es[j].seed, d], [1], es.replaceAt(i, advX(ENGS[k], fresh(ENGS[k], es[j].seed), d))) }
  }

  // ---- distributions over fixed32 (raw bounds); the outcome of a draw is the judge's business
  action dinit = {
    nondet q = oneOf(0.to(1))
    all { k' = q, es' = [], pa' = -2147483648, pb' = 2147483647, ev' = { op: "dinit", a: [q], r: [] } }
  }
  pure val BOUNDS = Set(-2147483648, -65536, -1, 0, 1, 65535, 65536, 10 * 65536, 2147483647, 32768, -32769)
  action dstep = any {
    { nondet a = oneOf(BOUNDS)
      nondet b = oneOf(BOUNDS)
      val lo1 = imin(a, b)
      val hi1 = imax(a, b)
      all { k' = k, es' = es, pa' = lo1, pb' = hi1, ev' = { op: "param", a: [lo1, hi1], r: [] } } },
    all { k' = k, es' = es, pa' = pa, pb' = pb, ev' = { op: "draw", a: [pa, pb], r: [] } },
    { nondet a = oneOf(BOUNDS)
      nondet b = oneOf(BOUNDS)
      // with parameters of its own: the stored ones stay
      all { k' = k, es' = es, pa' = pa, pb' = pb, ev' = { op: "drawp", a: [imin(a, b), imax(a, b)], r: [] } } },
    all { k' = k, es' = es, pa' = pa, pb' = pb, ev' = { op: "bounds", a: [], r: [pa, pb, pa, pb, pa, pb] } },
    all { k' = k, es' = es, pa' = pa, pb' = pb, ev' = { op: "reset", a: [], r: [] } }
  }

  val inv = and {
    es.indices().forall(i => and {
      0 <= es[i].seed and es[i].seed < p2(ENGS[k].n),
      0 <= es[i].st and es[i].st < p2(ENGS[k].n)
    }),
    pa <= pb,
    ev.op == "next" implies ev.r[0] < p2(ENGS[k].n)
  }
}
