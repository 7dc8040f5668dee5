// Two engines of a small word, seeded, copied, compared, advanced in any order; what was drawn is remembered.
module small_rng {
  import num.* from "./num"
  import core.* from "./core"
  import rng.* from "./rng"
  pure val E: Eng = { n: 2, init: 3, mult: 3, inc: 1, mixm: 1, xorm: 1 }
  var es: List[Es]
  var drawn: List[int]      // the last output of each engine as its place (seed * 4 + position) or -1
  var since: int            // steps both engines made alike since they were equal, -1: they were not
  action init = all { es' = [fresh(E, 1), fresh(E, 1)], drawn' = [-1, -1], since' = 0 }
  pure def place(e: Es): int = e.seed * 4 + e.st
  action draw = { nondet i = oneOf(0.to(1)) all { es' = es.replaceAt(i, advX(E, es[i], 1)), drawn' = drawn.replaceAt(i, place(es[i])), since' = -1 } }
  action both = all { es' = [advX(E, es[0], 1), advX(E, es[1], 1)], drawn' = [place(es[0]), place(es[1])], since' = if (es[0] == es[1]) imin(5, imax(0, since) + 1) else -1 }
  action skip = { nondet i = oneOf(0.to(1)) nondet z = oneOf(0.to(9)) all { es' = es.replaceAt(i, advX(E, es[i], z)), drawn' = drawn, since' = -1 } }
  action reseed = { nondet i = oneOf(0.to(1)) nondet s = oneOf(0.to(7)) all { es' = es.replaceAt(i, fresh(E, s)), drawn' = drawn, since' = -1 } }
  action copy = { nondet i = oneOf(0.to(1)) all { es' = es.replaceAt(i, es[1 - i]), drawn' = drawn, since' = 0 } }
  action step = any { draw, both, skip, reseed, copy }
  val inv = and {
    0.to(1).forall(i => 0 <= es[i].seed and es[i].seed < 4 and 0 <= es[i].st and es[i].st < 4),
    // equal engines that do the same stay equal and draw the same
    since >= 0 implies es[0] == es[1],
    since > 0 implies drawn[0] == drawn[1],
    // discarding composes, in any split, and whole turns change nothing
    0.to(9).forall(a => 0.to(9).forall(b => advX(E, advX(E, es[0], a), b) == advX(E, es[0], a + b))),
    advX(E, es[0], 4) == es[0],
    eqOk(es[0].seed, es[0].st, es[1].seed, es[1].st, es[0] == es[1]),
    // an adapter uses every raw value of its format
    Set(true, false).forall(s => (lo(fm(3, 1, s, false))).to(hi(fm(3, 1, s, false))).forall(r => 0.to(15).exists(u => adaptX(fm(3, 1, s, false), u) == r))),
    0.to(15).forall(u => fits(fm(3, 1, true, false), adaptX(fm(3, 1, true, false), u)) and fits(fm(3, 1, false, false), adaptX(fm(3, 1, false, false), u))),
  }
}
