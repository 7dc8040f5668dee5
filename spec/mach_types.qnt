// A program that declares formats and writes expressions over them: what compiles.
module mach_types {
  import num.* from "./num"
  import core.* from "./core"
  import types.* from "./types"
  var made: List[{ s: int, i: int, f: int }]        // the formats declared so far
  var ev: { op: str, a: List[int], r: List[int] }
  pure def bi(c: bool): int = if (c) 1 else 0
  action init = all { made' = [], ev' = { op: "init", a: [], r: [] } }
  action say(op: str, a: List[int], r: List[int]): bool = all { made' = made, ev' = { op: op, a: a, r: r } }
  action declare: bool = {
    nondet s = oneOf(1.to(TYS.length() - 1))
    nondet i = oneOf(1.to(17))
    nondet f = oneOf(0.to(70))
    nondet e = oneOf(0.to(3))
    // often at the edge of what the store type holds
    val g = if (e == 0) f else if (e == 1) TYS[s].bits - 1 else if (e == 2) TYS[s].bits else f % 4
    val k = if (g <= 70) g else 70
    val ok = wellFormed(TYS[s], TYS[i], k)
    all { made' = if (ok) made.append({ s: s, i: i, f: k }) else made, ev' = { op: "format", a: [s, i, k], r: [bi(ok)] } }
  }
  action step = any {
    declare, declare,
    { nondet f = oneOf(FMTS.indices()) nondet x = oneOf(TYS.indices())
      if (TYS[x].kind == 2) declare else say("cast", [f, x], castX(TYS[x])) },
    { nondet f = oneOf(FMTS.indices()) nondet g = oneOf(FMTS.indices())
      say("recast", [f, g], recastX(f == g)) },
    { nondet f = oneOf(FMTS.indices()) nondet g = oneOf(FMTS.indices())
      say("mix", [f, g], [bi(f == g)]) },
    { nondet f = oneOf(FMTS.indices()) nondet x = oneOf(TYS.indices())
      if (TYS[x].kind == 2) declare else say("with", [f, x], [withX(TYS[x])]) }
  }
  // what the declared formats guarantee: one unit and the number one minus a unit fit, the product of
  // two numbers fits the intermediate type, and so does a number scaled up for a division
  pure def sound(m: { s: int, i: int, f: int }): bool = {
    val F = fm(TYS[m.s].bits, m.f, TYS[m.s].sgd, false)
    val W = fm(TYS[m.i].bits, 1, TYS[m.i].sgd, false)
    and {
      fits(F, one(F) - 1), fits(F, 1), F.sgd implies fits(F, -one(F)),
      fits(W, hi(F) * hi(F)), fits(W, lo(F) * lo(F)), fits(W, hi(F) * lo(F)), fits(W, hi(F) * one(F)), fits(W, lo(F) * one(F))
    }
  }
  val inv = and {
    made.foldl(true, (ok, m) => ok and sound(m)),
    formatOk(6, 8, 16, true), not(formatOk(6, 9, 16, true)), not(formatOk(6, 7, 16, true)), not(formatOk(6, 8, 0, true)), not(formatOk(6, 8, 32, true)), formatOk(6, 8, 31, true),
    formatOk(10, 16, 32, true), not(formatOk(19, 16, 32, true)), not(castOk(19, [1, 1, 1, 0])), not(mixOk(false, [0, 1])), not(mixOk(true, [1, 0])), not(mixOk(true, [2]))
  }
}
