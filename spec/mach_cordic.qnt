module mach_cordic {
  import num.* from "./num"
  import core.* from "./core"
  import hp.* from "./hp"
  import cordic.* from "./cordic"
  var fi: int
  var v: int
  var ev: { op: str, a: List[int], r: List[int] }
  action init = { nondet f = oneOf(Set(6, 11)) all { fi' = f, v' = 0, ev' = { op: "init", a: [f], r: [] } } }
  action load: bool = {
    nondet sz = oneOf(1.to(FMTS[fi].bits - 1))
    nondet w = oneOf(0.to(3))
    nondet x = oneOf((-(2^sz)).to(2^sz - 1))
    val F = FMTS[fi]
    // near multiples of a quarter turn
    nondet k = oneOf((-40).to(40))
    nondet d = oneOf((-3).to(3))
    val y = if (w == 0) fdiv(k * HALFPI, p2(72 - F.frac)) + d else if (w == 1 and d == 0) lo(F) else x
    all { fi' = fi, v' = y, ev' = { op: "set", a: [fi, y], r: [y, y] } }
  }
  action turn: bool = {
    val F = FMTS[fi]
    val t = cordicTol(F, v) / p2(60 - F.frac)
    val y = fdiv(sinR(v, F.frac), p2(60 - F.frac))
    nondet d = oneOf(0.to(1000))
    val l = imax(-one(F) - 32, y - t)
    val h = imin(one(F) + 32, y + t + 1)
    all { fi' = fi, v' = l + ((h - l) * d) / 1000, ev' = { op: "cordic", a: [fi, v], r: [l, h] } }
  }
  action step = any { load, turn }
  val inv = {
    val F = FMTS[fi]
    val s = sinR(v, F.frac)
    val c = cosR(v, F.frac)
    and { fits(F, v), iabs(s * s + c * c - S1 * S1) <= 64 * S1, cordicOk(F, v, fdiv(s, p2(60 - F.frac))),
          not(cordicOk(F, v, fdiv(s, p2(60 - F.frac)) + 2 + cordicTol(F, v) / p2(60 - F.frac))) }
  }
}
