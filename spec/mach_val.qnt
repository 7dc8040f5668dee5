// Behaviours of one number that is compared, rounded, taken apart and carried
// from format to format.
module mach_val {
  import num.* from "./num"
  import core.* from "./core"
  import vals.* from "./vals"

  var fi: int
  var v: int
  var ev: { op: str, a: List[int], r: List[int] }

  pure def near(F: Fmt): Set[int] =
    Set(0, 1, -1, 2, 3, -3, one(F), -one(F), one(F) + 1, one(F) - 1, one(F) / 2, -(one(F) / 2), one(F) / 2 - 1, -(one(F) / 2) - 1, 3 * one(F) / 2, -(3 * one(F) / 2), 5 * one(F), hi(F), hi(F) - 1, lo(F), lo(F) + 1, hi(F) / 2, 10 * one(F) / 3)
      .filter(x => fits(F, x))

  action init = {
    nondet f = oneOf(0.to(FMTS.length() - 1))
    all { fi' = f, v' = 0, ev' = { op: "init", a: [f], r: [] } }
  }
  action setTo(x: int): bool = all { fi' = fi, v' = x, ev' = { op: "set", a: [fi, x], r: [x] } }
  action load: bool = {
    nondet w = oneOf(0.to(2))
    nondet v1 = oneOf(near(FMTS[fi]))
    nondet sz = oneOf(1.to(FMTS[fi].bits - 1))
    nondet v2 = oneOf((-(2^sz)).to(2^sz - 1))
    setTo(if (w == 0 or not(fits(FMTS[fi], v2))) v1 else v2)
  }
  action obs(op: str, a: List[int], r: List[int]): bool = all { fi' = fi, v' = v, ev' = { op: op, a: a, r: r } }

  action stepCmp = any {
    load,
    {
      val F = FMTS[fi]
      nondet w = oneOf(0.to(2))
      nondet d = oneOf(Set(0, 1, -1, 2, epsRaw(F), -epsRaw(F), epsRaw(F) + 1, -epsRaw(F) - 1, epsRaw(F) - 1))
      nondet x = oneOf(near(F))
      val b = if (w > 0 and fits(F, v + d)) v + d else x
      obs("cmp", [fi, v, b], cmpX(v, b).concat(nearX(F, v, b)))
    }
  }
  action stepRound = any {
    load,
    { nondet op = oneOf(0.to(3))
      val F = FMTS[fi]
      if (rndDef(F, op, v)) all { fi' = fi, v' = rndX(F, op, v), ev' = { op: "rnd", a: [fi, op, v], r: [rndX(F, op, v)] } } else load },
    obs("modf", [fi, v], [floorX(FMTS[fi], v), v - floorX(FMTS[fi], v)])
  }
  action stepPart = any {
    load,
    obs("part", [fi, v], partX(FMTS[fi], v)),
    { nondet x = oneOf(near(FMTS[fi])) obs("minmax", [fi, v, x], [imin(v, x), imax(v, x)]) },
    if (fits(FMTS[fi], iabs(v))) obs("abs", [fi, v], [iabs(v)]) else load
  }
  // the number moves to another format
  action stepConv = any {
    load,
    { nondet g = oneOf(0.to(FMTS.length() - 1))
      val G = FMTS[g]
      if (convDef(FMTS[fi], G, v)) all { fi' = g, v' = convX(FMTS[fi], G, v), ev' = { op: "conv", a: [fi, g, v], r: [convX(FMTS[fi], G, v)] } } else load }
  }
  action stepReal = any {
    load,
    obs("toint", [fi, v], [toIntX(FMTS[fi], v)]),
    { val s = sigRound(v, 53) obs("todouble", [fi, v], [s.m * p2(s.e)]) },
    { val s = sigRound(v, 24) obs("tofloat", [fi, v], [s.m * p2(s.e)]) },
    { nondet n = oneOf(Set(0, 1, -1, 2, 7, -8, 100, -128, 127, 1000, -30000, 32767))
      if (fromIntDef(FMTS[fi], n)) obs("fromint", [fi, n], [n * one(FMTS[fi])]) else load },
    { // the number as m * 2^e, exactly representable in double
      nondet m = oneOf((-(2^20)).to(2^20))
      nondet e = oneOf((-40).to(4))
      val F = FMTS[fi]
      if (fromRealDef(F, m, e)) obs("fromdouble", [fi, m, e], [fromRealX(F, m, e)]) else load }
  }
  val F0 = FMTS[fi]
  val inv = and {
    fits(F0, v),
    // rounding laws
    floorX(F0, v) <= v and v < floorX(F0, v) + one(F0),
    ceilX(F0, v) >= v and v > ceilX(F0, v) - one(F0),
    iabs(truncX(F0, v)) <= iabs(v) and sgn(truncX(F0, v)) * sgn(v) >= 0,
    2 * iabs(roundX(F0, v) - v) <= one(F0),
    floorX(F0, v) == -ceilX(F0, -v),
    partX(F0, v)[2] + (if (v < 0) -partX(F0, v)[1] else partX(F0, v)[1]) * one(F0) == v,
    FMTS.indices().forall(g => thereAndBack(F0, FMTS[g], v))
  }
}
