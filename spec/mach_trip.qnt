// A number on a journey through formats, texts and floating-point types.
module mach_trip {
  import num.* from "./num"
  import core.* from "./core"
  import vals.* from "./vals"
  import text.* from "./text"
  import trip.* from "./trip"
  var fi: int
  var v: int
  var from: { fi: int, v: int, leg: int, ok: int }       // where the last leg began
  var ev: { op: str, a: List[int], r: List[int] }
  pure def good(F: Fmt): Set[int] =
    Set(0, 1, -1, 7, 1000, one(F), -one(F), one(F) / 2, -(one(F) / 2) - 1, one(F) + 1, 3 * one(F) + one(F) / 3, hi(F), hi(F) - 1, lo(F), lo(F) + 1, hi(F) / 3, -(hi(F) / 7)).filter(x => fits(F, x))
  action init = {
    nondet f = oneOf(FMTS.indices())
    all { fi' = f, v' = 1, from' = { fi: f, v: 1, leg: -1, ok: 0 }, ev' = { op: "init", a: [f], r: [] } }
  }
  action start: bool = {
    nondet f = oneOf(FMTS.indices())
    nondet w = oneOf(0.to(2))
    nondet x = oneOf(good(FMTS[f]))
    nondet y = oneOf((-(2^30)).to(2^30))
    nondet z = oneOf((-(2^62)).to(2^62))
    val n = if (w == 1 and fits(FMTS[f], y)) y else if (w == 2 and fits(FMTS[f], z)) z else x
    all { fi' = f, v' = n, from' = { fi: f, v: n, leg: -1, ok: 0 }, ev' = { op: "start", a: [f, n], r: [] } }
  }
  action travel: bool = {
    nondet g = oneOf(FMTS.indices())
    nondet leg = oneOf(0.to(LEGS - 1))
    nondet p = oneOf(Set(0, 1, 2, 4, 5, 6, 9, 12, 17, 20))
    val F = FMTS[fi]
    val G = FMTS[g]
    if (not(legDef(F, G, leg, v))) start
    else {
      val r = legX(F, G, leg, p, v)
      all { fi' = g, v' = r[1], from' = { fi: fi, v: v, leg: leg, ok: r[0] }, ev' = { op: "leg", a: [fi, g, leg, p, v], r: r } }
    }
  }
  action step = any { start, travel, travel, travel, travel, travel }
  val inv = and {
    fits(FMTS[fi], v),
    from.leg < 0 or keeps(FMTS[from.fi], FMTS[fi], from.leg, from.v, [from.ok, v]),
    from.leg < 0 or from.leg == 2 or from.leg == 3 or legOk(FMTS[from.fi], FMTS[fi], from.leg, 0, from.v, [from.ok, v]),
    from.leg < 0 or from.leg == 2 or from.leg == 3 or not(legOk(FMTS[from.fi], FMTS[fi], from.leg, 0, from.v, [from.ok, v + 1]))
  }
}
