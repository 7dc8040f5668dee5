// Journeys of any length between small formats: written and read, formatted and parsed, converted, through
// a small floating-point type (three significant bits) and through integers.
module small_trip {
  import num.* from "./num"
  import core.* from "./core"
  import vals.* from "./vals"
  import text.* from "./text"
  pure val SF: List[Fmt] = [fm(5, 2, true, false), fm(7, 4, true, false), fm(7, 3, true, false), fm(6, 4, false, false), fm(5, 1, true, false)]
  var fi: int
  var v: int
  var f0: int
  var v0: int
  var cut: bool      // only ways that cut digits off so far
  action init = {
    nondet f = oneOf(SF.indices())
    nondet x = oneOf(lo(SF[f]).to(hi(SF[f])))
    all { fi' = f, v' = x, f0' = f, v0' = x, cut' = true }
  }
  pure def at(f: int, x: int): int = x * p2(4 - SF[f].frac)
  // [arrived, number]
  pure def go(F: Fmt, G: Fmt, leg: int, x: int): List[int] =
    if (leg == 0) lenientX(G, 0, printX(F, 10, false, x))
    else if (leg < 4) lenientX(G, 0, fmtX(F, fspec(0, 32, 45, false, false, 0, leg, 102), x))
    else if (leg == 4) { if (convDef(F, G, x)) [1, convX(F, G, x)] else [0, 0] }
    else if (leg == 5) {
      val s = sigRound(x, 3)
      val r = if (s.e - F.frac + G.frac >= 0) s.m * p2(s.e - F.frac + G.frac) else fromRealX(G, s.m, s.e - F.frac)
      if (fits(G, r)) [1, r] else [0, 0]
    }
    else { val r = toIntX(F, x) * one(G)
      if (fits(G, r)) [1, r] else [0, 0] }
  action step = {
    nondet g = oneOf(SF.indices())
    nondet leg = oneOf(0.to(6))
    val r = go(SF[fi], SF[g], leg, v)
    val c = cut and leg < 5
    all { r[0] == 1, fi' = g, v' = r[1], f0' = if (c) f0 else 0, v0' = if (c) v0 else 0, cut' = c }
  }
  // one leg from f, x to g
  pure def legFine(f: int, g: int, leg: int, x: int): bool = {
    val r = go(SF[f], SF[g], leg, x)
    val before = at(f, x)
    val now = at(g, r[1])
    r[0] == 1 implies and {
      fits(SF[g], r[1]),
      // text in full loses less than eleven units of the destination and one of the source
      leg == 0 implies iabs(before - now) < 11 * at(g, 1) + at(f, 1),
      // digits asked for: what they leave out, besides
      (leg > 0 and leg < 4) implies iabs(before - now) * 10^leg < (11 * at(g, 1) + at(f, 1)) * 10^leg + 16,
      leg == 4 implies iabs(before - now) < at(g, 1),
      // three significant bits: relative error at most an eighth, then one unit
      leg == 5 implies 8 * iabs(before - now) <= iabs(before) + 8 * at(g, 1),
      leg == 6 implies (now <= before and before - now < 16 and now % 16 == 0),
      // nothing is lost on the way to a finer format
      (leg == 4 and SF[g].frac >= SF[f].frac) implies now == before,
      // all readers agree on what the writers write
      leg == 0 implies strictX(SF[g], 0, printX(SF[f], 10, false, x)) == r,
    }
  }
  val inv = and {
    fits(SF[fi], v),
    // what is cut off is gone: never larger, never of another sign than at the start
    cut implies (iabs(at(fi, v)) <= iabs(at(f0, v0)) and sgn(v) * sgn(v0) >= 0),
    (cut and fi == f0 and v == v0) implies SF.indices().forall(g => 0.to(6).forall(leg => legFine(fi, g, leg, v))),
  }
}
