// A number carried through any chain of conversions between small formats, whatever its length.
module small_conv {
  import num.* from "./num"
  import core.* from "./core"
  import vals.* from "./vals"
  pure val SF: List[Fmt] = [fm(4, 0, true, false), fm(4, 2, true, false), fm(4, 3, true, false), fm(5, 1, true, false), fm(6, 4, true, false), fm(4, 2, false, false), fm(6, 3, false, false), fm(5, 2, true, true), fm(5, 1, false, true)]
  var fi: int
  var v: int
  // where it started, the fewest fraction bits since, whether a rounding format was visited
  var f0: int
  var v0: int
  var least: int
  var rounded: bool
  action init = {
    nondet f = oneOf(SF.indices())
    nondet x = oneOf(lo(SF[f]).to(hi(SF[f])))
    all { fi' = f, v' = x, f0' = f, v0' = x, least' = SF[f].frac, rounded' = false }
  }
  action step = {
    nondet g = oneOf(SF.indices())
    all { convDef(SF[fi], SF[g], v), fi' = g, v' = convX(SF[fi], SF[g], v), f0' = f0, v0' = v0,
          least' = imin(least, SF[g].frac), rounded' = (rounded or (SF[g].rnd and SF[g].frac < SF[fi].frac)) }
  }
  // both as multiples of 2^-4
  val now = v * p2(4 - SF[fi].frac)
  val then0 = v0 * p2(4 - SF[f0].frac)
  val inv = and {
    fits(SF[fi], v),
    // towards zero as long as no rounding format took part, never by a unit of the coarsest format
    not(rounded) implies (iabs(now) <= iabs(then0) and sgn(now) * sgn(then0) >= 0 and iabs(then0 - now) < p2(4 - least)),
    // and what is left depends on the coarsest format alone, not on the way
    not(rounded) implies now == tdiv(then0, p2(4 - least)) * p2(4 - least),
    // with roundings: every loss is of a coarser format than the one before
    iabs(then0 - now) < 2 * p2(4 - least),
    least == SF[f0].frac implies now == then0,
    SF.indices().forall(g => thereAndBack(SF[fi], SF[g], v)),
    // order is kept by every conversion
    SF.indices().forall(g => lo(SF[fi]).to(hi(SF[fi])).forall(w =>
      (v <= w and convDef(SF[fi], SF[g], v) and convDef(SF[fi], SF[g], w)) implies convX(SF[fi], SF[g], v) <= convX(SF[fi], SF[g], w))),
    // rounding to integers
    0.to(3).forall(op => rndDef(SF[fi], op, v) implies and {
      // once rounded, rounding changes nothing (ceil may have been cut off at the top)
      0.to(3).forall(o2 => (fmod(rndX(SF[fi], op, v), one(SF[fi])) == 0 and rndDef(SF[fi], o2, rndX(SF[fi], op, v))) implies rndX(SF[fi], o2, rndX(SF[fi], op, v)) == rndX(SF[fi], op, v)),
      iabs(rndX(SF[fi], op, v) - v) < one(SF[fi]),
      lo(SF[fi]).to(hi(SF[fi])).forall(w => v <= w implies rndX(SF[fi], op, v) <= rndX(SF[fi], op, w)),
    }),
    floorX(SF[fi], v) == -ceilX(SF[fi], -v), truncX(SF[fi], v) == (if (v < 0) ceilX(SF[fi], v) else floorX(SF[fi], v)),
    // the comparisons are one order
    lo(SF[fi]).to(hi(SF[fi])).forall(w => { val c = cmpX(v, w)
      val d = cmpX(w, v)
      and { c[0] + c[1] == 1, c[2] + c[5] == 1, c[3] + c[4] == 1, c[2] == d[4], c[3] == d[5], c[6] == -d[6], c[0] == 1 iff (c[3] == 1 and c[5] == 1) } }),
    partX(SF[fi], v)[2] + (if (v < 0) -partX(SF[fi], v)[1] else partX(SF[fi], v)[1]) * one(SF[fi]) == v,
  }
}
