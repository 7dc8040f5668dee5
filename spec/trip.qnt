// Journeys: a number leaves its format (as text, as a floating-point number or an integer, or for another
// format) and comes back, leg by leg.
module trip {
  import num.* from "./num"
  import core.* from "./core"
  import vals.* from "./vals"
  import text.* from "./text"

  // legs from F to G
  //  0 written to a stream, read from a stream     1 written to a stream, parsed
  //  2 formatted with p digits, parsed             3 formatted with p digits, read from a stream
  //  4 through double   5 through float   6 through long double
  //  7 converted        8 through a 64-bit integer
  pure val LEGS = 9
  pure def signif(leg: int): int = if (leg == 4) 53 else if (leg == 5) 24 else 64
  pure def written(F: Fmt, leg: int, p: int, v: int): List[int] =
    if (leg < 2) printX(F, 10, false, v) else fmtX(F, fspec(0, 32, 45, false, false, 0, p, 102), v)
  // [arrived, number]; a text that names no number of G leaves the target (zero) alone
  pure def byText(F: Fmt, G: Fmt, leg: int, p: int, v: int): List[int] = {
    val s = scan(G, written(F, leg, p, v), 0)
    if (inRange(G, s)) [1, numOf(G, s)] else [0, 0]
  }
  pure def realDef(F: Fmt, G: Fmt, leg: int, v: int): bool = {
    val s = sigRound(v, signif(leg))
    fromRealDef(G, s.m, s.e - F.frac)
  }
  pure def realX(F: Fmt, G: Fmt, leg: int, v: int): int = {
    val s = sigRound(v, signif(leg))
    val e = s.e - F.frac
    if (e + G.frac < -70) 0 else fromRealX(G, s.m, e)
  }
  pure def legDef(F: Fmt, G: Fmt, leg: int, v: int): bool =
    if (leg < 4) true
    else if (leg < 7) realDef(F, G, leg, v)
    else if (leg == 7) convDef(F, G, v)
    else fromIntDef(G, toIntX(F, v)) and iabs(toIntX(F, v)) < p2(63)
  pure def legX(F: Fmt, G: Fmt, leg: int, p: int, v: int): List[int] =
    if (leg < 4) byText(F, G, leg, p, v)
    else if (leg < 7) [1, realX(F, G, leg, v)]
    else if (leg == 7) [1, convX(F, G, v)]
    else [1, toIntX(F, v) * one(G)]
  pure def legOk(F: Fmt, G: Fmt, leg: int, p: int, v: int, r: List[int]): bool =
    if (legDef(F, G, leg, v)) r == legX(F, G, leg, p, v) else true
  // the same leg again, whatever came in between
  pure def againOk(r1: List[int], r2: List[int]): bool = r1 == r2

  // ---- what a traveller may rely on
  // the number at the scale of the finer format
  pure def atFiner(F: Fmt, G: Fmt, v: int): int = if (G.frac > F.frac) v * p2(G.frac - F.frac) else v
  // text never enlarges a number, never changes its sign, and loses less than eleven units of G (and what
  // the digits asked for leave out)
  pure def textKeeps(F: Fmt, G: Fmt, leg: int, v: int, r: List[int]): bool =
    if (r[0] == 0) true
    else {
      val a = iabs(atFiner(F, G, v))
      val b = iabs(atFiner(G, F, r[1]))
      and { b <= a, sgn(r[1]) == 0 or sgn(r[1]) == sgn(v), leg < 2 implies a - b < 11 * atFiner(G, F, 1) + atFiner(F, G, 1) }
    }
  // a floating-point type with enough digits loses nothing on the way to a format at least as fine
  pure def realKeeps(F: Fmt, G: Fmt, leg: int, v: int, r: List[int]): bool =
    (G.frac >= F.frac and bitlen(iabs(v)) <= signif(leg)) implies atFiner(F, G, v) == r[1]
  pure def keeps(F: Fmt, G: Fmt, leg: int, v: int, r: List[int]): bool =
    if (leg < 4) textKeeps(F, G, leg, v, r)
    else if (leg < 7) realKeeps(F, G, leg, v, r)
    else if (leg == 7) thereAndBack(F, G, v)
    else fdiv(r[1], one(G)) == toIntX(F, v) and r[1] % one(G) == 0
}
