// The number formats of the library and their exact arithmetic.
// A number is its raw integer v, standing for v / 2^frac.
module core {
  import num.* from "./num"

  type Fmt = { bits: int, frac: int, sgd: bool, rnd: bool }

  pure def fm(bits: int, frac: int, sgd: bool, rnd: bool): Fmt =
    { bits: bits, frac: frac, sgd: sgd, rnd: rnd }
  pure def lo(F: Fmt): int = if (F.sgd) -p2(F.bits - 1) else 0
  pure def hi(F: Fmt): int = if (F.sgd) p2(F.bits - 1) - 1 else p2(F.bits) - 1
  pure def fits(F: Fmt, v: int): bool = lo(F) <= v and v <= hi(F)
  pure def one(F: Fmt): int = p2(F.frac)

  // the formats the machines and the drivers use, by index
  pure val FMTS: List[Fmt] = [
    fm(8, 4, true, false), fm(8, 4, false, false), fm(8, 1, true, false), fm(8, 7, true, false),
    fm(16, 8, true, false), fm(16, 8, false, false), fm(32, 16, true, false), fm(32, 8, true, false),
    fm(32, 20, true, false), fm(32, 28, true, false), fm(32, 16, false, false), fm(64, 32, true, false),
    fm(64, 16, true, false), fm(64, 40, true, false), fm(64, 32, false, false),
    fm(8, 4, true, true), fm(16, 8, true, true), fm(32, 16, true, true), fm(64, 32, true, true),
    fm(32, 16, false, true) ]

  // ---- exact results (as integers; the operation is defined iff they fit)
  pure def mulX(F: Fmt, a: int, b: int): int =
    if (F.rnd) rdiv(a * b, one(F)) else fdiv(a * b, one(F))
  pure def divX(F: Fmt, a: int, b: int): int =
    if (F.rnd) rdiv(a * one(F), b) else tdiv(a * one(F), b)
  pure def remX(a: int, b: int): int = tmod(a, b)

  // ---- rounding to integers
  pure def floorX(F: Fmt, a: int): int = fdiv(a, one(F)) * one(F)
  pure def ceilX(F: Fmt, a: int): int = -(fdiv(-a, one(F)) * one(F))
  pure def truncX(F: Fmt, a: int): int = tdiv(a, one(F)) * one(F)
  pure def roundX(F: Fmt, a: int): int = rdiv(a, one(F)) * one(F)

  // ---- conversions
  pure def convX(F: Fmt, G: Fmt, a: int): int =
    if (G.frac >= F.frac) a * p2(G.frac - F.frac)
    else if (G.rnd) rdiv(a, p2(F.frac - G.frac))
    else tdiv(a, p2(F.frac - G.frac))
  pure def toIntX(F: Fmt, a: int): int = fdiv(a, one(F))
  // the real number m * 2^e, towards zero or to nearest with halves away from zero
  pure def fromRealX(F: Fmt, m: int, e: int): int =
    if (e + F.frac >= 0) m * p2(e + F.frac)
    else if (F.rnd) rdiv(m, p2(-(e + F.frac)))
    else tdiv(m, p2(-(e + F.frac)))
  // a rounded to p significant bits, ties to even, as a multiple of the returned unit
  pure def sigRound(a: int, p: int): { m: int, e: int } = {
    val n = bitlen(iabs(a))
    if (n <= p) { m: a, e: 0 }
    else {
      val e = n - p
      val q = iabs(a) / p2(e)
      val r = iabs(a) % p2(e)
      val up = r > p2(e - 1) or (r == p2(e - 1) and q % 2 == 1)
      val m = if (up) q + 1 else q
      { m: if (a < 0) -m else m, e: e }
    }
  }
}
