// Comparisons, rounding to integers, decomposition and conversions.
module vals {
  import num.* from "./num"
  import core.* from "./core"

  // 1 / 0 of a condition
  pure def b2i(c: bool): int = if (c) 1 else 0

  // ---- comparisons
  // the tolerance of the nearly comparisons: 5 / 2^16, brought to the format
  pure def epsRaw(F: Fmt): int = convX(fm(128, 64, true, F.rnd), F, 5 * p2(48))
  // [==, !=, <, <=, >, >=, sign of <=>]
  pure def cmpX(a: int, b: int): List[int] =
    [b2i(a == b), b2i(a != b), b2i(a < b), b2i(a <= b), b2i(a > b), b2i(a >= b), sgn(a - b)]
  // [nearly_eq, nearly_ne, nearly_gt, nearly_lt, nearly_gt_eq, nearly_lt_eq]
  pure def nearX(F: Fmt, a: int, b: int): List[int] = {
    val e = epsRaw(F)
    [b2i(iabs(a - b) <= e), b2i(iabs(a - b) > e), b2i(a - b > e), b2i(b - a > e), b2i(b - a <= e), b2i(a - b <= e)]
  }
  pure def cmpOk(a: int, b: int, r: List[int]): bool = r == cmpX(a, b)
  pure def nearOk(F: Fmt, a: int, b: int, r: List[int]): bool = r == nearX(F, a, b)
  // hashes h1, h2 of equal numbers are equal
  pure def hashOk(a: int, b: int, h1: int, h2: int): bool = a == b implies h1 == h2

  // ---- rounding: 0 floor 1 ceil 2 trunc 3 round
  pure def rndX(F: Fmt, op: int, a: int): int =
    if (op == 0) floorX(F, a) else if (op == 1) imin(ceilX(F, a), hi(F))
    else if (op == 2) truncX(F, a) else roundX(F, a)
  pure def rndDef(F: Fmt, op: int, a: int): bool = fits(F, rndX(F, op, a))
  pure def rndOk(F: Fmt, op: int, a: int, r: int): bool = r == rndX(F, op, a)
  // modf: whole and rest
  pure def modfOk(F: Fmt, a: int, whole: int, rest: int): bool =
    whole == floorX(F, a) and whole + rest == a and 0 <= rest and rest < one(F)

  // ---- decomposition
  // [sign bit, magnitude of the integral part, fraction with the sign of the number]
  pure def partX(F: Fmt, a: int): List[int] = [b2i(a < 0), iabs(a) / one(F), tmod(a, one(F))]
  pure def partOk(F: Fmt, a: int, r: List[int]): bool = r == partX(F, a)
  pure def absOk(a: int, r: int): bool = r == iabs(a)
  pure def minmaxOk(a: int, b: int, mn: int, mx: int): bool = mn == imin(a, b) and mx == imax(a, b)

  // ---- conversions
  pure def convDef(F: Fmt, G: Fmt, a: int): bool =
    (G.frac <= F.frac or iabs(a) < p2(G.bits)) and fits(G, convX(F, G, a))
  pure def convOk(F: Fmt, G: Fmt, a: int, r: int): bool = r == convX(F, G, a)
  // a raw value with k fraction bits brought into format G
  pure def rawDef(k: int, G: Fmt, a: int): bool = convDef(fm(64, k, true, G.rnd), G, a)
  pure def rawOk(k: int, G: Fmt, a: int, r: int): bool = r == convX(fm(64, k, true, G.rnd), G, a)
  // widening and back is the identity
  pure def thereAndBack(F: Fmt, G: Fmt, a: int): bool =
    (G.frac >= F.frac and convDef(F, G, a)) implies convX(G, F, convX(F, G, a)) == a

  pure def toIntOk(F: Fmt, a: int, r: int): bool = r == toIntX(F, a)
  pure def fromIntDef(F: Fmt, n: int): bool = iabs(n) < p2(F.bits) and fits(F, n * one(F))
  pure def fromIntOk(F: Fmt, n: int, r: int): bool = r == n * one(F)

  // ---- floating point: a number is m * 2^e with |m| < 2^p
  // the fixed number it becomes: towards zero, or (rounding formats) to the nearest, halves away from zero
  pure def fromRealDef(F: Fmt, m: int, e: int): bool =
    if (e + F.frac >= 0) e + F.frac <= 64 and iabs(m) < p2(64) and (m == 0 or iabs(m) <= p2(F.bits) / p2(e + F.frac)) and fits(F, m * p2(e + F.frac))
    else if (e + F.frac < -70) true
    else fits(F, fromRealX(F, m, e))
  pure def fromRealOk(F: Fmt, m: int, e: int, r: int): bool =
    if (e + F.frac >= 0) r == m * p2(e + F.frac)
    else if (e + F.frac < -70) r == 0
    else r == fromRealX(F, m, e)
  // the floating-point value x of a fixed number, x * 2^frac = n: correctly rounded to p bits
  pure def toRealOk(p: int, a: int, n: int): bool = {
    val s = sigRound(a, p)
    n == s.m * p2(s.e)
  }
}
