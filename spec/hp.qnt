// Reference functions of a real argument, computed with integers at the scale
// 2^60 (error far below the resolution of every number format).
module hp {
  import num.* from "./num"

  pure val S1 = 1152921504606846976                // 2^60
  pure val HALFPI = 7417875925070973790602         // pi/2 at the scale 2^72
  pure val PI = 3622009729038561421                // pi   at the scale 2^60
  pure val LN2 = 799144290325165979                // ln 2
  pure val LN10 = 2654699869899991814              // ln 10

  // a * b / 2^60, to nearest
  pure def mulS(a: int, b: int): int = fshr(a * b + p2(59), 60)
  // raw value with f fraction bits to the scale 2^60 (f <= 60)
  pure def up(x: int, f: int): int = x * p2(60 - f)

  // ---- sine and cosine of |r| <= 0.8
  pure def sinT(r: int): int = {
    val z = mulS(r, r)
    val t8 = S1 - z / 342
    val t7 = S1 - mulS(z, t8) / 272
    val t6 = S1 - mulS(z, t7) / 210
    val t5 = S1 - mulS(z, t6) / 156
    val t4 = S1 - mulS(z, t5) / 110
    val t3 = S1 - mulS(z, t4) / 72
    val t2 = S1 - mulS(z, t3) / 42
    val t1 = S1 - mulS(z, t2) / 20
    val t0 = S1 - mulS(z, t1) / 6
    mulS(r, t0)
  }
  pure def cosT(r: int): int = {
    val z = mulS(r, r)
    val t8 = S1 - z / 306
    val t7 = S1 - mulS(z, t8) / 240
    val t6 = S1 - mulS(z, t7) / 182
    val t5 = S1 - mulS(z, t6) / 132
    val t4 = S1 - mulS(z, t5) / 90
    val t3 = S1 - mulS(z, t4) / 56
    val t2 = S1 - mulS(z, t3) / 30
    val t1 = S1 - mulS(z, t2) / 12
    S1 - mulS(z, t1) / 2
  }
  // x = k * pi/2 + r for the raw value x with f <= 60 fraction bits
  type Red = { k: int, r: int }
  pure def reduce(x: int, f: int): Red = {
    // beyond 2^46 the bounds are void (the rounding of pi dominates)
    val y = (if (iabs(x) >= p2(imin(120, 46 + f))) 0 else x) * p2(72 - f)
    val k = fdiv(2 * y + HALFPI, 2 * HALFPI)
    { k: k, r: fshr(y - k * HALFPI, 12) }
  }
  pure def sinR(x: int, f: int): int = {
    val d = reduce(x, f)
    val q = fmod(d.k, 4)
    if (q == 0) sinT(d.r) else if (q == 1) cosT(d.r) else if (q == 2) -sinT(d.r) else -cosT(d.r)
  }
  pure def cosR(x: int, f: int): int = {
    val d = reduce(x, f)
    val q = fmod(d.k, 4)
    if (q == 0) cosT(d.r) else if (q == 1) -sinT(d.r) else if (q == 2) -cosT(d.r) else sinT(d.r)
  }

  // ---- exponential: exp(x) = m * 2^k with m at the scale 2^60, for x at the scale 2^60
  type Flt = { m: int, k: int }
  pure def expR(x: int): Flt = {
    val k = fdiv(2 * x + LN2, 2 * LN2)
    val r = x - k * LN2
    val t16 = S1 + fdiv(r, 17)
    val t15 = S1 + fdiv(mulS(r, t16), 16)
    val t14 = S1 + fdiv(mulS(r, t15), 15)
    val t13 = S1 + fdiv(mulS(r, t14), 14)
    val t12 = S1 + fdiv(mulS(r, t13), 13)
    val t11 = S1 + fdiv(mulS(r, t12), 12)
    val t10 = S1 + fdiv(mulS(r, t11), 11)
    val t9 = S1 + fdiv(mulS(r, t10), 10)
    val t8 = S1 + fdiv(mulS(r, t9), 9)
    val t7 = S1 + fdiv(mulS(r, t8), 8)
    val t6 = S1 + fdiv(mulS(r, t7), 7)
    val t5 = S1 + fdiv(mulS(r, t6), 6)
    val t4 = S1 + fdiv(mulS(r, t5), 5)
    val t3 = S1 + fdiv(mulS(r, t4), 4)
    val t2 = S1 + fdiv(mulS(r, t3), 3)
    val t1 = S1 + fdiv(mulS(r, t2), 2)
    { m: S1 + mulS(r, t1), k: k }
  }
  // m * 2^k as an integer at the scale 2^s, if it is below 2^100; otherwise 2^100
  pure def atScale(v: Flt, s: int): int = {
    val e = v.k + s - 60
    if (e >= 39) p2(100) else if (e >= 0) v.m * p2(e) else if (e < -70) 0 else v.m / p2(-e)
  }

  // ---- natural logarithm of x > 0 with f fraction bits, at the scale 2^60
  pure def atanhS(s: int): int = {
    val z = mulS(s, s)
    val t12 = S1 / 25
    val t11 = S1 / 23 + mulS(z, t12)
    val t10 = S1 / 21 + mulS(z, t11)
    val t9 = S1 / 19 + mulS(z, t10)
    val t8 = S1 / 17 + mulS(z, t9)
    val t7 = S1 / 15 + mulS(z, t8)
    val t6 = S1 / 13 + mulS(z, t7)
    val t5 = S1 / 11 + mulS(z, t6)
    val t4 = S1 / 9 + mulS(z, t5)
    val t3 = S1 / 7 + mulS(z, t4)
    val t2 = S1 / 5 + mulS(z, t3)
    val t1 = S1 / 3 + mulS(z, t2)
    mulS(s, S1 + mulS(z, t1))
  }
  pure def lnR(x: int, f: int): int = {
    val n = bitlen(x)
    // mantissa in [1, 2)
    val a = if (n <= 61) x * p2(61 - n) else x / p2(n - 61)
    val big = a > 1630477228166597776            // above the square root of two
    val m = if (big) a / 2 else a
    val e = (if (big) n else n - 1) - f
    val s = ((iabs(m - S1) * p2(60)) / (m + S1)) * sgn(m - S1)
    2 * atanhS(s) + e * LN2
  }

  // ---- integer square root of x < 2^126
  pure def isqrt(x: int): int =
    range(0, 63).foldl(0, (r, i) => {
      val b = p2(62 - i)
      if ((r + b) * (r + b) <= x) r + b else r
    })
}
