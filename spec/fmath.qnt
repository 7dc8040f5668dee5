// What the mathematical functions may return.  A unit is 2^-frac, the
// resolution of the format; results are raw values; a thrown domain error is
// reported as the observation `thrown`.
module fmath {
  import num.* from "./num"
  import core.* from "./core"
  import hp.* from "./hp"

  pure def unit(F: Fmt): int = p2(60 - F.frac)     // one unit at the scale 2^60
  // the published tolerance of a format: 5 * 2^-16
  pure def epsX(F: Fmt): int = if (F.frac >= 16) 5 * p2(F.frac - 16) else if (F.rnd) rdiv(5, p2(16 - F.frac)) else 5 / p2(16 - F.frac)

  // ---- square root: s in [s0, s1] (raw), r its root
  pure def sqrtIn(F: Fmt, s0: int, s1: int, r: int): bool = {
    val small = 0 <= r and r <= p2(63)
    val dn = if (r > 0) r - 1 else 0
    and {
      small,
      or {
        // within one unit of a root
        dn * dn <= s1 * one(F) and imax(s0, 0) * one(F) <= (r + 1) * (r + 1),
        // or its square is within the tolerance
        r * r <= (s1 + epsX(F) + 1) * one(F) and (s0 - epsX(F) - 1) * one(F) <= r * r
      }
    }
  }
  // 32-bit formats with 16 fraction bits: the root rounded down
  pure def exactRoot(F: Fmt): bool = F.bits == 32 and F.frac == 16 and F.sgd
  pure def sqrtOk(F: Fmt, x: int, r: int): bool =
    if (x < 0) r == -one(F)
    else if (exactRoot(F)) 0 <= r and r < p2(60) and r * r <= x * one(F) and x * one(F) < (r + 1) * (r + 1)
    else sqrtIn(F, x, x, r)
  // sum of squares, each product rounded to the format
  pure def hypotDef(F: Fmt, xs: List[int]): bool = and {
    xs.foldl(true, (b, x) => b and iabs(x) < p2(62)),
    xs.foldl(0, (s, x) => imin(s + x * x, p2(120))) + 4 * one(F) <= hi(F) * one(F)
  }
  pure def hypotOk(F: Fmt, xs: List[int], r: int): bool =
    if (not(hypotDef(F, xs))) true
    else {
      val s = xs.foldl(0, (a, x) => a + x * x)
      val n = xs.length()
      sqrtIn(F, fdiv(s, one(F)) - n, fdiv(s, one(F)) + n, r)
    }

  // ---- cube root.  w^3 <= x * 2^(2f+12), for w > 0 at the resolution 2^-(f+4)
  pure def cubeCmp(F: Fmt, w: int, x: int, up1: int): bool = {
    val n = bitlen(w)
    val s = imax(0, 2 * n - 60)
    val q = (w * w) / p2(s) + up1
    val e = 2 * F.frac + 12 - s
    if (e >= 0) { if (bitlen(x) + e > 124) true else q * w <= x * p2(e) }
    else (q * w) / p2(-e) <= x
  }
  pure def cbrtOk(F: Fmt, x: int, r: int): bool =
    if (x < 0) cbrtPos(F, -x, -r) else cbrtPos(F, x, r)
  pure def cbrtPos(F: Fmt, x: int, r: int): bool = {
    // error of at most 1.2 + 0.35 / |root| units, in 16ths of a unit
    val t = 20 + (if (r > 0) (6 * one(F)) / r else 0)
    if (x == 0 or (F.sgd and x < epsX(F))) r == 0
    // unsigned formats need not cut off below the tolerance
    else if (x < epsX(F) and r == 0) true
    else and {
      0 < r and r < p2(55),
      16 * r - t <= 0 or cubeCmp(F, 16 * r - t, x, 0),
      not(cubeCmp(F, 16 * r + t, x, 1))
    }
  }

  // ---- sine, cosine, tangent
  // 3.6e-6 + (4 + |x| / 6) units, at the scale 2^60
  pure def trigTol(F: Fmt, x: int, c: int): int =
    imin(4150517416584 + c * unit(F) + (iabs(x) * unit(F)) / (6 * one(F)), p2(62))
  pure def trigIn(F: Fmt, x: int, v: int, r: int, c: int): bool = and {
    iabs(up(r, F.frac) - v) <= trigTol(F, x, c),
    iabs(up(r, F.frac)) <= S1 + 4611686018427 + 4 * unit(F)
  }
  pure def sinOk(F: Fmt, x: int, r: int): bool = trigIn(F, x, sinR(x, F.frac), r, 4)
  pure def cosOk(F: Fmt, x: int, r: int): bool = trigIn(F, x, cosR(x, F.frac), r, 6)
  pure def tanOk(F: Fmt, x: int, thrown: bool, r: int): bool = {
    val e = trigTol(F, x, 6)
    val c = cosR(x, F.frac)
    val s = sinR(x, F.frac)
    if (thrown) iabs(c) <= e + unit(F)
    else or {
      // the quotient may not be representable
      iabs(c) <= e or (iabs(s) + e) * one(F) > (iabs(c) - e) * hi(F),
      iabs(r * c - s * one(F)) <= e * (one(F) + iabs(r)) + iabs(c) + e
    }
  }

  // ---- arc functions
  // min(2.1e-4, 0.006 z^3) + 5 units with z the smaller of |x| and 1 / |x|
  pure def atanTol(F: Fmt, x: int): int = {
    val a = iabs(x)
    val z = if (a <= one(F)) up(a, F.frac) else p2(60 + F.frac) / a
    imin(242113515967437, (mulS(mulS(z, z), z) / 1000) * 6) + 5 * unit(F)
  }
  // the angle between (2^f, x) and direction y is at most t
  pure def atanOk(F: Fmt, x: int, r: int): bool = {
    val c = cosR(r, F.frac)
    val s = sinR(r, F.frac)
    val d = c * one(F) + x * s
    and {
      iabs(up(r, F.frac)) < 2 * S1,
      d > 0,
      iabs(x * c - s * one(F)) <= (d / p2(50)) * (atanTol(F, x) / p2(10) + 1)
    }
  }
  // tolerance of the arc sine: that of the arc tangent of x/c, c = sqrt(1 - x^2), and the
  // share |x|/(2c) of the error of 1 - x^2 and of the square root (at most 1.4e-3)
  pure def asinTol(F: Fmt, x: int): int = {
    val a = iabs(x)
    val c = imax(1, isqrt(one(F) * one(F) - a * a))
    val z = if (a <= c) (a * S1) / c else (c * S1) / a
    val rootErr = (if (exactRoot(F)) 0 else 87960930222080) + 2 * unit(F)      // 5 * 2^-16
    imin(242113515967437, (mulS(mulS(z, z), z) / 1000) * 6) + 6 * unit(F)
      + imin(1614090106449585, ((rootErr / 2) * a) / c)
  }
  // sin(y - t) <= x <= sin(y + t), y +- t at the scale 2^60 cut at +- pi/2
  pure def sinCut(y: int): int =
    if (2 * y >= PI) S1 else if (2 * y <= -PI) -S1 else sinR(y, 60)
  pure def asinOk(F: Fmt, x: int, thrown: bool, r: int): bool =
    if (iabs(x) > one(F)) thrown
    else if (thrown) false
    else {
      val y = up(r, F.frac)
      val t = asinTol(F, x)
      iabs(y) <= 4 * S1 and sinCut(y - t) <= up(x, F.frac) + 8 and up(x, F.frac) <= sinCut(y + t) + 8
        and iabs(y) <= PI / 2 + t
    }
  pure def acosOk(F: Fmt, x: int, thrown: bool, r: int): bool =
    if (iabs(x) > one(F)) thrown
    else if (thrown) false
    else {
      // asin(x) = pi/2 - acos(x)
      val y = PI / 2 - up(r, F.frac)
      val t = asinTol(F, x) + 2 * unit(F)
      iabs(y) <= 4 * S1 and sinCut(y - t) <= up(x, F.frac) + 8 and up(x, F.frac) <= sinCut(y + t) + 8
        and iabs(y) <= PI / 2 + t
    }

  // ---- logarithms
  pure def isPow2(x: int): bool = x > 0 and p2(bitlen(x) - 1) == x
  pure def log2Fits(F: Fmt, x: int): bool = {
    val n = bitlen(x) - F.frac
    and { (n - 1) * one(F) >= lo(F), n * one(F) <= hi(F) }
  }
  pure def log2Ok(F: Fmt, x: int, thrown: bool, r: int): bool =
    if (x <= 0) thrown
    else if (thrown) false
    else if (not(log2Fits(F, x))) true
    else if (isPow2(x)) r == (bitlen(x) - 1 - F.frac) * one(F)
    else iabs(r * LN2 - lnR(x, F.frac) * one(F)) <= 4 * LN2
  pure def lnOk(F: Fmt, x: int, thrown: bool, r: int): bool = {
    val y = lnR(imax(x, 1), F.frac)
    if (x <= 0) thrown
    else if (thrown) false
    else if (not(log2Fits(F, x))) true
    // (4 + 0.7 |y|) units
    else iabs(up(r, F.frac) - y) <= 4 * unit(F) + (7 * (iabs(y) / p2(F.frac))) / 10
  }
  pure def log10Ok(F: Fmt, x: int, thrown: bool, r: int): bool = {
    val y = lnR(imax(x, 1), F.frac)
    if (x <= 0) thrown
    else if (thrown) false
    else if (not(log2Fits(F, x))) true
    // (2.5 + 0.31 |y|) units, y = ln x / ln 10
    else iabs(r * LN10 - y * one(F)) <= (5 * LN10) / 2 + (31 * iabs(y)) / 100
  }

  // ---- exponential, at the scale 2^(f+8)
  pure def expAt(F: Fmt, y: int): int =
    if (y < -64 * S1) 0 else if (y > 64 * S1) p2(100) else atScale(expR(y), F.frac + 8)
  // relative error 1.2e-6 + (2 + |x|/2) units and 6 units
  pure def expTol(F: Fmt, E: int, x: int): int =
    1536 + (E * (1351079888 + ((4 * one(F) + iabs(x)) * p2(50)) / p2(2 * F.frac + 1))) / p2(50)
  pure def expFits(F: Fmt, E: int, x: int): bool =
    E < p2(75) and E + expTol(F, E, x) <= hi(F) * 256
  pure def expOk(F: Fmt, x: int, r: int): bool = {
    val E = if (iabs(x) > 64 * one(F)) (if (x < 0) 0 else p2(100)) else expAt(F, up(x, F.frac))
    if (x == 0) r == one(F)
    else if (x < -64 * one(F)) iabs(r) <= 3
    else if (not(expFits(F, E, x))) true
    else iabs(r * 256 - E) <= expTol(F, E, x)
  }

  // ---- powers, at the scale 2^(f+8)
  // the magnitude of b^e for b > 0, from l = ln b
  pure def intPow(b: int, n: int, lim: int): int =
    range(0, 64).foldl(1, (p, i) => if (i < n and p <= lim) p * b else p)
  // error of an integer power of magnitude R: 3 + 2 log2 |e| + 2 |e| R / b^2 units, or,
  // where the base is inverted first, 3 + 2 log2 |e| + 2 |e| R |b| units
  pure def powTol(F: Fmt, b: int, e: int, R: int): int = {
    val a = iabs(b)
    val w = if (R >= p2(75) or a == 0) p2(75) else if (e < 0 and a < one(F)) (R * a) / one(F) else (((R * one(F)) / a) * one(F)) / a
    256 * (3 + 2 * bitlen(iabs(e))) + (2 * iabs(e) * imin(w, p2(90))) / one(F)
      + (imin(R, p2(90)) * (iabs(e) + 4)) / p2(55)      // the reference itself
  }
  pure def powMag(F: Fmt, b: int, e: int): int = {
    val l = lnR(iabs(b), F.frac)
    if (bitlen(iabs(l)) + bitlen(iabs(e)) > 120) (if ((l > 0) == (e > 0)) p2(100) else 0)
    else expAt(F, l * e)
  }
  pure def powIOk(F: Fmt, b: int, e: int, r: int): bool =
    if (b == 0) { if (e == 0) r == one(F) else if (e > 0) r == 0 else true }
    else if (e == 0) r == one(F)
    else if (e == 1) r == b
    else if (iabs(b) == one(F)) r == (if (b < 0 and fmod(e, 2) == 1) -one(F) else one(F))
    // beyond 2^20 only powers that vanish are judged
    else if (iabs(e) > p2(20)) powMag(F, b, e) != 0 or iabs(r) <= 3 + 2 * bitlen(iabs(e))
    else {
      val R = powMag(F, b, e)
      val neg = b < 0 and fmod(e, 2) == 1
      if (R >= p2(75) or R + powTol(F, b, e, R) > hi(F) * 256) true
      else if (e > 1 and fmod(b, one(F)) == 0) {
        // a power of an integer is exact
        val z = intPow(iabs(b) / one(F), e, p2(60))
        r == (if (neg) -z else z) * one(F)
      }
      else iabs((if (neg) -r else r) * 256 - R) <= powTol(F, b, e, R)
    }
  // a positive base to a non-integer exponent is b^n * exp(g ln b), n the whole part of the exponent
  pure def powFDom(F: Fmt, b: int, e: int): bool =
    log2Fits(F, b) and iabs(tdiv(e, one(F))) <= p2(20) and bitlen(iabs(lnR(b, F.frac))) + bitlen(iabs(e)) <= 120
  pure def powFTol(F: Fmt, b: int, e: int): int = {
    val l = lnR(b, F.frac)
    val n = tdiv(e, one(F))
    val g = e - n * one(F)
    val R = expAt(F, fdiv(l * e, one(F)))
    val R1 = powMag(F, b, n)
    val E2 = expAt(F, fdiv(l * g, one(F)))
    val ab = iabs(l) / p2(60 - F.frac)        // |ln b|, raw
    if (R >= p2(66) or R1 >= p2(66) or E2 >= p2(66)) p2(80)
    else expTol(F, R, 3 * ab + 10 * one(F)) + 3 * (R1 / one(F)) * 256
      + (if (n == 0) 0 else ((E2 / 256 + 1) * powTol(F, b, n, R1)) / one(F)) + 512
  }
  pure def powFFits(F: Fmt, b: int, e: int): bool =
    if (not(powFDom(F, b, e))) false
    else imin(expAt(F, fdiv(lnR(b, F.frac) * e, one(F))), p2(80)) + powFTol(F, b, e) <= hi(F) * 256
  pure def powFOk(F: Fmt, b: int, e: int, thrown: bool, r: int): bool =
    if (fmod(e, one(F)) == 0) not(thrown) and powIOk(F, b, fdiv(e, one(F)), r)
    else if (b == 0) not(thrown) and (e > 0 implies r == 0)
    else if (b < 0) thrown
    else if (thrown) false
    else if (b == one(F)) iabs(r - one(F)) <= 6 + one(F) / 400000
    else if (not(powFFits(F, b, e))) true
    else iabs(r * 256 - expAt(F, fdiv(lnR(b, F.frac) * e, one(F)))) <= powFTol(F, b, e)

  // ---- remainder of floored division: a - n b, n the quotient rounded down
  pure def fmodDef(F: Fmt, a: int, b: int): bool = b != 0 and fits(F, divX(F, a, b)) and fits(F, fdiv(iabs(a) * one(F), iabs(b)) + one(F))
  pure def fmodOk(F: Fmt, a: int, b: int, r: int): bool = if (not(fmodDef(F, a, b))) true else {
    val n = fdiv(if (b > 0) a else -a, iabs(b))
    r == a - n * b
  }
  // ---- degrees, radians
  pure def degOk(F: Fmt, x: int, r: int): bool =
    if (180 * one(F) > hi(F) or iabs(x) > hi(F) / 58) true
    else iabs(r * PI - x * 180 * S1) <= (182 + (iabs(x) * 58) / (3 * one(F))) * PI
  pure def radOk(F: Fmt, x: int, r: int): bool =
    if (180 * one(F) > hi(F)) true
    else iabs(r * (180 * p2(50)) - x * (PI / 1024)) <= (43 * 18 * p2(50)) + (iabs(x) / (3 * one(F)) + 1) * (PI / 1024)
}
