// Behaviours of a number that goes through the mathematical functions.  Each
// function may return any value its definition in fmath allows; `ev.r` is the
// interval of raw values [least, greatest] around the true result ([] when the
// function must throw), and the next number is some allowed value.
module mach_math {
  import num.* from "./num"
  import core.* from "./core"
  import hp.* from "./hp"
  import fmath.* from "./fmath"

  // signed formats with at least 8 fraction bits and 4 integer bits
  pure def suits(F: Fmt): bool = F.sgd and F.frac >= 8 and F.bits - F.frac >= 4
  pure val MF = FMTS.indices().filter(i => suits(FMTS[i]))

  var fi: int
  var v: int
  var ev: { op: str, a: List[int], r: List[int] }

  pure def near(F: Fmt): Set[int] =
    Set(0, 1, -1, 2, 3, -3, one(F), -one(F), one(F) + 1, one(F) - 1, one(F) / 2, -(one(F) / 2), -one(F) + 1, 3 * one(F) / 2, -(3 * one(F) / 2), 2 * one(F), 5 * one(F), 7 * one(F), hi(F), hi(F) - 1, lo(F), lo(F) + 1, hi(F) / 2, 10 * one(F) / 3, 355 * one(F) / 113, 355 * one(F) / 226, epsX(F), epsX(F) - 1)
      .filter(x => fits(F, x))

  action init = {
    nondet f = oneOf(MF)
    all { fi' = f, v' = 0, ev' = { op: "init", a: [f], r: [] } }
  }
  action load: bool = {
    nondet w = oneOf(0.to(2))
    nondet v1 = oneOf(near(FMTS[fi]))
    nondet sz = oneOf(1.to(FMTS[fi].bits - 1))
    nondet v2 = oneOf((-(2^sz)).to(2^sz - 1))
    val x = if (w == 0 or not(fits(FMTS[fi], v2))) v1 else v2
    all { fi' = fi, v' = x, ev' = { op: "set", a: [fi, x], r: [x, x] } }
  }
  // the result is about y (raw) with an error of up to t (raw)
  action result(op: str, a: List[int], y: int, t: int): bool = {
    val F = FMTS[fi]
    val l = imax(lo(F), y - t)
    val h = imin(hi(F), y + t)
    nondet d = oneOf(0.to(1000))
    val x = l + ((h - l) * d) / 1000
    if (l <= h) all { fi' = fi, v' = x, ev' = { op: op, a: a, r: [l, h] } } else load
  }
  action exactly(op: str, a: List[int], y: int): bool = result(op, a, y, 0)
  action throws(op: str, a: List[int]): bool = all { fi' = fi, v' = v, ev' = { op: op, a: a, r: [] } }
  // from the scale 2^60 to the raw scale, to nearest
  pure def toRaw(F: Fmt, y: int): int = fdiv(y * one(F) + p2(59), S1)
  pure def tolRaw(F: Fmt, t: int): int = t / unit(F) + 1

  // ---- square root, cube root
  pure def rootTol(F: Fmt, x: int): int = {
    val y = isqrt(x * one(F))
    imax(y - isqrt(imax(0, x - epsX(F) - 1) * one(F)), isqrt((x + epsX(F) + 1) * one(F)) - y) + 2
  }
  action stepRoot = any {
    load,
    { val F = FMTS[fi]
      if (v < 0) exactly("sqrt", [fi, v], -one(F))
      else if (exactRoot(F)) exactly("sqrt", [fi, v], isqrt(v * one(F)))
      else result("sqrt", [fi, v], isqrt(v * one(F)), rootTol(F, v)) },
    { val F = FMTS[fi]
      nondet m = oneOf(Set(3, 5, 8, 7, 12))
      // v * (3, 4), (5, 12), (8, 15), ...
      val n = if (m == 3) 4 else if (m == 5) 12 else if (m == 8) 15 else if (m == 7) 24 else 35
      val w = v / m
      val z = w * n
      val s = fdiv(v * v, one(F)) + fdiv(z * z, one(F))
      if (v > 0 and fits(F, z) and hypotDef(F, [v, z])) result("hypot", [fi, v, z], isqrt(s * one(F)), rootTol(F, s) + 2 + one(F) / imax(1, isqrt(s * one(F)))) else load }
  }
  pure def icbrt(x: int): int =
    range(0, 48).foldl(0, (r, i) => { val b = r + p2(47 - i) if (b * b * b <= x) b else r })
  action stepCbrt = any {
    load,
    { val F = FMTS[fi]
      val a = iabs(v)
      val y = icbrt(a * one(F) * one(F))
      if (a < epsX(F) or v == 0) exactly("cbrt", [fi, v], 0)
      else result("cbrt", [fi, v], if (v < 0) -y else y, 3 + one(F) / (2 * y + 1)) }
  }
  // ---- circular functions
  action stepTrig = any {
    load,
    { val F = FMTS[fi] result("sin", [fi, v], toRaw(F, sinR(v, F.frac)), tolRaw(F, trigTol(F, v, 4))) },
    { val F = FMTS[fi] result("cos", [fi, v], toRaw(F, cosR(v, F.frac)), tolRaw(F, trigTol(F, v, 6))) },
    { val F = FMTS[fi]
      val c = cosR(v, F.frac)
      val s = sinR(v, F.frac)
      val e = trigTol(F, v, 6)
      val a = iabs(c) - e
      // far from the poles the tangent cannot throw
      if (a > 4 * e and a > S1 / 4) result("tan", [fi, v], rdiv(s * one(F), c), (e * (a + iabs(s)) * one(F)) / (a * a) + 3) else load }
  }
  // ---- arc functions: the reference is found by bisection
  pure def asinRef(x: int): int =
    range(0, 62).foldl(-(PI / 2), (y, i) => { val b = y + p2(61 - i) if (b <= PI / 2 and sinR(b, 60) <= x) b else y })
  pure def atanRef(x: int, f: int): int =
    range(0, 62).foldl(-(PI / 2), (y, i) => { val b = y + p2(61 - i) if (b < PI / 2 and sinR(b, 60) * p2(f) <= x * cosR(b, 60)) b else y })
  action stepArc = any {
    load,
    { val F = FMTS[fi]
      result("atan", [fi, v], toRaw(F, atanRef(v, F.frac)), tolRaw(F, atanTol(F, v)) + 1) },
    { val F = FMTS[fi]
      if (iabs(v) > one(F)) throws("asin", [fi, v])
      else result("asin", [fi, v], toRaw(F, asinRef(up(v, F.frac))), tolRaw(F, asinTol(F, v)) + 1) },
    { val F = FMTS[fi]
      if (iabs(v) > one(F)) throws("acos", [fi, v])
      else result("acos", [fi, v], toRaw(F, PI / 2 - asinRef(up(v, F.frac))), tolRaw(F, asinTol(F, v)) + 4) },
    // into the domain of asin and acos
    { val F = FMTS[fi] exactlyV(tmod(v, one(F) + 1)) }
  }
  action exactlyV(x: int): bool = all { fi' = fi, v' = x, ev' = { op: "set", a: [fi, x], r: [x, x] } }
  // ---- logarithms and exponentials
  action stepLog = any {
    load,
    exactlyV(iabs(v / 2)),
    { val F = FMTS[fi]
      if (v <= 0) throws("log2", [fi, v])
      else if (not(log2Fits(F, v))) load
      else if (isPow2(v)) exactly("log2", [fi, v], (bitlen(v) - 1 - F.frac) * one(F))
      else result("log2", [fi, v], fdiv(lnR(v, F.frac) * one(F), LN2), 5) },
    { val F = FMTS[fi]
      if (v <= 0) throws("log", [fi, v])
      else if (not(log2Fits(F, v))) load
      else { val y = lnR(v, F.frac) result("log", [fi, v], toRaw(F, y), 5 + (7 * iabs(y)) / (10 * S1)) } },
    { val F = FMTS[fi]
      if (v <= 0) throws("log10", [fi, v])
      else if (not(log2Fits(F, v))) load
      else { val y = fdiv(lnR(v, F.frac) * one(F), LN10) result("log10", [fi, v], y, 4 + (31 * iabs(y)) / (100 * one(F))) } }
  }
  action stepExp = any {
    load,
    exactlyV(tmod(v, 20 * one(FMTS[fi]))),
    { val F = FMTS[fi]
      val E = if (iabs(v) > 64 * one(F)) (if (v < 0) 0 else p2(100)) else expAt(F, up(v, F.frac))
      if (v == 0) exactly("exp", [fi, v], one(F))
      else if (not(expFits(F, E, v))) load
      else result("exp", [fi, v], E / 256, expTol(F, E, v) / 256 + 1) }
  }
  action stepPow = any {
    load,
    exactlyV(tmod(v, 20 * one(FMTS[fi]))),
    { val F = FMTS[fi]
      nondet e = oneOf((-12).to(12))
      val R = powMag(F, v, e)
      val z = if (v < 0 and fmod(e, 2) == 1) -1 else 1
      if (e == 0) exactly("powi", [fi, v, e], one(F))
      else if (v == 0) { if (e > 0) exactly("powi", [fi, v, e], 0) else load }
      else if (R >= p2(75) or R + powTol(F, v, e, R) > hi(F) * 256 or v == lo(F)) load
      else if (e > 0 and fmod(v, one(F)) == 0) exactly("powi", [fi, v, e], z * intPow(iabs(v) / one(F), e, p2(60)) * one(F))
      else result("powi", [fi, v, e], (z * R) / 256, powTol(F, v, e, R) / 256 + 1) },
    { val F = FMTS[fi]
      nondet e = oneOf(near(F))
      if (v == lo(F)) load
      else if (v < 0 and fmod(e, one(F)) != 0) throws("powf", [fi, v, e])
      else if (v <= 0 or fmod(e, one(F)) == 0 or iabs(e) > 8 * one(F) or not(log2Fits(F, v))) load
      else if (not(powFFits(F, v, e))) load
      else result("powf", [fi, v, e], expAt(F, fdiv(lnR(v, F.frac) * e, one(F))) / 256, powFTol(F, v, e) / 256 + 1) }
  }
  // ---- remainder, angles
  action stepMod = any {
    load,
    { val F = FMTS[fi]
      nondet b = oneOf(near(F))
      if (not(fmodDef(F, v, b))) load
      else { val n = fdiv(sgn(b) * v, iabs(b)) exactly("fmod", [fi, v, b], v - n * b) } },
    { val F = FMTS[fi]
      if (180 * one(F) > hi(F) or iabs(v) > hi(F) / 58) load
      else { val y = (iabs(v) * 180 * S1) / PI result("degrees", [fi, v], sgn(v) * y, 183 + y / (3 * one(F))) } },
    { val F = FMTS[fi]
      if (180 * one(F) > hi(F)) load
      else { val y = (iabs(v) * PI) / (180 * S1) result("radians", [fi, v], sgn(v) * y, 5 + y / (3 * one(F))) } }
  }
  // ---- the references obey the laws of the functions they stand for, and the
  // judges accept the true result and reject a result beyond their tolerance
  val F0 = FMTS[fi]
  val invRoot = and {
    fits(F0, v),
    { val x = iabs(v) * one(F0) val r = isqrt(x) r * r <= x and x < (r + 1) * (r + 1) },
    v < 0 or sqrtOk(F0, v, isqrt(v * one(F0))),
    v <= one(F0) or not(sqrtOk(F0, v, isqrt(v * one(F0)) + epsX(F0) + 3)),
    hypotOk(F0, [v, 0], iabs(v))
  }
  val invCbrt = and {
    fits(F0, v),
    { val a = iabs(v) val y = icbrt(a * one(F0) * one(F0))
      a < epsX(F0) or a == 0 or and {
        cbrtOk(F0, v, sgn(v) * y), not(cbrtOk(F0, v, sgn(v) * (y + 3 + one(F0) / y))), not(cbrtOk(F0, v, sgn(v) * imax(y - 3 - one(F0) / y, 0))), not(cbrtOk(F0, v, -sgn(v) * y)) } }
  }
  val invTrig = {
    val s = sinR(v, F0.frac)
    val c = cosR(v, F0.frac)
    val t = tolRaw(F0, trigTol(F0, v, 6)) + 1
    and {
      fits(F0, v),
      iabs(s * s + c * c - S1 * S1) <= 64 * S1,
      sinR(-v, F0.frac) == -s or iabs(sinR(-v, F0.frac) + s) <= 8,
      // double angle
      iabs(v) >= p2(45 + F0.frac) or iabs(sinR(2 * v, F0.frac) * S1 - 2 * s * c) <= p2(74),
      sinOk(F0, v, toRaw(F0, s)), cosOk(F0, v, toRaw(F0, c)),
      not(sinOk(F0, v, toRaw(F0, s) + t)), not(sinOk(F0, v, toRaw(F0, s) - t)),
      not(cosOk(F0, v, toRaw(F0, c) + t)), not(cosOk(F0, v, toRaw(F0, c) - t))
    }
  }
  val invArc = and {
    fits(F0, v),
    { val y = toRaw(F0, atanRef(v, F0.frac)) val t = tolRaw(F0, atanTol(F0, v)) + 2
      and { atanOk(F0, v, y), not(atanOk(F0, v, y + t)), not(atanOk(F0, v, y - t)) } },
    iabs(v) > one(F0) or { val y = toRaw(F0, asinRef(up(v, F0.frac))) val t = tolRaw(F0, asinTol(F0, v)) + 2
      and { asinOk(F0, v, false, y), not(asinOk(F0, v, true, y)), acosOk(F0, v, false, toRaw(F0, PI / 2) - y),
            not(asinOk(F0, v, false, y + t)) or 10 * iabs(v) > 9 * one(F0), not(asinOk(F0, v, false, y - t)) or 10 * iabs(v) > 9 * one(F0) } },
    iabs(v) <= one(F0) or not(asinOk(F0, v, false, 0)) and not(acosOk(F0, v, false, 0))
  }
  val invLog = and {
    fits(F0, v),
    v <= 0 or {
      val y = lnR(v, F0.frac)
      and {
        // ln(x^2) = 2 ln x where x^2 is exact, ln(2x) = ln x + ln 2
        v >= p2(62) or iabs(lnR(2 * v, F0.frac) - y - LN2) <= 8,
        bitlen(v) > 30 or iabs(lnR(v * v, 2 * F0.frac) - 2 * y) <= 64,
        not(log2Fits(F0, v)) or and {
          lnOk(F0, v, false, toRaw(F0, y)), not(lnOk(F0, v, false, toRaw(F0, y) + 6 + iabs(y) / S1)), not(lnOk(F0, v, false, toRaw(F0, y) - 6 - iabs(y) / S1)),
          log2Ok(F0, v, false, fdiv(y * one(F0) + LN2 / 2, LN2)), not(log2Ok(F0, v, false, fdiv(y * one(F0), LN2) + 6)),
          log10Ok(F0, v, false, fdiv(y * one(F0), LN10)), not(log10Ok(F0, v, false, fdiv(y * one(F0), LN10) + 5 + iabs(y) / (2 * S1))) }
      }
    },
    v > 0 or not(lnOk(F0, v, false, 0)) and not(log2Ok(F0, v, false, 0)) and lnOk(F0, v, true, 0)
  }
  val invExp = and {
    fits(F0, v),
    // exp and ln are inverse to each other
    v <= 0 or { val e = expR(lnR(v, F0.frac)) val w = F0.frac + e.k - 60
      // m * 2^k = v / 2^f
      iabs(e.m - (if (w >= 0) v / p2(w) else v * p2(-w))) <= 200 },
    iabs(v) > 40 * one(F0) or {
      val E = expAt(F0, up(v, F0.frac))
      not(expFits(F0, E, v)) or v == 0 or and { expOk(F0, v, rdiv(E, 256)), not(expOk(F0, v, rdiv(E, 256) + expTol(F0, E, v) / 256 + 2)) } }
  }
  val invPow = and {
    fits(F0, v),
    powIOk(F0, v, 0, one(F0)), powIOk(F0, v, 1, v), powIOk(F0, one(F0), 17, one(F0)), powIOk(F0, -one(F0), -3, -one(F0)),
    // squares and reciprocals
    not(fits(F0, mulX(F0, v, v) + 2)) or powIOk(F0, v, 2, mulX(F0, v, v)),
    v == 0 or v == lo(F0) or not(fits(F0, divX(F0, one(F0), v) + 2)) or powIOk(F0, v, -1, divX(F0, one(F0), v)),
    v <= one(F0) or not(fits(F0, mulX(F0, v, v) * 2)) or not(powIOk(F0, v, 2, mulX(F0, v, v) + 40 + 12 * (v / one(F0) + 1) * (v / one(F0) + 1)))
  }
  val invMod = and {
    fits(F0, v),
    v < 0 or v >= one(F0) or fmodOk(F0, v, one(F0), v),
    v <= 0 or v >= one(F0) or not(fmodOk(F0, v, one(F0), v - 1)),
    180 * one(F0) > hi(F0) or { val y = (iabs(v) * PI) / (180 * S1) and { radOk(F0, v, sgn(v) * y), not(radOk(F0, v, sgn(v) * y + 7 + y / (2 * one(F0)))) } }
  }
}
