// Mathematical constants and the limits of the formats.
module consts {
  import num.* from "./num"
  import core.* from "./core"

  // pi, e, log2(e), log10(e), 1/pi, 1/sqrt(pi), ln 2, ln 10, sqrt 2, sqrt 3, 1/sqrt 3, Euler's gamma, golden ratio,
  // pi/2, pi/4, 2 pi: rounded down at the scale 2^100 (certified in consts_cert.qnt)
  pure val CONSTS: List[int] = [
    3982441812995697363688351113952, 3445831591435597602840181573641, 1828833234529184422442202814989, 550533660660465090951150130557,
    403505718279461629863464189583, 715195264226828036787283732470, 878668439483319573618263538048, 2918873375210475425442079017696,
    1792728671193156477399422023278, 2195635245840476761639769790215, 731878415280158920546589930071, 731707784073564657402559854608,
    2051101757028480383117165331973,
    1991220906497848681844175556976, 995610453248924340922087778488, 7964883625991394727376702227904 ]

  // the constant in a format of up to 48 (rounding: 44) fraction bits: rounded towards zero, or to nearest
  pure def constX(F: Fmt, k: int): int =
    if (F.rnd) (CONSTS[k] / p2(99 - F.frac) + 1) / 2 else CONSTS[k] / p2(100 - F.frac)
  pure def constOk(F: Fmt, k: int, r: int): bool =
    if (not(fits(F, constX(F, k)))) true
    else if (F.frac <= (if (F.rnd) 44 else 48)) r == constX(F, k)
    // finer formats: within 2^-52 and one unit
    else iabs(r - constX(F, k)) <= 1 + p2(imax(0, F.frac - 52))
  // the tolerance 5 * 2^-16
  pure def epsOk(F: Fmt, r: int): bool =
    if (F.frac >= 16) r == 5 * p2(F.frac - 16)
    else r == (if (F.rnd) rdiv(5, p2(16 - F.frac)) else 5 / p2(16 - F.frac))
  // [max, min, lowest, is_signed, fraction bits, sign bit mask as unsigned]
  pure def limitsX(F: Fmt): List[int] = [hi(F), lo(F), lo(F), if (F.sgd) 1 else 0, F.frac]
  pure def limitsOk(F: Fmt, r: List[int]): bool = r == limitsX(F)
  // the numbers of std::numeric_limits, themselves of the format: radix, digits, digits10 (log10 2 = 643 / 2136)
  pure def digitsOf(F: Fmt): int = if (F.sgd) F.bits - 1 else F.bits
  pure def infoX(F: Fmt): List[int] = [2, digitsOf(F), (digitsOf(F) * 643) / 2136, 0, 0, 0]
  // then whether it is specialized, bounded, exact, and whether it is an integer, modulo, has infinities or NaNs
  pure def flagsX: List[int] = [1, 1, 1, 0, 0, 0, 0, 0]
  pure def infoOk(F: Fmt, flags: List[int], r: List[int]): bool = {
    val x = infoX(F)
    flags == flagsX and range(0, 6).foldl(true, (ok, i) => ok and (not(fits(F, x[i] * one(F))) or r[i] == x[i] * one(F)))
  }
}
