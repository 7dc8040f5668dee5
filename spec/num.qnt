// Integer helpers.  Quint's `/` and `%` are only ever applied to a non-negative
// dividend and a positive divisor, so every back end agrees on them.
module num {
  pure def iabs(a: int): int = if (a < 0) -a else a
  pure def imin(a: int, b: int): int = if (a < b) a else b
  pure def imax(a: int, b: int): int = if (a > b) a else b
  pure def sgn(a: int): int = if (a < 0) -1 else if (a > 0) 1 else 0
  pure def p2(k: int): int = 2^k

  // floor(a / b), b > 0
  pure def fdiv(a: int, b: int): int = if (a >= 0) a / b else -((b - 1 - a) / b)
  pure def fmod(a: int, b: int): int = a - b * fdiv(a, b)
  // floor(a / 2^k)
  pure def fshr(a: int, k: int): int = fdiv(a, p2(k))
  // a / b rounded towards zero, b != 0
  pure def tdiv(a: int, b: int): int =
    if ((a < 0) == (b < 0)) iabs(a) / iabs(b) else -(iabs(a) / iabs(b))
  pure def tmod(a: int, b: int): int = a - b * tdiv(a, b)
  // a / b rounded to nearest, halves away from zero, b != 0
  pure def rdiv(a: int, b: int): int = {
    val q = (2 * iabs(a) + iabs(b)) / (2 * iabs(b))
    if ((a < 0) == (b < 0)) q else -q
  }
  // two's complement value of a in n bits
  pure def wrapS(a: int, n: int): int = {
    val m = fmod(a, p2(n))
    if (m >= p2(n - 1)) m - p2(n) else m
  }
  pure def wrapU(a: int, n: int): int = fmod(a, p2(n))
  // number of bits of a >= 0
  pure def bitlen(a: int): int =
    range(0, 130).foldl({ n: 0, v: a }, (s, i) =>
      if (s.v > 0) { n: s.n + 1, v: s.v / 2 } else s).n
}
