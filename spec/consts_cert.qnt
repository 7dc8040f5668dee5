// The constants of consts.qnt computed from series, with unbounded integers:
// each is the least integer below the true value times 2^100.
module consts_cert {
  import num.* from "./num"
  import consts.* from "./consts"
  pure val N = 160
  pure val W = 2^160
  pure def low(x: int): int = x / 2^60
  // the interval [x - 2^20, x + 2^20] at the scale 2^160 has one value at the scale 2^100
  pure def is(k: int, x: int): bool = low(x - 2^20) == CONSTS[k] and low(x + 2^20) == CONSTS[k]
  // atan(1/q), atanh(1/q), at the scale 2^160
  pure def at(q: int, alt: bool): int =
    range(0, 170).foldl({ t: W / q, s: 0 }, (a, i) => {
      val term = a.t / (2 * i + 1)
      { t: a.t / (q * q), s: if (alt and i % 2 == 1) a.s - term else a.s + term } }).s
  pure val PIw = 16 * at(5, true) - 4 * at(239, true)
  pure val LN2w = 2 * at(3, false)
  pure val LN10w = 3 * LN2w + 2 * at(9, false)          // 10 = 8 * 5/4
  pure val Ew = range(1, 60).foldl({ t: W, s: W }, (a, i) => { t: a.t / i, s: a.s + a.t / i }).s
  // x is the root of n (scaled by m): x^2 <= n * 2^200 < (x+1)^2
  pure def root(x: int, n: int): bool = x * x <= n * 2^200 and n * 2^200 < (x + 1) * (x + 1)
  // Euler's gamma = H(n) - ln n - 1/(2n) + sum B2k / (2k n^2k), n = 64
  pure val GAMMAw =
    range(1, 65).foldl(0, (s, i) => s + W / i) - 6 * LN2w - W / 128
    + W / (12 * 64^2) - W / (120 * 64^4) + W / (252 * 64^6) - W / (240 * 64^8) + W / (132 * 64^10)
    - (691 * W) / (32760 * 64^12) + W / (12 * 64^14) - (3617 * W) / (8160 * 64^16) + (43867 * W) / (14364 * 64^18)
    - (174611 * W) / (6600 * 64^20) + (854513 * W) / (3036 * 64^22)
  var x: int
  action init = x' = 0
  action step = x' = x
  run certTest = init.then(all {
    assert(is(0, PIw)), assert(is(1, Ew)), assert(is(2, (W * W) / LN2w)), assert(is(3, (W * W) / LN10w)), assert(is(4, (W * W) / PIw)),
    assert(is(6, LN2w)), assert(is(7, LN10w)), assert(is(11, GAMMAw)),
    assert(root(CONSTS[8], 2)), assert(root(CONSTS[9], 3)),
    // 1/sqrt(3): 3 x^2 <= 2^200; golden ratio: (2x - 1)^2 <= 5; 1/sqrt(pi): x^2 <= 2^200 / pi
    assert(3 * CONSTS[10] * CONSTS[10] <= 2^200 and 3 * (CONSTS[10] + 1) * (CONSTS[10] + 1) > 2^200),
    assert((2 * CONSTS[12] - 2^100) * (2 * CONSTS[12] - 2^100) <= 5 * 2^200 and (2 * CONSTS[12] + 2 - 2^100) * (2 * CONSTS[12] + 2 - 2^100) > 5 * 2^200),
    assert(CONSTS[5] * CONSTS[5] * (PIw + 2^20) <= 2^360 and (CONSTS[5] + 1) * (CONSTS[5] + 1) * (PIw - 2^20) > 2^360),
    assert(is(13, PIw / 2)), assert(is(14, PIw / 4)), assert(is(15, 2 * PIw)),
    x' = 0 })
}
