// Tables, generators of constants, and the measurement of errors.
module tables {
  import num.* from "./num"
  import core.* from "./core"
  import hp.* from "./hp"
  import consts.* from "./consts"
  pure val D = { bits: 64, frac: 32, sgd: true, rnd: false }

  // interpolation between n table entries over a half turn: (pi/n)^2 / 8, the entries and their positions
  // (n units), and the rounding of pi (|x|/3 units)
  pure def lutTol(n: int, x: int): int = imin(p2(62), (5 * S1) / (4 * n * n) + (n + 8) * p2(28) + iabs(x) / 48)
  pure def lutOk(n: int, x: int, r: int): bool =
    iabs(r) <= p2(32) + n + 8 and iabs(up(r, 32) - sinR(x, 32)) <= lutTol(n, x)

  // entry i of n angles of a half turn
  pure def angleOk(n: int, i: int, r: int): bool = {
    val d = (PI * i) / (n * p2(28)) - r
    -1 <= d and d <= i + 1
  }
  // a table of a function: the function at those angles, in this order
  pure def tableOk(angles: List[int], calls: List[int], images: List[int], table: List[int]): bool =
    calls == angles and table == images

  // m * 2^e as a raw value of f fraction bits, rounded down
  pure def evalDef(f: int, m: int, e: int, bits: int): bool = {
    val s = imax(-120, imin(64, e + f))
    0 <= m and m < p2(53) and 0 < f and f < bits and bitlen(m) + s < bits
  }
  pure def evalX(f: int, m: int, e: int): int =
    if (e + f >= 0) m * p2(e + f) else m / p2(imin(120, -(e + f)))
  pure def evalOk(f: int, m: int, e: int, r: int): bool = r == evalX(f, m, e)

  // a printed constant: the k-th one (log2 e, log10 e, 1/pi, 1/sqrt(pi), ln 2, ln 10, ...), given to p fraction bits when f are
  // asked for, within one of these bits and the precision of a floating-point number
  pure def printedOk(k: int, f: int, p: int, v: int): bool =
    p == f and 0 < f and f <= 62 and 0 <= v and v < p2(f + 3) and iabs(v * p2(100 - f) - CONSTS[k + 2]) <= p2(100 - f) + p2(49)

  // the first n terms of pi = sum 16^-k (4/(8k+1) - 2/(8k+4) - 1/(8k+5) - 1/(8k+6)), rounded to f <= 60 bits
  pure def seriesOk(f: int, n: int, r: int): bool =
    iabs(r * p2(60 - f) - PI) <= (4 * n + 1) * p2(60 - f) + (if (n >= 15) 0 else p2(60 - 4 * n))

  // extremes of the differences: [greatest, least, where the greatest and the least appear first]
  pure def scan(xs: List[int], es: List[int], top: int): List[int] =
    range(0, xs.length()).foldl([0, top, 0, 0], (s, i) => {
      val g = if (es[i] > s[0]) [es[i], s[1], xs[i], s[3]] else s
      if (es[i] < g[1]) [g[0], es[i], g[2], xs[i]] else g
    })
  pure def extremesOk(xs: List[int], es: List[int], top: int, r: List[int]): bool = r == scan(xs, es, top)
}
