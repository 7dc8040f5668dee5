// The random engines (counter-based permuted congruential generator), the
// adapters that turn engines and integer distributions into ones of numbers.
module rng {
  import num.* from "./num"
  import core.* from "./core"

  // parameters of an engine: word width, initial state, multiplier, increment, two more multipliers
  type Eng = { n: int, init: int, mult: int, inc: int, mixm: int, xorm: int }
  pure val ENGS: List[Eng] = [
    { n: 32, init: 0, mult: 0xB5297A4D, inc: 0x68E31DA4, mixm: 0x1B56C4E9, xorm: 0x92D68CA2 },
    { n: 64, init: 0, mult: 0x5851F42D4C957F2D, inc: 0x9E3779B97F4A7C15, mixm: 0x94D049BB133111EB, xorm: 0xBF58476D1CE4E5B9 },
    { n: 32, init: 12345, mult: 3, inc: 7, mixm: 0x10001, xorm: 0x9E3779B1 },
    { n: 64, init: 0xFFFFFFFFFFFFFFF0, mult: 0xD1342543DE82EF95, inc: 1, mixm: 0xC2B2AE3D27D4EB4F, xorm: 0x165667B19E3779F9 } ]
  pure val DEFAULT_SEED = 0x89ABCD

  // a * b modulo 2^n, n <= 64
  pure def mulM(a: int, b: int, n: int): int =
    (((((a / p2(32)) * b) % p2(32)) * p2(32)) + (a % p2(32)) * b) % p2(n)
  pure def xorX(a: int, b: int): int =
    range(0, 64).foldl({ r: 0, a: a, b: b, p: 1 }, (s, i) =>
      { r: s.r + (if (s.a % 2 != s.b % 2) s.p else 0), a: s.a / 2, b: s.b / 2, p: s.p * 2 }).r
  // shift right by the low bits of x exclusive-or 8
  pure def permute(n: int, x: int): int = x / p2(xorX(8, x % n))
  // the output at position st of the stream of seed
  pure def outX(E: Eng, seed: int, st: int): int = {
    val v0 = (mulM(st, E.mult, E.n) + seed) % p2(E.n)
    val v1 = (permute(E.n, v0) + E.inc) % p2(E.n)
    val v2 = mulM(xorX((v1 * 256) % p2(E.n), v1), E.xorm, E.n)
    val v3 = mulM(permute(E.n, v2), E.mixm, E.n)
    xorX(v3 % p2(31) - v3 % 2, v3 / 256)
  }
  // engine state: seed and position
  type Es = { seed: int, st: int }
  pure def advX(E: Eng, e: Es, z: int): Es = { seed: e.seed, st: (e.st + z) % p2(E.n) }
  pure def fresh(E: Eng, seed: int): Es = { seed: seed % p2(E.n), st: E.init }

  pure def outOk(k: int, seed: int, st: int, r: int): bool = r == outX(ENGS[k], seed, st)
  // engines compare equal exactly when seed and position agree
  pure def eqOk(s1: int, q1: int, s2: int, q2: int, same: bool): bool = same == (s1 == s2 and q1 == q2)

  // the engine adapter: the low bits of the output as the raw value
  pure def adaptX(F: Fmt, u: int): int = if (F.sgd) wrapS(u, F.bits) else wrapU(u, F.bits)
  pure def adaptOk(F: Fmt, u: int, r: int): bool = r == adaptX(F, u)
  // a draw: within the bounds, and what the underlying distribution draws for the raw bounds
  pure def drawOk(a: int, b: int, under: int, r: int): bool = a <= r and r <= b and r == under
  pure def boundsOk(a: int, b: int, r: List[int]): bool = r == [a, b, a, b, a, b]
  // parameters are equal iff both bounds are: [==, !=]
  pure def sameOk(a: int, b: int, c: int, d: int, r: List[int]): bool =
    r == (if (a == c and b == d) [1, 0] else [0, 1])
}
