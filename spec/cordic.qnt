// The CORDIC sine: 32 units and |x|/6 units (the rounding of pi).
module cordic {
  import num.* from "./num"
  import core.* from "./core"
  import hp.* from "./hp"
  pure def cordicTol(F: Fmt, x: int): int =
    imin(32 * p2(60 - F.frac) + (iabs(x) * p2(60 - F.frac)) / (6 * one(F)), p2(62))
  pure def cordicOk(F: Fmt, x: int, r: int): bool = and {
    iabs(r) <= one(F) + 32,
    iabs(up(r, F.frac) - sinR(x, F.frac)) <= cordicTol(F, x)
  }
}
