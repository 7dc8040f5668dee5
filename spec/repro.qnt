// Reproducibility: an evaluation is a function of its operands alone.
module repro {
  import num.* from "./num"
  import core.* from "./core"
  import hp.* from "./hp"
  import fmath.* from "./fmath"

  // formats the builds evaluate, as indices of FMTS
  pure val RF: List[int] = [4, 6, 8, 11, 17, 18]
  pure val OPS: List[int] = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 40, 41, 42, 43, 44]

  pure def i64(x: int): bool = -p2(63) <= x and x < p2(63)
  // where an operation has a result (or a defined exception)
  pure def defined(op: int, F: Fmt, a: int, b: int): bool =
    if (op >= 43) 0 <= a and 0 <= b and b < 1000
    else if (op == 13) iabs(a) < p2(53) and -60 <= b and b <= 10 and fits(F, fromRealX(F, a, b))
    else if (not(fits(F, a))) false
    else if (op == 0) fits(F, b) and fits(F, a + b)
    else if (op == 1) fits(F, b) and fits(F, a - b)
    else if (op == 2) fits(F, b) and fits(F, mulX(F, a, b))
    else if (op == 3) fits(F, b) and b != 0 and fits(F, divX(F, a, b))
    else if (op == 4) fits(F, b) and b != 0 and b != -1
    else if (op == 5) fits(F, b)
    else if (op <= 8) true
    else if (op == 9) fits(F, roundX(F, a))
    else if (op == 10) 0 <= b and b < 6 and fits(FMTS[RF[b]], convX(F, FMTS[RF[b]], a))
    else if (op <= 14) true
    else if (op == 15) fits(F, b * one(F)) and iabs(b) < p2(31) and fits(F, a * b)
    else if (op == 16) b != 0 and iabs(b) < p2(31) and fits(F, b * one(F)) and fits(F, tdiv(a, b))
    else if (op == 24) iabs(cosR(a, F.frac)) > trigTol(F, a, 6) + 2 * unit(F) and (iabs(sinR(a, F.frac)) + trigTol(F, a, 6)) * one(F) <= (iabs(cosR(a, F.frac)) - trigTol(F, a, 6)) * hi(F)
    else if (op <= 27) true
    else if (op <= 30) a <= 0 or log2Fits(F, a)
    else if (op == 31) a == 0 or a < -64 * one(F) or (iabs(a) <= 64 * one(F) and expFits(F, expAt(F, up(a, F.frac)), a))
    else if (op == 32) iabs(b) <= 1000 and (if (a == 0) b >= 0 else { val R = powMag(F, a, b) R < p2(75) and R + powTol(F, a, b, R) <= hi(F) * 256 })
    else if (op == 33) fits(F, b) and fmod(b, one(F)) != 0 and (a < 0 or (a > 0 and powFFits(F, a, b)))
    else if (op == 34) fits(F, b) and fmodDef(F, a, b)
    else if (op == 35) 180 * one(F) <= hi(F) and iabs(a) <= hi(F) / 58
    else if (op == 36) 180 * one(F) <= hi(F)
    else if (op == 37) fits(F, b) and hypotDef(F, [a, b])
    else if (op == 42) 0 <= b and b < 8
    else true
  // a domain error is the defined result
  pure def throws(op: int, F: Fmt, a: int, b: int): bool =
    if (op == 26 or op == 27) iabs(a) > one(F)
    else if (op >= 28 and op <= 30) a <= 0
    else if (op == 33) a < 0
    else false
  // the results observed for one case, from every build
  pure def agree(rs: List[int]): bool = rs.foldl(true, (ok, r) => ok and r == rs[0])
}
