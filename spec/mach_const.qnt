// Reading constants and limits, in any order and any format: nothing changes them.
module mach_const {
  import num.* from "./num"
  import core.* from "./core"
  import consts.* from "./consts"
  var fi: int
  var ev: { op: str, a: List[int], r: List[int] }
  action init = { nondet f = oneOf(FMTS.indices()) all { fi' = f, ev' = { op: "init", a: [f], r: [] } } }
  action step = any {
    { nondet f = oneOf(FMTS.indices()) all { fi' = f, ev' = { op: "init", a: [f], r: [] } } },
    { nondet k = oneOf(CONSTS.indices())
      val F = FMTS[fi]
      all { fi' = fi, ev' = if (fits(F, constX(F, k))) { op: "const", a: [fi, k], r: [constX(F, k)] } else { op: "init", a: [fi], r: [] } } },
    all { fi' = fi, ev' = { op: "limits", a: [fi], r: limitsX(FMTS[fi]) } }
  }
  val inv = {
    val F = FMTS[fi]
    and {
      // the constants fit together: (1/pi) * pi, ln2 * log2e, sqrt2^2 at the scale 2^50
      iabs((CONSTS[0] / 2^50) * (CONSTS[4] / 2^50) - 2^100) <= 2^52,
      iabs((CONSTS[6] / 2^50) * (CONSTS[2] / 2^50) - 2^100) <= 2^52,
      CONSTS.indices().forall(k => constOk(F, k, constX(F, k))),
      lo(F) <= 0 and hi(F) > 0 and hi(F) - lo(F) == 2^F.bits - 1
    }
  }
}
