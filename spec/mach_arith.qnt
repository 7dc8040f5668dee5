// A register machine over the arithmetic of one number format: behaviours of
// four fixed-point objects under the operators, with every kind of aliasing.
module mach_arith {
  import num.* from "./num"
  import core.* from "./core"
  import arith.* from "./arith"

  var fi: int             // format, fixed along a behaviour
  var regs: List[int]
  var ev: { op: str, a: List[int], r: List[int] }
  var prev: List[int]     // contents before the last step
  var threw: bool

  pure def near(F: Fmt): Set[int] =
    Set(0, 1, -1, 2, 3, -3, one(F), -one(F), one(F) + 1, one(F) - 1, 3 * one(F) / 2, -3 * one(F), 5 * one(F),
        hi(F), hi(F) - 1, lo(F), lo(F) + 1, hi(F) / 2, lo(F) + p2(F.bits - 2), 10 * one(F) / 3).filter(v => fits(F, v))
  pure def nearN(t: int): Set[int] =
    Set(0, 1, -1, 2, 3, -2, 5, 7, 10, -13, 100, 127, -128, 255, 1000, -1000, tyLo(t), tyHi(t), tyHi(t) - 1)
      .filter(v => tyLo(t) <= v and v <= tyHi(t))

  action init = {
    nondet f = oneOf(0.to(FMTS.length() - 1))
    all { fi' = f, regs' = [0, 0, 0, 0], prev' = [0, 0, 0, 0], threw' = false,
          ev' = { op: "init", a: [f], r: [0, 0, 0, 0, 0] } }
  }
  action load(k: int, n: int): bool = {
    val r = regs.replaceAt(k, n)
    all { fi' = fi, regs' = r, prev' = regs, threw' = false, ev' = { op: "load", a: [k, n], r: [0].concat(r) } }
  }
  // a step that is not defined in the current state loads a value instead
  action exec(form: int, op: int, i: int, j: int, k: int, t: int, n: int, v: int): bool = {
    val s = stepX(FMTS[fi], form, op, regs, i, j, k, n)
    if (form == 0 or not(s.ok)) load(k, v)
    else all { fi' = fi, regs' = s.regs, prev' = regs, threw' = s.thr,
      ev' = { op: "exec", a: [form, op, i, j, k, t, n], r: [if (s.thr) 1 else 0].concat(s.regs) } }
  }
  action go(forms: Set[int], ops: Set[int]): bool = {
    nondet form = oneOf(forms)
    nondet op = oneOf(ops)
    nondet i = oneOf(0.to(3))
    nondet j = oneOf(0.to(3))
    nondet k = oneOf(0.to(3))
    nondet t = oneOf(0.to(9))
    nondet n = oneOf(nearN(t))
    nondet w = oneOf(0.to(3))
    nondet v1 = oneOf(near(FMTS[fi]))
    nondet sz = oneOf(1.to(FMTS[fi].bits - 1))
    nondet v2 = oneOf((-(2^sz)).to(2^sz - 1))
    exec(form, op, i, j, k, t, n, if (w == 0 or not(fits(FMTS[fi], v2))) v1 else v2)
  }
  action stepAddSub = go(Set(0, 1, 2, 5, 6, 7, 8, 9, 16, 17), Set(0, 1))
  action stepMul = go(Set(0, 1, 2, 17), Set(2))
  action stepDiv = go(Set(0, 1, 2, 3, 4, 17), Set(3, 4))
  action stepMix = go(Set(0, 10, 11, 12, 13, 14, 15), Set(0, 1, 2, 3, 4))
  action step = go(0.to(17), Set(0, 1, 2, 3, 4))

  // ---- properties of the specification itself
  val inRange = regs.indices().forall(i => fits(FMTS[fi], regs[i]))
  // an exception leaves every object as it was, and only division throws
  val throwKeeps = threw implies (regs == prev and ev.op == "exec" and Set(3, 4, 13, 14).contains(ev.a[0]))
  // at most two objects change per step (a++ assigned to another object)
  val frame = regs.indices().filter(i => regs[i] != prev[i]).size() <= 2
  // multiplication and division by one are exact, and a product is within one unit of a*b
  val mulLaw = 0.to(0).forall(i => 0.to(1).forall(j => {
    val F = FMTS[fi]
    and {
      mulX(F, prev[i], one(F)) == prev[i],
      divX(F, prev[i], one(F)) == prev[i],
      mulX(F, prev[i], prev[j]) == mulX(F, prev[j], prev[i]),
      iabs(mulX(F, prev[i], prev[j]) * one(F) - prev[i] * prev[j]) < one(F),
      prev[j] != 0 implies iabs(divX(F, prev[i], prev[j]) * prev[j] - prev[i] * one(F)) < iabs(prev[j]),
      prev[j] != 0 implies (tdiv(prev[i], prev[j]) * prev[j] + remX(prev[i], prev[j]) == prev[i] and iabs(remX(prev[i], prev[j])) < iabs(prev[j]))
    }
  }))
  val inv = inRange and throwKeeps and frame and mulLaw
}
