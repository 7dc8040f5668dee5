// Two objects of a small format under every form of every operator: the whole
// reachable state space, with what must hold of each possible next step.
module small_arith {
  import num.* from "./num"
  import core.* from "./core"
  import arith.* from "./arith"
  pure val SF: List[Fmt] = [fm(3, 1, true, false), fm(3, 1, false, false), fm(3, 2, true, true), fm(4, 2, true, false)]
  var fi: int
  var regs: List[int]
  action init = { nondet f = oneOf(SF.indices()) all { fi' = f, regs' = [0, 0] } }
  action load = {
    nondet k = oneOf(0.to(1))
    nondet n = oneOf((-8).to(15))
    all { fits(SF[fi], n), fi' = fi, regs' = regs.replaceAt(k, n) }
  }
  action exec = {
    nondet form = oneOf(1.to(17))
    nondet op = oneOf(0.to(4))
    nondet i = oneOf(0.to(1))
    nondet k = oneOf(0.to(1))
    val s = stepX(SF[fi], form, op, regs, i, 1 - i, k, 3)
    all { s.ok, fi' = fi, regs' = s.regs }
  }
  action step = any { load, exec }
  pure def stepLaws(F: Fmt, regs0: List[int], form: int, op: int, i: int, j: int, k: int, n: int): bool = {
    val s = stepX(F, form, op, regs0, i, j, k, n)
    s.ok implies and {
      0.to(1).forall(r => fits(F, s.regs[r])),
      // only checked division throws, exactly for a zero divisor, and then nothing changes
      s.thr implies (s.regs == regs0 and (form == 3 or form == 4 or form == 13 or form == 14)),
      (form == 3 or form == 4) implies s.thr == (regs0[j] == 0),
      (form == 13 or form == 14) implies s.thr == (n == 0),
      // objects that are not written keep their value
      0.to(1).forall(r => (r != i and r != k) implies s.regs[r] == regs0[r]),
      // the operators and their compound forms agree; the integer forms agree with the converted integer
      form == 1 implies {
        val t = stepX(F, 2, op, regs0, i, j, k, n)
        t.ok and t.regs[i] == s.regs[k]
      },
      (form == 10 and op != 2 and op != 3) implies (fits(F, n * one(F)) and s.regs[k] == binX(F, op, regs0[i], n * one(F))),
      (form == 10 and op == 2 and fits(F, n * one(F))) implies s.regs[k] == mulX(F, regs0[i], n * one(F)),
      (form == 10 and op == 3 and fits(F, n * one(F)) and not(F.rnd)) implies s.regs[k] == divX(F, regs0[i], n * one(F)),
      // what ++ does -- undoes
      form == 6 implies stepX(F, 8, op, s.regs, i, j, k, n).regs[i] == regs0[i],
      form == 8 implies stepX(F, 6, op, s.regs, i, j, k, n).regs[i] == regs0[i],
    }
  }
  pure def laws(F: Fmt, a: int, b: int): bool = and {
    mulX(F, a, one(F)) == a, divX(F, a, one(F)) == a, mulX(F, a, b) == mulX(F, b, a), mulX(F, a, 0) == 0,
    iabs(mulX(F, a, b) * one(F) - a * b) < one(F),
    F.rnd implies (2 * iabs(mulX(F, a, b) * one(F) - a * b) <= one(F) and mulX(F, -a, b) == -mulX(F, a, b)),
    b != 0 implies and {
      iabs(divX(F, a, b) * b - a * one(F)) < iabs(b),
      F.rnd implies 2 * iabs(divX(F, a, b) * b - a * one(F)) <= iabs(b),
      divX(F, -a, b) == -divX(F, a, b), divX(F, a, -b) == -divX(F, a, b),
      iabs(remX(a, b)) < iabs(b), (remX(a, b) == 0 or sgn(remX(a, b)) == sgn(a)),
      tdiv(a, b) * b + remX(a, b) == a,
      b > 0 implies divX(F, mulX(F, a, b), b) <= a + (p2(F.frac) / b) + 1,
    },
    // order is kept
    lo(F).to(hi(F)).forall(c => a <= c implies and {
      b >= 0 implies mulX(F, a, b) <= mulX(F, c, b),
      b > 0 implies divX(F, a, b) <= divX(F, c, b),
    }),
  }
  val inv = and {
    laws(SF[fi], regs[0], regs[1]),
    0.to(17).forall(form => 0.to(4).forall(op => 0.to(1).forall(i => 0.to(1).forall(j => 0.to(1).forall(k =>
      (if (form == 0 or (form >= 10 and form <= 15)) Set(-9, -2, -1, 0, 1, 2, 3, 5, 16) else Set(1)).forall(n => stepLaws(SF[fi], regs, form, op, i, j, k, n))))))),
  }
}
