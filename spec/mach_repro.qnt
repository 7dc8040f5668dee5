// Several builds of the library (compilers, options, compile time) evaluate
// the same cases in any order; whoever evaluates a case first fixes its result.
module mach_repro {
  import num.* from "./num"
  import core.* from "./core"
  import repro.* from "./repro"

  var case: List[int]                 // [op, format, a, b]
  var memo: List[int] -> int          // the results fixed so far (abstract)
  var got: List[int]                  // what the builds returned for the current case
  var ev: { op: str, a: List[int], r: List[int] }

  pure def near(F: Fmt): Set[int] =
    Set(0, 1, -1, 2, 3, -3, one(F), -one(F), one(F) + 1, one(F) - 1, one(F) / 2, -(one(F) / 2), 3 * one(F) / 2, -(3 * one(F) / 2), 2 * one(F), 5 * one(F), 10 * one(F), 7 * one(F), hi(F), hi(F) - 1, lo(F), lo(F) + 1, hi(F) / 2, 10 * one(F) / 3, 355 * one(F) / 113)
      .filter(x => fits(F, x))

  action init = all { case' = [0, 6, 0, 0], memo' = Map(), got' = [], ev' = { op: "case", a: [0, 6, 0, 0], r: [] } }
  action choose: bool = {
    nondet k = oneOf(OPS.indices())
    nondet g = oneOf(RF.indices())
    val op = OPS[k]
    val F = FMTS[RF[g]]
    nondet w = oneOf(0.to(3))
    nondet x1 = oneOf(near(F))
    nondet y1 = oneOf(near(F))
    nondet sz = oneOf(1.to(F.bits - 1))
    nondet x2 = oneOf((-(2^sz)).to(2^sz - 1))
    nondet sy = oneOf(1.to(F.bits - 1))
    nondet y2 = oneOf((-(2^sy)).to(2^sy - 1))
    nondet y3 = oneOf((-9).to(9))
    val a0 = if (w == 0) x1 else x2
    val a = if (op >= 43) iabs(a0) else if (op == 13) tmod(a0, p2(53)) else a0
    val b = if (op == 13) -(fmod(y2, 50)) else if (op == 10 or op == 42 or op >= 43) fmod(y2, 6) else if (op == 32 or op == 15 or op == 16) y3 else if (w <= 1) y1 else y2
    nondet r = oneOf(0.to(1000000))
    val c = if (defined(op, F, a, b)) [op, RF[g], a, b] else [0, RF[g], 0, 0]
    all { case' = c, got' = [], memo' = if (memo.keys().contains(c)) memo else memo.put(c, r), ev' = { op: "case", a: c.append(if (throws(c[0], F, a, b)) 1 else 0), r: [] } }
  }
  action evaluate: bool = {
    nondet build = oneOf(0.to(11))
    all { case' = case, memo' = if (memo.keys().contains(case)) memo else memo.put(case, 0),
          got' = got.append(if (memo.keys().contains(case)) memo.get(case) else 0), ev' = { op: "eval", a: [build], r: [] } }
  }
  action step = any { choose, choose, evaluate, evaluate }
  val inv = and { agree(got), memo.keys().forall(c => defined(c[0], FMTS[c[1]], c[2], c[3])) }
}
