// A table is built, looked up, and a function is measured against another one.
module mach_tables {
  import num.* from "./num"
  import core.* from "./core"
  import hp.* from "./hp"
  import consts.* from "./consts"
  import tables.* from "./tables"
  var pos: int
  var grid: List[int]        // points measured so far
  var errs: List[int]        // differences found there
  var ext: List[int]         // extremes so far
  var ev: { op: str, a: List[int], r: List[int] }
  pure val TOP = 255 * 2^32
  action init = all { pos' = 0, grid' = [], errs' = [], ext' = [0, TOP, 0, 0], ev' = { op: "init", a: [], r: [] } }
  action look: bool = {
    nondet sz = oneOf(1.to(63))
    nondet w = oneOf(0.to(3))
    nondet x = oneOf((-(2^sz)).to(2^sz - 1))
    nondet k = oneOf((-2048).to(2048))
    nondet d = oneOf((-2).to(2))
    nondet n = oneOf(Set(64, 512))
    val y = if (w == 0) fdiv(k * HALFPI, n * p2(39)) + d else if (w == 1) fdiv(k * HALFPI, p2(40)) + d else x
    all { pos' = y, grid' = grid, errs' = errs, ext' = ext, ev' = { op: "sine", a: [n, y], r: [] } }
  }
  action gen: bool = {
    nondet f = oneOf(4.to(60))
    nondet m = oneOf(0.to(2^53 - 1))
    nondet e = oneOf((-60).to(4))
    val mm = if (evalDef(f, m, e, 64)) m else 3
    val ee = if (evalDef(f, m, e, 64)) e else -1
    all { pos' = pos, grid' = grid, errs' = errs, ext' = ext, ev' = { op: "eval", a: [f, mm, ee], r: [evalX(f, mm, ee)] } }
  }
  // the measured function differs by e at the next point of the grid
  action measure: bool = {
    nondet e = oneOf(0.to(40))
    nondet s = oneOf(Set(-1, 1))
    val x = grid.length() - 5
    val xs = grid.append(x)
    val es = errs.append(e)
    val g = if (e > ext[0]) [e, ext[1], x, ext[3]] else ext
    val l = if (e < g[1]) [g[0], e, g[2], x] else g
    all { grid.length() < 24, pos' = pos, grid' = xs, errs' = es, ext' = l, ev' = { op: "measure", a: es, r: l } }
  }
  action clear: bool = all { pos' = pos, grid' = [], errs' = [], ext' = [0, TOP, 0, 0], ev' = { op: "clear", a: [], r: [] } }
  action stepTab = any { look, look, gen }
  action stepMeas = any { measure, measure, measure, measure, measure, measure, measure, measure, clear }
  action step = any { stepTab, stepMeas }
  val inv = {
    val s = fdiv(sinR(pos, 32) + p2(27), p2(28))
    val t = lutTol(512, pos) / p2(28)
    and {
      lutOk(512, pos, s), not(lutOk(512, pos, s + t + 3)), not(lutOk(512, pos, s - t - 3)),
      ext == scan(grid, errs, TOP),
      grid.length() > 0 implies errs.foldl(true, (b, e) => b and ext[1] <= e and e <= ext[0]),
      printedOk(4, 61, 61, CONSTS[6] / p2(39)), not(printedOk(4, 61, 60, CONSTS[6] / p2(40))), not(printedOk(4, 61, 61, CONSTS[6] / p2(39) + 2000)),
      seriesOk(40, 12, PI / p2(20)), not(seriesOk(40, 12, PI / p2(20) + 60)),
      angleOk(512, 100, (PI * 100) / (512 * p2(28))), not(angleOk(512, 100, (PI * 101) / (512 * p2(28)))),
    }
  }
}
