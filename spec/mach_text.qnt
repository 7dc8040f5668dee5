// Behaviours over texts: a text that grows and is parsed, an input stream that is
// read from, and a number that is written.
module mach_text {
  import num.* from "./num"
  import core.* from "./core"
  import text.* from "./text"

  var cs: List[int]     // the text, or the content of the stream
  var st: Strm          // the stream
  var v: int            // the target of the last operation
  var fi: int           // its format
  var ev: { op: str, a: List[int], r: List[int] }

  pure val ALPHA = [48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 46, 45, 32, 48, 49, 57, 46, 10, 120, 43, 101, 44]
  pure val T0: Strm = { pos: 0, eof: false, bad: false, skip: true }
  pure def interesting(F: Fmt): Set[int] =
    Set(0, 1, -1, 7, one(F), -one(F), one(F) / 2, -(one(F) / 2) - 1, one(F) + 1, 10 * one(F), hi(F), hi(F) - 1, lo(F), lo(F) + 1, hi(F) / 3, lo(F) / 7 * (-1)).filter(x => fits(F, x))

  action init = {
    nondet f = oneOf(0.to(FMTS.length() - 1))
    all { cs' = [], st' = T0, v' = 0, fi' = f, ev' = { op: "init", a: [f], r: [] } }
  }
  action keep(op: str, a: List[int], r: List[int], nv: int): bool =
    all { cs' = cs, st' = st, fi' = fi, v' = nv, ev' = { op: op, a: a, r: r } }
  action textTo(t: List[int]): bool =
    all { cs' = t, st' = st, fi' = fi, v' = v, ev' = { op: "text", a: t, r: [] } }
  // grow the text by one character, by a whole number, or start over
  action grow: bool = {
    nondet w = oneOf(0.to(9))
    nondet c = oneOf(ALPHA.indices())
    nondet c2 = oneOf(ALPHA.indices())
    nondet c3 = oneOf(0.to(13))
    nondet x = oneOf(interesting(FMTS[fi]))
    nondet d = oneOf(Set(-1, 0, 1))
    textTo(
      if (w == 0 or cs.length() > 40) []
      else if (w == 1) cs.append(ALPHA[c])
      else if (w == 2) cs.append(32).concat(printX(FMTS[fi], 10, false, x))
      // the limits of the range and their neighbours, in text
      else if (w == 3) printX(FMTS[fi], 10, false, x + d)
      else if (w == 4) printX({ ...FMTS[fi], frac: 1 }, 10, false, 2 * (x / one(FMTS[fi]) + d))
      else cs.append(ALPHA[c3]).append(ALPHA[if (c2 > 13) c2 else c2 % 10]))
  }
  action setFmt: bool = {
    nondet f = oneOf(0.to(FMTS.length() - 1))
    all { cs' = cs, st' = st, fi' = f, v' = 0, ev' = { op: "fmt", a: [f], r: [] } }
  }
  // C18
  action stepParse = any {
    grow, grow, setFmt,
    { val r = strictX(FMTS[6], 5, cs) keep("strict", [5].concat(cs), r, v) },
    { val r = lenientX(FMTS[fi], v, cs) keep("lenient", [fi, v].concat(cs), r, r[1]) }
  }
  // C19
  action stepIo = any {
    grow, grow,
    { nondet stop = oneOf(Set(-1, 0, 32, 46, 48, 44, 120))
      val r = ioX(FMTS[6], 5, cs, stop) keep("io", [stop].concat(cs), r, v) }
  }
  // C20: the stream
  action stepStream = any {
    { nondet w = oneOf(0.to(2)) 
      nondet x = oneOf(interesting(FMTS[fi]))
      nondet y = oneOf(interesting(FMTS[fi]))
      nondet d = oneOf(Set(-1, 0, 0, 1))
      nondet g1 = oneOf(ALPHA.indices())
      nondet g2 = oneOf(ALPHA.indices())
      nondet g3 = oneOf(ALPHA.indices())
      val t = (if (w == 0) [ALPHA[g1]] else [32, 10]).concat(printX(FMTS[fi], 10, false, x + d)).append(if (w == 2) 32 else ALPHA[g2]).concat(printX(FMTS[fi], 10, false, y)).concat(if (w == 1) [] else [ALPHA[g3], ALPHA[g2]])
      all { cs' = t, st' = { ...T0, skip: st.skip }, fi' = fi, v' = v, ev' = { op: "feed", a: [b2c(st.skip)].concat(t), r: [] } } },
    setFmt,
    { val F = FMTS[fi]
      val e = extractX(F, cs, st, v)
      all { cs' = cs, st' = e.st, fi' = fi, v' = e.v, ev' = { op: "extract", a: [fi, v], r: [e.st.pos, b2c(e.st.eof), b2c(e.st.bad), e.v] } } },
    { val F = FMTS[fi]
      val e = extractX(F, cs, st, v)
      all { cs' = cs, st' = e.st, fi' = fi, v' = e.v, ev' = { op: "extract", a: [fi, v], r: [e.st.pos, b2c(e.st.eof), b2c(e.st.bad), e.v] } } },
    all { cs' = cs, st' = { ...st, eof: false, bad: false }, fi' = fi, v' = v, ev' = { op: "clear", a: [], r: [] } },
    all { cs' = cs, st' = { ...st, skip: not(st.skip) }, fi' = fi, v' = v, ev' = { op: "skip", a: [b2c(not(st.skip))], r: [] } },
    // the reader takes one character itself
    all { not(st.eof), not(st.bad), st.pos < cs.length(),
          cs' = cs, st' = { ...st, pos: st.pos + 1 }, fi' = fi, v' = v, ev' = { op: "get", a: [], r: [cs[st.pos]] } }
  }
  action load: bool = {
    nondet f = oneOf(0.to(FMTS.length() - 1))
    nondet w = oneOf(0.to(1))
    nondet x = oneOf(interesting(FMTS[f]))
    nondet y = oneOf((-(2^20)).to(2^20))
    val n = if (w == 0 or not(fits(FMTS[f], y))) x else y
    all { cs' = cs, st' = st, fi' = f, v' = n, ev' = { op: "set", a: [f, n], r: [] } }
  }
  // C21
  action stepPrint = any {
    load,
    { nondet b = oneOf(Set(2, 8, 10, 16))
      nondet up = oneOf(Set(true, false))
      nondet w = oneOf(Set(0, 1, 4, 9, 20))
      nondet fl = oneOf(Set(32, 42, 48))
      nondet left = oneOf(Set(true, false))
      keep("print", [fi, b, b2c(up), v, w, fl, b2c(left)], fieldX(printX(FMTS[fi], b, up, v), w, fl, left), v) }
  }
  // C22
  action stepFormat = any {
    load,
    { nondet al = oneOf(Set(0, 0, 60, 62, 94))
      nondet fl = oneOf(Set(32, 42, 48, 45, 60))
      nondet sg = oneOf(Set(45, 43, 32))
      nondet alt = oneOf(Set(true, false))
      nondet zero = oneOf(Set(true, false))
      nondet wd = oneOf(Set(0, 1, 3, 5, 8, 9, 12, 20))
      nondet pr = oneOf(Set(-1, 0, 1, 2, 3, 6, 9, 40))
      nondet ty = oneOf(Set(103, 71, 102, 70, 100, 120, 88, 111, 98, 66, 63))
      val fill = if (al == 0) 32 else fl
      val s = fspec(al, fill, sg, alt, zero, wd, pr, ty)
      keep("format", [fi, v, al, fill, sg, b2c(alt), b2c(zero), wd, pr, ty], fmtX(FMTS[fi], s, v), v) }
  }

  val F0 = FMTS[fi]
  val out = printX(F0, 10, false, v)
  val inv = and {
    fits(F0, v),
    // what is written can be read back: never away from zero, and close
    strictX(F0, 0, out)[0] == 1,
    iabs(strictX(F0, 0, out)[1]) <= iabs(v) and iabs(v) - iabs(strictX(F0, 0, out)[1]) <= 10,
    // and exactly if the fraction has few digits
    (scan(F0, out, 0).k == scan(F0, out, 0).digits - scan(F0, printX({ ...F0, frac: F0.frac }, 10, false, truncX(F0, v)), 0).digits implies strictX(F0, 0, out)[1] == v),
    // strict acceptance implies the same lenient result
    strictX(F0, 3, cs)[0] == 1 implies lenientX(F0, 3, cs) == strictX(F0, 3, cs),
    0 <= st.pos and st.pos <= cs.length() or ev.op == "text"
  }
}
