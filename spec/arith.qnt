// Arithmetic: what every operator does to the objects it is applied to.
module arith {
  import num.* from "./num"
  import core.* from "./core"

  // operators: 0 +  1 -  2 *  3 /  4 %
  pure def binX(F: Fmt, op: int, a: int, b: int): int =
    if (op == 0) a + b else if (op == 1) a - b
    else if (op == 2) mulX(F, a, b) else if (op == 3) divX(F, a, b) else remX(a, b)
  // the result is representable (otherwise nothing is promised)
  pure def binDef(F: Fmt, op: int, a: int, b: int): bool =
    if (op >= 3 and b == 0) false
    else if (op == 4) true
    else if (op == 2 and b != 0 and iabs(a) > p2(F.bits + F.frac) / iabs(b)) false
    else fits(F, binX(F, op, a, b))
  pure def binOk(F: Fmt, op: int, a: int, b: int, r: int): bool = r == binX(F, op, a, b)

  // the same with an integer n on the right (side 0) or on the left (side 1)
  pure def mixDef(F: Fmt, op: int, side: int, a: int, n: int): bool =
    if (op == 2) n == 0 or (iabs(a) <= p2(F.bits) / iabs(n) and fits(F, a * n))
    else if (op == 3 and side == 0) n != 0 and fits(F, tdiv(a, n))
    else iabs(n) < p2(F.bits) and fits(F, n * one(F)) and
      (if (side == 0) binDef(F, op, a, n * one(F)) else binDef(F, op, n * one(F), a))
  pure def mixX(F: Fmt, op: int, side: int, a: int, n: int): int =
    if (op == 2) a * n
    else if (op == 3 and side == 0) tdiv(a, n)
    else if (side == 0) binX(F, op, a, n * one(F)) else binX(F, op, n * one(F), a)
  pure def mixOk(F: Fmt, op: int, side: int, a: int, n: int, r: int): bool = r == mixX(F, op, side, a, n)

  pure def negDef(F: Fmt, a: int): bool = fits(F, -a)
  // unary: 0 -a   1 ++a   2 a++   3 --a   4 a--
  pure def unaX(F: Fmt, u: int, a: int): int =
    if (u == 0) -a else if (u <= 2) a + one(F) else a - one(F)
  pure def unaDef(F: Fmt, u: int, a: int): bool = fits(F, one(F)) and fits(F, unaX(F, u, a))

  // integral types an operand may have: 0 i8 1 u8 2 i16 3 u16 4 i32 5 u32 6 i64 7 u64 8 bool 9 char
  pure def tyLo(t: int): int =
    if (t == 0 or t == 9) -128 else if (t == 2) -p2(15) else if (t == 4) -p2(31) else if (t == 6) -p2(63) else 0
  pure def tyHi(t: int): int =
    if (t == 0 or t == 9) 127 else if (t == 1) 255 else if (t == 2) p2(15) - 1 else if (t == 3) p2(16) - 1
    else if (t == 4) p2(31) - 1 else if (t == 5) p2(32) - 1 else if (t == 6) p2(63) - 1
    else if (t == 7) p2(64) - 1 else 1

  // ---- one step on four objects
  // form: 0 load n into k          1 k = i op j            2 i op= j
  //       3 k = i.divide(j)        4 i.divide_by(j)        5 k = -i
  //       6 k = ++i  7 k = i++     8 k = --i  9 k = i--
  //      10 k = i op n (type t)   11 k = n op i           12 i op= n
  //      13 k = i.divide(n)       14 i.divide_by(n)       15 k = fixed(n)
  //      16 k = i (copy)          17 k = (i op= j) with the returned reference used again: (i op= j) op= j2
  type Step = { regs: List[int], thr: bool, ok: bool }
  pure def stepX(F: Fmt, form: int, op: int, regs: List[int], i: int, j: int, k: int, n: int): Step = {
    val a = regs[i]
    val b = regs[j]
    val no = { regs: regs, thr: false, ok: false }
    val throws = { regs: regs, thr: true, ok: true }
    if (form == 0) { regs: regs.replaceAt(k, n), thr: false, ok: fits(F, n) }
    else if (form == 1) (if (binDef(F, op, a, b)) { regs: regs.replaceAt(k, binX(F, op, a, b)), thr: false, ok: true } else no)
    else if (form == 2) (if (binDef(F, op, a, b)) { regs: regs.replaceAt(i, binX(F, op, a, b)), thr: false, ok: true } else no)
    else if (form == 3) (if (b == 0) throws else if (binDef(F, 3, a, b)) { regs: regs.replaceAt(k, binX(F, 3, a, b)), thr: false, ok: true } else no)
    else if (form == 4) (if (b == 0) throws else if (binDef(F, 3, a, b)) { regs: regs.replaceAt(i, binX(F, 3, a, b)), thr: false, ok: true } else no)
    else if (form == 5) (if (negDef(F, a)) { regs: regs.replaceAt(k, -a), thr: false, ok: true } else no)
    else if (form >= 6 and form <= 9) {
      val x = unaX(F, form - 5, a)
      if (not(unaDef(F, form - 5, a))) no
      else { regs: regs.replaceAt(i, x).replaceAt(k, if (form == 6 or form == 8) x else a), thr: false, ok: true }
    }
    else if (form == 10) (if (mixDef(F, op, 0, a, n)) { regs: regs.replaceAt(k, mixX(F, op, 0, a, n)), thr: false, ok: true } else no)
    else if (form == 11) (if (mixDef(F, op, 1, a, n)) { regs: regs.replaceAt(k, mixX(F, op, 1, a, n)), thr: false, ok: true } else no)
    else if (form == 12) (if (mixDef(F, op, 0, a, n)) { regs: regs.replaceAt(i, mixX(F, op, 0, a, n)), thr: false, ok: true } else no)
    else if (form == 13) (if (n == 0) throws else if (mixDef(F, 3, 0, a, n)) { regs: regs.replaceAt(k, mixX(F, 3, 0, a, n)), thr: false, ok: true } else no)
    else if (form == 14) (if (n == 0) throws else if (mixDef(F, 3, 0, a, n)) { regs: regs.replaceAt(i, mixX(F, 3, 0, a, n)), thr: false, ok: true } else no)
    else if (form == 15) (if (iabs(n) < p2(F.bits) and fits(F, n * one(F))) { regs: regs.replaceAt(k, n * one(F)), thr: false, ok: true } else no)
    else if (form == 16) { regs: regs.replaceAt(k, a), thr: false, ok: true }
    else if (not(binDef(F, op, a, b))) no
    else {
      // the compound operators return the object itself
      val x = binX(F, op, a, b)
      val r1 = regs.replaceAt(i, x)
      val y = r1[k]
      if (binDef(F, op, x, y)) { regs: r1.replaceAt(i, binX(F, op, x, y)), thr: false, ok: true } else no
    }
  }
  // observed outcome of a step: the new contents and whether it threw
  pure def stepOk(F: Fmt, form: int, op: int, regs: List[int], i: int, j: int, k: int, n: int, regs2: List[int], thr: bool): bool = {
    val s = stepX(F, form, op, regs, i, j, k, n)
    s.ok and s.thr == thr and s.regs == regs2
  }
}
