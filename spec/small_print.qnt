// Every value of small formats, written in every base and with format specifications, and read back.
module small_print {
  import num.* from "./num"
  import core.* from "./core"
  import text.* from "./text"
  pure val SF: List[Fmt] = [fm(5, 2, true, false), fm(5, 4, true, false), fm(4, 3, false, false), fm(5, 1, true, true)]
  var fi: int
  var v: int
  var hops: int            // times it was written and read back
  action init = {
    nondet f = oneOf(SF.indices())
    nondet x = oneOf(lo(SF[f]).to(hi(SF[f])))
    all { fi' = f, v' = x, hops' = 0 }
  }
  // written and read back, in this format or another one
  action step = {
    nondet g = oneOf(SF.indices())
    val r = strictX(SF[g], 99, printX(SF[fi], 10, false, v))
    all { r[0] == 1, fi' = g, v' = r[1], hops' = imin(1, hops + 1) }
  }
  pure def valueOf(base: int, f: int, l: List[int]): int = {
    // the text as a multiple of 2^-f, exactly or -1000
    val s = l.foldl({ n: 0, k: 0, dot: false, neg: false }, (q, c) =>
      if (c == 45) { ...q, neg: true } else if (c == 46) { ...q, dot: true }
      else { ...q, n: q.n * base + (if (c < 58) c - 48 else if (c < 91) c - 55 else c - 87), k: q.k + (if (q.dot) 1 else 0) })
    val m = s.n * p2(f)
    if (m % (base^(s.k)) != 0) -1000 else if (s.neg) -(m / (base^(s.k))) else m / (base^(s.k))
  }
  val inv = {
    val F = SF[fi]
    val t = printX(F, 10, false, v)
    and {
      fits(F, v),
      // the expansion is exact in every base that has a factor two
      Set(2, 8, 10, 16).forall(b => valueOf(b, F.frac, printX(F, b, true, v)) == v and valueOf(b, F.frac, printX(F, b, false, v)) == v),
      // no zeros at the end of a fraction, no dot without one
      t.length() > 0 and t[t.length() - 1] != 46,
      (scan(F, t, 0).n == t.length()),
      // fields
      Set(0, 3, 9).forall(w => Set(true, false).forall(left => {
        val p = fieldX(t, w, 42, left)
        and { p.length() == imax(w, t.length()), (if (left) p.slice(0, t.length()) else p.slice(p.length() - t.length(), p.length())) == t } })),
      // std::format: the width is reached exactly, alignment only moves the text, zeros go behind the sign
      Set(0, 60, 62, 94).forall(al => Set(45, 43).forall(sg => Set(true, false).forall(zero => Set(0, 9).forall(w => Set(-1, 2).forall(pr => Set(103, 102, 120).forall(ty => {
        val bare = fmtX(F, fspec(0, 32, sg, true, false, 0, pr, ty), v)
        val full = fmtX(F, fspec(al, 42, sg, true, zero, w, pr, ty), v)
        and {
          full.length() == imax(w, bare.length()),
          (al == 60) implies full.slice(0, bare.length()) == bare,
          (al == 62) implies full.slice(full.length() - bare.length(), full.length()) == bare,
          (zero and al == 0 and v < 0) implies full[0] == 45,
          (ty == 103 and pr < 0) implies iabs(valueOf(10, F.frac, fmtX(F, fspec(0, 32, 45, false, false, 0, 40, ty), v)) - v) == 0,
          (ty == 102 and pr >= 0) implies scan(F, fmtX(F, fspec(0, 32, 45, false, false, 0, pr, ty), v), 0).n == (fmtX(F, fspec(0, 32, 45, false, false, 0, pr, ty), v)).length(),
        } })))))),
    }
  }
}
