// Numbers as text: what the parsers accept and return, and what the writers
// produce.  A text is its list of character codes.
module text {
  import num.* from "./num"
  import core.* from "./core"

  // ---- reading:  -?digits*(.digits*)?
  // mode 0 before the sign, 1 integral digits, 2 fraction digits, 3 stopped
  type Scan = { neg: bool, ip: int, d: int, k: int, mode: int, n: int, digits: int }
  pure val scan0: Scan = { neg: false, ip: 0, d: 0, k: 0, mode: 0, n: 0, digits: 0 }
  pure def isDigit(c: int): bool = 48 <= c and c <= 57
  pure def isSpace(c: int): bool = c == 32 or (9 <= c and c <= 13)

  // fraction digits count until they exceed a tenth of the resolution, later ones are only
  // read over (as are those beyond the 38th place, far below the resolution)
  pure def scan1(F: Fmt, s: Scan, c: int): Scan =
    if (s.mode == 3) s
    else if (s.mode == 0 and c == 45) { ...s, neg: true, mode: 1, n: s.n + 1 }
    else if (s.mode < 2 and c == 46) { ...s, mode: 2, n: s.n + 1 }
    else if (not(isDigit(c))) { ...s, mode: 3 }
    else if (s.mode < 2) { ...s, ip: imin(s.ip * 10 + (c - 48), p2(F.bits + 6)), mode: 1, n: s.n + 1, digits: s.digits + 1 }
    else if (s.d > (one(F) - 1) / 10 or s.k >= 38) { ...s, n: s.n + 1, digits: s.digits + 1 }
    else { ...s, d: s.d * 10 + (c - 48), k: s.k + 1, n: s.n + 1, digits: s.digits + 1 }
  pure def scan(F: Fmt, cs: List[int], start: int): Scan =
    range(start, cs.length()).foldl(scan0, (s, i) => scan1(F, s, cs[i]))
  // the number read, towards zero
  pure def magOf(F: Fmt, s: Scan): int = s.ip * one(F) + (s.d * one(F)) / (10^(s.k))
  pure def numOf(F: Fmt, s: Scan): int = if (s.neg) -magOf(F, s) else magOf(F, s)
  pure def inRange(F: Fmt, s: Scan): bool = s.ip < p2(F.bits - F.frac + 2) and fits(F, numOf(F, s))

  // [accepted, target after]: the whole text has to be a number
  pure def strictX(F: Fmt, old: int, cs: List[int]): List[int] = {
    val s = scan(F, cs, 0)
    if (s.n == cs.length() and inRange(F, s)) [1, numOf(F, s)] else [0, old]
  }
  // the longest prefix that is a number
  pure def lenientX(F: Fmt, old: int, cs: List[int]): List[int] = {
    val s = scan(F, cs, 0)
    if (inRange(F, s)) [1, numOf(F, s)] else [0, old]
  }
  pure def strictOk(F: Fmt, old: int, cs: List[int], r: List[int]): bool = r == strictX(F, old, cs)
  pure def lenientOk(F: Fmt, old: int, cs: List[int], r: List[int]): bool = r == lenientX(F, old, cs)

  // io::parse up to the first character equal to `stop` (or, stop < 0, to the end of the text):
  // [characters consumed, target after]
  pure def upTo(cs: List[int], stop: int): int =
    range(0, cs.length()).foldl(cs.length(), (e, i) => if (e == cs.length() and cs[i] == stop) i else e)
  pure def ioX(F: Fmt, old: int, cs: List[int], stop: int): List[int] = {
    val e = upTo(cs, stop)
    val r = strictX(F, old, cs.slice(0, e))
    [if (r[0] == 1) e else 0, r[1]]
  }
  pure def ioOk(F: Fmt, old: int, cs: List[int], stop: int, r: List[int]): bool = r == ioX(F, old, cs, stop)

  // ---- stream extraction: content, position, flags
  type Strm = { pos: int, eof: bool, bad: bool, skip: bool }
  pure def skipTo(cs: List[int], p: int): int =
    range(p, cs.length()).foldl(p, (q, i) => if (q == i and isSpace(cs[i])) q + 1 else q)
  type Ext = { st: Strm, v: int }
  pure def extractX(F: Fmt, cs: List[int], st: Strm, old: int): Ext =
    if (st.eof or st.bad) { st: { ...st, bad: true }, v: old }
    else {
      val p = if (st.skip) skipTo(cs, st.pos) else st.pos
      if (st.skip and p == cs.length()) { st: { ...st, pos: p, eof: true, bad: true }, v: old }
      else {
        val s = scan(F, cs, p)
        val ok = s.digits > 0 and inRange(F, s)
        { st: { ...st, pos: p + s.n, eof: p + s.n == cs.length(), bad: not(ok) }, v: if (ok) numOf(F, s) else old }
      }
    }
  pure def b2c(c: bool): int = if (c) 1 else 0
  // [position, eof, fail, target]
  pure def extractL(F: Fmt, cs: List[int], pos: int, eof: bool, bad: bool, skip: bool, old: int): List[int] = {
    val e = extractX(F, cs, { pos: pos, eof: eof, bad: bad, skip: skip }, old)
    [e.st.pos, b2c(e.st.eof), b2c(e.st.bad), e.v]
  }
  pure def extractOk(F: Fmt, cs: List[int], pos: int, eof: bool, bad: bool, skip: bool, old: int, r: List[int]): bool =
    r == extractL(F, cs, pos, eof, bad, skip, old)

  // ---- writing
  pure def digitCh(d: int, up: bool): int = if (d < 10) 48 + d else (if (up) 55 else 87) + d
  pure def reverseL(l: List[int]): List[int] = range(0, l.length()).foldl([], (r, i) => r.append(l[l.length() - 1 - i]))
  // digits of n >= 0, most significant first
  pure def intDigits(n: int, base: int, up: bool): List[int] =
    if (n == 0) [48]
    else reverseL(range(0, 66).foldl({ l: [], n: n }, (s, i) => if (s.n == 0) s else { l: s.l.append(digitCh(s.n % base, up)), n: s.n / base }).l)
  // up to k digits of the fraction r / 2^f, stopping when nothing is left
  pure def fracDigits(f: int, r: int, base: int, up: bool, k: int): List[int] =
    range(0, k).foldl({ l: [], r: r }, (s, i) => if (s.r == 0) s else { l: s.l.append(digitCh((s.r * base) / p2(f), up)), r: (s.r * base) % p2(f) }).l
  // stream insertion: sign, integral digits and the exact fraction in the base
  pure def printX(F: Fmt, base: int, up: bool, v: int): List[int] = {
    val m = iabs(v)
    val ip = intDigits(m / one(F), base, up)
    val fr = fracDigits(F.frac, m % one(F), base, up, F.frac)
    val body = if (fr.length() == 0) ip else ip.append(46).concat(fr)
    if (v < 0) [45].concat(body) else body
  }
  pure def printOk(F: Fmt, base: int, up: bool, v: int, r: List[int]): bool = r == printX(F, base, up, v)
  // the base by the stream's flags, which may be set together
  pure def baseX(hex: bool, dec: bool, oct: bool): int = if (hex) 16 else if (dec) 10 else if (oct) 8 else 2
  // in a field of the stream: padded with its fill character, on the left unless it is left adjusted
  pure def fieldX(t: List[int], width: int, fill: int, left: bool): List[int] = {
    val p = rep(fill, imax(0, width - t.length()))
    if (left) t.concat(p) else p.concat(t)
  }
  pure def printFieldOk(F: Fmt, base: int, up: bool, v: int, width: int, fill: int, left: bool, r: List[int]): bool =
    r == fieldX(printX(F, base, up, v), width, fill, left)

  // ---- std::format.  prec < 0: none given; align 0: none given; ty: the type character
  type FSpec = { align: int, fill: int, sign: int, alt: bool, zero: bool, width: int, prec: int, ty: int }
  pure def fspec(align: int, fill: int, sign: int, alt: bool, zero: bool, width: int, prec: int, ty: int): FSpec =
    { align: align, fill: fill, sign: sign, alt: alt, zero: zero, width: width, prec: prec, ty: ty }
  pure def rep(c: int, n: int): List[int] = range(0, n).foldl([], (l, i) => l.append(c))
  pure def signL(s: int, neg: bool): List[int] =
    if (neg) [45] else if (s == 43) [43] else if (s == 32) [32] else []
  // radix of a type, 0 for those that show the fraction
  pure def radix(ty: int): int =
    if (ty == 120 or ty == 88 or ty == 63) 16 else if (ty == 100) 10 else if (ty == 111) 8 else if (ty == 98 or ty == 66) 2 else 0
  pure def upper(ty: int): bool = ty == 88 or ty == 66
  pure def prefixL(ty: int, alt: bool): List[int] =
    if (not(alt)) []
    else if (ty == 120 or ty == 63) [48, 120] else if (ty == 88) [48, 88]
    else if (ty == 98) [48, 98] else if (ty == 66) [48, 66] else if (ty == 111) [48] else []
  // the digits after sign and prefix
  pure def digitsL(F: Fmt, s: FSpec, v: int): List[int] = {
    val m = iabs(v)
    if (s.ty == 63) intDigits(m, 16, false)
    else if (radix(s.ty) > 0) intDigits(m / one(F), radix(s.ty), upper(s.ty))
    else {
      val k = if (s.prec < 0) 6 else s.prec
      val fr = fracDigits(F.frac, m % one(F), 10, false, imin(k, F.frac))
      val pad = if (s.ty == 102 or s.ty == 70) rep(48, k - fr.length()) else []
      val frac = fr.concat(pad)
      val ip = intDigits(m / one(F), 10, false)
      if (frac.length() == 0) ip else ip.append(46).concat(frac)
    }
  }
  pure def fmtX(F: Fmt, s: FSpec, v: int): List[int] = {
    val pre = signL(s.sign, v < 0).concat(prefixL(s.ty, s.alt))
    val dig = digitsL(F, s, v)
    val gap = imax(0, s.width - pre.length() - dig.length())
    if (s.zero and s.align == 0) pre.concat(rep(48, gap)).concat(dig)
    else {
      val left = if (s.align == 60) 0 else if (s.align == 94) gap / 2 else gap
      rep(s.fill, left).concat(pre).concat(dig).concat(rep(s.fill, gap - left))
    }
  }
  pure def fmtOk(F: Fmt, s: FSpec, v: int, r: List[int]): bool = r == fmtX(F, s, v)
}
