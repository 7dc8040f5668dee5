// A stream over every short text of an alphabet, read from in every order of extracting,
// clearing, switching the skipping of blanks and taking a character.
module small_stream {
  import num.* from "./num"
  import core.* from "./core"
  import text.* from "./text"
  pure val F = fm(6, 2, true, false)
  pure val N = 4
  var cs: List[int]
  var st: Strm
  var v: int
  var got: List[int]       // positions at which successful extractions ended
  var open: bool           // the text is still growing
  action init = all { cs' = [], st' = { pos: 0, eof: false, bad: false, skip: true }, v' = 5, got' = [], open' = true }
  action grow = {
    nondet c = oneOf(Set(49, 57, 46, 45, 32, 120))
    all { open, cs.length() < N, cs' = cs.append(c), st' = st, v' = v, got' = got, open' = true }
  }
  action extract = {
    val e = extractX(F, cs, st, v)
    all { cs' = cs, st' = e.st, v' = e.v, got' = if (e.st.bad) got else got.append(e.st.pos), open' = false }
  }
  action clear = all { st.eof or st.bad, cs' = cs, st' = { ...st, eof: false, bad: false }, v' = v, got' = got, open' = false }
  action blanks = all { cs' = cs, st' = { ...st, skip: not(st.skip) }, v' = v, got' = got, open' = false }
  action take = all { not(st.eof), not(st.bad), st.pos < cs.length(), cs' = cs, st' = { ...st, pos: st.pos + 1 }, v' = v, got' = got, open' = false }
  action step = any { grow, extract, clear, blanks, take }
  val inv = {
    val e = extractX(F, cs, st, v)
    val s = strictX(F, 7, cs)
    val l = lenientX(F, 7, cs)
    and {
      fits(F, v), 0 <= st.pos, st.pos <= cs.length(),
      // each number ends later than the one before: nothing is read twice
      got.indices().forall(i => i > 0 implies got[i - 1] < got[i]),
      got.length() <= 2,
      // a failed extraction keeps the target, a stream in failure is not read
      e.st.bad implies e.v == v,
      (st.bad or st.eof) implies (e.st.pos == st.pos and e.st.bad),
      st.pos <= e.st.pos, fits(F, e.v),
      // eof means that everything was read
      (e.st.eof and not(st.eof)) implies e.st.pos == cs.length(),
      // the character it stopped at does not continue a number
      (not(e.st.bad) and e.st.pos < cs.length() and e.st.pos > 0) implies not(isDigit(cs[e.st.pos])),
      // the parsers: strict acceptance is lenient acceptance of the whole text with the same value
      s[0] == 1 implies l == s,
      (s[0] == 0 implies s[1] == 7) and (l[0] == 0 implies l[1] == 7),
      fits(F, s[1]) and fits(F, l[1]),
      // accepted numbers do not depend on zeros in front or behind
      (s[0] == 1 and cs.length() > 0 and cs[0] != 45) implies strictX(F, 7, [48].concat(cs)) == s,
      (s[0] == 1 and cs.filterAt(46)) implies strictX(F, 7, cs.append(48)) == s,
      (s[0] == 1 and cs.length() > 0 and cs[0] != 45 and s[1] > 0) implies strictX(F, 7, [45].concat(cs)) == [1, -s[1]],
      // io::parse up to a blank is the strict parser on what precedes it
      { val r = ioX(F, 7, cs, 32)
        val w = upTo(cs, 32)
        r[1] == strictX(F, 7, cs.slice(0, w))[1] and (r[0] == w or r[0] == 0) },
    }
  }
  def filterAt(l: List[int], c: int): bool = l.foldl(false, (b, x) => b or x == c)
}
