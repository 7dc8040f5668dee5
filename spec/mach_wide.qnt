// An accumulator of two words; the abstract number is kept alongside.
module mach_wide {
  import num.* from "./num"
  import wide.* from "./wide"
  var acc: List[int]
  var num: int                 // the mathematical value
  var ev: { op: str, a: List[int], r: List[int] }
  action init = all { acc' = [0, 0], num' = 0, ev' = { op: "init", a: [], r: [0, 0] } }
  pure def val2(w: List[int]): int = w[0] * 2^64 + unsig(w[1])
  action load: bool = {
    nondet sz = oneOf(1.to(63))
    nondet v = oneOf((-(2^sz)).to(2^sz - 1))
    all { acc' = wordsX(v), num' = v, ev' = { op: "load", a: [v], r: wordsX(v) } }
  }
  action words: bool = {
    nondet sz = oneOf(1.to(62))
    nondet h = oneOf((-(2^sz)).to(2^sz - 1))
    nondet l = oneOf((-(2^63)).to(2^63 - 1))
    nondet e = oneOf(Set(0, 1, -1, 2^63 - 1, -(2^63)))
    nondet w = oneOf(0.to(2))
    val a = [if (w == 1) -1 else if (w == 2) 0 else h, if (w > 0) e else l]
    all { acc' = a, num' = val2(a), ev' = { op: "words", a: a, r: a } }
  }
  action add: bool = {
    nondet sz = oneOf(1.to(63))
    nondet v = oneOf((-(2^sz)).to(2^sz - 1))
    nondet w = oneOf(0.to(3))
    nondet h = oneOf((-1000).to(1000))
    val b = if (w == 0) [h, v] else if (w == 1) acc else wordsX(v)
    all { sumDef(acc, b), acc' = sumX(acc, b), num' = num + val2(b), ev' = { op: "add", a: acc.concat(b), r: sumX(acc, b) } }
  }
  action narrow: bool = all { acc' = acc, num' = num, ev' = { op: "narrow", a: acc, r: [toX(acc)] } }
  action step = any { load, words, add, add, add, narrow }
  val inv = and {
    num == val2(acc), word(acc[0]), word(acc[1]),
    toX(acc) == imax(-(2^63), imin(2^63 - 1, num)), toOk(acc, toX(acc)), not(toOk(acc, toX(acc) + 1)),
    not(sumOk(acc, [0, 1], acc)), sumOk(acc, [0, 0], acc),
  }
}
