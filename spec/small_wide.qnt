// The two-word accumulator with small words: all values, all sums.
module small_wide {
  import num.* from "./num"
  import core.* from "./core"
  import wide.* from "./wide"
  pure val Wd = 3
  var acc: List[int]
  var num: int
  pure def value(a: List[int]): int = a[0] * p2(Wd) + unsigW(Wd, a[1])
  action init = all { acc' = [0, 0], num' = 0 }
  action add = {
    nondet h = oneOf((-4).to(3))
    nondet l = oneOf((-4).to(3))
    all { sumDefW(Wd, acc, [h, l]), acc' = sumW(Wd, acc, [h, l]), num' = num + value([h, l]) }
  }
  action load = { nondet x = oneOf((-8).to(7)) all { acc' = wordsW(Wd, x), num' = x } }
  action step = any { add, load }
  val inv = and {
    num == value(acc), wordW(Wd, acc[0]), wordW(Wd, acc[1]),
    toW(Wd, acc) == imax(-4, imin(3, num)),
    (-4).to(3).forall(h => (-4).to(3).forall(l => and {
      sumW(Wd, acc, [h, l]) == sumW(Wd, [h, l], acc),
      sumDefW(Wd, acc, [h, l]) iff (num + value([h, l]) >= -32 and num + value([h, l]) < 32),
      sumDefW(Wd, acc, [h, l]) implies value(sumW(Wd, acc, [h, l])) == num + value([h, l]),
    })),
  }
}
