// An integer in two words of w (64) bits: high * 2^w + (low as an unsigned number).
module wide {
  import num.* from "./num"
  import core.* from "./core"
  pure val WORD = 64
  pure def wordW(w: int, x: int): bool = -p2(w - 1) <= x and x < p2(w - 1)
  pure def unsigW(w: int, x: int): int = if (x < 0) x + p2(w) else x
  pure def sigW(w: int, x: int): int = if (x >= p2(w - 1)) x - p2(w) else x
  // the words of a number of at most w + 1 bits
  pure def wordsW(w: int, v: int): List[int] = [fshr(v, w), sigW(w, fmod(v, p2(w)))]
  pure def sumLowW(w: int, a: List[int], b: List[int]): int = unsigW(w, a[1]) + unsigW(w, b[1])
  pure def sumHighW(w: int, a: List[int], b: List[int]): int = a[0] + b[0] + (if (sumLowW(w, a, b) >= p2(w)) 1 else 0)
  pure def sumDefW(w: int, a: List[int], b: List[int]): bool = wordW(w, sumHighW(w, a, b))
  pure def sumW(w: int, a: List[int], b: List[int]): List[int] = [sumHighW(w, a, b), sigW(w, sumLowW(w, a, b) % p2(w))]
  // the nearest number of one word
  pure def toW(w: int, a: List[int]): int =
    if (a[0] > 0 or (a[0] == 0 and a[1] < 0)) p2(w - 1) - 1
    else if (a[0] < -1 or (a[0] == -1 and a[1] >= 0)) -p2(w - 1)
    else a[1]

  // those of the library
  pure def word(x: int): bool = wordW(WORD, x)
  pure def unsig(x: int): int = unsigW(WORD, x)
  pure def wordsX(v: int): List[int] = wordsW(WORD, v)
  pure def fromOk(v: int, r: List[int]): bool = r == wordsX(v)
  pure def sumDef(a: List[int], b: List[int]): bool = sumDefW(WORD, a, b)
  pure def sumX(a: List[int], b: List[int]): List[int] = sumW(WORD, a, b)
  pure def sumOk(a: List[int], b: List[int], r: List[int]): bool = r == sumX(a, b)
  pure def toX(a: List[int]): int = toW(WORD, a)
  pure def toOk(a: List[int], r: int): bool = r == toX(a)
}
