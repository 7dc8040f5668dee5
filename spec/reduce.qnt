// Reduction of several 64-bit angles at once by whole turns of the format's 2 pi.
module reduce {
  import num.* from "./num"
  import core.* from "./core"
  pure val TURN = 26986075408           // 2 * (pi rounded down to 32 fraction bits)
  // x - n * TURN, n >= 0 turns towards zero; less than a turn and |x| * 2 pi * 2^-32 remain
  pure def laneOk(x: int, r: int): bool = {
    val a = iabs(x)
    val b = if (x < 0) -r else r
    and { 0 <= b, b <= a, (a - imin(imax(b, 0), a)) % TURN == 0, b < TURN + (a * 27) / (4 * p2(32)) + 1 }
  }
  pure def reduceOk(xs: List[int], rs: List[int]): bool =
    xs.length() == rs.length() and range(0, imin(xs.length(), rs.length())).foldl(true, (ok, i) => ok and laneOk(xs[i], rs[i]))
  // the features a processor reports (leaf 1: edx, ecx; leaf 7: ebx):
  // SSE2, SSE4.2, AVX, AVX2, AVX-512 F, AVX-512 DQ
  pure def bit(x: int, k: int): int = (x / p2(k)) % 2
  pure def featuresOk(edx: int, ecx: int, ebx: int, r: List[int]): bool =
    r == [bit(edx, 26), bit(ecx, 20), bit(ecx, 28), bit(ebx, 5), bit(ebx, 16), bit(ebx, 17)]
}
