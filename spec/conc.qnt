// Calls made by several threads at the same time.
module conc {
  import num.* from "./num"
  import core.* from "./core"
  // operations: those of repro.qnt and 50 processor features, 51 angle batches, 52 table sine,
  // 53 CORDIC sine, 54 drawing through a default engine adapter, 55 a distribution, 56 shared read-only objects,
  // 57 the other ways to read and write text, 58 tables and error measurement, 59 engines of other kinds,
  // 60 all functions in one of the small, unsigned, and rounding formats
  pure val COPS: List[int] = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37,
    40, 41, 42, 43, 44, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60]
  pure val LAZY: List[int] = [50, 51, 52, 54]      // operations with a lazily built table in the library
  // every thread obtained what the same call gives on its own
  pure def alone(own: int, rs: List[int]): bool = rs.foldl(true, (ok, r) => ok and r == own)
  // unsynchronised conflicting accesses reported by the monitor during a behaviour
  pure def raceFree(reports: int): bool = reports == 0
}
