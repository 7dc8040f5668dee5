// Which number formats exist, and which expressions over them have a meaning.
module types {
  import num.* from "./num"
  import core.* from "./core"

  // a built-in type: 0 bool, 1 integer or character, 2 the 128-bit extension, 3 floating point, 4 anything else
  type Ty = { kind: int, bits: int, sgd: bool }
  pure def ty(kind: int, bits: int, sgd: bool): Ty = { kind: kind, bits: bits, sgd: sgd }
  pure val TYS: List[Ty] = [
    ty(0, 8, false), ty(1, 8, true), ty(1, 8, true), ty(1, 8, false),               // bool, char, signed char, unsigned char
    ty(1, 16, true), ty(1, 16, false), ty(1, 32, true), ty(1, 32, false),           // short, int
    ty(1, 64, true), ty(1, 64, false), ty(1, 64, true), ty(1, 64, false),           // long, long long
    ty(1, 32, true), ty(1, 8, false), ty(1, 16, false), ty(1, 32, false),           // wchar_t, char8_t, char16_t, char32_t
    ty(2, 128, true), ty(2, 128, false),
    ty(3, 32, true), ty(3, 64, true), ty(3, 128, true),                             // float, double, long double
    ty(4, 64, false), ty(4, 256, false), ty(4, 64, false),                          // const char*, std::string, void*
    ty(4, 32, false), ty(4, 32, false), ty(4, 64, false), ty(4, 32, false) ]        // enum, enum class, nullptr_t, a class
  pure def isInt(t: Ty): bool = t.kind <= 1
  pure def isNum(t: Ty): bool = t.kind <= 1 or t.kind == 3

  // ---- formats: an integral store type (bool aside), at least one fraction bit and one bit beside them, and a
  // wider intermediate type of the same signedness
  pure def wellFormed(S: Ty, I: Ty, f: int): bool = and {
    S.kind == 1, I.kind == 1 or I.kind == 2, 0 < f, f <= S.bits - 1, I.bits > S.bits, I.sgd == S.sgd
  }
  pure def formatOk(s: int, i: int, f: int, there: bool): bool = there == wellFormed(TYS[s], TYS[i], f)

  // ---- conversions: [constructible from X, implicitly, convertible to X, implicitly]
  pure def castX(X: Ty): List[int] = if (isNum(X)) [1, 0, 1, 0] else [0, 0, 0, 0]
  pure def castOk(x: int, r: List[int]): bool = r == castX(TYS[x])
  // between formats: explicit to every other format, implicit to itself only
  pure def recastX(same: bool): List[int] = if (same) [1, 1, 1, 1] else [1, 0, 1, 0]
  pure def recastOk(same: bool, r: List[int]): bool = r == recastX(same)

  // ---- expressions: 1 has a meaning and the format as type, 0 has no meaning
  // binary operations, compound assignments, comparisons and functions of two formats
  pure def mixOk(same: bool, r: List[int]): bool = r.foldl(true, (ok, x) => ok and x == (if (same) 1 else 0))
  // operations with a built-in type on either side, and compound assignments
  pure def withX(X: Ty): int = if (isInt(X)) 1 else 0
  pure def withOk(x: int, r: List[int]): bool = r.foldl(true, (ok, e) => ok and e == withX(TYS[x]))

  // ---- layout: [bits, bits of alignment, bits of the store type's alignment, trivially copyable, standard layout, usable as template argument, a fixed-point type]
  pure def layoutOk(F: Fmt, r: List[int]): bool =
    r.length() == 7 and r[0] == F.bits and r[1] == r[2] and r.slice(3, 7) == [1, 1, 1, 1]
  // ---- adapters: a distribution adapter exists iff the distribution is integral, an engine adapter
  // iff the engine's numbers are at least as wide as the format's store type
  pure def distOk(x: int, r: List[int]): bool = r.foldl(true, (ok, e) => ok and e == withX(TYS[x]))
  pure def engineOk(F: Fmt, bits: int, there: bool): bool = there == (F.bits <= bits)
}
