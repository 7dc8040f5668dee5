"""The properties (text) and what each check's verdict rests on."""
NA = []
NOTES = 'The specification is spec/*.qnt (Quint). check.py compiles it, runs its machines, replays their behaviours on the library built from /repo/include and has recorded executions judged by it; TLC explores small instances of it completely (spec/tla, generated from spec/small_*.qnt). No hooks in /repo are needed: the library is header-only and its API exposes the abstract state.'
TRUST = 'Trusts the translation of the pure Quint definitions to C++ (repeated on a sample by the Quint interpreter in every run), gcc, and the sampling outside the exhaustive parts. '
P = []
def p(id, title, statement, **k):
    P.append(dict(id=id, title=title, statement=statement, **k))

p('C01', 'Addition, subtraction, negation and stepping are exact',
  'For every number format and all operands whose true result is representable, adding, subtracting and negating fixed-point numbers, and incrementing and decrementing them by one, yields exactly that result in every form of the operators. Only the objects an operator is defined to write change: compound forms modify and return their left operand, prefix forms return the new and postfix forms the old value. This stays true along any sequence of operations and when operands and target are the same object.',
  over=['inputs', 'histories', 'configurations'], forall='all number formats (store width, fraction bits, signedness, rounding), all operand values, all sequences and aliasing patterns of the operators',
  why='the tests add a handful of literals in the two predefined formats; none aliases operands, reaches the limits of the range or uses another format',
  files=['include/eirin/fixed.hpp'], mech=[('additive operators, negation, increment and decrement', 'include/eirin/fixed.hpp class fixed_num')],
  state=[('raw value', 'the number times 2^fraction, the whole state of an object', 'include/eirin/fixed.hpp')], observe=['raw value of every object after each operation'],
  note=TRUST + 'All pairs of 8-bit numbers are enumerated; wider formats are covered by boundary pairs, random pairs and random histories of four aliased objects.')
p('C02', 'A product is the exact product rounded by the format\'s rule',
  'For every number format and all operands whose result is representable, the product of two fixed-point numbers is their exact product rounded down (towards negative infinity) to the resolution of the format, or rounded to nearest with halves away from zero in formats declared as rounding. The binary and the compound form agree, also when both operands or operand and target are the same object.',
  over=['inputs', 'histories', 'configurations'], forall='all number formats, all pairs of operands, all aliasing patterns',
  why='the tests multiply a few literals with a decimal tolerance far above one unit; the rounding rule, negative products and rounding formats are never observed',
  files=['include/eirin/fixed.hpp'], mech=[('multiplication through the wider intermediate type', 'include/eirin/fixed.hpp operator*, operator*=')],
  observe=['raw value of the product and of the operands'],
  note=TRUST + 'All pairs of 8-bit numbers are enumerated; wider formats by boundary and random pairs and histories.')
p('C03', 'Quotients and remainders truncate; checked division reports zero',
  'For every number format and all operands with a non-zero divisor and representable result, the quotient of two fixed-point numbers is their exact quotient rounded towards zero (to nearest, halves away from zero, in formats declared as rounding), and the remainder is the exact remainder of the truncated division, with the sign of the dividend. The checked divisions give that same quotient; for a zero divisor they throw the divide-by-zero error and leave every operand unchanged.',
  over=['inputs', 'histories', 'configurations'], forall='all number formats, all dividends and divisors, all aliasing patterns, division by zero at any point of a history',
  why='the tests divide a few positive literals and compare with a tolerance; remainders, signs, rounding formats and the state after an exception are not observed',
  files=['include/eirin/fixed.hpp', 'include/eirin/error.hpp'], mech=[('division and remainder', 'include/eirin/fixed.hpp operator/, operator%, divide, divide_by'), ('exception', 'include/eirin/error.hpp divide_by_zero')],
  observe=['raw values of all objects, type of the exception'],
  note=TRUST + 'All pairs of 8-bit numbers are enumerated; wider formats by boundary and random pairs and histories with zero divisors.')
p('C04', 'Mixing fixed-point and integer operands is exact for every integer type',
  'For every number format and every built-in integer type, adding, subtracting, multiplying, dividing or taking the remainder of a fixed-point number and an integer, on either side or as compound assignment, gives the result for the integer\'s mathematical value: exact for sums, differences and products, the exact quotient rounded towards zero when dividing by an integer, and the fixed-point rule when the integer is the dividend or of a remainder. This holds for mixed signedness and width whenever the integer operand and the result are representable, and the checked division by an integer zero throws the divide-by-zero error and changes nothing.',
  over=['inputs', 'histories', 'configurations'], forall='all number formats, all integer types, all pairs of values with representable results, both operand orders',
  why='the tests mix fixed-point numbers with int literals only; unsigned, narrow and 64-bit operands and negative numbers are not tried',
  files=['include/eirin/fixed.hpp'], mech=[('mixed operators', 'include/eirin/fixed.hpp operator overloads with std::integral operands, divide, divide_by')],
  observe=['raw values of all objects, type of the exception'],
  note=TRUST + 'All 8-bit numbers with all 8-bit integers are enumerated for every operator and side; the rest by random histories over ten integer types.')
p('C05', 'Comparisons, nearly-comparisons and hashing follow the numeric value',
  'For every number format, the equality, ordering and three-way comparison of two fixed-point numbers agree with the comparison of the values they represent, for all pairs including the limits of the range. The nearly-comparisons agree with comparing the exact difference with the published tolerance of the format (nearly equal exactly when the difference does not exceed it, nearly less or greater exactly when it does), and equal numbers have equal hashes.',
  over=['inputs', 'configurations'], forall='all number formats, all pairs of values',
  why='the tests compare a few literals that are far apart; the tolerance boundary, unsigned formats and differences that exceed the range are not tried',
  files=['include/eirin/fixed.hpp'], mech=[('comparison operators', 'include/eirin/fixed.hpp operator==, operator<=>'), ('nearly comparisons', 'include/eirin/fixed.hpp nearly_eq ... nearly_lt_eq'), ('hash', 'include/eirin/fixed.hpp fixed_hash')],
  observe=['results of all comparison operators and of the hash'],
  note=TRUST + 'All pairs of 8-bit numbers and all boundary pairs are enumerated; the rest random, half of it around the tolerance.')
p('C06', 'Converting between formats keeps the value up to one rounding',
  'Converting a fixed-point number to a format with at least as many fraction bits keeps its value exactly, and converting to fewer fraction bits rounds it towards zero, or to nearest with halves away from zero if the target format is declared as rounding, whenever the result is representable in the target. This holds for every pair of formats regardless of width and signedness, and also for building a number from a raw value with a stated number of fraction bits; converting to more fraction bits and back gives the original number.',
  over=['inputs', 'configurations', 'histories'], forall='all pairs of formats, all values whose image is representable, chains of conversions',
  why='the tests never convert between formats',
  files=['include/eirin/fixed.hpp'], mech=[('conversion', 'include/eirin/fixed.hpp converting constructor, from_fixed_num_value')],
  observe=['raw value in the target format'],
  note=TRUST + 'All values of the 8 and 16-bit formats are converted to all 20 formats; wider ones by boundary and random values near rounding boundaries.')
p('C07', 'Conversions from and to integers and floating point are correctly rounded',
  'A fixed-point number built from an integer of any type, or from an integer literal, has exactly that value, and one built from a floating-point number or literal has its value rounded towards zero, or to nearest with halves away from zero in formats declared as rounding, whenever the result is representable. Converting to an integer type rounds down (towards negative infinity), and converting to a floating-point type gives the nearest floating-point number (ties to even), fraction included.',
  over=['inputs', 'configurations'], forall='all number formats, all integer and floating-point types, all values with representable results',
  why='the tests convert a few positive literals; negative numbers, ties, values beyond the precision of the target type and rounding formats are not tried',
  files=['include/eirin/fixed.hpp'], mech=[('constructors and conversion operators', 'include/eirin/fixed.hpp')],
  observe=['raw value; the floating-point value scaled back exactly'],
  note=TRUST + 'All values of the 8 and 16-bit formats; wider ones and floating-point inputs by boundary and random values (exactly representable, half way, next to half way, tiny).')
p('C08', 'floor, ceil, trunc, round and modf return the defined integer',
  'For every number format and every number, floor and ceil give the greatest integer not above and the least integer not below it, trunc the integer towards zero, and round the nearest integer with halves away from zero, whenever that integer is representable; ceil gives the largest representable number when it is not. modf splits a number into its floor and a remainder in [0, 1) that add up to it exactly.',
  over=['inputs', 'configurations'], forall='all number formats, all values',
  why='the tests round a handful of literals of one format',
  files=['include/eirin/math.hpp'], mech=[('rounding functions', 'include/eirin/math.hpp ceil, floor, trunc, round, modf')],
  observe=['raw value of the result'],
  note=TRUST + 'All values of the 8 and 16-bit formats (thorough: also all 2^32 values of the 32-bit format), the rest by boundary and random values. Formats without integer bits are exercised at 8 bits only.')
p('C09', 'Sign, integral and fractional part, abs, min and max are exact',
  'For every number format and every number, the sign query, the magnitude of the integral part (towards zero) and the fractional part (carrying the sign of the number) reconstruct the number exactly. abs returns the magnitude whenever it is representable, and min and max return the smaller and the larger of their arguments.',
  over=['inputs', 'configurations'], forall='all number formats, all values and pairs of values',
  why='the tests look at these for a few literals through formatted output only',
  files=['include/eirin/fixed.hpp', 'include/eirin/math.hpp'], mech=[('decomposition', 'include/eirin/fixed.hpp signbit, integral_part, fractional_part'), ('abs, min, max', 'include/eirin/math.hpp')],
  observe=['results of the functions'],
  note=TRUST + 'All values of the 8 and 16-bit formats, the rest by boundary and random values.')
MATHF = 'all signed number formats with 8 to 48 fraction bits and at least 3 integer bits'
p('C10', 'Square root and hypotenuse are as close as published, negative gives -1',
  'For every number format, signed or unsigned, with any number of fraction bits, and every non-negative number, sqrt returns a number within one unit (2^-fraction) of the true root or whose square differs from the argument by no more than the published tolerance 5 * 2^-16 (plus one unit); in 32-bit formats with 16 fraction bits it is exactly the true root rounded down. For every negative number it returns -1. hypot of two or three numbers meets the same bound for the sum of the squares, each rounded to the format, whenever that sum is representable.',
  over=['inputs', 'configurations'], forall='52 number formats of 8 to 64 bits with 1 to 62 fraction bits, signed and unsigned, all arguments',
  why='the tests take the root of a few literals and compare with a decimal tolerance',
  files=['include/eirin/math.hpp'], mech=[('square root', 'include/eirin/math.hpp sqrt'), ('hypotenuse', 'include/eirin/math.hpp hypot')],
  observe=['raw value of the result'],
  note=TRUST + 'The judge multiplies exactly (no reference needed). Random, boundary and near-square arguments, all 16-bit values; thorough: all fixed32 values.')
p('C11', 'Cube root is within about a unit and odd, for every number',
  'For every number format, signed or unsigned (8 to 48 fraction bits), and every number x, cbrt(x) differs from the true cube root y by at most 1.25 + 0.375/|y| units (2^-fraction); it is 0 exactly for 0 and arguments whose magnitude is below the published tolerance 5 * 2^-16 (unsigned formats may return the root instead), and it has the sign of its argument.',
  over=['inputs', 'configurations'], forall=MATHF + ', all arguments; unsigned formats likewise',
  why='the tests take the cube root of a few literals', files=['include/eirin/math.hpp'], mech=[('cube root', 'include/eirin/math.hpp cbrt')],
  observe=['raw value of the result'],
  note=TRUST + 'The judge compares exact cubes. Random, boundary and near-cube arguments, all whole cubes, all 16-bit values.')
p('C12', 'sin, cos and tan stay within their error bound for every argument',
  'For every signed number format (8 to 48 fraction bits) and every x, sin(x) and cos(x) differ from the true value by at most 3.6e-6 + (c + |x|/6) units (2^-fraction; c is 4 for sin and 6 for cos, the term in |x| is the rounding of pi) and never exceed 1 by more than 4e-6 + 4 units in magnitude. tan(x) is the quotient of such values wherever it is representable, and throws std::domain_error only where the cosine is within one unit plus that error of zero.',
  over=['inputs', 'configurations'], forall=MATHF + ', all arguments including the limits of the range',
  why='the tests evaluate a few angles of fixed32 and fixed64 with a decimal tolerance', files=['include/eirin/math.hpp'], mech=[('circular functions', 'include/eirin/math.hpp sin, cos, tan')],
  observe=['raw value of the result, type of the exception'],
  note=TRUST + 'The oracle is a reference in the specification (argument reduction and Taylor series with integers at 2^60) whose laws (sum of squares, double angle) are invariants of the machine. Sweep of the first turns, neighbourhoods of the eighths of a turn, random and boundary arguments, all 16-bit values.')
p('C13', 'Arc functions stay within their error bound and reject bad arguments',
  'For every signed number format (8 to 48 fraction bits), atan(x) differs from the true value by at most min(2.1e-4, 0.006 z^3) + 5 units (2^-fraction) for every x, with z the smaller of |x| and 1/|x|. For |x| <= 1, asin(x) and acos(x) differ from the true value by at most the bound for atan at x/c with c = sqrt(1 - x^2), plus 6 units, plus at most (|x|/(2c)) * (5 * 2^-16 + 2 units), capped at 1.4e-3 (without the term 5 * 2^-16 in 32-bit formats with 16 fraction bits; acos two units more). For |x| > 1 they throw std::domain_error.',
  over=['inputs', 'configurations'], forall=MATHF + ', all arguments',
  why='the tests evaluate a few literals with a decimal tolerance and try one argument outside the domain', files=['include/eirin/math.hpp'], mech=[('arc functions', 'include/eirin/math.hpp atan, asin, acos')],
  observe=['raw value of the result, type of the exception'],
  note=TRUST + 'The oracle is the reference sine and cosine of the specification applied to the result. Sweeps of the domain, its ends, random and boundary arguments, all 16-bit values.')
p('C14', 'Logarithms are within a few units, powers of two exact, domain enforced',
  'For every number format, signed or unsigned (8 to 48 fraction bits), and every x > 0 whose binary logarithm is representable, log2(x) is within 4 units (2^-fraction) of the true value and exact for powers of two, log(x) is within 4 + 0.7 |ln x| units and log10(x) within 2.5 + 0.135 |ln x| units of the true value. For every x <= 0 all three throw std::domain_error.',
  over=['inputs', 'configurations'], forall=MATHF + ', all arguments; unsigned formats likewise',
  why='the tests evaluate a few literals', files=['include/eirin/math.hpp'], mech=[('logarithms', 'include/eirin/math.hpp log2, log, log10')],
  observe=['raw value of the result, type of the exception'],
  note=TRUST + 'The oracle is the reference logarithm of the specification (series with integers at 2^60). Powers of two and ten and their neighbours, sweep of (0, 4], random and boundary arguments, all 16-bit values.')
p('C15', 'The exponential is within its relative and absolute error bound',
  'For every number format, signed or unsigned (8 to 48 fraction bits), and every x for which the true value E = exp(x) is representable with the error, exp(x) differs from E by at most E * (1.2e-6 + (2 + |x|/2) units) + 6 units (unit: 2^-fraction). exp(0) is exactly 1, and for arguments below -64 the result is within 3 units of zero.',
  over=['inputs', 'configurations'], forall=MATHF + ', all arguments; unsigned formats likewise',
  why='the tests evaluate a few literals', files=['include/eirin/math.hpp'], mech=[('exponential', 'include/eirin/math.hpp exp, detail::exp_expand')],
  observe=['raw value of the result'],
  note=TRUST + 'The oracle is the reference exponential of the specification (series with integers at 2^60, inverse of its logarithm as a machine invariant). Sweep of the representable range, around whole numbers, random and boundary arguments, all 16-bit values.')
p('C16', 'Powers: exact special cases, bounded error, domain errors',
  'For every number format, signed or unsigned (8 to 48 fraction bits), pow(b, 0) is 1, pow(b, 1) is b, powers of 0, 1 and -1 and positive powers of whole numbers are exact (0 to a negative power excepted), whenever representable, for exponents of every integer type. Any other integer power of true magnitude R that is representable is within 3 + 2 n + 2 |e| R / b^2 units (2^-fraction; n the bit length of |e|) of the true value, with 2 |e| R |b| in place of the last term when |b| < 1 and e < 0. For a fixed-point exponent with a fraction the base must not be negative (std::domain_error; in unsigned formats, at least 1) and the result is within the combined error of b to the whole part and exp of the fraction times log(b); a whole exponent gives the integer power.',
  over=['inputs', 'configurations'], forall=MATHF + ', all bases and exponents, unsigned formats likewise, all integer types of exponents',
  why='the tests raise a few literals to small positive powers', files=['include/eirin/math.hpp'], mech=[('powers', 'include/eirin/math.hpp pow (integral and fixed_num exponent)')],
  observe=['raw value of the result, type of the exception, crashes'],
  note=TRUST + 'The oracle is exp(e ln b) of the specification at 2^60 (error included in the bound), exact integer powers for whole bases. All whole bases up to 70 and exponents up to 40, random bases and exponents of seven types; of exponents beyond 2^20 only the special cases and the powers that vanish are judged.')
p('C17', 'fmod leaves the floored remainder; degrees and radians convert both ways',
  'For every number format, signed or unsigned (8 to 48 fraction bits), and all a and b with b non-zero and representable quotient, fmod(a, b) is exactly a - n b for the whole number n with 0 <= a/b - n < 1. degrees(x) is within 182 + |degrees|/3 units of 180 x / pi and radians(x) within 4.3 + |radians|/3 units of pi x / 180, for every x for which 180 and the result are representable (with room for the error).',
  over=['inputs', 'configurations'], forall=MATHF + ', all arguments; unsigned formats likewise',
  why='the tests convert a few angles and never call fmod', files=['include/eirin/math.hpp'], mech=[('remainder', 'include/eirin/math.hpp fmod'), ('angles', 'include/eirin/math.hpp degrees, radians')],
  observe=['raw value of the result'],
  note=TRUST + 'Boundary pairs, near-multiples and random pairs; sweep of +-800 degrees or radians, random and boundary arguments, all 16-bit values.')
p('C18', 'Text parsers accept exactly decimal numbers in range and never wrap',
  'A text is a number if it is an optional minus sign, digits, and optionally a point and digits (missing digits count as zero). The parsers of character strings and the string literals give its value rounded towards zero to the format, where fraction digits are used until those read exceed a tenth of the resolution (2^fraction - 1) and later ones only have to be digits; a value outside the range of the format is reported as failure, never wrapped, and on failure the target keeps its old value. The strict parser rejects any other character, the generic one stops at the first, and neither reads beyond the given length.',
  over=['inputs', 'configurations'], forall='all texts of any length and content, all number formats, all previous values of the target',
  why='the tests parse a few short well-formed literals; out-of-range, malformed and over-long texts and other formats are not tried',
  files=['include/eirin/fixed.hpp'], mech=[('parsers', 'include/eirin/fixed.hpp f32_from_cstring, fixed_from_cstring, detail::parse'), ('literals', 'include/eirin/fixed.hpp operator""_f32, operator""_f64')],
  observe=['return value and raw value of the target; a guard page behind the text'],
  note=TRUST + 'All texts up to 6 (thorough 8) characters over a 7-letter alphabet are enumerated; longer ones generated around the limits of the range and of the precision.')
p('C19', 'io::parse consumes exactly the number and reports failure by position',
  'io::parse reads a fixed32 from the text before the first character equal to the one at the stop position (or from a whole string view, never beyond its end), with the same grammar and value as the string parsers. It returns the position where it stopped and stores the value if that text is a number in range; otherwise it returns the start position and leaves the target unchanged.',
  over=['inputs'], forall='all texts, all stop characters, all previous values of the target',
  why='no test calls io::parse', files=['include/eirin/io/parse.hpp'], mech=[('parse', 'include/eirin/io/parse.hpp')],
  observe=['returned position, raw value of the target; a guard page behind the text'],
  note=TRUST + 'All texts up to 6 (thorough 8) characters over an 8-letter alphabet are enumerated; longer ones generated.')
p('C20', 'Stream extraction reads the longest number, stream and target stay consistent',
  'Extracting a number from an input stream, narrow or wide, skips leading whitespace unless the stream is set not to, consumes the longest prefix of the form sign, digits, point, digits and nothing more, and stores its value (as for the string parsers). If there are no digits or the value is out of range the stream is in the failed state and the target keeps its old value; the end-of-file state is set exactly when the end was reached, and a failed stream is not read. This holds at every step of any sequence of extractions, single-character reads and state resets on one stream.',
  over=['inputs', 'histories', 'configurations'], forall='all contents, all sequences of stream operations, all number formats, both character types',
  why='no test extracts from a stream', files=['include/eirin/fixed.hpp'], mech=[('operator>>', 'include/eirin/fixed.hpp operator>>(std::basic_istream, fixed_num)')],
  state=[('stream', 'content, position and state bits of the stream', 'std::basic_istream')], observe=['position, eofbit, failbit and raw value of the target after each operation'],
  note=TRUST + 'Histories from the stream machine of the specification and random histories; all contents up to 5 (thorough 7) characters over a 7-letter alphabet.')
p('C21', 'Stream insertion writes the exact expansion in the stream\'s base',
  'Inserting a number into an output stream writes a minus sign for negative numbers, the integral digits, and for a non-zero fraction a point and its complete exact expansion without trailing zeros, in base 16, 10 or 8 as selected by the stream (2 if no base is selected, the largest if several are), with upper case digits if the stream says so; a field width pads it, like a text, with the fill character on the left (on the right if left adjusted) and is consumed. Nothing else is written, other flags have no effect, and the stream\'s flags, fill character and state are unchanged.',
  over=['inputs', 'configurations', 'histories'], forall='all number formats, all values, all flags, widths and fill characters, all sequences of insertions',
  why='the tests print three fixed32 values in decimal', files=['include/eirin/fixed.hpp'], mech=[('operator<<', 'include/eirin/fixed.hpp operator<<, copy_as_chars_to')],
  observe=['characters written, stream flags'],
  note=TRUST + 'All values of the 8-bit formats, every fourth of the 16-bit ones (thorough: all), the rest by boundary and random values, each in all four bases.')
p('C22', 'std::format honours the whole format specification for every number',
  'Formatting a number with std::format, narrow or wide, writes sign (by sign option), radix prefix (for # with the radix types x, X, o, b, B and ?) and digits: g and G the integral digits and up to precision (default 6) fraction digits, truncated and without trailing zeros the value does not have; f and F the same padded with zeros to the precision; d, x, X, o, b, B the integral magnitude in that base; ? the magnitude of the raw value in hexadecimal. It is padded to the width with the fill character by the alignment (default right), or with zeros between prefix and digits for the zero option when no alignment is given. Unknown types are rejected with a format error.',
  over=['inputs', 'configurations'], forall='all number formats, all values, all combinations of fill, alignment, sign, #, 0, width, precision and type, both character types',
  why='the tests format a few fixed32 values with a few specifications', files=['include/eirin/io/format.hpp'], mech=[('formatter', 'include/eirin/io/format.hpp fixed_num_formatter, std::formatter')],
  observe=['characters produced'],
  note=TRUST + 'A grid of all flags and types with small widths and precisions on boundary values (a third of it in quick), and random specifications and values.')
p('C23', 'Random engines are reproducible functions of seed and position',
  'The output of a permuted congruential engine is the published function of its parameters, seed and position alone, at every width: equally seeded engines give equal sequences, seeding (with a value, the default, or a seed sequence) resets the position, discard(n) equals n calls, copies continue independently, and two engines compare equal exactly when seed and position agree. Writing an engine to a stream gives seed and position in decimal and leaves the stream\'s flags unchanged.',
  over=['inputs', 'histories', 'configurations'], forall='all engine parameters, seeds, positions and interleavings of draws, seeding, copying, discarding and comparing of several engines',
  why='the tests print a few draws without comparing them to anything', files=['include/eirin/random.hpp'], mech=[('engine', 'include/eirin/random.hpp permuted_congruential_engine')],
  state=[('engine', 'seed and position', 'include/eirin/random.hpp m_seed, m_state')], observe=['outputs, comparisons, written text'],
  note=TRUST + 'Histories of three engines of the specification\'s machine, outputs at millions of random seeds and positions of four parameter sets (32 and 64 bit).')
p('C24', 'Engine and distribution adapters draw the underlying raw values in bounds',
  'A number drawn through the engine adapter has the low bits of the engine\'s next output as its raw value, and the adapter\'s seed, discard, copy and comparison act on the engine. A number drawn through a distribution adapter lies between the bounds (inclusive), its raw value is the one the underlying distribution draws for the raw bounds from the same engine, and the engine advances as for that draw; parameters passed to a single call apply to that call only, and bounds and parameters read back as last set.',
  over=['inputs', 'histories', 'configurations'], forall='all formats, engines, integer distributions and bounds, and all sequences of draws and parameter changes',
  why='the tests print draws without checking them', files=['include/eirin/random.hpp', 'include/eirin/detail/distribution.hpp'], mech=[('engine adapter', 'include/eirin/random.hpp fixed_random_engine_adapter'), ('distribution adapters', 'include/eirin/detail/distribution.hpp')],
  observe=['raw values drawn, engine state, bounds and parameters'],
  note=TRUST + 'The standard library\'s distribution is the oracle for which value of the range is drawn. Five engines, six formats.')
p('C25', 'Constants and limits are the correctly reduced true values in every format',
  'In every number format in which it is representable, each published mathematical constant (pi, e, log2 e, log10 e, 1/pi, 1/sqrt pi, ln 2, ln 10, sqrt 2, sqrt 3, 1/sqrt 3, Euler\'s gamma, the golden ratio, pi/2, pi/4 and 2 pi) is the true value rounded towards zero to the format (to nearest in formats declared as rounding) for up to 48 fraction bits (44 if rounding), and within 2^-52 and one unit of it for finer ones, under every name it is published. The numeric limits and the min and max values are the smallest and largest representable numbers, the tolerance of the nearly-comparisons is 5 * 2^-16 reduced by the same rule, and std::numeric_limits gives radix 2, the number of value bits as digits and the decimal digits they hold as digits10 (where the format can represent these numbers), a bounded, exact, non-integer type without infinities or NaNs.',
  over=['configurations'], forall='all number formats, all constants and limits under all their names',
  why='the tests compare the constants of two formats with decimal literals at a tolerance', files=['include/eirin/numbers.hpp', 'include/eirin/fixed.hpp'],
  mech=[('constants', 'include/eirin/numbers.hpp, include/eirin/fixed.hpp fixed_num::pi, e, ...'), ('limits', 'include/eirin/fixed.hpp std::numeric_limits, max_value, min_value')],
  observe=['raw values'],
  note=TRUST + 'The specification\'s constants (100 fraction bits) are certified by series evaluated in the specification\'s own test. All constants in all formats of the list are compared: exhaustive over constants, the formats are sampled.')
p('C26', 'Results do not depend on compiler, options, optimisation or compile time',
  'Evaluating an operation of the library (arithmetic, comparison, rounding, conversion, mathematical functions, parsing, printing, random engines) on given operands gives the same raw value, text or exception at compile time and at run time, with every supported compiler (gcc, clang), optimisation level and option (fast floating point, wrapping or native-architecture code generation, char signedness, language version), wherever the result is defined. No such evaluation depends on an earlier one.',
  over=['inputs', 'configurations', 'histories'], forall='all operands for which the operation defines a result or an exception, all build configurations',
  why='the tests are built once, with one compiler and one set of options', files=['include/eirin/fixed.hpp', 'include/eirin/math.hpp', 'include/eirin/numbers.hpp', 'include/eirin/random.hpp'],
  mech=[('integer-only evaluation', 'include/eirin/fixed.hpp, include/eirin/math.hpp'), ('128-bit intermediates', 'include/eirin/fixed.hpp, include/eirin/detail/int128.hpp')],
  observe=['raw value, text or exception from every build'],
  note=TRUST + 'Where a result is defined is decided by the specification. Twelve run-time builds (gcc and clang, -O0 to -O3, -Os, -Oz, -ffast-math, -fwrapv, -march=native, -fno-exceptions, C++20 to C++26) and the constant evaluators of both compilers on the behaviours\' cases; 32-bit targets and other vendors\' compilers are not installed.')
p('C27', 'CORDIC sine stays within a bounded error and range for every angle',
  'For the two predefined formats and every angle x, of either sign and any magnitude, cordic_sine(x) differs from the true sine by at most 32 units (2^-fraction) plus |x|/6 units, and its magnitude never exceeds one plus 32 units.',
  over=['inputs'], forall='all fixed32 and fixed64 angles',
  why='no test calls the CORDIC sine over its range; quadrant boundaries and large or negative angles are not tried', files=['include/eirin/ext/cordic.hpp'], mech=[('CORDIC iteration', 'include/eirin/ext/cordic.hpp cordic_sine')],
  observe=['raw value of the result'],
  note=TRUST + 'The oracle is the reference sine of the specification. Every multiple of a quarter turn with its neighbours, sweeps, random angles.')
p('C28', 'Parallel angle reduction treats each lane exactly; CPU features are true',
  'simd_reduce_angle (four fixed64 angles) and simd_reduce_angle_2 (two) return, lane by lane and in order, x - n T for a whole number n, where T is the format\'s two pi, with the sign of x (or zero) and a magnitude of less than T + 27/4 |x| 2^-32 + 1 raw units; no lane depends on another. The processor feature queries report exactly the CPUID bits of SSE2, SSE4.2, AVX, AVX2, AVX-512 F and AVX-512 DQ.',
  over=['inputs'], forall='all vectors of angles',
  why='no test calls these functions', files=['include/eirin/ext/simd_math.hpp'], mech=[('reduction', 'include/eirin/ext/simd_math.hpp simd_reduce_angle, simd_reduce_angle_2'), ('features', 'include/eirin/ext/simd_math.hpp platform_support')],
  observe=['raw values of all lanes, feature flags'],
  note=TRUST + 'Lanes at and next to whole turns, boundary, equal, opposite and random lanes; feature queries against CPUID of the running processor and, with a stand-in for the instruction, of processors with other features.')
p('C29', 'Concurrent calls on distinct or shared constant objects give sequential results',
  'Threads that call the library at the same time, each on objects of its own or on shared objects that none of them modifies, all obtain the results that the same calls give in a single thread, and no data race occurs. This includes the first use of state the library initialises lazily (processor features, sine tables, default random engines): a thread never sees it partly initialised.',
  over=['schedules', 'inputs', 'histories'], forall='all interleavings of calls from any number of threads',
  why='the tests are single-threaded', files=['include/eirin/ext/simd_math.hpp', 'include/eirin/detail/util.hpp', 'include/eirin/fixed.hpp', 'include/eirin/random.hpp'],
  mech=[('feature detection', 'include/eirin/ext/simd_math.hpp platform_support::detect_features'), ('lazy sine table', 'include/eirin/detail/util.hpp lut_calc_sin'), ('stateless functions', 'include/eirin/fixed.hpp, include/eirin/math.hpp')],
  state=[('features_flag', 'processor features, filled on first use', 'include/eirin/ext/simd_math.hpp'), ('lut', 'table of sines, filled on first use', 'include/eirin/detail/util.hpp')],
  observe=['results per thread, reports of the race detector'],
  note=TRUST + 'The specification\'s schedules (which threads make which calls between which barriers) are replayed in fresh processes with four threads under ThreadSanitizer, which finds races from the synchronisation of a schedule and not only when they strike; interleavings inside a call are the operating system\'s. The atomicity of lazy initialisation is checked on the specification, whose early-publication variant violates the invariant.')
p('C30', 'Table sine, table builders and generators of raw constants are accurate',
  'For every fixed64 angle, of either sign and any magnitude, and tables of N entries, lut_calc_sin<N> differs from the true sine by at most 1.25/N^2 plus N + 8 units (2^-32) and a third of a unit per unit of angle, and its magnitude never exceeds one plus N + 8 units. angels_lut<N> holds the N angles i pi/N in order, within i + 1 units; func_ptr_lut<N> holds the images of these angles under the function, which it calls once per entry in order. eval_value gives a non-negative floating-point number rounded down to the fraction bits asked for, exactly; bbp_calc_pi of n terms is within 4n + 1 units and 16^-n of pi. print_constants(f) prints definitions of the eleven constants, in order, each from a raw value with f fraction bits, as many as the definition names, and within one unit and the precision of a double.',
  over=['inputs', 'configurations'], forall='all angles, table sizes, non-negative representable numbers, fraction bits and numbers of terms',
  why='no test calls these functions beyond printing', files=['include/eirin/detail/util.hpp'],
  mech=[('table sine', 'include/eirin/detail/util.hpp lut_calc_sin'), ('tables', 'include/eirin/detail/util.hpp angels_lut, func_ptr_lut'), ('generators', 'include/eirin/detail/util.hpp eval_value, bbp_calc_pi, print_constants')],
  observe=['raw values'],
  note=TRUST + 'Table sizes 64, 512 and 1000 for the sine, nine sizes for the builders; angles at and next to entries, sweeps, boundary and random angles; 64- and 32-bit eval_value; constants printed in 64-, 32- and 16-bit integers at every number of fraction bits.')
p('C31', 'The two-word integer keeps values, adds with carry and saturates',
  'An eirin::ext::int128 built from any built-in integer of at most 64 bits has exactly its value (from a floating-point number within the 64-bit range: its value rounded towards zero), the sum of two of them is exact whenever it fits 128 bits, and conversion to a 64-bit integer gives the value if it fits and otherwise the nearest limit. The two words read back are those of the two\'s complement representation.',
  over=['inputs', 'histories'], forall='all 64-bit operands and all sums of them',
  why='no test uses the type', files=['include/eirin/ext/builtin_ints.hpp'], mech=[('two-word integer', 'include/eirin/ext/builtin_ints.hpp int128')],
  observe=['both words, converted value'],
  note=TRUST + 'Boundary words and random words; chains of sums from the specification\'s behaviours.')
p('C32', 'Error measurement reports the true extremes over the grid',
  'measure_esp over start, start + step, ... up to and including end reports the greatest and the least absolute difference of the two functions over exactly these points, each with the first point where it is attained (the greatest starts from zero, the least from 255).',
  over=['inputs', 'configurations'], forall='all functions, grids and number types',
  why='no test calls it with a known answer', files=['include/eirin/detail/perf.hpp'], mech=[('measurement', 'include/eirin/detail/perf.hpp measure_esp')],
  observe=['the four values returned'],
  note=TRUST + 'Functions from tables of chosen differences, including ties, extremes at both ends, empty grids and a step that does not meet the end.')
p('C33', 'A number survives every journey its destination can hold',
  'A number written to a stream (decimal) and read back, from a stream or by the string parser, or formatted with p fraction digits and parsed, or taken through float, double, long double, a 64-bit integer or another number format, arrives, in any destination format, as exactly the value the rules for writing, reading and converting give when composed: text never enlarges a number or changes its sign; written in full it arrives within 11 units of the destination (the reader truncates every digit it looks at) and the resolution of the source; a floating-point type with enough significant digits, and any finer and at least as wide format, lose nothing; a text naming a number outside the destination\'s range is refused and leaves the destination unchanged. Each leg depends on its number, formats and way alone: repeated later, after any other use of the library or on the same stream, it gives the same result.',
  over=['inputs', 'histories', 'configurations'], forall='all numbers, all pairs of formats, all ways and their sequences, any other calls in between',
  why='the tests check each direction alone on a few literals; losses that show only when writer and reader are composed, or state kept between calls, do not appear', files=['include/eirin/fixed.hpp', 'include/eirin/io/format.hpp', 'include/eirin/io/parse.hpp'],
  mech=[('writers', 'include/eirin/fixed.hpp operator<<, include/eirin/io/format.hpp'), ('readers', 'include/eirin/fixed.hpp operator>>, fixed_from_cstring'), ('conversions', 'include/eirin/fixed.hpp constructors and conversion operators')],
  state=[('traveller', 'format and raw value of the number after each leg', 'include/eirin/fixed.hpp')], observe=['whether the reader accepted, and the raw value of the destination'],
  note=TRUST + 'What a traveller may rely on (bounds on losses) is an invariant of the journey machine of the specification; the code is compared with its exact legs. Every 8-bit number over every way to 20 formats; the rest by random journeys.')
p('C34', 'Only well-formed formats exist, and scales never mix silently',
  'fixed_num<T, I, f> exists exactly when T is a built-in integer or character type, 0 < f < number of bits of T, and I is an integer type (128-bit extensions included) wider than T and of the same signedness; so products and scaled dividends always fit I. Every format is constructible explicitly, never implicitly, from every integer and floating-point type and from every other format, and converts to them explicitly only; it is not constructible from, or convertible to, pointers, strings, enumerations or other classes. Arithmetic, compound assignment, comparison, nearly_eq, divide, pow, fmod, min, max and hypot of two numbers exist for equal formats only and have that format as type; arithmetic with a built-in operand exists exactly for integers, on either side. A number has the size and alignment of its store type, is trivially copyable, of standard layout and usable as a template argument; is_fixed_point_v and fixed_point recognise exactly the formats. Distribution adapters exist exactly for integral distributions, engine adapters exactly for engines at least as wide as the store type.',
  over=['configurations'], forall='all combinations of the built-in types and 0 to 70 fraction bits; all expressions over 20 formats and 26 types',
  why='a test that must not compile cannot be part of the test program', files=['include/eirin/fixed.hpp', 'include/eirin/random.hpp', 'include/eirin/detail/distribution.hpp'],
  mech=[('constraints of a format', 'include/eirin/fixed.hpp fixed_num_check'), ('explicit constructors and conversions', 'include/eirin/fixed.hpp fixed_num constructors, operator T'), ('constraints of the adapters', 'include/eirin/random.hpp fixed_random_engine_type_check, include/eirin/detail/distribution.hpp')],
  observe=['whether the declaration or expression is well-formed, and its type'],
  note=TRUST + 'The whole matrix is enumerated at compile time (concepts) and judged by the specification.')
