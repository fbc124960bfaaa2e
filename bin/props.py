# property definitions (executed by gen.py)
NOT_APPLICABLE = []

prop("C01", "Addition, subtraction, negation and stepping are exact",
     "For every format (8 to 64 bit storage, any number of fraction bits, signed or unsigned, rounding or not) x+y, x-y, -x, ++x, x++, --x and x-- give exactly the mathematical result whenever it is representable in the format. The same holds for the compound forms, which return the modified left operand, work when both operands are the same object and leave the right operand alone. An integer of any integral type on either side behaves like that integer's value in the format.",
     ["inputs", "configurations"], "all operand pairs of all formats (and every integral type for mixed operands) whose exact result is representable",
     "Tests add a few positive decimals in two formats; sign, boundary, mixed-type, aliasing and other-format behaviour is unbounded.",
     [FIX], [("operator+=/-=/unary -/++/--", FIX + ": class fixed_num"), ("mixed operators with integral types", FIX + ": free operators after the class")],
     "Every pair of the 8-bit formats and of i16f8, and boundary-structured alphabets (all values with few signed binary digits) of the wider ones, executed on the real operators and compared with exact 128-bit arithmetic." + TRUST, ENUM, ["return value and operands of the operators"])
prop("C02", "Multiplication is the exact product, rounded as the format says",
     "For every format, x*y is the exact product of the two values rounded toward negative infinity to a multiple of the format's step, or to the nearest multiple (ties away from zero) if the format has rounding enabled, whenever that is representable. A product with an integer of any integral type is exact. The compound form gives the same value, returns the left operand and tolerates both operands being one object.",
     ["inputs", "configurations"], "all operand pairs of all formats and all integral types whose result is representable",
     "Tests multiply a handful of positive decimals of fixed32/fixed64; rounding direction, signs, ties, width of the intermediate product and mixed types are not covered.",
     [FIX], [("operator*=", FIX + ": class fixed_num"), ("integral overloads of operator*", FIX)],
     "As C01, with the product computed in 128-bit arithmetic and rounded by definition." + TRUST, ENUM, ["return value and operands of the operators"])
prop("C03", "Division is the exact quotient, rounded as the format says, never by zero",
     "For every format, x/y with y not 0 is the exact quotient rounded toward zero to a multiple of the format's step, or to the nearest multiple (ties away from zero) if the format has rounding enabled, whenever that is representable; integer/x likewise, and x/integer (any integral type) is the exact quotient rounded toward zero. The compound forms agree with it. The checked forms (divide and divide_by, with a fixed or integral divisor) agree as well, and throw divide_by_zero for a zero divisor, leaving the operand unchanged.",
     ["inputs", "configurations"], "all operand pairs of all formats and all integral types",
     "Tests divide a few decimals; signs, ties, unsigned divisors, overflow of the scaled dividend and the failure path are not covered.",
     [FIX], [("operator/=", FIX + ": class fixed_num"), ("divide/divide_by", FIX + ": class fixed_num"), ("divide_by_zero", "include/eirin/error.hpp")],
     "As C01, with the quotient computed in 128-bit arithmetic and rounded by definition; a zero divisor is part of the alphabet for the checked forms." + TRUST, ENUM, ["return value, operand and exception of the calls"])
prop("C04", "Remainders: %, fmod and modf are exact",
     "For every x and every y other than 0, x % y equals x - y*trunc(x/y) exactly (so it has the sign of x), and fmod(x, y) equals x - y*floor(x/y) exactly (so it has the sign of y), even where the quotient itself is not representable. An integer of any integral type that the format can represent may be on either side of %. modf splits x into floor(x) and the non-negative rest, which add up to x.",
     ["inputs", "configurations"], "all operand pairs of all formats; all values for modf",
     "Tests contain a few positive remainders; negative operands, the smallest value and huge quotients are not covered.",
     [FIX, MATH], [("operator%=", FIX + ": class fixed_num"), ("fmod, modf", MATH)],
     "As C01, against exact integer remainders." + TRUST, ENUM, ["return value and operands of the calls"])
prop("C05", "Comparisons, min, max, nearly-comparisons and hash agree with the values",
     "For every pair of values of one format, ==, !=, <, <=, >, >= and <=> order them exactly as the numbers they represent, and min and max return the smaller and the larger. The nearly-comparisons (equal, unequal, greater, less, and their or-equal forms) order them the same way but treat values at most the comparison tolerance (5*2^-16, truncated to the format's step, nearest if it rounds) apart as equal, for any distance between the values. Equal values have equal hashes.",
     ["inputs", "configurations"], "all operand pairs of all formats",
     "Tests compare a few pairs; distant pairs (whose difference is not representable), unsigned formats and boundaries of the tolerance are not covered.",
     [FIX, MATH], [("operator==, operator<=>", FIX), ("nearly_eq ... nearly_lt_eq", FIX), ("fixed_hash", FIX), ("min, max", MATH)],
     "As C01, against integer comparison of the represented values." + TRUST, ENUM, ["return values"])
prop("C06", "Construction and conversion preserve the value",
     "Constructing from an integer of any type is exact, and from a float, double or long double gives the value truncated toward zero to the format's step (nearest, ties away from zero, if the format rounds), whenever the value is representable. Casting to an integer type gives the floor of the value if it fits the type, and to a floating type the nearest number that type can represent. Converting to another format keeps the value if that format can represent it and otherwise truncates toward zero (nearest for a rounding target), without overflow in between.",
     ["inputs", "configurations"], "all values, all integer and floating types, all pairs of formats",
     "Tests construct a few decimals in two formats; negative fractions, ties, widening of large values, floats next to a step and the smallest value are not covered.",
     [FIX], [("constructors", FIX + ": class fixed_num"), ("explicit conversion operators", FIX), ("from_fixed_num_value", FIX)],
     "Complete fixed32 (2^32) and complete 8/16-bit formats, structured alphabets elsewhere." + TRUST, ENUM, ["internal value after construction, cast results"])
prop("C07", "A value decomposes into sign, integral and fractional part; limits are exact",
     "For every value, integral_part is the integer part of its magnitude, fractional_part is the signed fraction in steps of the format, signbit tells whether it is negative, abs is its magnitude (if representable) and the raw value round-trips through from_internal_value; a number is stored as its raw value and nothing else. numeric_limits, max_value/min_value and the predefined minimum and maximum constants are the true ends of the format's range and describe its signedness, its epsilon is the tolerance of the nearly-comparisons. A default-constructed value is 0.",
     ["inputs", "configurations"], "all values of all formats",
     "The decomposition tests look at a handful of values; negative non-integers, the smallest value and other formats are not covered.",
     [FIX, MATH], [("integral_part, fractional_part, raw_integral_part", FIX), ("std::numeric_limits specialisation", FIX), ("abs, signbit", MATH + ", " + FIX)],
     "Complete fixed32 (2^32) and complete 8/16-bit formats, structured alphabets elsewhere." + TRUST, ENUM, ["return values"])
prop("C08", "floor, ceil, trunc and round return the right integer for every value",
     "For every value of every format floor is the largest integer not above it, trunc drops the fraction toward zero, ceil is the smallest integer not below it (the largest representable value where that integer is not representable), and round is the nearest integer with ties away from zero (where representable).",
     ["inputs", "configurations"], "all values of all formats",
     "Tests round a few values; negative values, exact integers, halves and the ends of the range are not covered.",
     [MATH], [("floor, ceil, trunc, round", MATH)],
     "Complete fixed32 (2^32) and complete 8/16-bit formats, structured alphabets elsewhere." + TRUST, ENUM, ["return values"])
PARSE = "include/eirin/io/parse.hpp"
FORMAT = "include/eirin/io/format.hpp"
NUMB = "include/eirin/numbers.hpp"
CORDIC = "include/eirin/ext/cordic.hpp"
UTIL = "include/eirin/detail/util.hpp"
TRUSTM = " Trusts the C library's long double functions as reference (their error is negligible against every bound) and the enumeration engine."
prop("C09", "Parsing text yields the number the text stands for, or rejects it untouched",
     "Every reader of a character range (f32_from_cstring, fixed_from_cstring, io::parse, the _f32/_f64 literals) stores, for an optional minus sign, decimal digits and an optional fraction, the number truncated toward zero to the format's step; exactly so when the fraction has at most floor(0.301*F) digits for F fraction bits, and with longer fractions at most 10 steps closer to zero, never changing the integral part; the literals 3_f32 and 0.1_f32 stand for their number truncated to the step. f32_from_cstring and io::parse accept the range only as a whole while fixed_from_cstring reads the leading number; a number the format cannot represent, or text that f32_from_cstring or io::parse does not accept, is reported as failure and leaves the target unchanged; the literals of text report it with std::invalid_argument. No reader touches memory beyond the given range, and io::parse returns the end of what it read.",
     ["inputs", "configurations"], "all character sequences (any bytes, any length) and all formats",
     "Tests parse a few well-formed short numbers in two formats; overflowing, over-long, malformed and boundary texts are unbounded.",
     [FIX, PARSE], [("f32_from_cstring, fixed_from_cstring, literals", FIX), ("io::parse", PARSE)],
     "Every text up to length 9 over an 8-character alphabet, every short text over a 14-character alphabet, every fraction of up to 7 digits, and a product of boundary integral parts, fractions and tails, each placed against an inaccessible page; the reference computes the exact decimal value." + TRUST, ENUM, ["return value and target of the readers"])
prop("C10", "Reading from a stream consumes exactly one number and reports failure",
     "operator>> skips leading whitespace (as the stream's flags say), consumes exactly the longest prefix of the form [-]digits[.digits] and stores its value as defined for parsing text; the next read continues right after it and eofbit tells that the end was reached. When there is no digit, the number is not representable, the stream is not good or its source fails midway, failbit (or badbit) is set and the target keeps its value. An exception is thrown exactly if the resulting state is one of those asked for, after the number is stored; the other flags, width, fill character and precision of the stream neither matter nor change. This holds however the characters arrive in pieces, for narrow and wide streams, and for any sequence of reads.",
     ["inputs", "histories", "environments"], "all texts, all ways in which they arrive from the source, all failure points of the source and all sequences of reads",
     "Tests read nothing from streams; buffering boundaries, partial reads, failing sources and sequences of reads cannot be sampled meaningfully.",
     [FIX], [("operator>>", FIX)],
     "Every text up to length 9 over 7 characters, all arrival patterns of 12 texts, a source failure at every position of every pattern prefix, all token histories of length 4, all states, sets of exceptions and 2^17 combinations of flags of the stream, against a reference scanner." + TRUST,
     "bounded exhaustive enumeration of texts, arrival patterns, failure points and read histories on the real code against a reference model", ["stream state and position, target after >>"])
prop("C11", "Writing to a stream prints the exact value",
     "operator<< (and copy_as_chars_to) writes the exact value of x: a minus sign if negative, the integral part without leading zeros and, unless x is an integer, a point and all fraction digits without trailing zeros, in the base selected by the stream's flags (decimal, hexadecimal in either case, octal; binary if no base is set). The number is padded as a whole to the width set on the stream, with its fill character and on the side its flags say (before it by default), and the width is reset, as for any output. It leaves the stream's flags, fill character and precision as they were, so every sequence of writes prints each value independently; a stream that has failed takes nothing, and one that fails midway has taken the beginning of that text. Reading the decimal form back gives x within 10 steps toward zero, and x itself if its fraction has at most 4 binary digits (fixed32).",
     ["inputs", "configurations", "histories"], "all values of all formats, all bases and other states of the stream, all sequences of writes, all points at which the stream fails",
     "Tests print a few values in base 10; negative fractions, the smallest value, other bases and other formats are not covered.",
     [FIX], [("copy_as_chars_to", FIX + ": class fixed_num"), ("operator<<", FIX)],
     "Complete 8/16-bit formats, every fraction and every integral part of fixed32, structured alphabets for 24 wider formats, in 5 bases; all histories of 3 writes with base changes; all 2^32 fixed32 values in decimal in the thorough tier." + TRUST, ENUM, ["characters written"])
prop("C12", "std::format renders a value exactly as its format specification says",
     "Formatting with [[fill]align][sign][#][0][width][.precision][type] prints, for no type or g/G, the value cut off after precision (default 6) fraction digits without trailing zeros, for f/F the same padded to precision digits, for d/x/X/o/b/B the truncated integral part in that base, and for ? the raw value in hexadecimal, with the sign requested, the base prefix if # is given, and padding to the width (to the right by default, zeros after the sign for 0). Text around the fields and the other fields are unaffected, wide strings give the same characters, and an unknown type, any other text that is not of this form, and a width or precision beyond the range of int are reported as format_error.",
     ["inputs", "configurations"], "all values, all format specifications, all surrounding format strings",
     "Tests format a handful of value/specification pairs; the product of fill, alignment, sign, prefix, width, precision, type and value is far larger.",
     [FORMAT], [("std::formatter specialisation", FORMAT), ("parsing of the specification", FORMAT)],
     "All 161,280 combinations of 14 fill/alignments, 4 signs, 2x2 flags, 10 widths, 12 precisions and 12 types over boundary values of 14 formats, complete small formats for 9 specifications, all format strings of 4 pieces out of 17, all types after 12 prefixes." + TRUST, ENUM, ["formatted string"])
prop("C13", "sqrt and hypot are accurate to one step",
     "sqrt of a negative value is -1 and sqrt(0) is 0. For fixed32 it is exactly the square root rounded down to a multiple of the step; for every other format with at least 1 integer bit (not counting the sign) it differs from the exact root by less than 1.001 steps. hypot of two or three values whose sum of squares is representable equals the root of that sum within the same error plus the error of rounding each square to a step.",
     ["inputs", "configurations"], "all values of all formats; all pairs and triples for hypot",
     "Tests take a few roots with a coarse tolerance; convergence and rounding must be right for each of the 2^32 (2^64) arguments.",
     [MATH], [("sqrt", MATH), ("get_sqrt_init_value", FIX), ("hypot", MATH)],
     "All 2^32 fixed32 arguments against integer square root; complete 16-bit formats and structured alphabets of 400,000 values for the others." + TRUSTM, ENUM, ["return values"])
prop("C14", "cbrt is accurate to a few steps and has the sign of its argument",
     "For every x of every format with at least 5 integer bits (not counting the sign) the result of cbrt differs from the exact cube root c by at most 3 + 0.35/|c| steps of the format, has the sign of x or is 0, and is exactly 0 for 0.",
     ["inputs", "configurations"], "all values of all formats",
     "Tests take a few roots; convergence must be right for each argument, in particular for tiny, huge and negative ones.",
     [MATH], [("cbrt", MATH)],
     "All 2^32 fixed32 arguments; complete 16-bit formats, a million structured values of each other format." + TRUSTM, ENUM, ["return values"])
prop("C15", "sin, cos and tan are accurate for every argument",
     "For every x of every signed format sin(x) and cos(x) differ from the exact value s by at most 5 steps + 10^-12 + 3.7*10^-6*s^8, plus |x|/(2 pi) steps because the period is rounded (formats with at least 4 integer bits, not counting the sign). tan(x) is within the error these two allow for their quotient, plus a step, and does not throw unless cos(x) is within twice its error of 0. cordic_sine is within 29 steps (fixed32) or 34 steps (fixed64) plus 0.175*|x| steps, and lut_calc_sin within 5*10^-6 plus |x|/pi steps.",
     ["inputs", "configurations"], "all values of all formats",
     "Tests compare a few angles with a coarse tolerance; range reduction, quadrant boundaries, negative and large angles are not covered.",
     [MATH, CORDIC, UTIL], [("sin, cos, tan", MATH), ("cordic_sine", CORDIC), ("lut_calc_sin", UTIL)],
     "All 2^32 fixed32 angles; complete 16-bit formats, a million structured values (with the neighbourhoods of 4,000 multiples of pi/4) of each other format." + TRUSTM, ENUM, ["return values"])
prop("C16", "atan, asin and acos are accurate and reject arguments outside [-1, 1]",
     "For every x of every signed format with at least 2 integer bits (not counting the sign) atan(x) differs from the exact value by at most 2.05*10^-4 plus 4.2 steps and has the sign of x or is 0. For every x in [-1, 1] asin(x) and acos(x) differ from the exact values by at most 2.05*10^-4 plus 5.5 steps. For every other x asin and acos throw std::domain_error.",
     ["inputs", "configurations"], "all values of all formats",
     "Tests compare a few arguments; the neighbourhood of 1 and -1, negative and huge arguments and other formats are not covered.",
     [MATH], [("atan, asin, acos", MATH)],
     "atan of all 2^32 fixed32 arguments, asin/acos of every value in [-1, 1] of two formats; complete 16-bit formats, structured alphabets elsewhere." + TRUSTM, ENUM, ["return value or exception"])
prop("C17", "Logarithms are accurate and reject non-positive arguments",
     "For every x > 0 whose binary logarithm is representable log2(x) differs from the exact value by at most 4 steps and is exact for powers of two, log(x) by at most 4 + |log x|/1.4426 steps (4 + |log x| with a single fraction bit) and log10(x) by at most 3 + |log10 x|/3.3219 steps (in formats that can represent log2 10), the last two up to a relative 2^-52. For every x <= 0 all three throw std::domain_error.",
     ["inputs", "configurations"], "all values of all formats",
     "Tests compare a few arguments; values below 1, powers of two, the ends of the range and the failure path are not covered.",
     [MATH], [("log2, log, log10", MATH)],
     "All 2^31 positive fixed32 arguments; complete 16-bit formats, structured alphabets elsewhere, non-positive values included." + TRUSTM, ENUM, ["return value or exception"])
prop("C18", "exp and pow are accurate; pow with whole exponents is exact where it can be",
     "For every x of a format with I >= 5 integer bits (not counting the sign) whose exponential e is representable exp(x) differs from it by at most e*(2.4*10^-6*max(1, |x|/(I-1)/ln 2 for x < 0) + (2+|x|) steps) + 2.5 steps, and exp(0) is 1. pow(b, n) with a whole exponent of any integral type is exact if n >= 0 and the exact power (representable) needs no more fraction bits than the format has, and otherwise is off by at most n steps (2.5|n|+1 for n < 0) times the larger of 1 and |b^n|, but by at most 4 steps if |b| <= 1/2 (|b| >= 2 for n < 0), and in formats without rounding never negative nor above the exact power if 0 < b < 1 <= n; b^0 is 1 and 0^n is 0 for n > 0. In signed formats with at least 5 integer bits pow(b, x) with a fixed-point exponent agrees with that for whole x, throws std::domain_error for b < 0 and fractional x, and otherwise is within 1.25 times the error that log, exp and the whole power allow for b^trunc(x) * exp((x - trunc(x)) * log b).",
     ["inputs", "configurations"], "all values of all formats, all integral exponent types, all pairs for pow",
     "Tests compare a few arguments; negative exponents, exponents of unusual types, large negative arguments and the failure path are not covered.",
     [MATH], [("exp, exp_expand", MATH), ("pow (integral and fixed-point exponent)", MATH)],
     "exp: all 2^32 fixed32 arguments and structured alphabets of 13 formats. pow: all pairs of two-digit binary values of 7 formats, 8 exponent types with up to 190 exponents each." + TRUSTM, ENUM, ["return value or exception"])
prop("C19", "Angle conversion and mathematical constants are accurate in every format",
     "For every x of a format that can represent 180 for which the result is representable degrees(x) differs from 180x/pi by at most 181.1 steps and radians(x) from pi*x/180 by at most 4.2 steps, plus the error caused by truncating pi to the format. Every mathematical constant (numbers::*_v, the members e, pi, pi_2 and pi_4, and the predefined fixed32/fixed64 constants) is the exact value truncated to the format's step (nearest for rounding formats), up to 2^-50, and double_pi is at most 2 steps below 2*pi.",
     ["inputs", "configurations"], "all values of all formats; all constants in all formats that can represent them",
     "Tests check the constants of two formats with a tolerance and convert a few angles.",
     [MATH, NUMB, FIX], [("degrees, radians", MATH), ("numbers::*_v", NUMB), ("from_fixed_num_value", FIX)],
     "Constants: all 13 + 5 in 229 formats (every number of fraction bits). Conversions: all 2^32 fixed32 arguments, structured alphabets of 10 formats." + TRUSTM, ENUM, ["return values"])
RND = "include/eirin/random.hpp"
DIST = "include/eirin/detail/distribution.hpp"
prop("C20", "A random engine's sequence is a reproducible function of its seed and position",
     "The state of pcg2014/pcg2014_64 and of fixed_random_engine_adapter is a seed and a position: the k-th word after seeding is always the same function of seed and k (the sequence of the pinned version), lies within [min(), max()], and drawing advances the position by 1 and discard(z) by z, whatever happened before. Copies and assigned or swapped engines continue independently with the same sequence, engines compare equal exactly when seed and position are equal, writing an engine prints both in decimal whatever the stream's flags and leaves flags, fill character and precision alone. The adapter delivers the raw value of each word of its engine.",
     ["histories", "inputs"], "all sequences of construct, seed (default, value, seed sequence), draw, discard, copy, assign, swap, compare and write operations; all seeds and positions",
     "Tests draw numbers from one seed; interleavings of seeding, discarding and copying and the whole period cannot be sampled.",
     [RND], [("permuted_congruential_engine", RND), ("fixed_random_engine_adapter", RND)],
     "All histories of 6 operations out of 16 on two engines (5 to 3 for the other engine types) run on the real engines in lockstep with the model; the whole period of 2^32 words, and many seeds.",
     "explicit enumeration of all operation histories up to a depth on the real engines in lockstep with a state machine model; exhaustive sweep of the period", ["drawn words, comparison results, written text"], ["m_seed, m_state of permuted_congruential_engine"])
prop("C21", "A distribution draws from the requested range just as its integer distribution",
     "For every range [a, b] and every behaviour of the random source both distribution adapters return a value of [a, b], namely the one whose raw value the underlying integer distribution gives for the raw range and the same source, consuming the same number of words. A range passed with the call applies to that call only, a range set with param() to all later calls; a(), b(), min(), max() and param() report the current range and the default range is the whole format. If all answers of the source are equally likely, so are all values of the range.",
     ["inputs", "environments", "histories"], "all ranges, all answers of the random source, all sequences of draws and range changes",
     "Tests draw a few values and look at one range; rare answers of the source (rejection) and ranges at the ends of the format are not sampled.",
     [DIST], [("fixed_int_distribution_adapter", DIST), ("fixed_distribution_adapter", DIST)],
     "The random source is an adversary whose answers are enumerated: 13 boundary words (all sequences of 2, or all 256 words of an 8-bit source) for all ranges over the ends and powers of two of 7 formats, all ranges of the 8-bit formats, ten bounds in every format; all histories of 5 operations on two distributions.",
     "exhaustive enumeration of the environment's (random source's) answers and ranges on the real code against the integer distribution as reference", ["drawn values, reported ranges"])
SIMD = "include/eirin/ext/simd_math.hpp"
prop("C22", "SIMD angle reduction is right in every lane; feature queries tell the truth",
     "For every fixed64 x in any lane simd_reduce_angle and simd_reduce_angle_2 return a value that differs from x by a whole number of turns (of the format's 2*pi), has the sign of x or is 0, and is less than one turn plus |x|*2^-32 turns plus 2 steps away from 0; lanes do not influence each other and both functions agree. platform_support reports exactly the features the processor has, whatever processor it is and whichever query comes first.",
     ["inputs", "histories", "configurations"], "all fixed64 values in all lanes, all orders of feature queries, AVX2 and AVX-512 builds",
     "Tests reduce a few angles in one build; lanes with mixed signs, huge arguments and the first-query order are not covered.",
     [SIMD], [("simd_reduce_angle, simd_reduce_angle_2", SIMD), ("platform_support", SIMD)],
     "All values with at most 3 signed binary digits, neighbourhoods of 200,000 multiples of the turn, a lattice of 2^27 points (thorough 2^32), all pairs of one-digit values across lanes; 216 orders of feature queries, each in a fresh process; 1,280 modelled processors (features, other bits, highest leaf, leftover sub-leaf) in place of the cpuid instruction x 6 orders; three builds." + TRUST, ENUM, ["returned lanes", "query results"])
prop("C23", "Concurrent calls give the same results as calls made alone, without races",
     "Any functions of the library called at the same time from several threads on distinct objects (arithmetic, math functions, parsing, printing, formatting, random engines, tables and CPU feature detection, including their first use) neither race nor deadlock nor crash, and each returns what it returns when called alone in a fresh process.",
     ["schedules", "histories"], "all interleavings of any calls from any number of threads, starting from first use",
     "A test runs one schedule of the operating system; a race in a first-use initialisation is hit only by particular interleavings of the very first calls.",
     [SIMD, "include/eirin/detail/util.hpp", FIX, MATH, "include/eirin/io/parse.hpp", "include/eirin/io/format.hpp", RND, "include/eirin/ext/cordic.hpp"],
     [("platform_support: detection on first use", SIMD), ("lut_calc_sin: table built on first use", "include/eirin/detail/util.hpp")],
     "Stateless model checking of the real code: the library is compiled with ThreadSanitizer's instrumentation against a runtime of our own which schedules real threads one at a time and explores all schedules with at most 2 preemptions (thorough 3) at shared accesses, initialisation guards, locks and atomics, with vector-clock race detection, for every pair of 25 kinds of call, 3 threads, and 2 calls per thread. Sequentially consistent interleavings; code inside libstdc++.so is not instrumented.",
     "stateless model checking of the implementation: exhaustive exploration of thread schedules up to a preemption bound under a controlled scheduler, with vector-clock race detection", ["outcomes of all calls, races, deadlocks"], ["function-local and namespace-scope statics"])
UTIL = "include/eirin/detail/util.hpp"
ALLH = [FIX, MATH, NUMB, RND, "include/eirin/io/parse.hpp", "include/eirin/io/format.hpp", "include/eirin/ext/cordic.hpp", DIST]
prop("C24", "Results are bit-identical in every build and in constant expressions",
     "For arguments for which the result is defined, every operation, math function, conversion, parser, printer and random engine gives bit for bit the same result whichever compiler (gcc, clang), optimisation level and floating-point code generation (SSE, x87, fused multiply-add) the program is built with and whether plain char is signed or exceptions are enabled (without them a call that would throw terminates the program instead), without undefined behaviour or invalid memory accesses; and a call in a constant expression gives the same result as at run time.",
     ["inputs", "configurations"], "all arguments in the domain of each operation, all build configurations, constant evaluation and run time",
     "The tests run in one build configuration, with tolerances; results that depend on undefined behaviour or on floating-point code generation show up only when builds are compared.",
     ALLH, [("arithmetic and conversions", FIX), ("math functions", MATH), ("cordic_sine", "include/eirin/ext/cordic.hpp")],
     "Eleven builds execute the same 385 lists of calls (8.7 million calls each); all results are compared by block checksums, mismatches are narrowed down to the call. Both compilers evaluate 50 functions of 100 to 310 arguments and 12 of 784 pairs in 7 formats as constant expressions, which are compared with the calls at run time. A sanitized build (address, undefined) runs the same calls.",
     "exhaustive enumeration of build configurations x bounded input spaces on the real code, results compared bit for bit across configurations", ["results of all calls"])
prop("C25", "A call's result depends on its arguments only, not on history or environment",
     "Whatever calls were made before in the same process, whatever the stack and heap contain, whatever the global C++ locale, errno, the floating-point rounding mode and the treatment of denormals are, each function of the library returns (prints, throws) for given arguments what it does as the only call of a fresh process. (A conversion to a floating type rounds as the rounding mode says, and the table behind lut_calc_sin, filled by the C library's sin, may depend on it.)",
     ["histories", "environments"], "all sequences of calls and all states of the process",
     "Tests call each function in one order in one environment; stale caches, uninitialised variables and locale-dependent output need particular histories or surroundings.",
     ALLH + [SIMD, UTIL], [("function-local tables", UTIL), ("feature detection", SIMD), ("stream output", FIX)],
     "All sequences of up to 2 calls out of 75 in each of 9 environments and all sequences of 3 calls (422,000), each in a fresh process, compared with the outcome of the call alone; every call repeated 5000 times and every pair of calls alternating 20 times; for each of 397 functions and formats all ordered pairs of 76 to 400 arguments, and all ordered pairs of the 397 functions with 19 arguments common to all.",
     "exhaustive enumeration of call histories up to a depth x environments on the real code, each executed in a fresh process and compared with the call made alone", ["outcomes of all calls as text"], ["function-local statics"])
prop("C26", "The 128-bit type and the helper functions compute exactly what they promise",
     "ext::int128 keeps the value of every integer it is constructed from (a floating value is truncated toward zero), adds modulo 2^128, exposes its two halves, and converts to int64_t saturating at the ends. eval_value(v, n) is v*2^n truncated for every non-negative v for which that fits. bbp_calc_pi<T, n, N> differs from pi*2^n by at most 4N + 2^(n-4N) steps. angels_lut and func_ptr_lut hold k*pi/N (within k+1 steps) and the function at it. measure_esp reports the largest and the smallest deviation (the latter at most 255) over all sampled arguments, each with an argument at which it occurs. print_constants<T>(n) prints for each of its constants in turn a definition with the constant's value cut to n fraction bits.",
     ["inputs", "configurations"], "all values of int128 and its source types, all doubles and fraction counts, all formats and term counts, all sampled functions",
     "There are hardly any tests for these parts; carries, saturation and negative values need particular operands.",
     ["include/eirin/ext/builtin_ints.hpp", UTIL, "include/eirin/detail/perf.hpp"],
     [("int128", "include/eirin/ext/builtin_ints.hpp"), ("eval_value, bbp_calc_pi, lut", UTIL), ("measure_esp", "include/eirin/detail/perf.hpp")],
     "All 128-bit values with at most 3 signed binary digits and sums of pairs; structured doubles for eval_value with all fraction counts; all formats for pi; all patterns of 6 deviations for measure_esp." + TRUST, ENUM, ["return values"])
prop("C27", "The headers work alone, in any combination and in several translation units",
     "Every header compiles and provides its functions on its own and before or after any other one, with gcc and clang, as C++20 and C++23, with or without exceptions, RTTI, AVX2 and AVX-512. Any number of translation units that include and use the library, built with different compilers and options, link into one program, and in it all units get the same results.",
     ["configurations"], "all sets of headers in all orders, all sets of translation units, all builds",
     "The tests compile each header in one position of one translation unit per program with one compiler; a missing include, a function that is not inline or a missing guard shows up only in other combinations.",
     ALLH + [SIMD, UTIL, "include/eirin/ext/builtin_ints.hpp", "include/eirin/detail/perf.hpp", "include/eirin/detail/int128.hpp", "include/eirin/macro.hpp", "include/eirin/error.hpp"],
     [("all headers", "include/eirin"), ("exceptions and SIMD detection", "include/eirin/macro.hpp"), ("throw_exception", "include/eirin/error.hpp")],
     "All 16 headers x 2 compilers x 2 language versions x 5 options, all 240 ordered pairs of headers, pairs of units for each header, and all programs of 2 units out of 5 builds that use every part of the library and compare their results at run time.",
     "exhaustive enumeration of header, translation-unit and build configurations of the real code, each compiled, linked, run and compared", ["compiler's and linker's verdict, results of all units"])
prop("C28", "Every call ends, whatever its arguments",
     "Whatever the values of its arguments - outside the domain of the function, or such that the result does not fit the format, the ends of the range included - a call of a function of the library ends: it returns or throws a std::domain_error (eirin::divide_by_zero is one; literals and malformed text may throw std::invalid_argument). It neither runs on forever nor ends the program (by a trap, an abort or an overrun stack), and it reads and writes no memory but its arguments, its result and its own variables; of a text given with its length it reads nothing beyond. Excepted are the operators / and % and fmod with the divisor zero.",
     ["inputs", "configurations"], "all values of all formats, all pairs of values, all texts",
     "Tests call functions inside their domains; loops that count past the end of the range, shifts and indices out of bounds and traps of the smallest number need particular arguments in particular formats.",
     ALLH + [UTIL], [("arithmetic, output", FIX), ("mathematical functions", "include/eirin/math.hpp"), ("text", "include/eirin/io/parse.hpp"), ("tables", UTIL)],
     "All values with few signed binary digits, ends of the range and lattices of every signed and unsigned format (232, and 13 rounding ones) for 25 functions of one number, with 36 exponents of 6 types for pow; all pairs of one-digit values and their neighbours for 30 functions of two; conversions and output in 4 bases and 10 format specifications; every text of up to 6 of 10 characters, every pair of bytes and texts of up to 400 digits, each in a block of memory of just its size.",
     "exhaustive enumeration of arguments, in and outside the domains, on the real code built with the address sanitizer, each call in a process watched for signals, aborts and lack of progress", ["signals, sanitizer reports, progress, exceptions"])
