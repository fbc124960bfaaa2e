"""Which harnesses decide which property, and within which bounds (imported by bin/check)."""
CLANG = ["clang++", "-std=c++20", "-O1", "-w"]
G = ["g++", "-std=c++20", "-w"]
C = ["clang++", "-std=c++20", "-w"]
PROPS = {}
HAVE_AVX2 = " avx2 " in open("/proc/cpuinfo").read()


def P(pid, steps, quick, thorough, assumptions=()):
    PROPS[pid] = {"steps": steps, "bounds": {"quick": quick, "thorough": thorough}, "assumptions": list(assumptions) + COMMON}


COMMON = [
    "x86-64 Linux, two's complement, g++ 13 / clang 18 with C++20; the MSVC-only branches of the headers are not built",
    "results the property leaves undefined (not representable in the format) are enumerated but not judged",
]


def parts(src, prop, n, **kw):
    return [dict(name="%s_%d" % (src, k), src=src + ".cpp", flags=["-DPROP=%d" % prop, "-DPART=%d" % k], **kw) for k in range(n)]


def every(src, prop, *ks):
    """Every number of fraction bits of every storage type: many instances, few calls, so no optimisation."""
    return [dict(name="%s_%d" % (src, k), src=src + ".cpp", flags=["-DPROP=%d" % prop, "-DPART=%d" % k, "-O0"]) for k in ks]


EV = "; every number of fraction bits (%s) of the 8, 16, 32 and 64 bit storage types%s: complete up to %d bits, otherwise all values with at most %d signed binary digit%s and lattices of 2 x %d points"
def EVF(n, what="signed and unsigned, rounding and not", upto=16, digits=2, points=2048):
    return EV % (n, " (" + what + ")", upto, digits, "s" * (digits > 1), points)


AR = ("every pair of values of 15 8-bit formats; for 8 16-bit, 14 32-bit and 10 64-bit formats every pair over all values with at most "
      "3 (16-bit) or 2 (32/64-bit) nonzero signed binary digits plus decimal constants; every such value with integers of all integral types "
      "over the same kind of alphabet; pairs of dense mantissas at every pair of scales for 32/64-bit formats; every number of fraction bits of the 8, 16, 32 and 64 bit "
      "storage types, signed and unsigned, rounding and not, over all pairs of one-digit values and dense mantissas")
ART = "as quick, with 3 nonzero signed binary digits for 32/64-bit formats and for integers, and the complete 2^32 pairs of i16f8"
for i in range(1, 6):
    P("C%02d" % i, parts("arith", i, 12), AR, ART)
P("C06", parts("conv", 6, 3) + every("conv", 6, 3, 4, 5),
  "complete 8/16-bit formats, complete 2^32 fixed32 to 2 integer and 2 float types and 3 formats, all values with at most 3 signed binary digits of 6+6 wider formats; 15 integer types; floats with at most 3 signed binary digits at 5 scales and their neighbours; 14-17 target formats" + EVF("348 formats") + ", to 14 formats, from 9 formats and to and from integers and floats",
  "as quick with 4 signed binary digits")
for i in (7, 8):
    P("C%02d" % i, parts("conv", i, 1) + every("conv", i, 1),
      "complete 8/16-bit formats and complete 2^32 fixed32; all values with at most 3 signed binary digits of 14 32-bit and 10 64-bit formats" + EVF("348 formats"),
      "as quick with 4 signed binary digits, and 4 further complete 2^32 formats")
P("C09", parts("text", 9, 1) + every("text", 9, 1),
  "every text of up to 9 characters out of \"0-.915a \"; every text of up to 5 out of 14 (NUL and a non-ASCII byte included) in 14 formats; 83 integral parts x 5,800 fractions x 2 signs x 5 tails in 14 formats; every integral part up to 70000; every fraction of up to 7 digits; 1,792 literals of characters (malformed and unrepresentable ones included), all whole literals, a lattice of 50 million floating literals; io::parse with 8 stop characters over every text of up to 8 out of 7" + EVF("348 formats", upto=8, points=256) + " in up to 11 decimal forms each",
  "as quick with texts of up to 10, fractions of up to 8 digits, stop-character texts of up to 9")
P("C10", parts("text", 10, 1) + every("text", 10, 1),
  "two reads of every text of up to 9 characters out of \"0-.95a \"; 83 x 5,800 x 20 structured texts in 9 formats; all 2^n arrival patterns of 12 texts and a source failure at each position of each pattern; all histories of 4 of 10 tokens with 4 separators; all 2^17 combinations of flags of the stream x 3 widths x 3 fills x 12 texts; all sets of exceptions x states before x positions at which the source fails; all 1,114,112 wide and all 256 narrow characters in 6 places of a number" + EVF("348 formats", upto=8, digits=1, points=128) + " in up to 11 decimal forms each",
  "as quick with texts of up to 10 and histories of 5")
P("C11", parts("out", 11, 1) + every("out", 11, 1),
  "complete 8/16-bit formats, structured alphabets of 24 wider formats, every fraction x 14 integral parts and every integral part x 7 fractions of fixed32, 5 bases; all histories of 3 writes over 6 values and 4 bases; all 2^10 x 5 combinations of stream flags x 4 bases x 6 widths x 2 fills x 2 precisions x 9 values; sinks that refuse or throw after 0 to 63 characters x 8 sets of exceptions x 8 states before" + EVF("232 formats", "signed and unsigned", upto=8, points=256),
  "as quick with wider alphabets, and all 2^32 fixed32 values in decimal")
P("C12", parts("out", 12, 2) + every("out", 12, 2),
  "161,280 specifications x boundary values of 14 formats; 9 specifications x complete small / structured alphabets of 18 formats; all texts of 4 out of 17 pieces (narrow and wide); 256 types x 12 prefixes; all widths and precisions up to 1,100 (and 12 up to 100,000) x 6 specifications x 6 values x 3 formats; every specification of up to 6 characters out of \"<^*+ #0.12fxd\", well formed or not; 730 unrepresentable widths and precisions; every Unicode scalar value as fill (3 alignments) and as type of a wide string" + EVF("232 formats", "signed and unsigned", upto=8, points=64) + " with 9 specifications",
  "as quick with 18 widths and 21 precisions, wider alphabets and specifications of up to 7 characters")
M = ("; complete 16-bit formats; for 8 to 15 other 32/64-bit formats (signed, rounding and, where the property covers them, unsigned) all values with at most 3 signed binary digits, "
     "neighbourhoods of 2000 multiples of pi/4, 1 and 1/64, and lattices of 2^19 points of [-8, 8) and of the whole range")
MT = "as quick, %s completely (2^32 values each), 4 signed binary digits (3 for 64 bit) and lattices of 2^23 points"
P("C13", parts("math", 13, 1) + every("math", 13, 1), "complete fixed32" + M + EVF("all that leave 1 integer bit") + "; hypot of all pairs of two-digit and triples of one-digit binary values of 8 formats, and with 15 second (and third) arguments in every format", MT % "4 further 32-bit formats")
P("C14", parts("math", 14, 1) + every("math", 14, 1), "complete fixed32" + M + EVF("all that leave 5 integer bits"), MT % "3 further 32-bit formats")
P("C15", parts("math", 15, 2) + every("math", 15, 2), "complete fixed32 for sin, cos, tan and cordic_sine" + M + EVF("all that leave 4 integer bits", "signed, rounding and not"), MT % "3 further 32-bit formats")
P("C16", parts("math", 16, 1) + every("math", 16, 1), "complete fixed32 for atan; complete [-1, 1] of two formats for asin and acos" + M + EVF("all that leave 2 integer bits", "signed, rounding and not"), MT % "2 further 32-bit formats")
P("C17", parts("math", 17, 1) + every("math", 17, 1), "all positive fixed32" + M + EVF("all that leave 1 integer bit"), MT % "2 further 32-bit formats")
P("C18", parts("math", 18, 2) + every("math", 18, 2, 3, 4), "exp: complete fixed32" + M + EVF("all that leave 5 integer bits; for pow with whole exponents 1") + ", for pow one-digit values and multiples of 1, 1/2, 1/3, 1/10 and 1/16 as bases with 97 whole exponents or each other as exponents" + "; pow: pairs of values with at most 2 signed binary digits in 7 formats, 8 exponent types with up to 190 exponents", "as quick with 4 signed binary digits and lattices of 2^23 points")
P("C19", parts("math", 19, 1) + every("math", 19, 1), "degrees and radians: complete fixed32" + M + EVF("all that leave 8 integer bits") + "; 18 constants in 229 formats", "as quick with 4 signed binary digits and lattices of 2^23 points")
P("C20", parts("rand", 20, 1),
  "all 16^6 histories of operations on two pcg2014 engines, 16^5 for pcg2014_64 and two adapters, 16^4 for three, 14^3 for mt19937; all 2^32 positions of seed 0; 20,000 positions for 1,800 and 7,700 seeds; 2^28 seeds; 4,096 seed sequences; writing with all 2^15 combinations of stream flags, 4 fill characters and 2 precisions to narrow and wide streams",
  "histories of 7 / 6 / 4 / 4 operations; all 2^32 seeds; 200,000 positions")
P("C21", parts("rand", 21, 1) + every("rand", 21, 1),
  "all ranges over {0, +-2^k, ends} of 6 formats and all ranges of two 8-bit formats, with all sequences of 2 of 13 source words (all 256 words for an 8-bit source); uniformity over all 256 / 65536 answers; all histories of 5 draws, draws with a range of their own, range changes, resets, copies and swaps of two distributions (15 or 19 operations, both adapters, 3 formats); 259 formats with all ranges over 10 values and 13 source words",
  "as quick with sequences of 3 words, complete 8-bit sources and histories of 6")
SIMDF = ("all 216 orders of 3 feature queries, each in a fresh process; 1,280 modelled processors (64 sets of features, other bits clear or set, 5 highest leaves, 2 leftover sub-leaves) x 6 orders; all fixed64 values with at most 3 signed binary digits and +-2 steps around %s multiples of 2*pi; "
         "all pairs of one-digit values in the lanes; a lattice of %s points of the whole range; every raw value within 2^21 of 0, one, minus one and five turns; 3 builds (gcc and clang AVX2, gcc AVX-512)")
P("C22", [dict(name="cpu", src="cpu.cpp", flags=["-mavx2"]), dict(name="simd_gcc_avx2", src="simd.cpp", flags=["-O2", "-mavx2"]),
          dict(name="simd_clang_avx2", src="simd.cpp", cxx=CLANG, flags=["-O2", "-mavx2"]),
          dict(name="simd_gcc_avx512", src="simd.cpp", flags=["-O2", "-mavx512f", "-mavx512dq", "-mavx512vl", '-DNEED="avx512dq"'])], SIMDF % ("200,000", "2^27"), SIMDF % ("2,000,000", "2^32"),
  ["the vector code is run only if the processor of the machine supports it (otherwise that build is skipped)"])
WRAP = ["-Wl," + ",".join("--wrap=pthread_" + f for f in ("mutex_lock", "mutex_trylock", "mutex_unlock", "rwlock_rdlock", "rwlock_wrlock", "rwlock_unlock", "once"))]
P("C23", [dict(name="sched", cxx=CLANG, objs=[("subject.cpp", ["-g1", "-fsanitize=thread"] + (["-mavx2"] if HAVE_AVX2 else [])), ("sched.cpp", [])], libs=["-pthread"] + WRAP)],
  "2 and 3 threads making every pair of 25 kinds of call from first use on, one or two calls each, all interleavings at shared accesses, guards, locks and atomics with at most 2 preemptions",
  "as quick with at most 3 preemptions",
  ["sequentially consistent interleavings; weaker orders are covered only through the race check (vector clocks over happens-before)",
   "code of the standard library that is not in headers is not instrumented"])
FMA = ["-mfma", "-mavx2"] if HAVE_AVX2 and " fma " in open("/proc/cpuinfo").read() else []
DET = [("gcc_O0", G, ["-O0"]), ("gcc_O2", G, ["-O2"]), ("gcc_O3_fma", G, ["-O3", "-ffp-contract=fast"] + FMA), ("gcc_Os_387", G, ["-Os", "-mfpmath=387", "-funsigned-char"]),
       ("gcc_O1_wrapv_unsignedchar", G, ["-O1", "-fwrapv", "-funsigned-char", "-DNDEBUG"]), ("gcc_cxx23", ["g++", "-std=c++23", "-w"], ["-O1"]),
       ("clang_O0", C, ["-O0", "-ftrivial-auto-var-init=pattern"]), ("clang_O2_fma", C, ["-O2", "-ffp-contract=fast"] + FMA), ("clang_O3", C, ["-O3"]), ("clang_no_exceptions", C, ["-O2", "-fno-exceptions", "-fno-rtti"]),
       ("clang_sanitized", C, ["-O1", "-fsanitize=address,undefined,float-cast-overflow,float-divide-by-zero", "-fno-sanitize-recover=all", "-fno-sanitize=function,vptr"])]
CEXPR = [dict(name="cexpr_%s_%d" % (n, k), src="cexpr.cpp", cxx=c, flags=["-O0", "-DPART=%d" % k] + f) for k in range(7)
         for n, c, f in (("gcc", G, ["-fconstexpr-ops-limit=4000000000", "-fconstexpr-loop-limit=10000000"]), ("clang", C, ["-fconstexpr-steps=2000000000"]))]
P("C24", [dict(name=n, src="det.cpp", cxx=c, flags=f, norun=True) for n, c, f in DET] + [dict(name="compare", py="det.py", args=[n for n, _, _ in DET])] + CEXPR,
  "11 build configurations (gcc and clang, -O0 to -O3, FMA contraction, x87 arithmetic, unsigned char, no exceptions, patterned uninitialised variables, address and undefined-behaviour sanitizers) x 385 lists of calls: 24 functions x 6 formats over all values with at most 3 signed binary digits (2 for 64 bit) and 2 lattices of 2^14 points, 7 pair operations x 7 formats over all pairs of one-digit values, conversions from and to 3 floating types, text output and input; 50 functions of 100 to 310 arguments, 12 functions of 28^2 pairs and 33 texts in 7 formats as constant expressions of both compilers",
  "as quick with lattices of 2^18 points and pairs of two-digit values",
  ["a result is compared where the property defines it; the bounds of the domains are computed in double"])
P("C25", [dict(name="hist", src="hist.cpp", flags=["-mavx2"] if HAVE_AVX2 else [])],
  "all sequences of 1 and 2 calls out of 75 (25 kinds x 3 arguments) in 9 environments and all sequences of 3 calls, each in a fresh process; every call repeated 5,000 times and every pair alternating 20 times; for each of 397 functions and formats all ordered pairs of 76 to 400 arguments in one process; every ordered pair of the 397 functions with 19 shared arguments",
  "as quick, 3.5 million sequences of 4 calls, 70,000 repetitions and 150 alternations",
  ["rounding modes are not applied to the table of sines, which the C library computes"])
P("C26", [dict(name="util", src="util.cpp")],
  "int128: all values with at most 3 signed binary digits, sums of pairs (1 x 2 digits), 11 integer types; eval_value: 48,000 mantissas x 14 exponents x all numbers of fraction bits of 4 types; bbp_calc_pi in all 138 formats with 7 numbers of terms; all patterns of 6 deviations out of 9 for measure_esp; print_constants for 6 types and all numbers of fraction bits",
  "as quick with sums of two-digit pairs and patterns of 7 deviations")
P("C27", [dict(name="config", py="config.py")],
  "16 headers alone x 2 compilers x 2 language versions x 5 options; all 240 ordered pairs of headers with gcc; two translation units for each header x 2 compilers x 2 options; all 25 programs of two units (5 builds) using every part of the library",
  "as quick, with the pairs of headers also with clang, 3 options for two units, 6 builds, and all 64 programs of three units out of 4 builds",
  ["the headers listed are those of the pinned version"])
P("C28", [dict(name="ends_%d" % k, src="ends.cpp", cxx=C, flags=["-O0", "-g0", "-fsanitize=address", "-DPART=%d" % k] + ["-O1"] * (k == 3)) for k in range(4)],
  "232 formats (all numbers of fraction bits of 8, 16, 32 and 64 bits, signed and unsigned) and 13 rounding ones: 61 calls of functions of one number with all values of 8-bit formats, otherwise all values with at most 2 signed binary digits and lattices of 2 x 512 points; 39 calls of functions of two numbers with all pairs of one-digit values (and multiples of pi/4 and 1/8) and one-digit values or their neighbours; 43 conversions and outputs of one-digit values and lattices of 2 x 64 points; 2,260 doubles and the integers with their bits to 9 formats; every text of up to 6 out of 10 characters, all 65,536 pairs of bytes in 3 places, 108,000 texts of up to 420 characters, narrow and wide",
  "as quick with lattices 32 times as dense and texts of up to 8 characters",
  ["a call that makes no progress for 20 seconds, and for 60 when repeated alone, does not end", "memory errors are what the address sanitizer of clang 18 reports"])
