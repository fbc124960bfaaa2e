"""C27: the headers in every combination.  Enumerates headers x compilers x language versions x options, ordered
pairs of headers, and programs of several translation units, compiles (links, runs) each, and judges the result."""
import argparse, concurrent.futures, json, os, subprocess, sys, time

ap = argparse.ArgumentParser()
for a in ("repo", "build", "out", "tier"):
    ap.add_argument("--" + a)
A = ap.parse_args()
HERE = os.path.dirname(os.path.abspath(__file__))
INC = ["-I" + os.path.join(A.repo, "include"), "-w"]
W = os.path.join(A.build, "config")
os.makedirs(W, exist_ok=True)
# the headers a program may include
HEADERS = [h for h in ("eirin.hpp", "fixed.hpp", "math.hpp", "numbers.hpp", "random.hpp", "error.hpp", "macro.hpp", "io/parse.hpp", "io/format.hpp",
                       "ext/cordic.hpp", "ext/simd_math.hpp", "ext/builtin_ints.hpp", "detail/int128.hpp", "detail/distribution.hpp", "detail/util.hpp", "detail/perf.hpp")
           if os.path.exists(os.path.join(A.repo, "include/eirin", h))]
# what a program that includes the header can use then
USE = {
    "eirin.hpp": "inline auto use_all(eirin::fixed32 x) { return eirin::sin(x) + eirin::numbers::pi_v<eirin::fixed32>(); }",
    "fixed.hpp": "inline auto use_fixed(eirin::fixed64 x, int k) { return x * x + k - eirin::fixed64(0.5); }",
    "math.hpp": "inline auto use_math(eirin::fixed32 x) { return eirin::sqrt(x) + eirin::log(x) + eirin::pow(x, 3) + eirin::f32_max; }",
    "numbers.hpp": "inline auto use_numbers() { return eirin::numbers::pi_v<eirin::fixed32>() + eirin::numbers::e_v<eirin::fixed32>(); }",
    "random.hpp": "inline auto use_random() { eirin::pcg2014 e(1); eirin::fixed_random_engine_adapter<eirin::fixed32, eirin::pcg2014> a; return eirin::fixed32(int(e())) + a(); }",
    "error.hpp": "inline const char* use_error(const eirin::divide_by_zero& e) { return e.what(); }",
    "io/parse.hpp": "inline bool use_parse(eirin::fixed32& x) { return eirin::io::parse(std::string_view(\"1.5\"), x) != nullptr; }",
    "io/format.hpp": "#include <format>\ninline std::string use_format(eirin::fixed32 x) { return std::format(\"{:.3f}\", x); }",
    "ext/cordic.hpp": "inline auto use_cordic(eirin::fixed32 x) { return eirin::cordic_sine(x); }",
    "ext/simd_math.hpp": "inline bool use_simd() { return eirin::simd::platform_support::supports_avx2(); }",
    "ext/builtin_ints.hpp": "inline eirin::ext::int128 use_ints() { return eirin::ext::int128(5) + eirin::ext::int128(-7); }",
    "detail/distribution.hpp": "#include <random>\ninline auto use_distribution(std::mt19937& g) { eirin::fixed_int_distribution_adapter<eirin::fixed32, std::uniform_int_distribution<int>> d; return d(g); }",
    "detail/util.hpp": "inline auto use_util() { return eirin::util::eval_value<int64_t>(0.5, 1); }",
    "detail/perf.hpp": "inline auto use_perf() { return sizeof(eirin::perf::esp_ret<int>); }",
}
CXX = ["g++", "clang++"]
STD = ["-std=c++20", "-std=c++23"]
OPT = [[], ["-fno-exceptions"], ["-fno-rtti"], ["-mavx2"], ["-mavx512f", "-mavx512dq", "-mavx512vl", "-O2"]]
thorough = A.tier == "thorough"
spaces, violation = [], None
pool = concurrent.futures.ThreadPoolExecutor(8)


def sh(cmd, timeout=300):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout)
    if r.returncode == -9 or "Killed" in r.stdout or "No space left" in r.stdout:
        print(r.stdout[-2000:])
        sys.exit(3)
    return r.returncode, r.stdout


def first_error(log):
    e = [l for l in log.splitlines() if "error" in l or "multiple definition" in l or "undefined reference" in l]
    return (e or log.splitlines() or ["?"])[0][:500]


def explore(name, items, judge):
    """Judge every item; stop at the first space with a violation."""
    global violation
    if violation or not items:
        return
    t = time.time()
    res = list(pool.map(judge, items))
    spaces.append({"name": name, "n": len(items), "states": len(items), "transitions": len(items), "valid": len(items), "secs": time.time() - t, "sample": repr(items[len(items) // 2])[:300]})
    for i, r in enumerate(res):
        if r:
            violation = {"space": name, "index": i, "from": i, "msg": r[0], "detail": r[1][-3000:]}
            return


def write(name, text):
    p = os.path.join(W, name)
    with open(p, "w") as f:
        f.write(text)
    return p


def tag(h):
    return h.replace("/", "_").replace(".hpp", "")


def inc(*hs):
    return "".join("#include <eirin/%s>\n" % h for h in hs) + "".join(USE.get(h, "") + "\n" for h in dict.fromkeys(hs))


def alone(x):
    h, cxx, std, opt = x
    p = write("alone_%s_%s_%s_%s.cpp" % (tag(h), cxx, std[5:], "".join(opt)), inc(h))
    rc, log = sh([cxx, std] + opt + INC + ["-fsyntax-only", p])
    if rc:
        return "the header %s alone does not compile with %s: %s" % (h, " ".join([cxx, std] + opt), first_error(log)), log


def pair(x):
    a, b, cxx = x
    p = write("pair_%s_%s_%s.cpp" % (tag(a), tag(b), cxx), inc(a, b, a))
    rc, log = sh([cxx, STD[0]] + INC + ["-fsyntax-only", p])
    if rc:
        return "the header %s followed by %s does not compile with %s: %s" % (a, b, cxx, first_error(log)), log


def units(x):
    h, cxx, opt = x
    n = "%s_%s_%s" % (tag(h), cxx, "".join(opt).replace("-", ""))
    objs = []
    for k in range(2):
        p = write("u%d_%s.cpp" % (k, n), inc(h) + ("int main() {}\n" if k else ""))
        o = p[:-4] + ".o"
        rc, log = sh([cxx, STD[0], "-c"] + opt + INC + [p, "-o", o])
        if rc:
            return "the header %s does not compile with %s: %s" % (h, " ".join([cxx] + opt), first_error(log)), log
        objs.append(o)
    rc, log = sh([cxx] + objs + ["-o", os.path.join(W, n)])
    if rc:
        return "two translation units that include %s do not link (%s): %s" % (h, " ".join([cxx] + opt), first_error(log)), log


# programs whose units all use every part of the library, built by different compilers and options
UNIT = '''#include "ops.hpp"
#include <string>
std::string unit_%(k)d(int op, int v) { ops::Out o; o.b[0] = 0; ops::all[op].run(o, v); return std::string(o.b, o.n); }
int count_%(k)d() { return ops::count; }
'''
MAIN = '''#include <cstdio>
#include <string>
%(decl)s
int main()
{
    std::string (*unit[])(int, int) = {%(units)s};
    const int n = count_0();
    for(int op = 0; op < n; ++op)
        for(int v = 0; v < 3; ++v)
            for(int k = 1; k < %(n)d; ++k)
                if(unit[k](op, v) != unit[0](op, v)) { std::printf("call %%d, argument %%d: unit %%d gives %%s, unit 0 %%s\\n", op, v, k, unit[k](op, v).c_str(), unit[0](op, v).c_str()); return 1; }
    std::printf("%%d\\n", n * 3);
}
'''
# (name, compiler, options); without -mavx2 some calls print less, so all units of a program agree on it
KIND = [("g0", "g++", ["-O0"]), ("g2", "g++", ["-O2"]), ("c0", "clang++", ["-O0"]), ("c2", "clang++", ["-O2"]), ("gh", "g++", ["-O1", "-fvisibility=hidden"]), ("g23", "g++", ["-O1", "-std=c++23"])]
AVX = ["-mavx2"] if " avx2 " in open("/proc/cpuinfo").read() else []


def build_unit(x):
    (name, cxx, opt), k = x
    p = write("unit%d_%s.cpp" % (k, name), UNIT % dict(k=k))
    rc, log = sh([cxx, STD[0], "-c"] + opt + AVX + INC + ["-I" + HERE, p, "-o", p[:-4] + ".o"])
    if rc:
        return "a unit that uses the whole library does not compile with %s: %s" % (" ".join([cxx] + opt), first_error(log)), log


def program(ks):
    n = "prog_" + "_".join(k[0] for k in ks)
    decl = "".join("std::string unit_%d(int, int); int count_%d();\n" % (i, i) for i in range(len(ks)))
    p = write(n + ".cpp", MAIN % dict(decl=decl, units=", ".join("unit_%d" % i for i in range(len(ks))), n=len(ks)))
    exe = os.path.join(W, n)
    rc, log = sh(["g++", STD[0], p] + [os.path.join(W, "unit%d_%s.o" % (i, k[0])) for i, k in enumerate(ks)] + ["-o", exe])
    what = ", ".join(" ".join([k[1]] + k[2]) for k in ks)
    if rc:
        return "translation units using the library do not link (%s): %s" % (what, first_error(log)), log
    rc, log = sh([exe])
    if rc:
        return "translation units of one program disagree (%s): %s" % (what, log.strip()[:600]), log


explore("a header alone", [(h, c, s, o) for o in OPT for s in STD for c in CXX for h in HEADERS], alone)
explore("a header after another", [(a, b, c) for c in (CXX if thorough else CXX[:1]) for a in HEADERS for b in HEADERS if a != b], pair)
explore("two units with a header", [(h, c, o) for o in ([["-O0"], ["-O2"], ["-O0", "-mavx2"]] if thorough else [["-O0"], ["-O1", "-mavx2"]]) for c in CXX for h in HEADERS], units)
kinds = KIND if thorough else KIND[:5]
explore("a unit using everything", [(k, i) for k in kinds for i in range(3)], build_unit)
explore("programs of two units", [(a, b) for a in kinds for b in kinds], program)
explore("programs of three units", [(a, b, c) for a in kinds[:4] for b in kinds[:4] for c in kinds[:4]] if thorough else [(kinds[0], kinds[3], kinds[1])], program)
json.dump({"property": "C27", "tier": A.tier, "violated": violation is not None, "violation": violation, "spaces": spaces, "extra": {"headers": len(HEADERS)}}, open(A.out, "w"))
sys.exit(1 if violation else 0)
