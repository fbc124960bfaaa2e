"""C24: run det in every build configuration and compare all results bit for bit."""
import argparse, concurrent.futures, json, os, re, subprocess, sys, time

ap = argparse.ArgumentParser()
for a in ("repo", "build", "out", "tier"):
    ap.add_argument("--" + a)
ap.add_argument("configs", nargs="+")
A = ap.parse_args()
SKIP = "736b6970"
ENV = dict(os.environ, UBSAN_OPTIONS="print_stacktrace=0:halt_on_error=1", ASAN_OPTIONS="detect_leaks=0:detect_stack_use_after_return=1")


def run(c):
    out = os.path.join(A.build, c + ".sums")
    try:
        r = subprocess.run([os.path.join(A.build, c), "--out", out, "--tier", A.tier], env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=1700 if A.tier == "thorough" else 600)
        return c, r.returncode, r.stdout, load(out)
    except subprocess.TimeoutExpired:
        return c, "timeout", "", load(out)


def load(path):
    d = {}
    if os.path.exists(path):
        for line in open(path):
            p = line.rstrip("\n").split("\t")
            if len(p) == 3:
                n, *h = p[1].split(" ")
                d[p[0]] = (int(n), h, int(p[2]))
    return d


def dump(c, space, block):
    r = subprocess.run([os.path.join(A.build, c), "--dump", space, str(block), "--tier", A.tier], env=ENV, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
    return dict((int(x.split()[0]), x.split()[1]) for x in r.stdout.splitlines())


def finish(spaces, violation=None):
    json.dump({"property": "C24", "tier": A.tier, "violated": violation is not None, "violation": violation, "spaces": spaces,
               "extra": {"configurations": len(A.configs)}}, open(A.out, "w"))
    sys.exit(1 if violation else 0)


def bad(space, index, msg, detail=""):
    return {"space": space, "index": index, "from": index, "msg": msg, "detail": detail}


with concurrent.futures.ThreadPoolExecutor(8) as ex:
    res = list(ex.map(run, A.configs))
ref = max(res, key=lambda r: len(r[3]))
spaces = []
for name, (n, h, skipped) in ref[3].items():
    spaces.append({"name": name, "n": n, "states": n * len(res), "transitions": (n - skipped) * (len(res) - 1), "valid": (n - skipped) * len(res), "secs": 0,
                   "sample": "block 0 of %s: %s in all of %s" % (name, h[0], ", ".join(A.configs)) if name.startswith("sin ") else ""})
for c, rc, log, d in res:
    if rc != 0:
        m = re.search(r"(runtime error: [^\n]*|ERROR: AddressSanitizer: [^\n]*)", log)
        if rc == "timeout":
            finish(spaces, bad(c, 0, "the calls do not return in the build " + c))
        if isinstance(rc, int) and rc == -9:
            print("killed from outside")
            sys.exit(3)
        finish(spaces, bad(c, 0, "build %s, after %d spaces (%s): %s" % (c, len(d), list(d)[-1] if d else "-", m.group(1) if m else "ended with status %s" % rc), log[-3000:]))
base = ref[3]
for c, rc, log, d in res:
    for name, (n, h, _) in d.items():
        if base[name][1] == h:
            continue
        for b, (x, y) in enumerate(zip(base[name][1], h)):
            if x == y:
                continue
            u, v = dump(ref[0], name, b), dump(c, name, b)
            for i in sorted(set(u) | set(v)):
                if u.get(i) != v.get(i) and SKIP not in (u.get(i), v.get(i)):
                    finish(spaces, bad(name, i, "%s, call number %d: the result is %s in the build %s but %s in the build %s" % (name, i, u.get(i), ref[0], v.get(i), c)))
# constant expressions and run time calls
for name, (n, h, _) in base.items():
    if name.startswith("constant "):
        o = "run time " + name[9:]
        if base[o][1] != h:
            u, v = dump(ref[0], name, 0), dump(ref[0], o, 0)
            i = min((i for i in u if u[i] != v.get(i)), default=0)
            finish(spaces, bad(name, i, "%s: value %d is %s as a constant expression but %s at run time" % (name[9:], i, u.get(i), v.get(i))))
finish(spaces)
