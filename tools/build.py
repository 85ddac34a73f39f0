#!/usr/bin/env python3
"""Builds the simulator from /repo's working tree: build.py VARIANT PROPERTY [JOBS]

Variants: fast (no sanitizer), asan (AddressSanitizer and UndefinedBehaviorSanitizer, no recovery).
Prints the path of the executable. All build products are below /verif/build."""
import fcntl, glob, os, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SIM_REPO", "/repo")

COMMON = ["-std=c++20", "-O1", "-g1", "-Wno-format-security", "-fno-omit-frame-pointer", "-I" + REPO, "-I" + REPO + "/src"]
VARIANT = {
    "fast": [],
    "asan": ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-sanitize=vptr"],
}
WRAP = ["__cxa_guard_acquire", "__cxa_guard_release", "__cxa_guard_abort"]
CYCLE = ["_ZN16bit_manipulation3bms15Virtual_Machine5cycleEv"]
CORE = ["core_misc.cpp", "heap.cpp", "fiber.cpp", "main.cpp"]
MODEL = ["model.cpp", "modelgen.cpp"]
JOBS = ["jobs.cpp", "gen.cpp"]
# property -> harness files, repository parts, options
PARTS = {
    "lib": ["src/bms/**/*.cpp", "src/bmd/**/*.cpp", "src/common/**/*.cpp", "src/cli/glue.cpp"],
    "cli": ["src/cli/compile.cpp", "src/cli/main.cpp"],
}
PROPS = {
    "P01": (["p01.cpp", "simio.cpp"] + MODEL + JOBS, ["lib", "cli"]),
    "P02": (["p02.cpp", "simio.cpp"] + MODEL + JOBS, ["lib", "cli"]),
    "P13": (["p13.cpp"], []),
}
DEFAULT = (MODEL + JOBS, ["lib"])


def esc(p):
    return p.replace(" ", "$ ").replace(":", "$:")


def corpus_source(path):
    out = ['#include <cstddef>', 'namespace sim { struct Corpus_Entry { const char* name; const char* text; std::size_t size; };',
           'extern const Corpus_Entry corpus_data[];', 'const Corpus_Entry corpus_data[] = {']
    for f in sorted(glob.glob(VERIF + "/corpus/*")):
        data = open(f, "rb").read()
        lit = "".join("\\%03o" % b for b in data)
        out.append('{"%s", "%s", %d},' % (os.path.basename(f), lit, len(data)))
    out.append("{nullptr, nullptr, 0} }; }")
    text = "\n".join(out) + "\n"
    if not os.path.exists(path) or open(path).read() != text:
        open(path, "w").write(text)


def build(variant, prop, jobs=8):
    harness, parts = PROPS.get(prop, ([prop.lower() + ".cpp"] + DEFAULT[0], DEFAULT[1]))
    harness = [h for h in CORE if os.path.exists(VERIF + "/sim/" + h)] + harness
    if not parts:
        harness = [h for h in harness if h not in JOBS]
    bdir = os.path.join(VERIF, "build", variant + ("" if REPO == "/repo" else "-" + os.path.basename(REPO)))
    os.makedirs(bdir, exist_ok=True)
    with open(os.path.join(bdir, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        n = ["cxx = g++", "flags = " + " ".join(COMMON + VARIANT[variant]),
             "rule hcc\n  command = $cxx $flags -Wall -I%s/sim -MMD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc" % VERIF,
             "rule scc\n  command = $cxx $flags -fsanitize-coverage=trace-pc $extra -MMD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc",
             "rule link\n  command = $cxx $flags $in -o $out $lflags"]
        objs = []
        for h in harness:
            o = "h_" + h.replace("/", "_") + ".o"
            src = os.path.join(VERIF, "sim", h)
            # the code under test of P13 is in headers
            n.append("build %s: %s %s" % (o, "scc" if h == "p13.cpp" else "hcc", esc(src)))
            if h == "p13.cpp":
                n.append("  extra = -Wall -I%s/sim" % VERIF)
            objs.append(o)
        if "gen.cpp" in harness:
            corpus_source(os.path.join(bdir, "corpus_data.cpp"))
            n.append("build h_corpus_data.o: hcc %s" % esc(os.path.join(bdir, "corpus_data.cpp")))
            objs.append("h_corpus_data.o")
        for part in parts:
            for pat in PARTS[part]:
                for src in sorted(glob.glob(os.path.join(REPO, pat), recursive=True)):
                    o = "s_" + os.path.relpath(src, REPO).replace("/", "_") + ".o"
                    n.append("build %s: scc %s" % (o, esc(src)))
                    if src.endswith("cli/main.cpp"):
                        n.append("  extra = -Dmain=bm_cli_main")
                    objs.append(o)
        exe = "sim-" + prop
        wrap = list(WRAP) + (CYCLE if "lib" in parts else [])
        n.append("build %s: link %s" % (exe, " ".join(objs)))
        n.append("  lflags = " + " ".join("-Wl,--wrap=" + w for w in wrap))
        nf = os.path.join(bdir, prop + ".ninja")
        text = "\n".join(n) + "\n"
        if not os.path.exists(nf) or open(nf).read() != text:
            open(nf, "w").write(text)
        r = subprocess.run(["ninja", "-C", bdir, "-f", nf, "-j", str(jobs), exe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            sys.stderr.write(r.stdout[-8000:])
            raise SystemExit(2)
    return os.path.join(bdir, exe)


if __name__ == "__main__":
    print(build(sys.argv[1], sys.argv[2], int(sys.argv[3]) if len(sys.argv) > 3 else 8))
