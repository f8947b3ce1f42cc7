#!/usr/bin/env python3
"""Builds pdfmm from /repo's working tree (never writing into /repo) together with
the harnesses, incrementally, in /verif/.build.   usage: build.py C01 [C02 ...]"""
import os, re, subprocess, sys, shlex

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, ".build"))

SAN = {"asan": "-fsanitize=address -fno-omit-frame-pointer",
       "cov": "-fsanitize=address -fno-omit-frame-pointer -fsanitize-coverage=trace-pc"}
# objects that hold only constant tables: no need to instrument or optimise
DATA = ("PdfStandard14FontFiles.cpp", "PdfStandard14FontData.cpp")
LIBS = "-lssl -lcrypto -lfontconfig -lfreetype -lxml2 -lpng -ltiff -ljpeg -lz -lidn -lpthread"


def write_if_changed(path, text):
    try:
        if open(path).read() == text:
            return
    except OSError:
        pass
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        f.write(text)


def config_header():
    src = open(f"{REPO}/src/pdfmm/pdfmm_config.h.in").read()
    cm = open(f"{REPO}/CMakeLists.txt").read()
    def var(m):
        v = re.search(r'set\(%s\s+"([^"]*)"' % m.group(1), cm)
        return v.group(1) if v else "0"
    src = re.sub(r"@(\w+)@", var, src)
    return re.sub(r"#cmakedefine (\w+)", lambda m: ("// " if "WIN32" in m.group(1) else "") + "#define " + m.group(1), src)


def generate(props):
    os.makedirs(BUILD, exist_ok=True)
    write_if_changed(f"{BUILD}/cfg/pdfmm_config.h", config_header())
    write_if_changed(f"{BUILD}/cfg/pre.h", open(f"{VERIF}/harness/pre.h").read())
    inc = f"-I{BUILD}/cfg -I{REPO}/src -I{REPO}/3rdparty -I/usr/include/freetype2 -I/usr/include/libxml2 -I{VERIF}/harness"
    defs = "-DNDEBUG -DHAS_UNCAUGHT_EXCEPTIONS=1 -DPDFMM_STATIC -D_GLIBCXX_ASSERTIONS -DPDFMM_VERIF_HOOKS"
    common = f"-std=gnu++17 -O1 -g1 -w {defs} {inc}"
    srcs = []
    for top in (f"{REPO}/src", f"{REPO}/3rdparty/pdfium"):
        for d, dirs, files in os.walk(top):
            dirs.sort()
            for f in sorted(files):
                if f.endswith(".cpp"):
                    srcs.append(os.path.join(d, f))
    srcs.sort(key=lambda p: -os.path.getsize(p) * (10 if "fmt::format" in open(p, errors="replace").read() else 1))
    out = ["ninja_required_version = 1.5",
           "rule pch\n  command = g++ $flags -x c++-header $in -o $out -MD -MF $out.d\n  depfile = $out.d\n  deps = gcc\n  description = PCH $out",
           "rule cxx\n  command = g++ $flags -c $in -o $out -MD -MF $out.d\n  depfile = $out.d\n  deps = gcc\n  description = CXX $in",
           "rule ar\n  command = rm -f $out && ar crs $out $in\n  description = AR $out",
           "rule link\n  command = g++ $flags $in -o $out $libs\n  description = LINK $out"]
    variants = sorted({"cov" if open(f"{VERIF}/harness/{p}.cpp").read().startswith("// variant: cov") else "asan" for p in props})
    for v in variants:
        flags = f"{SAN[v]} {common}"
        out.append(f"build {BUILD}/{v}/pre.h.gch: pch {BUILD}/cfg/pre.h\n  flags = {flags}")
        pre = f"-I{BUILD}/{v} -include {BUILD}/{v}/pre.h"
        write_if_changed(f"{BUILD}/{v}/pre.h", f'#include "{BUILD}/cfg/pre.h"\n')
        objs = []
        # harness first: they are the longest single compilations
        hs = []
        hnocov = f"{SAN['asan']} {common}"
        if v != "asan":
            out.append(f"build {BUILD}/{v}/hpre/pre.h.gch: pch {BUILD}/cfg/pre.h\n  flags = {hnocov}")
            write_if_changed(f"{BUILD}/{v}/hpre/pre.h", f'#include "{BUILD}/cfg/pre.h"\n')
            hpre, hgch = f"-include {BUILD}/{v}/hpre/pre.h", f"{BUILD}/{v}/hpre/pre.h.gch"
        else:
            hpre, hgch = pre, f"{BUILD}/{v}/pre.h.gch"
        names = ["pbt", "fmtimpl"] + [f[:-4] for f in sorted(os.listdir(f"{VERIF}/harness")) if f.startswith("ref") and f.endswith(".cpp")]
        for n in names:
            out.append(f"build {BUILD}/{v}/h_{n}.o: cxx {VERIF}/harness/{n}.cpp | {hgch}\n  flags = {hpre} {hnocov}")
            hs.append(f"{BUILD}/{v}/h_{n}.o")
        for p in props:
            if ("cov" if open(f"{VERIF}/harness/{p}.cpp").read().startswith("// variant: cov") else "asan") != v:
                continue
            out.append(f"build {BUILD}/{v}/h_{p}.o: cxx {VERIF}/harness/{p}.cpp | {hgch}\n  flags = {hpre} {hnocov}")
            out.append(f"build {BUILD}/{p}: link {BUILD}/{v}/h_{p}.o {' '.join(hs)} {BUILD}/{v}/libpdfmm.a\n  flags = {SAN['asan']} -fuse-ld=gold\n  libs = {LIBS}")
            out.append(f"build {p}: phony {BUILD}/{p}")
        for s in srcs:
            o = f"{BUILD}/{v}/o/" + os.path.relpath(s, REPO).replace("/", "_")[:-4] + ".o"
            objs.append(o)
            if os.path.basename(s) in DATA:
                out.append(f"build {o}: cxx {s} | {BUILD}/cfg/pre.h\n  flags = -std=gnu++17 -O0 -w {defs} {inc}")
            else:
                out.append(f"build {o}: cxx {s} | {BUILD}/{v}/pre.h.gch\n  flags = {pre} {flags}")
        out.append(f"build {BUILD}/{v}/libpdfmm.a: ar {' '.join(objs)}")
    write_if_changed(f"{BUILD}/build.ninja", "\n".join(out) + "\n")


def build(props, quiet=True):
    generate(props)
    r = subprocess.run(["ninja", "-C", BUILD, "-j", str(os.cpu_count() or 8)] + props, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if r.returncode != 0:
        sys.stdout.write(r.stdout[-6000:])
    elif not quiet:
        print(r.stdout.splitlines()[-1])
    return r.returncode


if __name__ == "__main__":
    sys.exit(build(sys.argv[1:], False))
