#!/usr/bin/env python3
"""mutate.py SEED COUNT [PATTERN]: small random changes to the code, each in a scratch copy; which checks notice?

A mutant that does not compile or that the repository's own tests notice is dropped.  The rest are given to the checks of the
properties that concern the file; survivors are printed with their diff, to be read: equivalent, or missed?"""
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
MAP = [
    (r"src/reference/CUDA/", "C26 C24 C22 C23 C21"),
    (r"src/reference/SerialCode/", "C21 C22 C23 C24"),
    (r"src/reference/GALS_Advection_(MPI|OpenMP)", "C25 C24 C21"),
    (r"src/reference/[^/]*\.h", "C25 C21 C22 C23 C24"),
    (r"grid\.h$", "C01 C02 C03"), (r"array\.h$", "C04"),
    (r"second-order-central", "C05 C07"), (r"third-order", "C06"),
    (r"cpu/gradient\.h|cpu/levelset-velocity|cpu/levelset", "C12 C11 C07 C20"),
    (r"hermite", "C08 C09 C11"), (r"linear", "C10"), (r"interpolate", "C08 C10 C12"),
    (r"semi-lagrangian", "C11 C12"), (r"temporal", "C13 C12"),
    (r"analytical-fields/levelset", "C14"), (r"analytical-fields/velocity", "C15"),
    (r"input", "C16 C19"), (r"file-utils", "C18"), (r"vec|mat3|utilities\.h", "C17 C08"),
    (r"applications/advection", "C19"),
]
SWAPS = [("+", "-"), ("-", "+"), ("*", "/"), ("<", "<="), ("<=", "<"), (">", ">="), (">=", ">"), ("==", "!="), ("&&", "||"), ("||", "&&"),
         ("+=", "-="), ("true", "false"), ("false", "true"), ("min", "max"), ("max", "min"), ("double", "float")]
TOKEN = re.compile(r"<<<|>>>|<<|>>|<=|>=|==|!=|&&|\|\||\+\+|--|\+=|-=|->|::|\d+\.\d*|\d+|\w+|[^\s\w]")


def candidates(path):
    text = open(path, errors="replace").read()
    out, at, comment, dead = [], 0, False, False
    for line in text.split("\n"):
        s = line.strip()
        f = re.match(r"\s*(?:void|double|psinode|__\w+ \w+(?: int)?)\s+(\w+)\s*\(", line)
        if f and "reference" in path:                 # functions that nothing calls
            dead = bool(re.search(r"_mpi$|^derivinit", f.group(1)) or ("SerialCode" in path and re.search(r"_MPI$|alloc_2d", f.group(1)))
                        or ("CUDA" in path and re.search("Heuns_internal", f.group(1))))
        start, at = at, at + len(line) + 1
        if comment or s.startswith("/*"):
            comment = "*/" not in s
            continue
        if dead or s.startswith(("//", "#", "*", "template", "using", "namespace", "class")) or not s:
            continue
        code = line.split("//")[0]
        for m in TOKEN.finditer(code):
            tok = m.group(0)
            if code[:m.start()].count('"') % 2:
                continue
            for a, b in SWAPS:
                if tok == a and not (tok in "*<>&" and re.search(r"(double|int|float|char|auto|T|const|vector|Array|Grid|Vec\w*|template|_cast|tuple)\s*\*?$", code[:m.start()])):
                    out.append((start + m.start(), len(tok), b))
            if re.fullmatch(r"\d+", tok):
                out.append((start + m.start(), len(tok), str(int(tok) + 1)))
            elif re.fullmatch(r"\d+\.\d*", tok):
                out.append((start + m.start(), len(tok), tok + "1" if "." in tok and tok[-1] != "." else tok + "01"))
            elif re.fullmatch(r"\w*[xyXY]\w*", tok) and len(tok) < 14 and "fixed" not in tok and "yadv" != tok[:0]:
                t = tok.translate(str.maketrans("xyXYij", "yxYXji")) if tok not in ("ix", "iy") else {"ix": "iy", "iy": "ix"}[tok]
                out.append((start + m.start(), len(tok), t))
            elif tok in ("i", "j", "k", "l"):
                out.append((start + m.start(), 1, {"i": "j", "j": "i", "k": "l", "l": "k"}[tok]))
        if s.endswith(";") and "=" in s and not re.match(r"(const\s+)?(unsigned|int|double|auto|return|typedef|static|std::|size_t|\w+\s+\w+\s*=)", s):
            out.append((start + len(line) - len(line.lstrip()), len(s), ";"))
    return text, out


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def tests_pass(copy):
    r = sh("mkdir -p ext/yaml-cpp ext/spdlog ext/filesystem tests/googletest; cmake -S . -B _build -G Ninja -DCMAKE_BUILD_TYPE=RelWithDebInfo -DBUILD_TESTS=ON "
           "-DCMAKE_CXX_FLAGS=-Wno-error -DCMAKE_PROJECT_gals_cuda_INCLUDE=/opt/vp/cmake/offline.cmake && ninja -C _build", shell=True, cwd=copy)
    if r.returncode:
        return False
    try:
        return sh(["./gals_unit_tests"], cwd=copy + "/_build/tests", timeout=60).returncode == 0
    except subprocess.TimeoutExpired:
        return False


def main():
    seed, count = int(sys.argv[1]), int(sys.argv[2])
    pattern = sys.argv[3] if len(sys.argv) > 3 else ""
    rng = random.Random(seed)
    files = [f for f in sh(["git", "-C", REPO, "ls-files", "src", "include", "applications"]).stdout.split()
             if re.search(r"\.(h|cc|cpp|cu)$", f) and "OldSerial" not in f and "src/main" not in f and re.search(pattern, f)]
    pool = []
    for f in files:
        _, c = candidates(os.path.join(REPO, f))
        pool += [(f,) + x for x in c]
    rng.shuffle(pool)
    base = tempfile.mkdtemp(prefix="mut", dir="/tmp")
    tried = caught = 0
    try:
        for f, at, n, new in pool:
            if tried >= count:
                break
            copy = os.path.join(base, "r")
            shutil.rmtree(copy, ignore_errors=True)
            sh(["git", "clone", "-q", REPO, copy])
            p = os.path.join(copy, f)
            text = open(p, errors="replace").read()
            open(p, "w").write(text[:at] + new + text[at + n:])
            if "reference" not in f and not tests_pass(copy):
                continue
            props = next((m[1] for m in MAP if re.search(m[0], f)), "").split()
            got = None
            for pid in props:
                r = sh([sys.executable, os.path.join(VERIF, "run.py"), pid, "quick"], env=dict(os.environ, GALS_MUTANT=copy, VERIF_SEED="1", GALS_OUT=base))
                if r.returncode == 1:
                    got = pid
                    break
                if r.returncode not in (0, 1):
                    got = "nobuild" if "compilation failed" in r.stdout else "tool:" + pid
                    break
            if got == "nobuild":
                continue
            tried += 1
            caught += bool(got)
            d = sh(["git", "-C", copy, "diff", "-U0"]).stdout
            print("%s %s %s" % ("caught " + got if got else "SURVIVED", f, "" if got else d[d.find("@@"):]), flush=True)
        print("%d of %d" % (caught, tried))
    finally:
        shutil.rmtree(base, ignore_errors=True)


main()
