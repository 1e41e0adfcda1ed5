"""The reference solvers of src/reference: built from the current tree with their settings opened, run, and their files read.

The programs keep their settings in their sources and tell the user to edit them there.  The build copies the sources to
scratch and lets every setting be taken from the environment instead; nothing else is changed.  The CUDA program is compiled
for the CPU (harness/ref/cuda.h)."""
import json
import os
import re
import shutil
import subprocess

from engine import FILL, JOBS, REPO, VERIF, ToolError, sh

SRC = os.path.join(REPO, "src/reference")
HARNESS = os.path.join(VERIF, "harness/ref")
NUMBERS = ["xlim1", "xlim2", "nx", "ylim1", "ylim2", "ny", "dt", "Tfinal", "option", "printstep", "T_period", "TileSize"]
WORDS = ["psischeme", "backtrace_scheme"]
CONSTANTS = ["xo", "yo", "rcircle"]
PROGRAMS = {
    "serial": ("SerialCode/GALS_Advection.cpp", ["g++"]),
    "omp": ("GALS_Advection_OpenMP.cpp", ["g++", "-I", os.path.join(HARNESS, "mpi")]),
    "mpi": ("GALS_Advection_MPI.cpp", ["g++", "-I", os.path.join(HARNESS, "mpi")]),
    "mpiomp": ("GALS_Advection_MPI_OpenMP.cpp", ["g++", "-I", os.path.join(HARNESS, "mpi")]),
    "ompx": ("GALS_Advection_OpenMP.cpp", ["g++", "-I", os.path.join(HARNESS, "mpi")]),              # with chosen schedules and a record of conflicting accesses
    "mpiompx": ("GALS_Advection_MPI_OpenMP.cpp", ["g++", "-I", os.path.join(HARNESS, "mpi")]),
    "cuda": ("CUDA/GALS_Advection.cu", ["g++", "-x", "c++"]),
    "cudax": ("CUDA/GALS_Advection.cu", ["g++", "-x", "c++"]),
}
FILES = {"phi": "phi.txt", "psix": "psix.txt", "psiy": "psiy.txt", "psixy": "psixy.txt", "u": "Velocity_x.txt", "v": "Velocity_y.txt"}
CONST = r"[-+*/().\s\deEfFuUlL]*\d[-+*/().\s\deEfFuUlL]*"


INTEGERS = {"nx", "ny", "option", "printstep", "TileSize"}


def opened(text):
    """the same source with its settings taken from the environment: whatever way the constants are given to their names"""
    found = set()

    def value(name):
        found.add(name)
        return "%sgals_setting(\"%s\")" % ("(unsigned int) " if name in INTEGERS else "", name)
    names = "|".join(NUMBERS + CONSTANTS)
    text = re.sub(r"^([ \t]*#[ \t]*define[ \t]+)(%s)[ \t]+%s$" % (names, CONST.replace(r"\s", " \t")),
                  lambda m: "%s%s (%s)" % (m.group(1), m.group(2), value(m.group(2))), text, flags=re.M)
    text = re.sub(r"(?<![\w.>])(%s)\b\s*(?:=\s*%s(?=[;,])|\{%s\}(?=\s*[;,])|\(%s\)(?=\s*[;,]))" % (names, CONST, CONST, CONST),
                  lambda m: "%s = %s" % (m.group(1), value(m.group(1))), text)

    def word(m):
        found.add(m.group("name"))
        return "%s%s = gals_word(\"%s\")" % ("*" if m.group("array") else "", m.group("name"), m.group("name"))
    literal = r"\"[^\"]*\""
    text = re.sub(r"(?<![\w.>])(?P<name>%s)\b\s*(?P<array>\[\s*\d*\s*\])?\s*(?:=\s*\{?\s*%s\s*\}?|[{(]\s*%s\s*[})])(?=\s*[;,])" % ("|".join(WORDS), literal, literal), word, text)
    text = re.sub(r"\bconstexpr\b(?=[^;]*gals_(?:setting|word))", "const", text)
    return re.sub(r"\bconst\s+char\s*\*\s*(\w+ = gals_word)", r"char *\1", text), found


PRELUDE = """#pragma once
#include <algorithm>
#include <cmath>
#include <cstdlib>
static inline double gals_setting(const char *name)
{
  const char *s = getenv((std::string("GALS_") + name).c_str());
  if (!s) abort();
  return strtod(s, nullptr);
}
static inline char *gals_word(const char *name)
{
  char *s = getenv((std::string("GALS_") + name).c_str());
  if (!s) abort();
  return s;
}
"""


def build(work, programs):
    """compile the programs; a dict name -> executable"""
    base = work.path("ref")
    if not os.path.exists(base):
        shutil.copytree(SRC, base)
        found = {}
        for root, _, files in os.walk(base):
            for f in files:
                if not f.endswith((".h", ".hpp", ".cpp", ".cc", ".cu", ".cuh")):
                    continue
                p = os.path.join(root, f)
                text, names = opened(open(p, errors="replace").read())
                text = re.sub(r"([\w:]+)\s*<<<([^;]*?)>>>\s*\(", r"gals_emulation::launch(\1, \2)(", text)
                open(p, "w").write(text)
                found.setdefault(os.path.relpath(root, base), set()).update(names)
        need = set(NUMBERS + WORDS + CONSTANTS)
        missing = [(d, sorted((need if d == "CUDA" else need - {"TileSize"}) - found.get(d, set())))
                   for d in (".", "SerialCode", "CUDA")]
        if any(m for _, m in missing):
            raise ToolError("settings not found in src/reference: %s" % [m for m in missing if m[1]])
        with open(os.path.join(base, "gals_prelude.h"), "w") as f:
            f.write("#include <string>\n" + PRELUDE)
    jobs, links = [], []
    for p in programs:
        src, cc = PROGRAMS[p]
        out = work.path("ref-" + p)
        cmd = (cc if p not in ("cuda", "cudax") else cc[:1]) + ["-std=c++14", "-w", "-g1", "-ffp-contract=off", "-ftrivial-auto-var-init=pattern", "-D_GLIBCXX_ASSERTIONS", "-include", os.path.join(base, "gals_prelude.h")]
        if p in ("ompx", "mpiompx", "cudax"):
            objs = [out + ".o", out + ".team.o"]
            flags = ["-fopenmp"] if p != "cudax" else ["-I", HARNESS, "-DGALS_SHADOW", "-include", os.path.join(HARNESS, "cuda.h")] + cc[1:]
            jobs.append(cmd + ["-O1", "-fno-inline", "-fsanitize=thread", "-no-pie", "-fno-pie"] + flags + ["-c", os.path.join(base, src), "-o", objs[0]])
            jobs.append(["g++", "-std=c++14", "-O2", "-w", "-fno-pie", "-c", os.path.join(HARNESS, "team.cc"), "-o", objs[1]])
            links.append(cc[:1] + ["-no-pie"] + objs + ["-Wl,--wrap=free", "-o", out])
            continue
        extra = []
        if p == "cuda":
            cmd += ["-O1", "-fsanitize=address", "-I", HARNESS, "-include", os.path.join(HARNESS, "cuda.h")] + cc[1:]
        elif p in ("omp", "mpiomp"):
            cmd += ["-O0", "-fsanitize=address", "-finstrument-functions", "-fopenmp"]
            extra = [os.path.join(HARNESS, "perturb.cc")]
        elif p == "mpi":
            cmd += ["-O0", "-fsanitize=address", "-finstrument-functions"]
            extra = [os.path.join(HARNESS, "perturb.cc")]
        else:
            cmd += ["-O1", "-fsanitize=address"]
        jobs.append(cmd + [os.path.join(base, src)] + extra + ["-o", out])
    work._compile(jobs)
    for l in links:          # parallel constructs the chosen schedules do not know: leave the program to its own
        if sh(l).returncode:
            print("note: %s has no controlled build" % os.path.basename(l[-1]))
    return {p: work.path("ref-" + p) for p in programs if os.path.exists(work.path("ref-" + p))}


def setting(S):
    e = {k: ("%.17g" % S[k] if isinstance(S[k], float) else str(S[k])) for k in NUMBERS + WORDS + CONSTANTS}
    return {"GALS_" + k: v for k, v in e.items()}


def command(exe, program, run):
    if program in ("serial", "cuda", "cudax"):
        return [exe]
    if program in ("omp", "ompx"):
        return [exe, str(run["threads"])]
    return [exe] + ([str(run["threads"])] if program in ("mpiomp", "mpiompx") else [])


def exact(x):
    return float(x).hex()


def frames(path):
    """frames of one output file: lists of rows of printed numbers; frames end with an empty line"""
    out, cur = [], []
    if not os.path.exists(path):
        return out
    for l in open(path, errors="replace").read().split("\n"):
        if l.strip() == "":
            if cur:
                out.append(cur)
            cur = []
        else:
            cur.append(l.split(","))
    if cur:
        out.append(cur)
    return out


def conflicts(exe, path):
    """accesses of two threads to one place that nothing orders: [[kind, where, where], ...]"""
    out = []
    if os.path.exists(path):
        for l in open(path):
            kind, a, b = l.split()
            w = sh(["addr2line", "-e", exe, "%x" % (int(a, 16) - 1), "%x" % (int(b, 16) - 1)]).stdout.split("\n")
            out.append([kind] + [os.path.basename(x.split(" ")[0]) for x in w[:2]])
        os.unlink(path)
    return sorted(set(map(tuple, out)))[:6]


def record(work, exes, h, timeout=100):
    """events of the runs of one history; the runs share a directory unless they ask for another"""
    events = [{"t": "begin", "id": h["id"]}]
    dirs = {}
    try:
        for run in h["runs"]:
            if run["program"] not in exes:
                run = dict(run, program=run["program"][:-1], judge=[j for j in run["judge"] if j != "race"])
            d = dirs.get(run.get("dir", ""))
            if d is None:
                d = dirs[run.get("dir", "")] = work.fresh("refrun")
                os.makedirs(d)
            if run.get("cut"):               # the run before did not come to its end
                for i, name in enumerate(list(FILES.values()) + ["details.txt"]):
                    path = os.path.join(d, name)
                    if os.path.exists(path):
                        text = open(path, errors="replace").read()
                        open(path, "w").write(text[:len(text) * (3 + 2 * i) // 18])
            for name, text in run.get("before", {}).items():      # what an earlier user left in the directory
                open(os.path.join(d, name), "w").write(text)
            S = run["S"]
            env = {**FILL, "OMP_DYNAMIC": "false", "OMP_WAIT_POLICY": "passive", "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:max_malloc_fill_size=1048576:malloc_fill_byte=191",
                   "GALS_RANKS": "2" if run["program"].startswith("mpi") else "1"}
            if run.get("room") is not None:         # a longer message waits for its receiver
                env["GALS_ROOM"] = str(run["room"])
            env.update(setting(S))
            env.update(run.get("env", {}))
            if run["program"].endswith("x"):
                env["GALS_RACES"] = races = work.fresh("races")
            cmd = command(exes[run["program"]], run["program"], run)
            why = None
            try:
                r = sh(cmd, timeout=timeout, env=env, cwd=d)
                if r.returncode != 0:
                    why = "%s: exit status %d: %s" % (run["program"], r.returncode, r.stdout[-300:])
            except subprocess.TimeoutExpired:
                why = "%s: no end within %d s" % (run["program"], timeout)
            if why:
                events.append({"t": "crash", "why": why[:400]})
                break
            got = {q: frames(os.path.join(d, f)) for q, f in FILES.items()}
            path = os.path.join(d, "details.txt")
            details = open(path, errors="replace").read().strip("\n").split(",") if os.path.exists(path) else []
            if run["program"] in ("cuda", "cudax"):          # its schemes are fixed
                S = dict(S, psischeme="SuperConsistent", backtrace_scheme="RK3")
            every = S["printstep"] if S["option"] == 1 else run["n"]
            ev = {"t": "ref0", "name": run["name"], "program": run["program"], "judge": run["judge"], "details": details,
                  "nx": S["nx"], "ny": S["ny"], "lim": [exact(S[k]) for k in ("xlim1", "xlim2", "ylim1", "ylim2")],
                  "dt": exact(S["dt"]), "tf": exact(S["Tfinal"]), "T": exact(S["T_period"]), "option": S["option"], "every": S["printstep"],
                  "scheme": S["psischeme"], "back": S["backtrace_scheme"], "c": [exact(S[k]) for k in CONSTANTS]}
            if "files" in run["judge"]:
                ev["shapes"] = {q: [[len(r) for r in f] for f in got[q]] for q in FILES}
            if run["program"].endswith("x"):
                ev["conflicts"] = conflicts(exes[run["program"]], races)
            events.append(ev)
            if set(run["judge"]) - {"files"} or run.get("keep"):
                for m in range(max(len(f) for f in got.values()) if got else 0):
                    events.append({"t": "ref1", "name": run["name"], "k": m * max(1, every), "judge": run["judge"], "like": run.get("like", ""),
                                   "f": {q: (got[q][m] if m < len(got[q]) else []) for q in FILES}})
            events.append({"t": "ref2", "name": run["name"], "judge": run["judge"]})
    finally:
        for d in dirs.values():
            shutil.rmtree(d, ignore_errors=True)
    return [json.dumps(e) + "\n" for e in events]
