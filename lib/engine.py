"""Builds the harness from /repo's working tree, runs call scripts on it, and lets TLC decide the recorded traces."""
import concurrent.futures
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("GALS_MUTANT", "/repo")          # mutants are tried on a copy (tools/mutate.py)
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CXX = ["g++", "-O2", "-g1", "-DNDEBUG", "-DBUILD_TESTS", "-D_GLIBCXX_ASSERTIONS", "-std=c++14", "-w", "-ffp-contract=off",
       "-ftrivial-auto-var-init=pattern"]               # what was never written is never zero by luck: locals,
FILL = {"MALLOC_PERTURB_": "64"}                          # and memory from the heap (0xbf), and memory given back (0x40)
JOBS = 8


class ToolError(Exception):
    """The machinery itself failed; nothing was decided."""


def sh(cmd, timeout=600, env=None, cwd=None):
    e = dict(os.environ)
    e.update(env or {})
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=e, cwd=cwd,
                          text=True, errors="replace")


def library():
    srcs = []
    for root, _, files in os.walk(os.path.join(REPO, "src/cpu")):
        srcs += [os.path.join(root, f) for f in files if f.endswith(".cc")]
    return sorted(srcs)


class Work:
    """A scratch directory with the harness built from the current tree."""

    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="galsv.")
        self.classes = os.path.join(self.dir, "classes")
        self.objs = None
        os.makedirs(self.classes)
        self._java = False
        self._count = 0

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def path(self, *p):
        return os.path.join(self.dir, *p)

    def fresh(self, name):
        self._count += 1
        return self.path("%s.%d" % (name, self._count))

    # ---- building -------------------------------------------------------
    def java(self):
        if not self._java:
            r = sh(["javac", "-cp", JAR, "-d", self.classes, os.path.join(VERIF, "spec/java/Rat.java")])
            if r.returncode:
                raise ToolError("javac failed:\n" + r.stdout)
            self._java = True

    def _compile(self, jobs):
        def one(j):
            return j, sh(j)
        with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
            for j, r in ex.map(one, jobs):
                if r.returncode:
                    raise ToolError("compilation failed: %s\n%s" % (" ".join(j), r.stdout[-4000:]))

    def build(self, flags=(), tag="", program="driver"):
        """objects of the library and the driver, all in one go"""
        out = self.path(program + tag)
        if os.path.exists(out):
            return out
        inc = ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(VERIF, "harness/shim")]
        d = self.path("obj" + tag)
        jobs, objs = [], []
        for s in library():
            o = os.path.join(d, os.path.relpath(s, REPO).replace("/", "_") + ".o")
            objs.append(o)
            if not os.path.exists(o):
                jobs.append(CXX + list(flags) + inc + ["-c", s, "-o", o])
        os.makedirs(d, exist_ok=True)
        if program == "driver":
            main = os.path.join(d, "driver.o")
            jobs.insert(0, CXX + ["-O1"] + list(flags) + inc + ["-c", os.path.join(VERIF, "harness/driver.cc"), "-o", main])
        else:
            main = os.path.join(d, "app.o")
            jobs.insert(0, CXX + list(flags) + inc + ([] if tag == ".plain" else ["-DGALS_VERIF_TRACE"]) + ["-I" + os.path.join(VERIF, "harness"), "-c",
                                                      os.path.join(REPO, "applications/advection/main.cc"), "-o", main])
        self._compile(jobs)
        r = sh(["g++"] + [f for f in flags if f.startswith("-fsan")] + [main] + objs + ["-lyaml-cpp", "-o", out])
        if r.returncode:
            raise ToolError("link failed:\n" + r.stdout[-4000:])
        return out

    WRAPPED = [("SYM_LEV", "GALS::ANALYTICAL_FIELDS::Levelset<GALS::CPU::Grid<double, 2>, double>::compute("),
               ("SYM_VEL", "GALS::ANALYTICAL_FIELDS::Velocity<GALS::CPU::Grid<double, 2>, double>::compute("),
               ("SYM_SL", "GALS::TEMPORAL_SCHEMES::SEMI_LAGRANGIAN::Euler<double, GALS::CPU::Grid<double, 2> >::compute(")]

    def build_wrapped(self, flags=(), tag=""):
        """the application as it is, its library calls observed from outside (harness/app-wrap.cc)"""
        out, d, flags = self.path("app.wrapped" + tag), self.path("obj" + tag), list(flags)
        inc = ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(VERIF, "harness/shim"), "-I" + os.path.join(VERIF, "harness")]
        self.build(flags, tag)                         # objects of the library
        objs = sorted(os.path.join(d, f) for f in os.listdir(d) if f.startswith("src_") and f.endswith(".o"))
        names = {}
        for o in objs:
            raw = sh(["nm", "--defined-only", o]).stdout.split("\n")
            nice = sh(["nm", "-C", "--defined-only", o]).stdout.split("\n")
            for a, b in zip(raw, nice):
                for k, want in self.WRAPPED:
                    if want in b:
                        names[k] = a.split()[-1]
        if len(names) != 3:
            raise ToolError("the application's library calls are not there: %s" % sorted(names))
        main, wrap = os.path.join(d, "main.o"), os.path.join(d, "wrap.o")
        self._compile([CXX + flags + inc + ["-c", os.path.join(REPO, "applications/advection/main.cc"), "-o", main],
                       CXX + flags + inc + ["-D%s=%s" % kv for kv in names.items()] + ["-c", os.path.join(VERIF, "harness/app-wrap.cc"), "-o", wrap]])
        r = sh(["g++"] + ["-Wl,--wrap=" + n for n in names.values()] + [main, wrap] + objs + ["-lyaml-cpp", "-o", out])
        if r.returncode:
            raise ToolError("link failed:\n" + r.stdout[-4000:])
        return out

    LOCKS = ["pthread_mutex_lock", "pthread_mutex_trylock", "pthread_mutex_unlock", "pthread_rwlock_rdlock", "pthread_rwlock_wrlock",
             "pthread_rwlock_unlock", "__cxa_guard_acquire", "__cxa_guard_release", "__cxa_guard_abort", "pthread_once", "free",
             "memcpy", "memmove", "memset"]

    def build_threads(self):
        """the library with every access reported, under threads whose schedule is chosen (harness/threads.cc)"""
        out, d = self.path("threads"), self.path("obj.threads")
        if os.path.exists(out):
            return out
        os.makedirs(d, exist_ok=True)
        inc = ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(VERIF, "harness/shim")]
        jobs, objs = [], []
        for s in library():
            objs.append(os.path.join(d, os.path.relpath(s, REPO).replace("/", "_") + ".o"))
            jobs.append(CXX + ["-O1", "-fsanitize=thread", "-fno-pie"] + inc + ["-c", s, "-o", objs[-1]])
        main, team = os.path.join(d, "driver.o"), os.path.join(d, "threads.o")
        jobs.insert(0, CXX + ["-O1", "-fno-pie", "-DGALS_THREADS"] + inc + ["-c", os.path.join(VERIF, "harness/driver.cc"), "-o", main])
        jobs.insert(1, CXX + ["-fno-pie", "-fno-builtin", "-c", os.path.join(VERIF, "harness/threads.cc"), "-o", team])
        self._compile(jobs)
        # the library's objects first: inline functions that both have are the reported ones
        r = sh(["g++", "-no-pie", "-pthread"] + ["-Wl,--wrap=" + n for n in self.LOCKS] + objs + [team, main, "-lyaml-cpp", "-o", out])
        if r.returncode:
            raise ToolError("link failed:\n" + r.stdout[-4000:])
        return out

    def build_app(self, trial, flags=(), tag=""):
        """the application with its observation points; where they are gone, observed from outside"""
        try:
            app = self.build(flags, tag, program="app")
            if any('"t": "app1"' in e for e in self.record_app(app, trial)):
                return app
        except ToolError:
            app = None
        wrapped = self.build_wrapped(flags, tag)
        ev = self.record_app(wrapped, trial)
        if app is None or any('"t": "app1"' in e for e in ev):
            return wrapped
        if any('"t": "app2"' in e and json.loads(e)["lines"] for e in ev):
            raise ToolError("the application runs but neither its observation points nor its library calls were seen")
        return app

    def build_refusing(self):
        """library and application as they are delivered: in the tests' build a refusal is only a message"""
        flags = ["-UBUILD_TESTS", "-O1"]
        return {"driver": self.build(flags, ".plain"), "app": self.build(flags, ".plain", "app")}

    # ---- running the implementation ---------------------------------------
    def record(self, driver, lines, timeout=120, env=None):
        """run a script; returns the list of trace lines (a crash or hang ends it with a crash event)"""
        if isinstance(lines, dict) and "runs" in lines:
            import refs
            return refs.record(self, driver, lines)
        if isinstance(lines, dict) and "threads" in lines:
            return self.record_threads(driver, lines)
        if isinstance(lines, dict) and "argument" in lines:
            return self.record_run(driver["app"], lines)
        if isinstance(lines, dict):
            if isinstance(driver, dict):
                driver = driver[lines.get("build", "app")]
            return self.record_app(driver, lines, env=env)
        if isinstance(driver, dict):
            driver = driver["driver"]
        script, trace = self.fresh("script"), self.fresh("trace")
        scratch = script + ".files"             # @S in a script stands for this directory
        os.makedirs(scratch)
        text = self.write_script(script, scratch, lines)
        why = None
        try:
            e = {**FILL, "GALS_SCRATCH": scratch}
            e.update(env or {})
            r = sh([driver, script, trace], timeout=timeout, env=e, cwd=scratch)
            if r.returncode == 3:
                raise ToolError("driver could not read its script: " + r.stdout[-500:])
            if r.returncode != 0:
                why = "exit status %d: %s" % (r.returncode, r.stdout[-600:])
        except subprocess.TimeoutExpired:
            why = "no answer within %d s" % timeout
        events = []
        if os.path.exists(trace):
            for l in open(trace, errors="replace"):
                if l.endswith("}\n"):
                    events.append(l)
        if why is not None:
            events.append(json.dumps({"t": "crash", "why": why[:300]}) + "\n")
        elif len(events) < len(text):
            events.append(json.dumps({"t": "crash", "why": "the program ended early"}) + "\n")
        os.unlink(script)
        shutil.rmtree(scratch, ignore_errors=True)
        if os.path.exists(trace):
            os.unlink(trace)
        return events

    def write_script(self, script, scratch, lines):
        text = []
        for l in lines:
            if isinstance(l, (tuple, list)):      # ("file", name, contents): an input file the history needs
                with open(l[1].replace("@S", scratch), "w") as f:
                    f.write(l[2])
            else:
                text.append(l.replace("@S", scratch))
        with open(script, "w") as f:
            f.write("\n".join(text) + "\n")
        return text

    def record_threads(self, exe, h, timeout=120):
        """one thread per script of h, all in one process, under the schedule h asks for; their traces one after another"""
        import refs
        scratch = self.fresh("threads")
        os.makedirs(scratch)
        scripts, cmd = [], [exe, os.path.join(scratch, "prologue"), "-"]
        self.write_script(cmd[1], scratch, h["prologue"])
        for k, lines in enumerate(h["threads"]):
            own = os.path.join(scratch, "t%d" % k)
            os.makedirs(own)
            cmd += [own + ".script", own + ".trace"]
            scripts.append(self.write_script(own + ".script", own, lines))
        races, why = os.path.join(scratch, "races"), None
        env = {**FILL, "GALS_SCRATCH": scratch, "GALS_PERTURB": str(h["seed"]), "GALS_PERTURB_RATE": str(h["rate"]), "GALS_RACES": races}
        try:
            r = sh(cmd, timeout=timeout, env=env, cwd=scratch)
            if r.returncode == 3:
                raise ToolError("driver could not read its script: " + r.stdout[-500:])
            if r.returncode != 0:
                why = "exit status %d: %s" % (r.returncode, r.stdout[-300:])
        except subprocess.TimeoutExpired:
            why = "no answer within %d s" % timeout
        events = []
        if why is None:
            for k, text in enumerate(scripts):
                ev = [l for l in open(os.path.join(scratch, "t%d.trace" % k), errors="replace") if l.endswith("}\n")]
                events += ev
                if len(ev) < len(text):
                    why = why or "thread %d ended early" % k
        if why is not None:
            events = [json.dumps({"t": "begin", "id": h["id"]}) + "\n", json.dumps({"t": "crash", "why": why[:300]}) + "\n"]
        c = refs.conflicts(exe, races)
        events += [json.dumps({"t": "begin", "id": h["id"]}) + "\n", json.dumps({"t": "threads", "conflicts": c}) + "\n"]
        shutil.rmtree(scratch, ignore_errors=True)
        return events

    def record_app(self, app, h, timeout=60, env=None):
        """run the application on the input file of h; its trace, framed with what was asked for and what it left"""
        scratch = self.fresh("app")
        os.makedirs(scratch)
        out = os.path.join(scratch, h["out"])
        with open(os.path.join(scratch, "inputs"), "w") as f:
            f.write(h["text"].replace("@OUT", h["out"] if h.get("relative") else out))
        if h.get("stale"):                            # an earlier run has been here
            os.makedirs(out)
            with open(os.path.join(out, "velocity"), "w") as f:
                f.write("9 9 9 9 9 9\n" * 500)
        if h.get("others"):                           # files that are none of the run's business
            os.makedirs(os.path.join(out, "velocity.d"), exist_ok=True)
            for f in ("phi", "psi", "positions", "levelset", "velocity_0", "velocity.txt", "velocity.d/velocity", "../velocity", "../phi"):
                with open(os.path.join(out, f), "w") as o:
                    o.write("not yours: %s\n" % f)

        def files():
            found = {}
            for r, ds, fs in os.walk(scratch):
                for f in fs:
                    with open(os.path.join(r, f), "rb") as o:
                        found[os.path.relpath(os.path.join(r, f), scratch)] = o.read()
                found.update({os.path.relpath(os.path.join(r, d), scratch) + "/": b"" for d in ds})
            return found
        before = files()
        trace = os.path.join(scratch, "trace.ndjson")
        e = {**FILL, "GALS_SCRATCH": scratch, "GALS_APP_TRACE": trace}
        e.update(env or {})
        events, why, status = [json.dumps({"t": "begin", "id": h["id"]}) + "\n"], None, None
        try:
            r = sh([app, os.path.join(scratch, "inputs")], timeout=timeout, env=e, cwd=scratch)
            status = r.returncode
            if status < 0:
                why = "signal %d: %s" % (-status, r.stdout[-300:])
        except subprocess.TimeoutExpired:
            why = "no end within %d s" % timeout
        steps = 0
        if os.path.exists(trace):
            for l in open(trace, errors="replace"):
                if not l.endswith("}\n"):
                    continue
                ev = json.loads(l)
                if ev["t"] == "app0":
                    ev.update(h["asked"])
                elif ev["t"] == "app1":
                    steps += 1
                events.append('{"t": "%s", ' % ev.pop("t") + json.dumps(ev)[1:] + "\n")
                if steps > h["most"]:
                    why = why or "no end"
                    break
        if why is not None:
            events.append(json.dumps({"t": "crash", "why": why[:300]}) + "\n")
        else:
            name = os.path.join(out, "velocity")
            lines = [l.split() for l in open(name, errors="replace")] if os.path.exists(name) else []
            after, part = files(), h["out"].split("/")
            mine = {"trace.ndjson", os.path.join(h["out"], "velocity")} | {"/".join(part[:i + 1]) + "/" for i in range(len(part))}
            touched = sorted(f for f in set(before) | set(after) if f not in mine and before.get(f) != after.get(f))
            events.append(json.dumps({"t": "app2", "status": status, "steps": steps, "lines": lines, "touched": touched}) + "\n")
        shutil.rmtree(scratch, ignore_errors=True)
        return events

    def record_run(self, app, h, timeout=30):
        """run the application with an argument that may be out of order: how it ended, what it said, what it left"""
        scratch = self.fresh("run")
        os.makedirs(scratch)
        name = os.path.join(scratch, "inputs")

        def all_files():
            return sorted(os.path.relpath(os.path.join(r, f), scratch) for r, ds, fs in os.walk(scratch) for f in fs + ds)

        def start(text, args):
            if text is not None:
                with open(name, "w") as f:
                    f.write(text)
            before = all_files()
            try:
                r = sh([app] + args, timeout=timeout, cwd=scratch, env={**FILL, "GALS_SCRATCH": scratch})
            except subprocess.TimeoutExpired:
                return "no end", set(), []
            how = "ended" if r.returncode >= 0 else "threw" if "terminate called after throwing" in r.stdout else "crashed"
            return how, set(l.strip() for l in r.stdout.splitlines() if l.strip()), [f for f in all_files() if f not in before]

        if not hasattr(self, "usual"):                 # what a run that is in order says
            self.usual = start(h["good"], [name])[1]
            shutil.rmtree(scratch)
            os.makedirs(scratch)
        args = {"none": [], "no file": [os.path.join(scratch, "nothing")], "file": [name]}[h["argument"]]
        how, said, created = start(h["text"] if h["argument"] == "file" else None, args)
        left = [f for f in created if f.split("/")[-1] == "velocity" and os.path.getsize(os.path.join(scratch, f)) > 0]
        ev = {"t": "run", "req": h["req"], "o": {"how": how, "said": bool(said - self.usual), "created": created, "complete": left != []}}
        shutil.rmtree(scratch, ignore_errors=True)
        return [json.dumps({"t": "begin", "id": h["id"]}) + "\n", json.dumps(ev) + "\n"]

    # ---- TLC ----------------------------------------------------------------
    def tlc(self, module, cfg=None, env=None, timeout=850, workers=1, heap="3g", args=()):
        self.java()
        meta = self.fresh("meta")
        spec = os.path.join(VERIF, "spec")
        cmd = ["java", "-Xmx" + heap, "-Xss64m", "-Djava.io.tmpdir=" + self.dir, "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC",
               "-cp", JAR + ":" + self.classes, "tlc2.TLC", "-noGenerateSpecTE", "-deadlock", "-lncheck", "final",
               "-workers", str(workers), "-metadir", meta, "-config", os.path.join(spec, cfg or module + ".cfg")]
        cmd += list(args) + [os.path.join(spec, module + ".tla")]
        try:
            r = sh(cmd, timeout=timeout, env=env, cwd=self.dir)
        except subprocess.TimeoutExpired:
            raise ToolError("TLC did not finish on %s" % module)
        shutil.rmtree(meta, ignore_errors=True)
        return r.stdout

    def judge(self, events, timeout=850):
        """TLC decides one recorded trace: (accepted, number of events, index of the rejected event, explanation)"""
        trace = self.fresh("ndjson")
        with open(trace, "w") as f:
            f.writelines(events)
        out = self.tlc("GalsTrace", env={"GALS_TRACE": trace}, timeout=timeout)
        os.unlink(trace)
        clauses = "\n".join(" ".join(c.split()) for c in re.findall(r'^<<\s*"CLAUSE".*?>>$', out, re.M | re.S))
        m = re.search(r'<<"REJECTED", (\d+), "?([^">]*)', out)
        if m:
            return False, int(m.group(1)) - 1, int(m.group(1)) - 1, clauses[-1500:]
        m = re.search(r'<<"ACCEPTED", (\d+)>>', out)
        if m:
            return True, int(m.group(1)), None, ""
        if "Error:" in out and "Parsing or semantic" not in out and "OutOfMemory" not in out and "java.lang.NoClass" not in out:
            i = out.index("Error:")
            return False, 0, -1, "TLC could not evaluate the step: " + out[i:i + 400]
        raise ToolError("TLC gave no verdict:\n" + out[-3000:])


STATES = re.compile(r"(\d+) states generated, (\d+) distinct states found")


def model_check(work, module, cfg=None, workers=4, timeout=850, heap="6g", args=()):
    """check a specification model; returns its statistics; a violated property of the model is a fault of ours"""
    t = time.time()
    out = work.tlc(module, cfg, workers=workers, timeout=timeout, heap=heap, args=args)
    m = None
    for m in STATES.finditer(out):
        pass
    if "No error has been found" not in out or m is None:
        raise ToolError("model %s did not check:\n%s" % (cfg or module, out[-3000:]))
    d = re.search(r"depth of the complete state graph search is (\d+)", out)
    return {"model": cfg or module, "states": int(m.group(2)), "transitions": int(m.group(1)),
            "depth": int(d.group(1)) if d else None, "wall_s": round(time.time() - t, 2), "out": out}


class Result:
    def __init__(self):
        self.histories = 0
        self.events = 0
        self.kinds = {}
        self.violations = []


def batches(histories, weight, count):
    """spread histories over count batches of similar weight"""
    bins = [[0, []] for _ in range(count)]
    for h in sorted(histories, key=weight, reverse=True):
        b = min(bins, key=lambda x: x[0])
        b[0] += weight(h)
        b[1].append(h)
    return [b[1] for b in bins if b[1]]


def weight(h):
    if isinstance(h, dict):
        return h["weight"]
    return 2000 + sum(len(l) for l in h if isinstance(l, str))


def conform(work, driver, histories, prop, timeout=800, env=None, limit=3):
    """Run every history on the implementation and let TLC decide whether it is a behaviour of the specification."""
    res = Result()
    res.histories = len(histories)
    work.java()
    groups = batches(histories, weight, min(JOBS, max(1, len(histories))))

    start, sure = time.time(), []       # sure: not empty once some group has a violation

    def one(group):
        found, nev, kinds = [], 0, {}
        todo = list(group)
        while todo and not (sure and time.time() - start > 100):
            events, index, done = [], [], 0
            for k, h in enumerate(todo):
                ev = work.record(driver, h, env=env)
                events += ev
                index += [k] * len(ev)
                done = k + 1
                if any('"t": "crash"' in e or '"how": "no end"' in e for e in ev[-4:]):      # judge it first: the next may take as long
                    break
            ok, n, bad, why = work.judge(events, timeout)
            for e in events[:n]:
                m = re.match(r'\{"t": ?"(\w+)"', e)
                kinds[m.group(1)] = kinds.get(m.group(1), 0) + 1
            nev += n
            if ok:
                todo = todo[done:]
                continue
            if bad == -1:       # evaluation error: find the history by itself
                k = next((i for i, h in enumerate(todo) if not work.judge(work.record(driver, h, env=env), timeout)[0]), None)
                if k is None:
                    raise ToolError("TLC failed on a trace but not on its parts: " + why)
            else:
                k = index[bad]
            # What was recorded happened; only a crash or hang has to repeat itself to count.
            h = todo[k]
            mine = [e for e, i in zip(events, index) if i == k]
            if bad >= 0 and '"t": "crash"' not in events[bad]:
                upto = sum(1 for i in index[:bad + 1] if i == k)
                found.append({"history": h, "events": mine[:upto], "why": why})
            else:
                ev = work.record(driver, h, env=env)
                ok2, n2, bad2, why2 = work.judge(ev, timeout)
                if not ok2:
                    found.append({"history": h, "events": ev, "why": why2})
            sure.extend(found)
            if len(found) >= limit:
                break
            todo = todo[k + 1:]
        return found, nev, kinds

    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        for found, nev, kinds in ex.map(one, groups):
            res.violations += found
            res.events += nev
            for k, v in kinds.items():
                res.kinds[k] = res.kinds.get(k, 0) + v
    return res
