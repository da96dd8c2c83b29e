#!/usr/bin/env python3
"""Build driver of the verification harness.

Compiles the solver's sources from the working tree of /repo against the
stand-in libraries in /verif/minimfem, together with the drivers in
/verif/harness.  Objects are cached under /verif/build by a hash of the
translation unit, of every header of /repo/src, /verif/minimfem and
/verif/harness it reaches, and of the compiler flags.

usage: build.py TARGET...     (no target: everything)
"""
import concurrent.futures
import fcntl
import hashlib
import os
import re
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
OUT = os.path.join(VERIF, "build")
CXX = "g++"
FLAGS = ["-std=c++17", "-O1", "-g0", "-w", "-fopenmp", "-DSHOW_TIMER_INFORMATION", "-DSEMBA_DGTD_ENABLE_OPENMP",
         "-DTEST_DATA_FOLDER_=\"testData/\""]
INC = [os.path.join(VERIF, "harness"), os.path.join(VERIF, "minimfem/include"),
       os.path.join(REPO, "src"), "/usr/include/eigen3"]

# slow to compile and used by few drivers, which name them; a link that needs
# them after all gets them
RARE = ["components/SIBCPoleResidueFitting.cpp", "components/OptimizationManager.cpp", "components/RCSManager.cpp",
        "components/RCSSurfacePostProcessor.cpp", "components/EigenvalueEstimator.cpp", "driver/rcs_driver.cpp"]
SLOW = ["SIBCPoleResidueFitting.cpp", "Solver.cpp", "driver.cpp", "HesthavenEvolution.cpp"]

MINI = ["mpi", "la", "fe", "mesh", "forms", "par"]


def repo_sources():
    r = []
    for d, _, fs in os.walk(os.path.join(REPO, "src")):
        if os.path.basename(d) == "launcher":
            continue
        for f in sorted(fs):
            if f.endswith(".cpp"):
                r.append(os.path.join(d, f))
    return sorted(r)


INCLUDE = re.compile(rb'^[ \t]*#[ \t]*include[ \t]*[<"]([^>"]+)[>"]', re.M)
_dep = {}
TOKEN = re.compile(rb'R"([^(\s]*)\(.*?\)\1"|"(?:\\.|[^"\\\n])*"|\'(?:\\.|[^\'\\\n])*\'|//[^\n]*|/\*.*?\*/', re.S)
BLANK = re.compile(rb"[ \t]*\n\s*")


def canonical(txt):
    """The text without comments and blank lines: what an object depends on."""
    def sub(m):
        t = m.group(0)
        return b" " if t[:2] in (b"//", b"/*") else t
    return BLANK.sub(b"\n", TOKEN.sub(sub, txt.replace(b"\\\n", b""))).strip()


def deps(path, seen):
    if path in seen:
        return
    seen.add(path)
    if path not in _dep:
        with open(path, "rb") as f:
            txt = f.read()
        _dep[path] = (canonical(txt), INCLUDE.findall(txt))
    for inc in _dep[path][1]:
        inc = inc.decode()
        cands = [os.path.join(os.path.dirname(path), inc)]
        cands += [os.path.join(i, inc) for i in INC[:3]]
        for c in cands:
            c = os.path.normpath(c)
            if os.path.isfile(c):
                deps(c, seen)
                break


def key(src, flags):
    seen = set()
    deps(src, seen)
    h = hashlib.sha256()
    h.update(" ".join(flags).encode())
    for p in sorted(seen):
        h.update(p.encode())
        h.update(_dep[p][0])
    return h.hexdigest()[:24]


def compile_one(src, extra=()):
    flags = FLAGS + list(extra)
    name = os.path.relpath(src, "/").replace("/", "_")
    obj = os.path.join(OUT, "obj", name + "." + key(src, flags) + ".o")
    if not os.path.exists(obj):
        os.makedirs(os.path.dirname(obj), exist_ok=True)
        tmp = "%s.%d.tmp" % (obj, os.getpid())
        cmd = [CXX] + flags + ["-I" + i for i in INC] + ["-c", src, "-o", tmp]
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode:
            sys.stderr.write(p.stdout.decode(errors="replace")[-6000:])
            raise SystemExit("build: %s does not compile" % src)
        os.replace(tmp, obj)
    return obj


def target_flags(t):
    """Extra compiler flags of a driver and of everything linked to it: '// flags: -x'."""
    with open(os.path.join(VERIF, "harness", t + ".cpp")) as f:
        return tuple(" ".join(re.findall(r"^// flags: (.*)$", f.read(), re.M)).split())


def target_sources(t):
    """A driver may name the sources it needs in lines '// uses: a.cpp b.cpp'."""
    src = os.path.join(VERIF, "harness", t + ".cpp")
    with open(src) as f:
        txt = f.read()
    m = re.findall(r"^// uses: (.*)$", txt, re.M)
    mini = [os.path.join(VERIF, "minimfem/src", x + ".cpp") for x in MINI]
    if m:
        names = " ".join(m).split()
        srcs = []
        for n in names:
            if n == "none":
                continue
            srcs.append(os.path.join(REPO, "src", n))
        if "nomfem" in names:
            srcs = [s for s in srcs if not s.endswith("nomfem")]
            mini = []
        return [src], srcs, mini
    also = " ".join(re.findall(r"^// also: (.*)$", txt, re.M)).split()
    rare = [os.path.join(REPO, "src", r) for r in RARE if r not in also]
    return [src], [s for s in repo_sources() if s not in rare], mini


def build(targets, jobs=8):
    os.makedirs(OUT, exist_ok=True)
    with open(os.path.join(OUT, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        plan = {}
        todo = []
        for t in targets:
            a, b, c = target_sources(t)
            fl = target_flags(t)
            plan[t] = [(s, fl) for s in a + b + c]
            for s in plan[t]:
                if s not in todo:
                    todo.append(s)
        # the big ones first
        todo.sort(key=lambda s: (os.path.basename(s[0]) not in SLOW, -os.path.getsize(s[0])))
        for s, _ in todo:
            key(s, FLAGS)
        objs = {}
        with concurrent.futures.ThreadPoolExecutor(jobs) as ex:
            for s, o in zip(todo, ex.map(lambda x: compile_one(*x), todo)):
                objs[s] = o
        res = {}
        for t in targets:
            fl = target_flags(t)
            named = [s for s, _ in plan[t]]
            os_ = [objs[s] for s in plan[t]]
            more = []
            name = lambda: os.path.join(OUT, "bin", t + "." + hashlib.sha256(" ".join(os_ + more).encode()).hexdigest()[:24])

            def rest():
                # a definition is in a source the driver does not name
                return [compile_one(s, fl) for s in repo_sources() if s not in named]

            def link(exe):
                os.makedirs(os.path.dirname(exe), exist_ok=True)
                tmp = "%s.%d.tmp" % (exe, os.getpid())
                p = subprocess.run([CXX, "-fopenmp"] + list(fl) + ["-o", tmp] + os_ + more + ["-lstdc++fs", "-lpthread"],
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                if p.returncode == 0:
                    os.replace(tmp, exe)
                return p
            exe = name()
            mark = exe + ".more"
            if os.path.exists(mark):
                more = rest()
                exe = name()
            if not os.path.exists(exe):
                p = link(exe)
                if p.returncode and not more and set(repo_sources()) - set(named):
                    open(mark, "w").close()
                    more = rest()
                    exe = name()
                    p = link(exe)
                if p.returncode:
                    sys.stderr.write(p.stdout.decode(errors="replace")[-6000:])
                    raise SystemExit("build: %s does not link" % t)
            res[t] = exe
        return res


def all_targets():
    return sorted(f[:-4] for f in os.listdir(os.path.join(VERIF, "harness")) if f.endswith(".cpp"))


if __name__ == "__main__":
    ts = sys.argv[1:] or all_targets()
    for t, e in build(ts).items():
        print(t, e)
