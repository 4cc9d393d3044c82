"""Compile /repo's current sources (a) to LLVM IR for the symbolic executor and
(b) natively, with the same entry points, for replays.  Everything goes to a
scratch directory that is removed at exit."""
import os, subprocess, tempfile, shutil, atexit, re, time
from concurrent.futures import ThreadPoolExecutor
REPO = os.environ.get("KSE_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
H = os.path.join(HERE, "harness")
CORE = ["core_astro/propagate_lagrangian.cpp", "core_astro/stm.cpp", "core_astro/ic2par2ic.cpp",
        "core_astro/ic2eq2ic.cpp", "core_astro/eq2par2eq.cpp", "linalg.cpp"]
SRC = {
    "core": CORE,
    "lambert": ["lambert_problem.cpp", "linalg.cpp"],
    "flyby": ["core_astro/flyby.cpp", "linalg.cpp"],
    "planet": ["core_astro/flyby.cpp", "planet.cpp", "epoch.cpp", "udpla/keplerian.cpp", "udpla/jpl_lp.cpp"] + CORE,
    "hf": ["leg/sims_flanagan_hf.cpp", "leg/sf_checks.cpp", "stark_problem.cpp", "ta/stark.cpp", "linalg.cpp"],
    "ta": ["ta/stark.cpp", "ta/cr3bp.cpp"],
    "sf": ["leg/sims_flanagan.cpp", "leg/sf_checks.cpp", "linalg.cpp"],
}
IRFLAGS = ("-std=c++20 -O1 -finline-hint-functions -fno-vectorize -fno-slp-vectorize -fno-math-errno -ffp-contract=off "
           "-fno-discard-value-names -DNDEBUG -DBOOST_ALLOW_DEPRECATED_HEADERS -DKSE_IR -w").split()
NATFLAGS = "-std=c++20 -O2 -g0 -fPIC -DNDEBUG -DKSE_NATIVE -DBOOST_ALLOW_DEPRECATED_HEADERS -w".split()

class BuildError(Exception): pass

_work = None
def work():
    global _work
    if _work is None:
        _work = tempfile.mkdtemp(prefix="kse.")
        pid = os.getpid()
        def rm(d=_work):
            if os.getpid() == pid: shutil.rmtree(d, ignore_errors=True)
        atexit.register(rm)
        os.makedirs(_work + "/inc/kep3")
        try: t = open(REPO + "/config.hpp.in").read()
        except OSError: t = "#pragma once\n"
        t = (t.replace("@kep3_VERSION@", "0.0.1").replace("@kep3_VERSION_MAJOR@", "0")
              .replace("@kep3_VERSION_MINOR@", "0").replace("@kep3_VERSION_PATCH@", "1"))
        open(_work + "/inc/kep3/config.hpp", "w").write(t)
    return _work

def inc(shadow):
    d = work()
    r = []
    if shadow: r += ["-I", H + "/shadow"]
    return r + ["-I", H, "-I", H + "/shim", "-I", REPO + "/include", "-I", d + "/inc"]

def _run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode: raise BuildError(" ".join(cmd)[-300:] + "\n" + p.stdout[-2500:])

def paths(group, harness):
    return [os.path.join(REPO, "src", s) for s in SRC.get(group, [])] + [os.path.join(H, h) for h in harness]

def ir(files, jobs=8, extra=()):
    """-> list of .ll paths"""
    d = work(); out = []; cmds = []
    for f in files:
        o = os.path.join(d, re.sub(r"\W", "_", f) + ".ll"); out.append(o)
        if not os.path.exists(o):
            cmds.append(["clang++-18"] + IRFLAGS + list(extra) + inc(True) + ["-S", "-emit-llvm", f, "-o", o])
    with ThreadPoolExecutor(jobs) as ex: list(ex.map(_run, cmds))
    return out

def native(files, jobs=8, name="lib"):
    d = work(); objs = []; cmds = []
    for f in files:
        o = os.path.join(d, re.sub(r"\W", "_", f) + ".o"); objs.append(o)
        if not os.path.exists(o): cmds.append(["g++"] + NATFLAGS + inc(False) + ["-c", f, "-o", o])
    with ThreadPoolExecutor(jobs) as ex: list(ex.map(_run, cmds))
    so = os.path.join(d, name + ".so")
    _run(["g++", "-shared", "-o", so] + objs + ["-lfmt", "-llapack", "-lblas", "-lboost_serialization"])
    return so

def both(files, nfiles=None, name="lib", extra=()):
    """compile IR and native concurrently"""
    work()
    with ThreadPoolExecutor(2) as ex:
        a = ex.submit(ir, files, 5, extra); b = ex.submit(native, nfiles or files, 4, name)
        return a.result(), b.result()
