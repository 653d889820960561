#!/usr/bin/env python3
"""Content-addressed build of /repo's Python package (extension modules and Python files) into /verif/build.

Prints the directory to put first on sys.path. Every object is keyed by the compile command and the content of the
translation unit and of all headers; the package directory is keyed by the objects and by the Python files.
"""
import sys, os, hashlib, glob, subprocess, shutil
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(ROOT, "build")
PY = "/opt/vp/venv/bin/python"
LIBS = ["ir", "qasm3", "dd"]

def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:32]

def rd(p):
    with open(p, "rb") as f: return f.read()

def main():
    q = subprocess.run([PY, "-c", "import pybind11,sysconfig;print(pybind11.get_include());print(sysconfig.get_paths()['include']);print(sysconfig.get_config_var('EXT_SUFFIX'))"],
                       capture_output=True, text=True)
    if q.returncode:
        sys.stderr.write(q.stderr); sys.exit(2)
    pyb, pyi, suffix = q.stdout.split()
    gen = os.path.join(BUILD, "gen")
    os.makedirs(os.path.join(gen, "dd"), exist_ok=True)
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    exp = os.path.join(gen, "dd", "mqt_core_dd_export.h")
    txt = "#pragma once\n#define MQT_CORE_DD_EXPORT\n#define MQT_CORE_DD_NO_EXPORT\n"
    if not os.path.exists(exp) or open(exp).read() != txt:
        open(exp, "w").write(txt)
    inc = os.path.join(REPO, "include", "mqt-core")
    hs = []
    for base in (inc, os.path.join(REPO, "src")):
        for d, _, fs in os.walk(base):
            hs += [os.path.join(d, f) for f in fs if f.endswith((".hpp", ".h", ".inc", ".def"))]
    allh = sha(*[os.path.relpath(h, REPO) + sha(rd(h)) for h in sorted(hs)])
    base = ["clang++", "-std=c++17", "-O1", "-g1", "-fPIC", "-w", "-DNDEBUG", "-D_GLIBCXX_ASSERTIONS", "-fno-omit-frame-pointer", "-I" + inc, "-I" + gen]
    pyflags = base + ["-I" + pyb, "-I" + pyi, "-fvisibility=hidden"]
    jobs, groups = [], {}
    def add(group, s, cmd):
        o = os.path.join(BUILD, "obj", sha("py3", " ".join(cmd), os.path.relpath(s, REPO), rd(s), allh) + ".o")
        groups.setdefault(group, []).append(o)
        if not os.path.exists(o): jobs.append((s, o, cmd))
    for s in sorted(glob.glob(os.path.join(REPO, "src/python/ir/**/*.cpp"), recursive=True)): add("ir", s, pyflags)
    for s in sorted(glob.glob(os.path.join(REPO, "src/python/dd/**/*.cpp"), recursive=True)): add("dd", s, pyflags)
    for lib in LIBS:
        for s in sorted(glob.glob(os.path.join(REPO, "src", lib, "**", "*.cpp"), recursive=True)): add("core", s, base)
    def run(j):
        s, o, c = j
        tmp = o + ".%d.tmp.o" % os.getpid()
        r = subprocess.run(c + ["-c", s, "-o", tmp], capture_output=True, text=True)
        if r.returncode != 0: return "compiling %s failed:\n%s" % (s, r.stderr[-6000:])
        os.replace(tmp, o)
        return None
    with ThreadPoolExecutor(int(os.environ.get("VERIF_JOBS", "8"))) as ex:
        errs = [e for e in ex.map(run, jobs) if e]
    if errs:
        sys.stderr.write("\n".join(errs) + "\n"); sys.exit(2)
    src = os.path.join(REPO, "src", "mqt", "core")
    pys = []
    for d, _, fs in os.walk(src):
        pys += [os.path.join(d, f) for f in fs if f.endswith(".py") and f != "_version.py"]
    pys.sort()
    key = sha("pkg3", suffix, *[o for g in sorted(groups) for o in groups[g]], *[x for p in pys for x in (os.path.relpath(p, src), rd(p))])
    pkg = os.path.join(BUILD, "py", key[:16])
    if not os.path.exists(pkg):
        tmp = pkg + ".%d.tmp" % os.getpid()
        core = os.path.join(tmp, "mqt", "core")
        os.makedirs(core)
        for p in pys:
            t = os.path.join(core, os.path.relpath(p, src))
            os.makedirs(os.path.dirname(t), exist_ok=True)
            shutil.copyfile(p, t)
        open(os.path.join(core, "_version.py"), "w").write("version = __version__ = '3.0.0'\nversion_tuple = __version_tuple__ = (3, 0, 0)\n")
        lib = os.path.join(core, "libmqtcoreverif.so")
        def link(out, objs, extra):
            r = subprocess.run(["clang++", "-shared", "-o", out] + objs + extra, capture_output=True, text=True)
            if r.returncode:
                sys.stderr.write(r.stderr[-6000:] + "\n"); sys.exit(2)
        link(lib, groups["core"], ["-Wl,-soname,libmqtcoreverif.so", "-lpthread"])
        for m in ("ir", "dd"):
            link(os.path.join(core, m + suffix), groups[m], ["-L" + core, "-lmqtcoreverif", "-Wl,-rpath,$ORIGIN"])
        try: os.replace(tmp, pkg)
        except OSError: shutil.rmtree(tmp)
    print(pkg)
main()
