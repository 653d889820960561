#!/usr/bin/env python3
"""Content-addressed build of /repo's library sources and a harness, into /verif/build (ignored by git).

usage: vbuild.py HARNESS [--config plain|asan]  -> prints the path of the executable
Every object is keyed by the compile command and the content of the translation unit and of every header
it can see, so a stale object can never be linked whatever the file times say.
"""
import sys, os, hashlib, glob, subprocess, json
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(ROOT, "build")
CXX = "clang++"
BASE = ["-std=c++17", "-O1", "-g1", "-fno-omit-frame-pointer", "-w", "-DNDEBUG", "-D_GLIBCXX_ASSERTIONS"]
CONFIGS = {
    "plain": BASE,
    "asan": BASE + ["-fsanitize=address,undefined", "-fno-sanitize-recover=all",
                    "-fno-sanitize=vptr,float-divide-by-zero,alignment,float-cast-overflow"],
    "fuzz": BASE + ["-fsanitize=fuzzer-no-link,address,undefined", "-fno-sanitize-recover=all",
                    "-fno-sanitize=vptr,float-divide-by-zero,alignment,float-cast-overflow"],
}
LIBS = ["ir", "qasm3", "dd", "zx", "circuit_optimizer", "algorithms", "datastructures", "na"]

def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:32]

def rd(p):
    with open(p, "rb") as f: return f.read()

def headers(root):
    r = []
    for d, _, fs in os.walk(root):
        for f in sorted(fs):
            if f.endswith((".hpp", ".h", ".inc", ".hxx", ".def")):
                r.append(os.path.join(d, f))
    return sorted(r)

LLVM = os.environ.get("VERIF_LLVM", "/usr/lib/llvm-20")
def mlir_tblgen(mi, md, mg):
    """what mlir/include/.../CMakeLists.txt generates (add_mlir_dialect, add_mlir_interface, mlir_tablegen)"""
    ir, tr = os.path.join(md, "IR"), os.path.join(md, "Transforms")
    og, ot = os.path.join(mg, "mlir/Dialect/MQTOpt/IR"), os.path.join(mg, "mlir/Dialect/MQTOpt/Transforms")
    os.makedirs(og, exist_ok=True)
    os.makedirs(ot, exist_ok=True)
    ops, itf, ps = os.path.join(ir, "MQTOptOps.td"), os.path.join(ir, "MQTOptInterfaces.td"), os.path.join(tr, "Passes.td")
    todo = [(itf, ["-gen-op-interface-decls"], og + "/MQTOptInterfaces.h.inc"), (itf, ["-gen-op-interface-defs"], og + "/MQTOptInterfaces.cpp.inc"),
            (ops, ["-gen-op-decls"], og + "/MQTOptOps.h.inc"), (ops, ["-gen-op-defs"], og + "/MQTOptOps.cpp.inc"),
            (ops, ["-gen-typedef-decls", "-typedefs-dialect=mqtopt"], og + "/MQTOptOpsTypes.h.inc"), (ops, ["-gen-typedef-defs", "-typedefs-dialect=mqtopt"], og + "/MQTOptOpsTypes.cpp.inc"),
            (ops, ["-gen-dialect-decls", "-dialect=mqtopt"], og + "/MQTOptOpsDialect.h.inc"), (ops, ["-gen-dialect-defs", "-dialect=mqtopt"], og + "/MQTOptOpsDialect.cpp.inc"),
            (ps, ["-gen-pass-decls", "-name", "MQTOpt"], ot + "/Passes.h.inc")]
    for td, args, out in todo:
        if os.path.exists(out): continue
        tmp = out + ".%d.tmp" % os.getpid()
        r = subprocess.run([LLVM + "/bin/mlir-tblgen"] + args + ["-I", ir, "-I", tr, "-I" + LLVM + "/include", "-I" + mi, td, "-o", tmp], capture_output=True, text=True)
        if r.returncode != 0:
            sys.stderr.write("mlir-tblgen %s failed:\n%s\n" % (td, r.stderr[-4000:]))
            sys.exit(2)
        os.replace(tmp, out)

def main():
    harness = sys.argv[1]
    meta = {}
    src = os.path.join(ROOT, "harness", harness + ".cpp")
    first = rd(src).decode().split("\n", 1)[0]
    # first line: // build: {"libs": [...], "config": "plain"}
    if first.startswith("// build:"):
        meta = json.loads(first[len("// build:"):])
    config = meta.get("config", "plain")
    if "--config" in sys.argv: config = sys.argv[sys.argv.index("--config") + 1]
    libs = meta.get("libs", LIBS)
    flags = CONFIGS[config]
    gen = os.path.join(BUILD, "gen")
    os.makedirs(os.path.join(gen, "dd"), exist_ok=True)
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    exp = os.path.join(gen, "dd", "mqt_core_dd_export.h")
    txt = "#pragma once\n#define MQT_CORE_DD_EXPORT\n#define MQT_CORE_DD_NO_EXPORT\n"
    if not os.path.exists(exp) or open(exp).read() != txt:
        open(exp, "w").write(txt)
    inc = os.path.join(REPO, "include", "mqt-core")
    repo_hdrs = {}
    for h in headers(inc) + headers(os.path.join(REPO, "src")):
        repo_hdrs[h] = sha(os.path.relpath(h, REPO), rd(h))
    own = sha(*[x for h in headers(os.path.join(ROOT, "lib")) for x in (os.path.basename(h), rd(h))])
    # a library's objects depend on the headers of the libraries it can include
    closure = {"ir": ["ir"], "qasm3": ["ir", "qasm3"], "dd": ["ir", "dd"], "zx": ["ir", "zx"],
               "circuit_optimizer": ["ir", "circuit_optimizer", "datastructures"], "algorithms": ["ir", "algorithms", "dd"],
               "datastructures": ["ir", "datastructures"], "na": ["ir", "na", "datastructures"]}
    def hdrhash(lib):
        # conservative: everything under include/ (a header change is rare and a full rebuild takes half a minute)
        return sha(*[k + v for k, v in sorted(repo_hdrs.items())])
    allh = hdrhash(None)
    common = [CXX] + flags + ["-I" + inc, "-I" + gen]
    jobs = []
    objs = []
    for lib in libs:
        for s in sorted(glob.glob(os.path.join(REPO, "src", lib, "**", "*.cpp"), recursive=True)):
            key = sha("v2", " ".join(common), os.path.relpath(s, REPO), rd(s), allh)
            o = os.path.join(BUILD, "obj", key + ".o")
            objs.append(o)
            if not os.path.exists(o): jobs.append((s, o, common))
    hc = common + ["-I" + os.path.join(ROOT, "lib")]
    if meta.get("mlir"): # the MLIR dialect and its passes (LLVM 20, the version build.sh uses)
        mi = os.path.join(REPO, "mlir", "include")
        md = os.path.join(mi, "mlir", "Dialect", "MQTOpt")
        tree = sorted(os.path.join(d, f) for d, _, fs in os.walk(mi) for f in fs)
        mh = sha("mlir2", *[x for f in tree for x in (os.path.relpath(f, REPO), rd(f))])
        mg = os.path.join(BUILD, "gen", "mlir-" + mh[:16])
        mlir_tblgen(mi, md, mg)
        mc = common + ["-I" + LLVM + "/include", "-I" + mi, "-I" + mg, "-D__STDC_CONSTANT_MACROS", "-D__STDC_FORMAT_MACROS", "-D__STDC_LIMIT_MACROS"]
        for s in sorted(glob.glob(os.path.join(REPO, "mlir", "lib", "**", "*.cpp"), recursive=True)):
            key = sha("v2", " ".join(mc).replace(mg, ""), os.path.relpath(s, REPO), rd(s), allh, mh)
            o = os.path.join(BUILD, "obj", key + ".o")
            objs.append(o)
            if not os.path.exists(o): jobs.append((s, o, mc))
        hc = mc + ["-I" + os.path.join(ROOT, "lib")]
        allh = sha(allh, mh)
        meta["link"] = meta.get("link", []) + ["-L" + LLVM + "/lib", "-lMLIR", "-lLLVM-20", "-Wl,-rpath," + LLVM + "/lib"]
    hs = [src] + [os.path.join(ROOT, "lib", x) for x in meta.get("sources", [])]
    for s in hs:
        key = sha("v2", " ".join(hc), os.path.basename(s), rd(s), allh, own)
        o = os.path.join(BUILD, "obj", key + ".o")
        objs.append(o)
        if not os.path.exists(o): jobs.insert(0, (s, o, hc))
    def run(j):
        s, o, c = j
        tmp = o + ".%d.tmp.o" % os.getpid()
        r = subprocess.run(c + ["-c", s, "-o", tmp], capture_output=True, text=True)
        if r.returncode != 0:
            return "compiling %s failed:\n%s" % (s, r.stderr[-6000:])
        os.replace(tmp, o)
        return None
    with ThreadPoolExecutor(int(os.environ.get("VERIF_JOBS", "8"))) as ex:
        errs = [e for e in ex.map(run, jobs) if e]
    if errs:
        sys.stderr.write("\n".join(errs) + "\n")
        sys.exit(2)
    link = ["-fsanitize=address,undefined"] if config == "asan" else (["-fsanitize=fuzzer,address,undefined"] if config == "fuzz" else [])
    libsx = meta.get("link", [])
    key = sha("link", *objs, *link, *libsx)
    exe = os.path.join(BUILD, "bin", harness + "-" + key[:12])
    if not os.path.exists(exe):
        os.makedirs(os.path.dirname(exe), exist_ok=True)
        tmp = exe + ".%d.tmp" % os.getpid()
        r = subprocess.run([CXX] + link + objs + ["-o", tmp, "-lpthread"] + libsx, capture_output=True, text=True)
        if r.returncode != 0:
            sys.stderr.write(r.stderr[-6000:] + "\n")
            sys.exit(2)
        os.replace(tmp, exe)
    print(exe)
main()
