#!/usr/bin/env python3
"""Builds the GANDALF sources of /repo's working tree into /verif/build (content-addressed cache),
and the harness programs of /verif/harness against them.  Nothing is written to /repo."""
import hashlib, os, re, subprocess, sys, glob, shutil
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("GANDALF_REPO", "/repo")
SRC = os.path.join(REPO, "src")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
NPROC = os.cpu_count() or 4
DEFS = ["-DGANDALF_DOUBLE_PRECISION", "-DGANDALF_GSL", "-DDEBUG1"]
COMMON = ["-w", "-O1", "-fno-rtti", "-D_GLIBCXX_ASSERTIONS"] + DEFS
VARIANTS = {
    "std":  COMMON,
    "asan": ["-w", "-O1", "-g1", "-fno-rtti", "-fno-omit-frame-pointer", "-fsanitize=address,bounds", "-fno-sanitize-recover=bounds"] + DEFS,
    "omp":  COMMON + ["-fopenmp", "-Dnone=shared"],
}
LIBS = ["-lgsl", "-lgslcblas", "-lm", "-lpthread"]

def sh256(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode()); h.update(b"\0")
    return h.hexdigest()[:32]

def read(p):
    with open(p, "rb") as f: return f.read()

def headers():
    hs = sorted(glob.glob(os.path.join(SRC, "Headers", "*")) + glob.glob(os.path.join(SRC, "*", "*.h")) + glob.glob(os.path.join(SRC, "*", "*.hpp")))
    hs = [h for h in dict.fromkeys(hs) if os.path.isfile(h) and h.endswith((".h", ".hpp"))]
    return hs

def header_hash():
    h = hashlib.sha256()
    for p in headers():
        h.update(os.path.relpath(p, SRC).encode()); h.update(read(p))
    return h.hexdigest()

def lib_sources():
    """object list as the project's own makefile has it (serial build)"""
    mk = read(os.path.join(SRC, "Makefile")).decode(errors="replace")
    names, skip = [], 0
    for line in mk.splitlines():
        m = re.match(r"\s*OBJ\s*\+?=\s*(.*)", line)
        if m: names += re.findall(r"([\w+-]+)\.o", m.group(1))
    allcpp = {}
    for p in sorted(glob.glob(os.path.join(SRC, "*", "*.cpp")) + glob.glob(os.path.join(SRC, "*", "*.c"))):
        allcpp.setdefault(os.path.splitext(os.path.basename(p))[0], p)
    out = []
    for n in dict.fromkeys(names + ["Exception"]):
        if n.startswith("Mpi"): continue
        if n in allcpp: out.append(allcpp[n])
    return out

def compile_one(args):
    src, flags, key = args
    obj = os.path.join(BUILD, "obj", key + ".o")
    if os.path.exists(obj): return obj, None
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    tmp = obj + ".tmp%d" % os.getpid()
    if src.endswith(".c"): flags = [f for f in flags if f not in ("-fno-rtti",)]
    r = subprocess.run([("gcc" if src.endswith(".c") else "g++")] + flags + ["-c", src, "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode: return None, src + ":\n" + r.stdout.decode(errors="replace")[-3000:]
    os.rename(tmp, obj)
    return obj, None

def build_lib(variant="std", quiet=True):
    flags = VARIANTS[variant]
    hh = header_hash()
    jobs = []
    for s in lib_sources():
        f = list(flags) + ["-I" + os.path.join(SRC, "Headers"), "-I" + os.path.dirname(s)]
        if os.path.basename(s) == "Exception.cpp": f += ["-fexceptions"]
        else: f += ["-fno-exceptions"]
        jobs.append((s, f, sh256(variant, " ".join(f), os.path.basename(s), read(s), hh)))
    objs, errs = [], []
    with ThreadPoolExecutor(NPROC) as ex:
        for o, e in ex.map(compile_one, jobs):
            if e: errs.append(e)
            else: objs.append(o)
    if errs:
        sys.stderr.write("\n".join(errs)); raise SystemExit("BUILD-ERROR: library does not compile")
    key = sh256(*sorted(objs))
    lib = os.path.join(BUILD, "lib", "libgandalf-%s-%s.a" % (variant, key[:16]))
    if not os.path.exists(lib):
        os.makedirs(os.path.dirname(lib), exist_ok=True)
        for old in glob.glob(os.path.join(BUILD, "lib", "libgandalf-%s-*.a" % variant)): os.unlink(old)
        # thin archive: refers to the cached objects
        tmp = lib + ".tmp"
        if os.path.exists(tmp): os.unlink(tmp)
        subprocess.run(["ar", "rcsT", tmp] + objs, check=True)
        os.rename(tmp, lib)
        # drop objects no longer used by any library (bounded cache)
        prune()
    return lib

def prune(limit=700 << 20):
    fs = sorted(glob.glob(os.path.join(BUILD, "obj", "*.o")), key=os.path.getmtime)
    tot = sum(os.path.getsize(f) for f in fs)
    libs = glob.glob(os.path.join(BUILD, "lib", "*.a"))
    used = set()
    for l in libs:
        used.update(os.path.abspath(os.path.join(BUILD, "lib", x) if not x.startswith("/") else x)
                    for x in subprocess.run(["ar", "t", l], stdout=subprocess.PIPE).stdout.decode().split())
    for f in fs:
        if tot <= limit: break
        if os.path.abspath(f) in used: continue
        tot -= os.path.getsize(f); os.unlink(f)

def build_some(variant, names):
    """object files of a few sources only (checks that exercise one module)"""
    hh = header_hash(); jobs = []
    for s in lib_sources():
        if os.path.splitext(os.path.basename(s))[0] not in names: continue
        f = list(VARIANTS[variant]) + ["-I" + os.path.join(SRC, "Headers"), "-I" + os.path.dirname(s)]
        f += ["-fexceptions"] if os.path.basename(s) == "Exception.cpp" else ["-fno-exceptions"]
        jobs.append((s, f, sh256(variant, " ".join(f), os.path.basename(s), read(s), hh)))
    with ThreadPoolExecutor(NPROC) as ex:
        res = list(ex.map(compile_one, jobs))
    if any(e for o, e in res): return None
    return [o for o, e in res]

def build_harness(name, variant="std", extra=(), libs=True):
    src = os.path.join(VERIF, "harness", name + ".cpp")
    m = re.search(r"^// NEEDS: (.*)$", read(src).decode(), re.M)
    if m and libs:
        objs = build_some(variant, set(m.group(1).split()))
        if objs:
            exe = _harness(name, variant, extra, objs, soft=True)
            if exe: return exe
    return _harness(name, variant, extra, [build_lib(variant)], soft=False)

def _harness(name, variant, extra, link, soft):
    src = os.path.join(VERIF, "harness", name + ".cpp")
    flags = ["-std=gnu++17"] + list(VARIANTS[variant]) + ["-fno-access-control", "-I" + os.path.join(SRC, "Headers"), "-I" + SRC, "-I" + os.path.join(VERIF, "mc"), "-I" + os.path.join(VERIF, "harness")] + list(extra)
    hz = "".join(sh256(read(p)) for p in sorted(glob.glob(os.path.join(VERIF, "mc", "*.hpp")) + glob.glob(os.path.join(VERIF, "harness", "*.hpp"))))
    key = sh256(name, " ".join(flags), read(src), hz, header_hash())
    obj, err = compile_one((src, flags, key))
    if err: sys.stderr.write(err); raise SystemExit("BUILD-ERROR: harness %s does not compile" % name)
    exe = os.path.join(BUILD, "bin", "%s-%s-%s" % (name, variant, sh256(obj, *link)[:16]))
    if not os.path.exists(exe):
        os.makedirs(os.path.dirname(exe), exist_ok=True)
        for old in glob.glob(os.path.join(BUILD, "bin", "%s-%s-*" % (name, variant))): os.unlink(old)
        lf = [f for f in VARIANTS[variant] if f.startswith("-fsanitize")]
        if variant == "omp": lf += []
        r = subprocess.run(["g++", "-o", exe + ".tmp", obj] + [os.path.abspath(x) for x in extra_objs(variant)] + lf + ["-Wl,--start-group"] + link + ["-Wl,--end-group"] + LIBS, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode and soft: return None
        if r.returncode:
            sys.stderr.write(r.stdout.decode(errors="replace")[-4000:]); raise SystemExit("BUILD-ERROR: harness %s does not link" % name)
        os.rename(exe + ".tmp", exe)
    return exe

def extra_objs(variant):
    if variant != "omp": return []
    src = os.path.join(VERIF, "mc", "mcgomp.cpp")
    o, e = compile_one((src, ["-O1", "-std=gnu++17", "-w"], sh256("gomp", read(src))))
    if e: raise SystemExit("BUILD-ERROR: " + e)
    return [o]

if __name__ == "__main__":
    for v in (sys.argv[1:] or ["std"]):
        if v in VARIANTS: print(build_lib(v))
        else: print(build_harness(v))
