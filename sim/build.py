#!/usr/bin/env python3
"""Builds the simulator executable from /repo's current working tree.

Every core source is compiled with access hooks, its libc seam is renamed to the
simulator's functions, and six prefixed copies (one per simulated process) are
linked with the simulator and the scenarios into one executable.
Cached by content hash under /verif/build (ignored by git)."""
import sys, os, re, subprocess, hashlib, glob, fcntl, shutil
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("SIM_REPO", "/repo")
BUILD = os.environ.get("SIM_BUILD", os.path.join(VERIF, "build"))
COPIES = 6
CC = "clang"
FLAGS = ["-std=c17", "-DGIT_HASH=\"sim\"", "-O1", "-fno-omit-frame-pointer", "-fno-pie", "-fsigned-char", "-m64", "-mavx2", "-mbmi", "-mbmi2", "-mlzcnt", "-mpopcnt",
         "-fno-vectorize", "-fno-slp-vectorize", "-fno-optimize-sibling-calls", "-w"]
INSTR = ["-fsanitize=thread", "-mllvm", "-tsan-instrument-func-entry-exit=0"]
CXXFLAGS = ["-std=c++20", "-O2", "-fno-pie", "-Wall", "-Wextra", "-Wno-unused-parameter", "-Wno-missing-field-initializers"]


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode:
        raise SystemExit("build: command failed: %s\n%s" % (" ".join(cmd)[:400], r.stdout[-4000:]))
    return r.stdout


def core_sources():
    mk = open(os.path.join(REPO, "Makefile")).read()
    m = re.search(r"^CORE_OBJECTS\s*[:+]?=((?:.*\\\n)*.*)", mk, re.M)
    objs = re.findall(r"core/(\w+)\.o", m.group(1)) if m else []
    if not objs:
        objs = [os.path.basename(p)[:-2] for p in glob.glob(os.path.join(REPO, "core/*.c"))]
    return [o for o in dict.fromkeys(objs)]


def app_sources():
    return sorted(os.path.basename(p)[:-2] for p in glob.glob(os.path.join(REPO, "app/*.c")))


def digest(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode())
        h.update(open(p, "rb").read())
    return h.hexdigest()[:24]


def nm(path):
    und, dfn = set(), set()
    for l in sh(["nm", path]).splitlines():
        f = l.split()
        if len(f) < 2:
            continue
        t, n = f[-2], f[-1]
        if t in "Uw" and len(f) == 2:
            und.add(n)
        elif t.isupper() or t in "uvV":
            dfn.add(n)
    return und, dfn


def build():
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    srcs = ["core/" + x for x in core_sources()] + ["app/" + x for x in app_sources()]
    # everything else in core/ may be included by one of the sources (poll.c includes epoll.c)
    hdrs = [p for p in glob.glob(os.path.join(REPO, "core/*")) + glob.glob(os.path.join(REPO, "app/*"))
            if os.path.isfile(p) and not p.endswith(".o") and os.path.relpath(p, REPO)[:-2] not in srcs or p.endswith(".h")]
    core_all = [os.path.join(REPO, s + ".c") for s in srcs] + hdrs
    sim_all = sorted(glob.glob(os.path.join(HERE, "*.cpp")) + glob.glob(os.path.join(HERE, "*.h")) + glob.glob(os.path.join(HERE, "*.c"))) + [os.path.join(HERE, "build.py")]
    key = digest(core_all + sim_all, " ".join(FLAGS + INSTR + CXXFLAGS))
    exe = os.path.join(BUILD, "sim-" + key)
    if os.path.exists(exe):
        os.utime(exe)
        return exe
    hk = digest(hdrs + [os.path.join(HERE, "build.py")], " ".join(FLAGS + INSTR))
    odir = os.path.join(BUILD, "obj")
    os.makedirs(odir, exist_ok=True)
    work = os.path.join(BUILD, "work.%d" % os.getpid())
    os.makedirs(work, exist_ok=True)
    try:
        used = []

        def cc(name):
            src = os.path.join(REPO, name + ".c")
            o = os.path.join(odir, "%s-%s.o" % (name.replace("/", "-"), hashlib.sha256(open(src, "rb").read() + hk.encode()).hexdigest()[:20]))
            used.append(o)
            if not os.path.exists(o):
                sh([CC, "-include", "core/def.h", "-c", src, "-o", o + ".tmp%d" % os.getpid()] + FLAGS + INSTR, cwd=REPO)
                if name == "core/heap":
                    # the allocator itself legitimately touches free memory: its hooks skip the freed-memory check
                    mp = work + "/heap.syms"
                    u, _ = nm(o + ".tmp%d" % os.getpid())
                    open(mp, "w").write("".join("%s %s\n" % (s, s.replace("__tsan_", "__tsanh_", 1)) for s in u
                                                if s.startswith("__tsan_") and not s.startswith("__tsan_atomic") and s != "__tsan_init"))
                    sh(["objcopy", "--redefine-syms=" + mp, o + ".tmp%d" % os.getpid()])
                os.rename(o + ".tmp%d" % os.getpid(), o)
            return o

        def cxx(src):
            o = os.path.join(odir, "x-%s-%s.o" % (os.path.basename(src), digest([src] + glob.glob(HERE + "/*.h"), " ".join(CXXFLAGS))))
            used.append(o)
            if not os.path.exists(o):
                sh(["clang++"] + CXXFLAGS + ["-c", src, "-o", o + ".tmp%d" % os.getpid()])
                os.rename(o + ".tmp%d" % os.getpid(), o)
            return o

        with ThreadPoolExecutor(8) as ex:
            f1 = [ex.submit(cc, s) for s in srcs]
            f2 = [ex.submit(cxx, s) for s in sorted(glob.glob(HERE + "/*.cpp"))]
            shim = work + "/shim.o"
            sh([CC, "-iquote", REPO + "/core", "-iquote", HERE, "-include", "core/def.h", "-c", HERE + "/shim.c", "-o", shim] + FLAGS, cwd=REPO)
            objs = [f.result() for f in f1]
            xobjs = [f.result() for f in f2]
        base = work + "/base.o"
        sh(["ld", "-r", "-o", base, "--wrap=heap_alloc", "--wrap=heap_free", "--wrap=heap_realloc"] + objs + [shim])
        seam = set()
        for x in xobjs:
            _, d = nm(x)
            seam |= {s[5:] for s in d if s.startswith("simc_")}
        und, dfn = nm(base)
        # glibc aliases that a compiler or header may substitute
        alias = {"__isoc99_sscanf": None, "__isoc23_strtol": None, "open64": "open", "lseek64": "lseek", "mmap64": "mmap", "stat64": "stat", "fstat64": "fstat",
                 "__errno_location": None, "fcntl64": "fcntl", "readdir64": "readdir", "fopen64": "fopen", "ftruncate64": "ftruncate", "pread64": "pread", "pwrite64": "pwrite"}
        m = {}
        for u in und:
            t = alias.get(u) or u
            if t in seam:
                m[u] = "simc_" + t
        outs = []

        def copy(k):
            mp = work + "/n%d.syms" % k
            with open(mp, "w") as f:
                for a, b in sorted(m.items()):
                    f.write("%s %s\n" % (a, b))
                for d in sorted(dfn):
                    f.write("%s n%d_%s\n" % (d, k, d))
            o = work + "/n%d.o" % k
            sh(["objcopy", "--redefine-syms=" + mp, base, o])
            return o
        with ThreadPoolExecutor(6) as ex:
            outs = list(ex.map(copy, range(COPIES)))
        tab = work + "/tab.cpp"
        with open(tab, "w") as f:
            f.write('#include "%s/shim.h"\nextern "C" {\n' % HERE)
            for k in range(COPIES):
                f.write("extern NodeApi n%d_shim_api;\n" % k)
            f.write("}\nNodeApi *node_api[%d] = {%s};\n" % (COPIES, ", ".join("&n%d_shim_api" % k for k in range(COPIES))))
            f.write('const char *seam_list = "%s";\n' % " ".join(sorted(m)))
            f.write('const char *libc_list = "%s";\n' % " ".join(sorted(u for u in und if u not in m and not u.startswith(("__tsan", "simc_")))))
        sh(["clang++"] + CXXFLAGS + ["-c", tab, "-o", work + "/tab.o"])
        sh(["clang++", "-no-pie", "-o", exe + ".tmp%d" % os.getpid(), work + "/tab.o"] + xobjs + outs + ["-lm", "-lpthread", "-ldl"])
        os.rename(exe + ".tmp%d" % os.getpid(), exe)
        # keep the cache small
        olds = sorted(glob.glob(BUILD + "/sim-*"), key=os.path.getmtime)
        for p in olds[:-6]:
            os.unlink(p)
        keep = set(used)
        for p in sorted(glob.glob(odir + "/*.o"), key=os.path.getmtime)[:-400]:
            if p not in keep:
                os.unlink(p)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return exe


if __name__ == "__main__":
    print(build())
