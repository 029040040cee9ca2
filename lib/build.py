"""Builds the harness binaries from /repo's current working tree.

Objects are cached by the hash of everything that goes into them, so that a
change in /repo always leads to a rebuild and nothing else does.
"""
import concurrent.futures as cf
import glob
import hashlib
import os
import subprocess

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VT_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
HARNESS = os.path.join(VERIF, "harness")
JOBS = 8

INC = ["-I" + REPO, "-I" + HARNESS, "-I/usr/include/casacore"]
LIBS = ["-lcasa_tables", "-lcasa_casa", "-lgsl", "-lgslcblas", "-lpthread"]
WRAP = [
    "-Wl,--wrap=pthread_mutex_lock,--wrap=pthread_mutex_unlock,--wrap=sysconf,"
    "--wrap=_ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE"
]
VARIANTS = {
    # as users build it: optimized, without assertions
    "plain": (["-O2", "-g1", "-DNDEBUG"], []),
    # with assertions
    "asan": (["-O1", "-g", "-fno-omit-frame-pointer", "-fsanitize=address,undefined,float-cast-overflow",
              "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS"],
             ["-fsanitize=address,undefined,float-cast-overflow"]),
    "tsan": (["-O1", "-g", "-fsanitize=thread", "-DNDEBUG"], ["-fsanitize=thread"]),
}
TH = ["th_main.cc", "th_rt.cc", "th_thr.cc", "th_hist.cc", "th_life.cc", "th_misc.cc", "th_big.cc",
      "th_io.cc", "th_crash.cc", "inject.cc", "register.cc"]
# name: (variant, harness sources, extra compile flags for harness, link flags, needs library)
BINARIES = {
    "th": ("plain", TH, ["-DVT_IO_INJECT"], WRAP, True),
    "th_mem": ("plain", TH + ["memcount.cc"], ["-DVT_IO_INJECT"], WRAP, True),
    "th_asan": ("asan", TH, [], WRAP, True),
    "th_tsan": ("tsan", TH, [], WRAP, True),
    "codec": ("plain", ["codec.cc"], [], [], "codec"),
    "codec_asan": ("asan", ["codec.cc"], [], [], "codec"),
    "tools": ("plain", [], [], [], "tools"),
    "tools_asan": ("asan", [], [], [], "tools"),
}
TOOL_MAINS = ["dscompress.cc", "decompress.cc"]


class BuildError(Exception):
    pass


def digest(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def read(path):
    with open(path, "rb") as f:
        return f.read()


def repo_headers():
    fs = sorted(glob.glob(REPO + "/*.h"))
    return digest(*[os.path.basename(f).encode() + read(f) for f in fs])


def harness_headers():
    fs = sorted(glob.glob(HARNESS + "/*.h"))
    return digest(*[os.path.basename(f).encode() + read(f) for f in fs])


def lib_sources():
    return [f for f in sorted(glob.glob(REPO + "/*.cc"))
            if os.path.basename(f) not in TOOL_MAINS]


def _compile(src, flags, key):
    d = os.path.join(BUILD, "obj")
    os.makedirs(d, exist_ok=True)
    obj = os.path.join(d, os.path.basename(src) + "." + key + ".o")
    if os.path.exists(obj):
        return obj
    tmp = obj + ".tmp%d" % os.getpid()
    cmd = ["g++", "-std=c++17", "-w"] + flags + INC + ["-c", src, "-o", tmp]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise BuildError("compiling %s failed:\n%s" % (src, r.stdout[:2500]))
    os.replace(tmp, obj)
    return obj


def _link(objs, flags, name):
    d = os.path.join(BUILD, "bin")
    os.makedirs(d, exist_ok=True)
    key = digest(name, " ".join(objs), " ".join(flags))
    out = os.path.join(d, name + "." + key)
    if os.path.exists(out):
        return out
    tmp = out + ".tmp%d" % os.getpid()
    r = subprocess.run(["g++", "-o", tmp] + objs + flags + LIBS, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise BuildError("linking %s failed:\n%s" % (name, r.stdout[:2500]))
    os.replace(tmp, out)
    return out


def build(names):
    """Builds the binaries and returns {name: path}."""
    rh, hh = repo_headers(), harness_headers()
    jobs = {}
    plan = {}

    def want(src, flags, key):
        k = (src, key)
        if k not in jobs:
            jobs[k] = pool.submit(_compile, src, flags, key)
        return jobs[k]

    with cf.ThreadPoolExecutor(JOBS) as pool:
        for name in names:
            variant, srcs, hflags, lflags, lib = BINARIES[name]
            vflags, vlink = VARIANTS[variant]
            objs = []
            for s in srcs:
                p = os.path.join(HARNESS, s)
                fl = vflags + hflags
                objs.append(want(p, fl, digest(rh, hh, read(p), " ".join(fl))))
            for p in lib_sources():
                objs.append(want(p, vflags, digest(rh, read(p), " ".join(vflags))))
            if lib == "tools":
                p = os.path.join(HARNESS, "register.cc")
                objs.append(want(p, vflags, digest(rh, hh, read(p), " ".join(vflags))))
                for t in TOOL_MAINS:
                    p = os.path.join(REPO, t)
                    main = want(p, vflags, digest(rh, read(p), " ".join(vflags)))
                    plan[(name, t)] = (objs + [main], vlink + lflags, t[:-3] + "_" + variant)
            else:
                plan[(name, None)] = (objs, vlink + lflags, name)
        done = {}
        for k, (objs, fl, nm) in plan.items():
            done[k] = ([o.result() for o in objs], fl, nm)
    out = {}
    for (name, t), (objs, fl, nm) in done.items():
        path = _link(objs, fl, nm)
        if t is None:
            out[name] = path
        else:
            out.setdefault(name, {})[t[:-3]] = path
    return out
