"""Builds the analysed program: /repo's current sources + the driver -> LLVM IR -> normalised JSON model."""
import concurrent.futures as cf
import fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("LEARNLOG_REPO", "/repo")
BUILD = os.environ.get("LEARNLOG_BUILD", os.path.join(VERIF, ".build"))
CLANG = "clang++"
BASEFLAGS = ["-std=c++11", "-fgnuc-version=6.1.0", "-O1", "-Xclang", "-disable-llvm-passes", "-g", "-fstandalone-debug", "-fno-discard-value-names",
             "-w", "-c", "-emit-llvm"]


class AnalysisBroken(Exception):
    """the analysis could not be carried out (error exit, never a pass or a violation)"""


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode != 0:
        raise AnalysisBroken("command failed: %s\n%s" % (" ".join(cmd), p.stdout[-3000:]))
    return p.stdout


def build_tool():
    """compiles irx when it is missing or older than its source"""
    os.makedirs(BUILD, exist_ok=True)
    src = os.path.join(VERIF, "engine", "irx.cpp")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    exe = os.path.join(BUILD, "irx-" + h)
    if os.path.exists(exe):
        return exe
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(exe):
            return exe
        cfg = next((c for c in ("llvm-config-18", "llvm-config") if shutil.which(c)), None)
        if not cfg:
            raise AnalysisBroken("llvm-config not found")
        inc = run([cfg, "--includedir"]).strip()
        lib = run([cfg, "--libdir"]).strip()
        tmp = exe + ".tmp%d" % os.getpid()
        run([CLANG, "-O2", "-std=c++17", "-fno-rtti", "-w", "-D_GNU_SOURCE", "-D__STDC_CONSTANT_MACROS",
             "-D__STDC_FORMAT_MACROS", "-D__STDC_LIMIT_MACROS", "-I" + inc, src, "-o", tmp, "-L" + lib,
             "-Wl,-rpath," + lib, "-lLLVM-18"])
        os.rename(tmp, exe)
    return exe


def repo_sources():
    """the library's translation units (what the project's CMake files glob)"""
    out = []
    for d in ("src", "base", "sinks", os.path.join("sinks", "formatters")):
        out += sorted(glob.glob(os.path.join(REPO, d, "*.cpp")))
    if len(out) < 5:
        raise AnalysisBroken("library sources not found under %s" % REPO)
    return out


CONFIGS = {
    # name: (preprocessor defines)
    "tls": ["-DNDEBUG", "-DLEARNLOG_USE_TLS", "-DLEARNLOG_USE_BUNDLED_FMT"],     # what the build uses on this platform
    "notls": ["-DNDEBUG", "-DLEARNLOG_USE_BUNDLED_FMT"],                         # LEARNLOG_USE_TLS switched off
    "debug": ["-DLEARNLOG_USE_TLS", "-DLEARNLOG_USE_BUNDLED_FMT"],               # assertions enabled
}


def tree_hash(extra=()):
    h = hashlib.sha256()
    files = []
    for d in ("src", "base", "sinks", "include", "cmake"):
        for root, _, fs in os.walk(os.path.join(REPO, d)):
            files += [os.path.join(root, f) for f in fs]
    files += glob.glob(os.path.join(VERIF, "driver", "*.cpp"))
    files += [os.path.join(VERIF, "engine", f) for f in ("irx.cpp", "policy.txt", "build.py")]
    for f in sorted(files):
        h.update(f.encode())
        h.update(open(f, "rb").read())
    for e in extra:
        h.update(str(e).encode())
    return h.hexdigest()[:24]


def version_include(tmp):
    """include/version.h is generated by CMake and not tracked: provide one when it is absent"""
    if os.path.exists(os.path.join(REPO, "include", "version.h")):
        return []
    d = os.path.join(tmp, "gen")
    os.makedirs(d, exist_ok=True)
    src = open(os.path.join(REPO, "cmake", "version.h.in")).read()
    src = re.sub(r"@[A-Za-z_]*MAJOR@", "1", src)
    src = re.sub(r"@[A-Za-z_]*MINOR@", "0", src)
    src = re.sub(r"@[A-Za-z_]*PATCH@", "3", src)
    src = re.sub(r"@[A-Za-z_]*@", "0", src)
    open(os.path.join(d, "version.h"), "w").write(src)
    return ["-I" + d]


def include_flags(tmp):
    return ["-I" + REPO, "-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "base")] + version_include(tmp)


def build_model(config="tls", log=None):
    """returns the path of the JSON model of the program in the given configuration"""
    exe = build_tool()
    key = tree_hash([config, CONFIGS[config]])
    out = os.path.join(BUILD, "model-%s-%s.json" % (config, key))
    if os.path.exists(out):
        return out
    for old in glob.glob(os.path.join(BUILD, "model-%s-*" % config)):
        try:
            os.remove(old)
        except OSError:
            pass
    tmp = tempfile.mkdtemp(prefix="build-", dir=BUILD)
    try:
        inc = include_flags(tmp)
        units = repo_sources()
        units += [os.path.join(VERIF, "driver", "api.cpp"), os.path.join(VERIF, "driver", "mingw_queue.cpp")]

        def comp(i_u):
            i, u = i_u
            o = os.path.join(tmp, "u%d.bc" % i)
            run([CLANG] + BASEFLAGS + CONFIGS[config] + inc + [u, "-o", o])
            return o
        with cf.ThreadPoolExecutor(8) as ex:
            bcs = list(ex.map(comp, enumerate(units)))
        linked = os.path.join(tmp, "all.bc")
        link = shutil.which("llvm-link-18") or shutil.which("llvm-link")
        if not link:
            raise AnalysisBroken("llvm-link not found")
        run([link] + bcs + ["-o", linked])
        js = os.path.join(tmp, "m.json")
        run([exe, linked, os.path.join(VERIF, "engine", "policy.txt"), js])
        os.rename(js, out)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return out


if __name__ == "__main__":
    build_tool()
    for c in sys.argv[1:] or ["tls"]:
        print(build_model(c))
