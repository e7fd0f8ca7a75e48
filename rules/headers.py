"""P27: the headers and what they declare.  P28: what types must rule out, decided by the compiler.

The syntax tree of all headers (and of the library's sources, for what they define) is searched for declarations without a definition;
the other obligations are small translation units that must compile, or programs that must link, and are never run."""
import concurrent.futures as cf
import glob, json, os, re, shutil, subprocess, tempfile
import build
from build import REPO, BUILD, CLANG, include_flags, repo_sources
from model import AnalysisBroken

WINDOWS = re.compile(r"(^|/)(win|wincolor_sink|wchar_support)\.h$")      # need <windows.h>
DEFS = {"with thread-local storage": ["-DLEARNLOG_USE_TLS"], "without thread-local storage": []}
FUNCS = ("FunctionDecl", "CXXMethodDecl", "CXXConstructorDecl", "CXXDestructorDecl", "CXXConversionDecl")


def headers():
    out = []
    for d in ("include", "base", "sinks", os.path.join("sinks", "formatters")):
        out += sorted(glob.glob(os.path.join(REPO, d, "*.h")))
    out = [os.path.relpath(h, REPO) for h in out]
    if len(out) < 15:
        raise AnalysisBroken("the library's headers were not found")
    return [h for h in out if not WINDOWS.search(h)]


class Work:
    def __enter__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.d = tempfile.mkdtemp(prefix="hdr-", dir=BUILD)
        self.inc = include_flags(self.d)
        self.n = 0
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)

    def write(self, text, name):
        p = os.path.join(self.d, name)
        with open(p, "w") as f:
            f.write(text)
        return p

    def compile(self, src, flags=(), cc=CLANG, std="c++11"):
        # clang calls itself an old GCC, for which include/definitions.h turns thread-local storage off
        cc = [cc, "-fgnuc-version=6.1.0"] if cc == CLANG else [cc]
        p = subprocess.run(cc + ["-std=" + std, "-w", "-DNDEBUG", "-DLEARNLOG_USE_BUNDLED_FMT"] + self.inc + list(flags) + [src], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        return p.returncode, p.stdout, p.stderr


def first_error(err):
    for l in err.splitlines():
        if "error:" in l:
            return l.replace(REPO + "/", "")[:240]
    return err.strip().splitlines()[-1][:240] if err.strip() else "?"


class Decl:
    __slots__ = ("id", "prev", "mangled", "name", "where", "file", "body", "ok", "inline", "template", "kind", "qual")


class Tree:
    """function and static-variable declarations of namespace learnlog in one translation unit"""

    def __init__(self, text):
        self.decls, self.classes = [], []
        self.file, self.line = "?", 0
        dec = json.JSONDecoder()
        k, n = 0, len(text)
        while True:
            while k < n and text[k] in " \r\n\t":
                k += 1
            if k >= n:
                break
            if text[k] != "{":
                k = text.find("\n", k) + 1 or n
                continue
            node, k = dec.raw_decode(text, k)
            self.walk(node, (), False, False)

    def locate(self, x):
        """follows the abbreviated positions of the dump"""
        if isinstance(x, dict):
            for part in ("spellingLoc", "expansionLoc"):
                if part in x:
                    self.locate(x[part])
            if "file" in x:
                self.file = x["file"]
            if "line" in x:
                self.line = x["line"]

    def skip(self, node):
        if isinstance(node, dict):
            self.locate(node.get("loc"))
            r = node.get("range") or {}
            self.locate(r.get("begin"))
            self.locate(r.get("end"))
            for c in node.get("inner", ()):
                self.skip(c)

    def walk(self, node, scope, template, friend):
        kind = node.get("kind")
        self.locate(node.get("loc"))
        here = "%s:%d" % (self.file, self.line)
        file = self.file
        r = node.get("range") or {}
        self.locate(r.get("begin"))
        self.locate(r.get("end"))
        inner = node.get("inner", ())
        if kind in ("NamespaceDecl", "LinkageSpecDecl", "FriendDecl"):
            sc = scope + (node["name"],) if kind == "NamespaceDecl" and node.get("name") else scope
            for c in inner:
                self.walk(c, sc, template, kind == "FriendDecl" or friend)
        elif kind == "CXXRecordDecl":
            if node.get("isImplicit"):
                return
            sc = scope + (node.get("name", "?"),)
            if node.get("completeDefinition"):
                self.classes.append((sc, node, here, template))
            for c in inner:
                self.walk(c, sc, template, False)
        elif kind == "ClassTemplateDecl":
            done = False
            for c in inner:
                if c.get("kind") == "CXXRecordDecl" and not done:
                    done = True
                    self.walk(c, scope, True, friend)
                elif c.get("kind") == "ClassTemplatePartialSpecializationDecl":
                    self.skip(c)
                else:
                    self.skip(c)
        elif kind == "FunctionTemplateDecl":
            done = False
            for c in inner:
                if c.get("kind") in FUNCS and not done:
                    done = True
                    self.walk(c, scope, True, friend)
                else:
                    self.skip(c)
        elif kind in FUNCS or kind == "VarDecl":
            if not node.get("isImplicit"):
                d = Decl()
                d.id, d.prev, d.mangled, d.name, d.kind = node["id"], node.get("previousDecl"), node.get("mangledName"), "::".join(scope + (node.get("name", "?"),)), kind
                d.where, d.file, d.template, d.qual = here, file, template, node.get("type", {}).get("qualType", "")
                d.inline = bool(node.get("inline") or node.get("constexpr"))
                if kind == "VarDecl":
                    member = bool(scope) and node.get("storageClass") == "static" and not node.get("previousDecl")
                    d.body = not (node.get("storageClass") == "extern" or (self.in_class(scope) and member)) or node.get("constexpr") or node.get("inline")
                    # an integral constant with an initialiser may do without a definition as long as nobody takes its address
                    d.body = bool(d.body or node.get("init") and "const" in d.qual)
                    d.ok = d.body
                else:
                    d.body = any(c.get("kind") in ("CompoundStmt", "CXXTryStmt") for c in inner)
                    d.ok = d.body or bool(node.get("explicitlyDeleted") or node.get("explicitlyDefaulted") or node.get("pure"))
                self.decls.append(d)
            for c in inner:
                self.skip(c)
        else:
            for c in inner:
                self.skip(c)

    def in_class(self, scope):
        return any(sc == scope for sc, n, h, t in self.classes)

    def groups(self):
        root = {}
        for d in self.decls:
            p = d.prev
            while p in root and root[p] != p:
                p = root[p]
            root[d.id] = p if p in root else d.id
        out = {}
        for d in self.decls:
            k = d.id
            while root.get(k, k) != k:
                k = root[k]
            out.setdefault(k, []).append(d)
        # redeclarations that the dump does not chain
        by = {}
        for g in out.values():
            k = (g[0].mangled, g[0].name) if g[0].mangled else id(g)
            by.setdefault(k, []).extend(g)
        return list(by.values())


def tree(w, src, flags):
    rc, out, err = w.compile(src, list(flags) + ["-fsyntax-only", "-Xclang", "-ast-dump=json", "-Xclang", "-ast-dump-filter=learnlog"])
    if rc != 0:
        return None, err
    return Tree(out), err


def p27(rep):
    hs = headers()
    n = {"alone": 0, "standard": 0, "defined": 0, "link": 0}
    with Work() as w, cf.ThreadPoolExecutor(8) as ex:
        # every header alone
        jobs = []
        for k, h in enumerate(hs):
            src = w.write('#include "%s"\n#include "%s"\n' % (h, h), "a%d.cpp" % k)
            for what, fl in DEFS.items():
                jobs.append((h, what, ex.submit(w.compile, src, fl + ["-fsyntax-only"])))
        fwd = w.write("".join('#include "%s"\n' % h for h in hs), "forward.cpp")
        rev = w.write("".join('#include "%s"\n' % h for h in reversed(hs)), "reverse.cpp")
        stds = []
        for cc in (CLANG, "g++"):
            for std in ("c++11", "c++14", "c++17", "c++20"):
                for what, fl in DEFS.items():
                    stds.append((cc, std, what, ex.submit(w.compile, fwd, fl + ["-fsyntax-only"], cc, std)))
        stds.append((CLANG, "c++11", "in reverse order", ex.submit(w.compile, rev, DEFS["with thread-local storage"] + ["-fsyntax-only"])))
        trees = [ex.submit(tree, w, s, fl) for s in [fwd] + repo_sources() for fl in ([DEFS["with thread-local storage"]])]
        flt = DEFS["with thread-local storage"]
        libs = repo_sources()
        objs = [os.path.join(w.d, "l%d.bc" % k) for k in range(len(libs) + 2)]
        links = [ex.submit(w.compile, s, flt + ["-c", "-emit-llvm", "-O0", "-o", o]) for s, o in zip(libs + [fwd, rev], objs)]

        for h, what, j in jobs:
            rc, out, err = j.result()
            n["alone"] += 1
            rep.check(rc == 0, "alone", h, "compiles on its own (%s)" % what, "a file that includes only %s does not compile (%s): %s" % (h, what, first_error(err)))
        for cc, std, what, j in stds:
            rc, out, err = j.result()
            n["standard"] += 1
            rep.check(rc == 0, "together", "all headers", "%s, %s, %s" % (cc, std, what), "the headers together do not compile with %s -std=%s (%s): %s" % (cc, std, what, first_error(err)))
        bad = False
        for s, j in zip(libs + [fwd, rev], links):
            rc, out, err = j.result()
            if rc != 0:
                bad = True
                if s in libs:
                    raise AnalysisBroken("%s does not compile: %s" % (s, first_error(err)))
        if not bad:
            link = shutil.which("llvm-link-18") or shutil.which("llvm-link")
            if not link:
                raise AnalysisBroken("llvm-link not found")
            p = subprocess.run([link] + objs + ["-o", os.path.join(w.d, "all.bc")], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            n["link"] += 1
            m = re.search(r"symbol multiply defined[^\n]*|Linking globals named '([^']*)'[^\n]*", p.stdout)
            sym = re.search(r"named '([^']*)'", p.stdout)
            rep.check(p.returncode == 0, "one-definition", "two files that include every header, and the library", "%d units link" % len(objs),
                      "two files that include the headers do not link: %s is defined in each" % (demangle(sym.group(1)) if sym else p.stdout.strip()[:200]))
        ts = [j.result() for j in trees]
        if ts[0][0] is None:
            if not any(r == "together" for r, *x in rep.obligations) and not rep.violations:
                raise AnalysisBroken("no syntax tree of the headers: " + first_error(ts[0][1]))
            return
        defined = set()
        for t, err in ts[1:]:
            if t is None:
                raise AnalysisBroken("no syntax tree of a source file: " + first_error(err))
            defined |= {d.mangled for d in t.decls if d.body and d.mangled}
        for g in ts[0][0].groups():
            d = g[0]
            if not any(x.file.startswith(REPO + "/") and "/fmt/" not in x.file and "/concurrentqueue/" not in x.file for x in g):
                continue
            n["defined"] += 1
            ok = any(x.ok for x in g)
            if not ok and not any(x.template or x.inline for x in g):
                ok = d.mangled in defined
            if not ok:
                rep.viol("defined", d.where.replace(REPO + "/", ""), "%s (%s) is declared and nowhere defined: a program that uses it does not link" % (d.name, d.qual), key="defined|%s|%s" % (d.name, d.qual))
        rep.ok("defined", "headers", "%d functions and static variables declared" % n["defined"])
        rep.check(n["defined"] >= 300, "coverage", "headers", "%d declarations" % n["defined"], "only %d declarations were found" % n["defined"])
    rep.paths += sum(n.values())
    rep.explanation = ("The syntax trees of all headers and sources: every function and static variable declared in a header (%d) has a definition a program can use. Each of %d headers compiles alone, "
                       "twice over, and all of them together in both orders under four language standards with two compilers; two units with all headers link with the library." % (n["defined"], len(hs)))


def demangle(s):
    p = subprocess.run(["c++filt", s], stdout=subprocess.PIPE, text=True) if shutil.which("c++filt") else None
    return p.stdout.strip() if p else s


# ------------------------------------------------------------------------------------------------ what types rule out
B, SK = "learnlog::base::", "learnlog::sinks::"
SINKS = [SK + x for x in ("null_sink_mt", "null_sink_st", "ostream_sink_mt", "ostream_sink_st", "basic_file_sink_mt", "basic_file_sink_st", "rolling_file_sink_mt", "rolling_file_sink_st",
                          "stdout_sink_mt", "stdout_sink_st", "stderr_sink_mt", "stderr_sink_st", "stdout_color_sink_mt", "stdout_color_sink_st", "stderr_color_sink_mt", "stderr_color_sink_st")]
POOLS = [B + x for x in ("lock_thread_pool", "lockfree_thread_pool", "lockfree_concurrent_thread_pool")]
OWNERS = SINKS + POOLS + [B + "thread_pool", B + "registry", B + "periodic_function", B + "block_queue<int>", B + "async_msg", SK + "pattern_formatter"]
COPIES = ["learnlog::logger", B + "log_msg", B + "log_msg_buf", B + "backtracer", B + "circular_queue<int>", "learnlog::source_loc"]
MOVES = [B + "log_msg_buf", B + "async_msg", B + "circular_queue<int>"]
BASES = [SK + "sink", SK + "formatter", SK + "flag_formatter", SK + "custom_flag_formatter", "learnlog::logger", "learnlog::async_logger", B + "thread_pool"]
ABSTRACT = [SK + "sink", SK + "formatter", SK + "flag_formatter", SK + "custom_flag_formatter", B + "thread_pool"]


def claims():
    for t in OWNERS:
        yield t, "!std::is_copy_constructible<%s>::value" % t, "can be copied although it owns what must not be owned twice"
        yield t, "!std::is_copy_assignable<%s>::value" % t, "can be assigned although it owns what must not be owned twice"
        if t != B + "async_msg":
            yield t, "!std::is_move_constructible<%s>::value && !std::is_move_assignable<%s>::value" % (t, t), "can be moved while threads or other objects refer to it"
    for t in COPIES:
        yield t, "std::is_copy_constructible<%s>::value" % t, "cannot be copied"
    for t in MOVES:
        yield t, "std::is_nothrow_move_constructible<%s>::value && std::is_nothrow_move_assignable<%s>::value" % (t, t), "may throw while it is moved: a queue that moves it can lose it"
    for t in BASES:
        yield t, "std::has_virtual_destructor<%s>::value" % t, "has no virtual destructor: deleting an object through it leaves the rest of the object behind"
    for t in ABSTRACT:
        yield t, "std::is_abstract<%s>::value" % t, "can be instantiated although operations are missing"
    for t in SINKS:
        yield t, "std::is_base_of<learnlog::sinks::sink, %s>::value && !std::is_abstract<%s>::value" % (t, t), "is not a complete sink"
    yield SK + "pattern_formatter", "std::is_base_of<learnlog::sinks::formatter, %spattern_formatter>::value" % SK, "is not a formatter"
    yield B + "null_mutex", "std::is_empty<%snull_mutex>::value" % B, "is not empty"
    for t in SINKS + BASES:
        yield t, "std::is_nothrow_destructible<%s>::value" % t, "may throw from its destructor"


def p28(rep):
    hs = headers()
    cl = list(claims())
    n = 0
    with Work() as w:
        text = "".join('#include "%s"\n' % h for h in hs) + "#include <type_traits>\n"
        text += "".join('static_assert(%s, "CLAIM %d");\n' % (c, k) for k, (t, c, msg) in enumerate(cl))
        src = w.write(text, "claims.cpp")
        for what, fl in DEFS.items():
            rc, out, err = w.compile(src, fl + ["-fsyntax-only", "-ferror-limit=0"])
            failed = {int(x) for x in re.findall(r"CLAIM (\d+)\b", "\n".join(l for l in err.splitlines() if "error:" in l))}
            other = [l for l in err.splitlines() if "error:" in l and "CLAIM" not in l]
            if rc != 0 and (other or not failed):
                raise AnalysisBroken("the claims about types do not compile: " + (other or [first_error(err)])[0][:240])
            for k, (t, c, msg) in enumerate(cl):
                n += 1
                if k in failed:
                    rep.viol("types", t, "%s %s" % (t, msg), key="types|%s|%s" % (t, msg))
                elif what.startswith("with "):
                    rep.ok("types", t, c)
        # deleting through a base that has no virtual destructor, wherever it is written
        def own(l):
            return l.startswith(REPO + "/") and "/fmt/" not in l and "/concurrentqueue/" not in l
        for s in repo_sources() + [src]:
            p = subprocess.run([CLANG, "-std=c++11", "-DNDEBUG", "-DLEARNLOG_USE_TLS", "-DLEARNLOG_USE_BUNDLED_FMT", "-Wno-everything", "-Wdelete-non-virtual-dtor", "-Wdelete-abstract-non-virtual-dtor",
                                "-Wsystem-headers", "-fsyntax-only"] + w.inc + [s], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
            n += 1
            seen = set()
            for l in p.stderr.splitlines():
                if "warning:" in l and ("learnlog::" in l or own(l)) and l not in seen and "moodycamel" not in l and "fmt::" not in l:
                    seen.add(l)
                    rep.viol("destructors", l.split(" warning:")[0].replace(REPO + "/", ""), l.split("warning:")[1].strip()[:240], key="destructors|" + re.sub(r":\d+", "", l)[:200])
    rep.check(len(cl) >= 100, "coverage", "types", "%d claims about %d types" % (len(cl), len({t for t, c, m in cl})), "too few claims")
    rep.paths += n
    rep.explanation = ("%d claims about %d types are decided by the compiler as static assertions, with and without thread-local storage; every delete expression of the library and of its instantiated smart pointers is "
                       "checked for a base without a virtual destructor." % (len(cl), len({t for t, c, m in cl})))


PROPERTIES = {"P27": p27, "P28": p28}
