"""Files: opening, rolling, writing and error reporting."""
import itertools
from rules._machine import *
from rules._strings import *
from rules import _lin

FB = "learnlog::base::file_base::"
OS = "learnlog::base::os::"
STD_EXC = ("std",)
FNAME = (("fname",),)
DIRNAME = (("dir", FNAME),)


def fail_once(rep):
    seen = set()

    def fail(f, rule, i, msg):
        k = (f.nbase, rule, msg)
        if k not in seen:
            seen.add(k)
            rep.viol(rule, (i.where() if i is not None else start(f)), "%s: %s" % (f.nbase.replace("learnlog::", ""), msg), key="%s|%s|%s" % (f.nbase, rule, msg))
    fail.seen = seen
    return fail


def thrower(st, c):
    return STD_EXC if c.nb in ("learnlog::throw_learnlog_excpt",) else ()


def one(m, name, cfg=""):
    fs = [f for f in m.all() if f.nbase == name]
    if not fs:
        raise AnalysisBroken("no function %s" % name)
    return fs[0]


# ------------------------------------------------------------------------------------------------ opening
def p19(rep):
    rep.explanation = ("Opening files: open() is analysed for append and truncate mode, with and without a stream already open, for every outcome of each system-level open, "
                       "as a machine whose calls are the operating-system wrappers; the wrappers and the directory helpers are analysed the same way.")
    m = get_model("tls")
    fail = fail_once(rep)
    opening(rep, m, fail)
    sleeping(rep, m, fail)
    open_file(rep, m, fail)
    directories(rep, m, fail)
    sink_opens(rep, m, fail)


NOW = ("o", "now")


def slept(st, c):
    """nanoseconds a call sleeps: a value, None when the call does not sleep, "?" when it sleeps for a time that is not known"""
    def ns(v, num, den):
        r = _lin.scale(v, num * 10 ** 9) if v is not None else None
        if r is None:
            return "?"
        p = _lin.parts(r)
        return "?" if p[0] % den or any(k % den for k in p[1].values()) else _lin.mk(p[0] // den, {s: k // den for s, k in p[1].items()})

    if c.nb == OS + "sleep_for_ms":
        return ns(c.vals[0], 1, 1000)
    if c.nb in ("usleep", "sleep"):
        return ns(c.vals[0], 1, 10 ** 6 if c.last == "usleep" else 1)
    if c.nb in ("nanosleep", "clock_nanosleep"):
        a = c.vals[0 if c.nb == "nanosleep" else 2]
        if not is_sym(a) or c.nb != "nanosleep" and c.vals[1] != 0:
            return "?"
        s, n = ns(st.get(a), 1, 1), st.get(("s", a[1], a[2] + 8))
        return "?" if s == "?" or n is None else _lin.add(s, n) if _lin.parts(n) else "?"
    if c.nb.startswith("std::this_thread::sleep_"):
        r = re.findall(r"std::ratio<(\d+)l, (\d+)l>", c.name.split(">(")[0])
        a = c.vals[0]
        if not r or not is_sym(a):
            return "?"
        v = ns(st.get(a), int(r[-1][0]), int(r[-1][1]))
        return v if v == "?" or c.last == "sleep_for" else _lin.add(v, NOW, -1)
    return None


def sleeping(rep, m, fail):
    """sleep_for_ms sleeps as many milliseconds as it is told"""
    fs = [f for f in m.all() if f.nbase == OS + "sleep_for_ms"]
    for f in fs:
        rep.fn(f)

        def call(st, c):
            d = slept(st, c)
            if d is not None:
                st.trace("sleep", d)
                return 0 if c.nb in ("usleep", "sleep", "nanosleep", "clock_nanosleep") else "done"
            if c.last == "now" and c.nb.startswith("std::chrono::"):
                return NOW
            return None
        lin = _lin.Lin({"ms": (1, 3600000), "now": (0, 2 ** 62)})
        for ms, want in ((0, (0,)), (("o", "ms"), (("o", ("lin", 0, (("ms", 10 ** 6),))),))):
            M = Machine(m, f, [ms], St(), call, arith=lin.arith, term=lambda st, t: lin.cmp(t[1], *[v[1] if isinstance(v, tuple) and v[0] == "const" else v for v in t[2:4]]) if t[0] == "icmp" else None)
            for msg, i, path in M.bad():
                fail(f, "sleep", i, msg)
            ex = M.exits("ret", "escape")
            if not ex:
                fail(f, "sleep", None, "does not come back")
            for kind, v, st, i in ex:
                t = 0
                for e in st.get("trace", ()):
                    t = "?" if t == "?" or e[1] == "?" else _lin.add(t, e[1])
                if kind != "ret" or t not in want:
                    fail(f, "sleep", i, "does not sleep the given number of milliseconds")
        if not any(k[0] == f.nbase for k in fail.seen):
            rep.ok("sleep", f.nbase, "sleeps n milliseconds, n = 0 and every n up to an hour")


def opening(rep, m, fail):
    f = one(m, FB + "open")
    rep.fn(f)
    FPP, FN, OLD = obj("FPP"), obj("FN"), obj("OLD")
    n = 0
    top = 3 if rep.tier == "quick" else 4
    for trunc in (0, 1):
        for tries in range(1, top):
            for script in itertools.product((0, 1), repeat=tries * (2 if trunc else 1)):
                for old in (0, OLD):
                    n += 1
                    open_case(f, m, fail, trunc, tries, script, old, FPP, FN, OLD)
    if not any(k[0] == f.nbase for k in fail.seen):
        rep.ok("open", f.where() if hasattr(f, "where") else f.nbase, "%d cases of mode, number of tries, stream already open and outcomes agree" % n)


def open_case(f, m, fail, trunc, tries, script, old, FPP, FN, OLD):
    def call(st, c):
        if c.threw:
            return None
        r = strings(m, st, c)
        if r is not None:
            return r
        if c.nb == FB + "close":
            if c.vals[0] == FPP and is_sym(st.get(FPP)):
                st.trace("fclose", st[FPP])
            if is_sym(c.vals[0]):
                st[c.vals[0]] = 0
            return "done"
        if c.nb == "fclose":
            st.trace("fclose", c.vals[0])
            return 0
        if c.nb == OS + "get_dir":
            put(st, c.vals[0], (("dir", get(st, c.vals[1])),))
            return "done"
        if c.nb == OS + "create_dir":
            st.trace("mkdir", get(st, c.vals[0]))
            return ("o", "mkdir")
        if c.nb == OS + "open_file":
            k = sum(1 for e in st.get("trace", ()) if e[0] == "open")
            ok = script[k] if k < len(script) else 0
            mode = get(st, c.vals[2]) if is_sym(c.vals[2]) else UNKNOWN
            st.trace("open", "out" if c.vals[0] == FPP else "tmp", get(st, c.vals[1]) if is_sym(c.vals[1]) else None, mode, ok)
            if is_sym(c.vals[0]):
                if ok:
                    st[c.vals[0]] = obj(("F", k))
            return ok
        d = slept(st, c)
        if d is not None:
            st.trace("sleep", d)
            return 0 if c.nb in ("usleep", "sleep", "nanosleep", "clock_nanosleep") else "done"
        if c.nb in (OS + "get_errno",):
            return 5
        if c.nb.startswith("fmt::"):
            return "done"
        return None
    st0 = St({FPP: old, ("str", FN): FNAME})
    M = Machine(m, f, [FPP, FN, trunc, tries, 33], st0, call, throws=thrower)
    what = "%s, %d tries, outcomes %s" % ("truncate" if trunc else "append", tries, "".join(map(str, script)))
    for msg, i, path in M.bad():
        fail(f, "open", i, msg)
    outs = M.exits()
    if not any(o[0] in ("ret", "escape") for o in outs):
        fail(f, "open", None, "never comes back")
    for kind, v, st, i in outs:
        if kind == "noreturn" or kind == "terminate":
            continue
        tr = st.get("trace", ())
        opens = [(k, e) for k, e in enumerate(tr) if e[0] == "open"]
        fails = [e for k, e in opens if not e[4]]
        if any(e[2] != FNAME for k, e in opens):
            fail(f, "file name", i, "opens another path than the one given")
        if opens and not any(e[0] == "mkdir" and e[1] == DIRNAME for e in tr[:opens[0][0]]):
            fail(f, "directories", i, "opens the file without first creating the directories it is in")
        modes = [e[3] for k, e in opens]
        if any(x not in (lit("ab"), lit("wb")) for x in modes):
            fail(f, "mode", i, "opens in a mode other than append or truncate")
        if not trunc and lit("wb") in modes:
            fail(f, "mode", i, "empties the file although it was to be appended to")
        # streams: every one opened, except the result, is closed once
        res = st.get(FPP)
        live = [obj(("F", n2)) for n2, (k, e) in enumerate(opens) if e[4]]
        closed = [e[1] for e in tr if e[0] == "fclose"]
        for s in live:
            if closed.count(s) != (0 if s == res and kind == "ret" else 1):
                fail(f, "streams", i, "a stream it opened is closed %d times" % closed.count(s) if not (s == res) else "the stream it returns has been closed")
        if old != 0 and closed.count(old) != 1:
            fail(f, "streams", i, "the stream that was open is closed %d times" % closed.count(old))
        if old != 0 and opens and ("fclose", old) in tr and tr.index(("fclose", old)) > opens[0][0]:
            fail(f, "streams", i, "opens the file before the old stream is closed")
        # retries
        for a, b in zip(opens, opens[1:]):
            if not a[1][4] and [e[1] for e in tr[a[0]:b[0]] if e[0] == "sleep"] != [33 * 10 ** 6]:
                fail(f, "retry", i, "tries again without waiting the given time")
        if kind == "ret":
            if res not in live:
                fail(f, "result", i, "returns without an open stream")
                continue
            k = live.index(res)
            e = [e for _, e in opens if e[4]][k]
            if e[3] != lit("ab"):
                fail(f, "mode", i, "the stream it returns is not in append mode")
            if trunc and not any(x[1][3] == lit("wb") and x[1][4] for x in opens[:[y[1] for y in opens].index(e)]):
                fail(f, "mode", i, "does not empty the file although asked to")
            if len(fails) >= tries:
                fail(f, "retry", i, "goes on after the given number of tries")
        else:
            if is_sym(res):
                fail(f, "result", i, "reports failure and leaves a stream behind")
            if len(fails) != tries:
                fail(f, "retry", i, "gives up after %d of %d tries" % (len(fails), tries))


def open_file(rep, m, fail):
    f = one(m, OS + "open_file")
    rep.fn(f)
    FP, FN, MODE = obj("FP"), obj("FN"), obj("MODE")
    O_CREAT, O_WRONLY, O_CLOEXEC, O_APPEND, O_TRUNC, O_EXCL, O_RDWR = 0o100, 1, 0o2000000, 0o2000, 0o1000, 0o200, 2
    n = 0
    for mode in ("ab", "wb"):
        for fd in (-1, 7):
            for stream in (0, obj("FILE")):
                n += 1

                def call(st, c):
                    r = strings(m, st, c)
                    if r is not None:
                        return r
                    if c.nb in ("open", "open64"):
                        st.trace("open", chars(m, c.vals[0], c.keys[0]), c.vals[1], c.vals[2] if len(c.vals) > 2 else None)
                        return fd
                    if c.nb == "fdopen":
                        st.trace("fdopen", c.vals[0], chars(m, c.vals[1], c.keys[1]))
                        return stream
                    if c.nb in ("fopen", "fopen64"):
                        raise Bad("opens the file so that child processes inherit it")
                    if c.nb == "close":
                        st.trace("close", c.vals[0])
                        return 0
                    if c.nb == "fclose":
                        st.trace("fclose", c.vals[0])
                        return 0
                    return None
                M = Machine(m, f, [FP, FN, MODE], St({("str", FN): FNAME, ("str", MODE): lit(mode), FP: 0}), call, throws=thrower)
                for msg, i, path in M.bad():
                    fail(f, "open_file", i, msg)
                for kind, v, st, i in M.exits("ret", "escape"):
                    tr = st.get("trace", ())
                    op = [e for e in tr if e[0] == "open"]
                    if len(op) != 1 or op[0][1] != FNAME:
                        fail(f, "open_file", i, "does not open the given path once")
                        continue
                    fl = op[0][2]
                    if not isinstance(fl, int):
                        fail(f, "flags", i, "flags do not follow from the mode")
                        continue
                    want = O_APPEND if mode == "ab" else O_TRUNC
                    for bit, name, on in ((O_CREAT, "O_CREAT", 1), (O_WRONLY, "O_WRONLY", 1), (O_CLOEXEC, "O_CLOEXEC", 1), (O_APPEND, "O_APPEND", mode == "ab"),
                                          (O_TRUNC, "O_TRUNC", mode == "wb"), (O_EXCL, "O_EXCL", 0)):
                        if bool(fl & bit) != bool(on):
                            fail(f, "flags", i, "mode \"%s\": %s is %s" % (mode, name, "missing" if on else "set"))
                    if op[0][3] != 0o644:
                        fail(f, "flags", i, "new files do not get mode 0644")
                    fdo = [e for e in tr if e[0] == "fdopen"]
                    cl = [e for e in tr if e[0] == "close"]
                    if fd == -1:
                        if v != 0 or fdo or is_sym(st.get(FP)) or cl:
                            fail(f, "open_file", i, "does not report that the file could not be opened")
                    else:
                        if len(fdo) != 1 or fdo[0][1] != fd or fdo[0][2] != lit(mode):
                            fail(f, "open_file", i, "does not make the stream from the descriptor in the given mode")
                        if stream == 0:
                            if v != 0:
                                fail(f, "open_file", i, "does not report that there is no stream")
                            if cl != [("close", fd)]:
                                fail(f, "descriptors", i, "the descriptor is closed %d times when no stream could be made from it" % len(cl))
                        else:
                            if v != 1 or st.get(FP) != stream:
                                fail(f, "open_file", i, "does not hand out the stream")
                            if cl:
                                fail(f, "descriptors", i, "closes the descriptor of the stream it hands out")
    if not any(k[0] == f.nbase for k in fail.seen):
        rep.ok("open_file", f.nbase, "%d cases of mode and outcomes agree" % n)


def literal_paths(alphabet, maxlen):
    for n in range(1, maxlen + 1):
        for p in itertools.product(alphabet, repeat=n):
            yield "".join(p)


def shapes(maxlen):
    return literal_paths("a/", maxlen)


def directories(rep, m, fail):
    # directory part of a path
    f = one(m, OS + "get_dir")
    rep.fn(f)
    OUT, P = obj("OUT"), obj("P")
    n = 0
    for s in list(shapes(4)):
        n += 1
        M = Machine(m, f, [OUT, P], St({("str", P): lit(s)}), lambda st, c: strings(m, st, c))
        want = s[:s.rindex("/")] if "/" in s else ""
        for kind, v, st, i in M.exits("ret"):
            if get(st, OUT) != lit(want):
                fail(f, "directory", i, "the directory of \"%s\" comes out wrong" % s)
        if not M.exits("ret"):
            fail(f, "directory", None, "does not return for \"%s\"" % s)
    rep.ok("directory", f.nbase, "%d path shapes" % n) if not any(k[0] == f.nbase for k in fail.seen) else None
    # creation of all missing parents
    f = one(m, OS + "create_dir")
    rep.fn(f)
    n = 0
    for s in [""] + list(shapes(4 if rep.tier == "quick" else 5)):
        comps, pos = [], 0
        prefixes = []
        for k in range(1, len(s) + 1):
            if k == len(s) or s[k] == "/":
                if s[k - 1] != "/":
                    prefixes.append(s[:k])
        for have in range(len(prefixes) + 1):
            for broken in range(have, len(prefixes) + 1):
                n += 1
                create_case(f, m, fail, s, prefixes, have, broken, P)
    if not any(k[0] == f.nbase for k in fail.seen):
        rep.ok("directories", f.nbase, "%d cases of path shape, existing and refused directories" % n)
    # wrappers
    for name, sysc in (("mkdir_", "mkdir"), ("dir_exist", "stat")):
        fs = [x for x in m.all() if x.nbase == OS + name]
        for f in fs:
            rep.fn(f)
            for r in (0, -1):
                def call(st, c):
                    x = strings(m, st, c)
                    if x is not None:
                        return x
                    if c.nb in (sysc, sysc + "64", "access"):
                        st.trace(c.nb, chars(m, c.vals[0], c.keys[0]), c.vals[1])
                        return r
                    return None
                M = Machine(m, f, [P], St({("str", P): FNAME}), call)
                for kind, v, st, i in M.exits("ret"):
                    tr = st.get("trace", ())
                    if len(tr) != 1 or tr[0][1] != FNAME or v != int(r == 0):
                        fail(f, "wrapper", i, "does not pass on the outcome for the given path")
                    elif name == "mkdir_" and tr[0][2] != 0o755:
                        fail(f, "wrapper", i, "does not create the directory with mode 0755")


def create_case(f, m, fail, s, prefixes, have, broken, P):
    """prefixes[:have] exist, mkdir fails for prefixes[broken]"""
    def norm_(p):
        return p.rstrip("/")

    def call(st, c):
        r = strings(m, st, c)
        if r is not None:
            return r
        if c.nb in (OS + "dir_exist", OS + "mkdir_", "mkdir", "stat"):
            p = chars(m, c.vals[0], c.keys[0]) if c.nb in ("mkdir", "stat") else get(st, c.vals[0])
            if not all(x[0] == "lit" for x in p):
                raise Bad("looks at a path that is not a part of the given one")
            p = "".join(x[1] for x in p)
            made = {e[1] for e in st.get("trace", ()) if e[0] == "made"}
            # a path names the directory without trailing separators; only "/" is the root
            q = norm_(p)
            there = q in {norm_(x) for x in prefixes[:have]} or q in {norm_(x) for x in made} or p.strip("/") == "" and p != ""
            if c.nb in (OS + "dir_exist", "stat"):
                return int(there) if c.nb != "stat" else (0 if there else -1)
            if p == "":
                raise Bad("creates a directory without a name")
            if there:
                r = 0
            elif "/" in q.strip("/") and not parent_there(q, prefixes, have, made):
                r = 0
            else:
                k = [norm_(x) for x in prefixes].index(q) if q in [norm_(x) for x in prefixes] else None
                if k is None:
                    raise Bad("creates a directory that is not part of the path")
                r = int(k != broken)
            if r:
                st.trace("made", p)
            return r if c.nb != "mkdir" else r - 1
        return None
    M = Machine(m, f, [P], St({("str", P): lit(s)}), call)
    for msg, i, path in M.bad():
        fail(f, "directories", i, msg)
    ex = M.exits("ret")
    if not ex:
        fail(f, "directories", None, "does not return for the path \"%s\"" % s)
    for kind, v, st, i in ex:
        made = {norm_(e[1]) for e in st.get("trace", ()) if e[0] == "made"}
        missing = [x for x in prefixes[have:] if norm_(x) not in made]
        if s == "":
            want = 0
        elif broken < len(prefixes):
            want = 0
        else:
            want = 1
        if want and missing:
            fail(f, "directories", i, "leaves a part of the path uncreated (path like \"%s\")" % s)
        if v != want:
            fail(f, "directories", i, "returns %s where the directories %s (path like \"%s\")" % (v, "exist" if want else "could not be created", s))


def parent_there(q, prefixes, have, made):
    par = q[:q.rindex("/")].rstrip("/")
    return par == "" or par in {x.rstrip("/") for x in prefixes[:have]} or par in {x.rstrip("/") for x in made}


def file_field(m, C):
    """offset of the FILE* member"""
    r = [x for x in m.fields_of(C) if re.search(r"(_IO_)?FILE ?\*$", m.tname(x["t"]) if isinstance(x, dict) else m.tname(x[2]))]
    return r


def sink_opens(rep, m, fail):
    n = 0
    for f in m.all():
        mm = re.match(r"^learnlog::sinks::basic_file_sink<(.*)>::basic_file_sink\(", f.name)
        if not mm or "'lambda" in f.name:
            continue
        rep.fn(f)
        # a constructor that is not told does not empty the file
        for trunc in (0, 1) if len(f.args) > 2 else (0,):
            T, FN = obj("T"), obj("FN")
            n += 1

            def call(st, c):
                r = strings(m, st, c)
                if r is not None:
                    return r
                if c.nb == FB + "open":
                    st.trace("open", c.vals[0], get(st, c.vals[1]), c.vals[2], tuple(c.vals[3:]))
                    st[("fp",)] = st.get(c.vals[0])
                    st[c.vals[0]] = obj("FILE")
                    return "done"
                if c.fn is not None and "::basic_file_sink<" in c.fn.name and not c.last.startswith("~"):
                    return nested(m, st, c, call=call)
                return None
            M = Machine(m, f, [T, FN, trunc][:len(f.args)], St({("str", FN): FNAME}), call)
            for kind, v, st, i in M.exits("ret"):
                tr = [e for e in st.get("trace", ()) if e[0] == "open"]
                if len(tr) != 1 or not is_sym(tr[0][1]) or tr[0][1][1] != "T" or tr[0][2] != FNAME:
                    fail(f, "sink", i, "does not open the given file once")
                elif tr[0][3] != trunc:
                    fail(f, "sink", i, "does not pass on whether to empty the file")
                elif st.get(("fp",)) != 0:
                    fail(f, "sink", i, "the stream member is not null when the file is opened")
                elif len(tr[0][4]) == 2 and isinstance(tr[0][4][0], int) and tr[0][4][0] < 1:
                    fail(f, "sink", i, "opens the file with no tries")
                if not any(k[0] == "str" and is_sym(k[1]) and k[1][1] == "T" and v2 == FNAME for k, v2 in st.items() if isinstance(k, tuple) and k):
                    fail(f, "sink", i, "does not remember the file name")
    rep.check(n >= 4, "coverage", "basic_file_sink", "%d constructor cases" % n, "only %d constructor cases of basic_file_sink" % n)
    defaults(rep, m, fail)


def defaults(rep, m, fail):
    """who does not say whether to empty the file does not ask for it: the argument filled in is false"""
    n = 0
    for f in m.some(r"^vdrv::df_basic_file_", 4):
        rep.fn(f)
        todo, seen, got = [f], set(), []
        while todo:
            g = todo.pop()
            for i in g.calls():
                nm = m.name(i.callee) if i.callee else ""
                if not re.search(r"basic_file_(sink<.*>::basic_file_sink\(|logger_(mt|st)<)", nm):
                    continue
                if re.search(r", bool\)$", nm):
                    got.append((g, i, i.args[-1]))
                elif i.callee not in seen and m.fn(i.callee) is not None:
                    seen.add(i.callee)
                    todo.append(m.fn(i.callee))
                    n += "::basic_file_sink(" in nm         # (its own case above)
        n += len(got)
        for g, i, o in got:
            if not (o[0] == "c" and int(o[1]) == 0):
                fail(g, "default", i, "the file is emptied although that was not asked for")
    rep.check(n >= 1, "coverage", "defaults", "%d calls without the truncation argument" % n, "no call without the truncation argument was found")


PROPERTIES = {"P19": p19}
