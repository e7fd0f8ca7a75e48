"""P26: what the library says about times, errors, the process and files is what the system says."""
from rules._machine import *
from rules import _strings as S
from rules._format import World, TM, Lin
from rules._lin import add, scale, mk, parts, norm as lnorm
from rules.format import symbols, bounds
from rules.files import fail_once, OS

E = "learnlog::learnlog_excpt::"
# strftime's conversions as numbers printed with a fixed width
DATE = {"Y": (("year", 1900, 4),), "m": (("mon", 1, 2),), "d": (("mday", 0, 2),), "H": (("hour", 0, 2),), "M": (("min", 0, 2),), "S": (("sec", 0, 2),),
        "F": "%Y-%m-%d", "T": "%H:%M:%S", "R": "%H:%M", "j": (("yday", 1, 3),)}


def number(v, w):
    return [("chr", lnorm(v), w, k) for k in range(w)]


def text(s):
    return [ord(c) for c in s]


class Sys(World):
    """memory as characters: a digit of a number is ("chr", number, width, k), a whole foreign text is one token"""

    def __init__(self, m, b=None):
        bb = bounds()
        bb.update(b or {})
        super().__init__(m, bb)
        self.limit = {}             # object -> first offset that must not be written

    # -------------------------------------------------------------- memory
    def write(self, st, a, cs):
        top = self.limit.get(a[1])
        if top is not None and cs and not (0 <= a[2] and a[2] + len(cs) <= top):
            raise Bad("writes outside the buffer it was given")
        for k, c in enumerate(cs):
            st[("s", a[1], a[2] + k)] = c

    def store(self, st, a, v, i):
        top = self.limit.get(a[1])
        if top is not None and not 0 <= a[2] < top:
            raise Bad("writes outside the buffer it was given")
        return super().store(st, a, v, i)

    def read(self, st, a, key=None, most=None):
        """the C string at an address, None when it is not known"""
        t = S.chars(self.m, a, key) if key is not None else None
        if t is not None:
            s = S.literal(t)
            return text(s) if s is not None else [("txt", t)]
        if not is_sym(a):
            return None
        out, k = [], a[2]
        while most is None or len(out) < most:
            c = st.get(("s", a[1], k))
            if c is None or c == ("undef",):
                raise Bad("prints characters nobody wrote")
            if c == 0:
                break
            out.append(c)
            k += 1
        return out

    # -------------------------------------------------------------- calls
    def strftime(self, st, fmt, tm):
        out, k = [], 0
        while k < len(fmt):
            if fmt[k] != "%":
                out.append(ord(fmt[k]))
                k += 1
                continue
            k += 1
            d = DATE.get(fmt[k]) if k < len(fmt) else None
            k += 1
            if fmt[k - 1:k] == "%":
                out.append(ord("%"))
            elif isinstance(d, str):
                out += self.strftime(st, d, tm)
            elif d:
                for name, plus, w in d:
                    v = st.get(("s", tm[1], tm[2] + TM[name]))
                    out += number(add(v, plus), w) if v is not None else [("undef",)] * w
            else:
                out.append(("undef",))
        return out

    def printf(self, st, fmt, vals, keys):
        out, k, n = [], 0, 0
        while k < len(fmt):
            if fmt[k] != "%":
                out.append(ord(fmt[k]))
                k += 1
                continue
            g = re.match(r"%([-0 +#]*)(\d*)(?:\.(\d+|\*))?(hh|h|ll|l|z|j|t)?([a-zA-Z%])", fmt[k:])
            if not g:
                return None
            k += g.end()
            flags, width, prec, size, conv = g.groups()
            if conv == "%":
                out.append(ord("%"))
                continue
            if n >= len(vals):
                raise Bad("prints a value that is not there")
            most = None
            if prec == "*":
                most, n = vals[n], n + 1
                if not isinstance(most, int):
                    return None
            elif prec:
                most = int(prec)
            v, key = vals[n], keys[n]
            n += 1
            if conv == "s":
                t = self.read(st, v, key, most)
                if t is None or width:
                    return None
                out += t if most is None else t[:most]
            elif conv in "diu":
                if v is None or is_sym(v):
                    return None
                w = int(width or 0)
                lo, hi = self.lin.range(v) if not isinstance(v, int) else (v, v)
                if isinstance(v, int):
                    out += text(("%0*d" if "0" in flags else "%*d") % (w, v))
                elif "0" in flags and lo >= 0 and hi < 10 ** w:
                    out += number(v, w)
                else:
                    out.append(("num", lnorm(v), w, "0" in flags))
            elif conv == "c" and isinstance(v, int):
                out.append(v & 255)
            else:
                return None
        return out

    def call(self, st, c):
        v, nb, m = c.vals, c.nb, self.m
        if c.last in ("localtime_r", "gmtime_r", "localtime", "gmtime") and nb == c.last:
            t = st.get(v[0]) if is_sym(v[0]) else None
            d = v[1] if len(v) > 1 else obj("static tm")
            if is_sym(d):
                for k, off in TM.items():
                    if nb.startswith("local") and t == ("o", "sec"):
                        st[("s", d[1], d[2] + off)] = ("o", "tm_" + k)
                    else:
                        st.pop(("s", d[1], d[2] + off), None)
            return d
        if nb == "strftime" and is_sym(v[0]) and isinstance(v[1], int) and is_sym(v[3]):
            f = S.literal(S.chars(m, v[2], c.keys[2]) or S.UNKNOWN)
            if f is None:
                return None
            t = self.strftime(st, f, v[3])
            if len(t) + 1 > v[1]:
                self.write(st, v[0], [("undef",)] * v[1])
                return 0
            self.write(st, v[0], t + [0])
            return len(t)
        if nb == "snprintf" and is_sym(v[0]) and isinstance(v[1], int):
            f = S.literal(S.chars(m, v[2], c.keys[2]) or S.UNKNOWN)
            t = self.printf(st, f, v[3:], c.keys[3:]) if f is not None else None
            if t is None:
                self.write(st, v[0], [("undef",)] * v[1])
                return None
            if v[1] < 0 or v[1] >= 2 ** 63:
                raise Bad("the room left in the buffer comes out negative")
            src = [x for x, k in zip(v[3:], c.keys[3:]) if is_sym(x) and x[1] == v[0][1]]
            if src:
                raise Bad("prints a buffer into itself")
            if v[1]:
                self.write(st, v[0], t[:v[1] - 1] + [0])
            return len(t)
        if nb in ("memcpy", "memmove", "strcpy", "strncpy", "stpcpy", "sprintf", "strcat"):
            return None
        if nb.startswith(("llvm.memcpy", "llvm.memmove")) and is_sym(v[0]) and v[0][1] in self.limit:
            if not isinstance(v[2], int) or not 0 <= v[0][2] or v[0][2] + v[2] > self.limit[v[0][1]]:
                raise Bad("writes outside the buffer it was given")
            return None
        if nb == "strlen" and is_sym(v[0]):
            t = self.read(st, v[0], c.keys[0])
            return len(t) if t is not None and not any(isinstance(x, tuple) and x[0] == "txt" for x in t) else super().call(st, c)
        if nb.startswith("learnlog::base::os::") and c.fn is not None:
            return nested(m, st, c, call=self.call, load=self.load, store=self.store, term=self.term, arith=self.lin.arith, counting=100)
        return super().call(st, c)

    def machine(self, f, args, st):
        return Machine(self.m, f, args, st, call=self.call, load=self.load, store=self.store, term=self.term, arith=self.lin.arith, counting=200, strong=True, cas=lambda st, a, e, n, i: None)


def when(ns):
    out = number(add(("o", "tm_year"), 1900), 4) + text("-") + number(add(("o", "tm_mon"), 1), 2) + text("-") + number(("o", "tm_mday"), 2) + text(" ")
    out += number(("o", "tm_hour"), 2) + text(":") + number(("o", "tm_min"), 2) + text(":") + number(("o", "tm_sec"), 2)
    return out + (text(".") + number(("o", "ns"), 9) if ns else [])


def funcs(m, name):
    fs = [f for f in m.all() if f.nbase == name]
    if not fs:
        raise AnalysisBroken("no function %s" % name)
    return fs


def moments(rep, m, fail):
    BUF, TP = obj("BUF"), obj("TP")
    x = symbols("")
    for name, ns in (("time_point_to_datetime_sec", False), ("time_point_to_datetime_nsec", True)):
        want = when(ns)
        for f in funcs(m, OS + name):
            rep.fn(f)
            n = 0
            for room in range(1, 41 if rep.tier == "quick" else 130):
                w = Sys(m)
                w.limit = {"BUF": room}
                M = w.machine(f, [BUF, room, TP], St({TP: lnorm(x.time())}))
                for msg, i, path in M.bad():
                    fail(f, "moment", i, "with room for %d characters: %s" % (room, msg) if "outside" in msg or "negative" in msg else msg)
                ex = M.exits("ret")
                if not ex and not M.bad():
                    fail(f, "moment", None, "does not return")
                for kind, v, st, i in ex:
                    n += 1
                    if room > len(want):
                        got = []
                        while len(got) <= len(want) and st.get(("s", "BUF", len(got))) not in (0, None):
                            got.append(st[("s", "BUF", len(got))])
                        if got != want or st.get(("s", "BUF", len(want))) != 0:
                            fail(f, "moment", i, "the text is not the local date and time \"YYYY-MM-DD HH:MM:SS%s\", ended by a null character" % (".nnnnnnnnn" if ns else ""))
            if not any(k[0] == f.nbase for k in fail.seen):
                rep.ok("moment", start(f), "local date and time of every moment since 1970, buffers of 1..%d characters" % room)
            rep.paths += n


def reports(rep, m, fail, cfg):
    """the line printed for an exception"""
    for f in [f for f in m.all() if f.nbase == "learnlog::handle_excpt"]:
        rep.fn(f)
        w = Sys(m, {("now", 1): (10 ** 18, 2 * 10 ** 18), "cnt": (1, 2 ** 62)})
        x = symbols("")
        MSG = obj("MSG")
        out = []

        def call(st, c):
            if c.nb == "std::chrono::_V2::system_clock::now":
                if st.get(("clock",)):
                    raise Bad("takes the time more than once")
                st[("clock",)] = 1
                return lnorm(x.time())
            if c.nb in ("fprintf", "dprintf"):
                fm = S.literal(S.chars(m, c.vals[1], c.keys[1]) or S.UNKNOWN)
                t = w.printf(st, fm, c.vals[2:], c.keys[2:]) if fm is not None else None
                st.trace("print", tuple(t) if t is not None else None)
                return 1
            if c.nb in ("fputs", "fputc", "putc", "fwrite", "puts", "printf"):
                st.trace("print", tuple(w.read(st, c.vals[0], c.keys[0]) or ()) if c.nb == "fputs" else tuple(w.read(st, c.vals[0], c.keys[0], c.vals[2]) or ()) if c.nb == "fwrite" and isinstance(c.vals[2], int) else (c.vals[0],))
                return 1
            return World_call(st, c)
        World_call = w.call
        w.call = call

        def load(st, a):
            if isinstance(a[1], tuple) and a[1][0] == "g":
                g = m.globals.get(a[1][1], {})
                if a[1][1] == "stderr":
                    return obj("stderr")
                if not g.get("const"):
                    return ("o", "cnt")
            return World_load(st, a)
        World_load = w.load
        w.load = load
        M = w.machine(f, [MSG], St({("str", MSG): (("msg", "text"),)}))
        for msg, i, path in M.bad():
            fail(f, "report", i, msg)
        for kind, v, st, i in M.exits("ret"):
            line = []
            for e in st.get("trace", ()):
                if e[0] == "print":
                    line += list(e[1]) if e[1] is not None else [None]
            date = when(False)
            at = [k for k in range(len(line)) if line[k:k + len(date)] == date]
            if len(at) != 1:
                fail(f, "report", i, "the report does not show the local date and time of the moment it is made")
            if not line or line[-1] != 10 or line.count(10) != 1:
                fail(f, "report", i, "the report is not one line")
        if not any(k[0] == f.nbase for k in fail.seen):
            rep.ok("report", start(f), "%s: one line with the local date and time" % cfg)


def descriptions(rep, m, fail):
    """what() of the library's own exception"""
    n = 0
    for f in m.all():
        if f.nbase != E + "learnlog_excpt" or len(f.args) not in (2, 3, 4):
            continue
        p = m.name(f.mangled)
        if "learnlog_excpt const&" in p.split("learnlog_excpt(", 1)[1] or "learnlog_excpt&&" in p.split("learnlog_excpt(", 1)[1]:
            continue
        rep.fn(f)
        n += 1
        w = Sys(m)
        EX, MSG, LOC = obj("EX"), obj("MSG"), obj("LOC")
        text_ = (("msg", "text"),)
        st0 = St({("str", MSG): text_})
        for k, name in ((0, "file"), (16, "func")):
            st0[("s", "LOC", k)] = ("s", ("chars", (("field", name),)), 0)
        st0[("s", "LOC", 8)] = ("o", "line")
        wc = w.call

        def call(st, c):
            if re.match(r"^std::exception::", c.nb):
                return "done"
            if re.match(r"^fmt::(v\d+::)?format_system_error$", c.nb) and is_sym(c.vals[0]):
                t = S.chars(m, c.vals[2], c.keys[2])
                w.put(st, c.vals[0], (("syserr", t, c.vals[1]),))
                return "done"
            if re.match(r"^fmt::(v\d+::)?detail::check_format_string$", c.nb):
                return "done"
            if re.match(r"^fmt::(v\d+::)?detail_exported::compile_string_to_view$", c.nb):
                t = S.chars(m, c.vals[0], c.keys[0])
                return (("s", ("chars", t), 0), S.length(t)) if t is not None else None
            if re.match(r"^fmt::(v\d+::)?(format_to|to_string|format)$", c.nb):
                return formatted(st, c)
            return wc(st, c)

        def formatted(st, c):
            if c.last == "to_string" and is_sym(c.vals[0]) and is_sym(c.vals[1]):
                S.put(st, c.vals[0], w.buf(st, c.vals[1]))
                return "done"
            if c.last == "format_to":
                b = st.get(c.vals[0]) if is_sym(c.vals[0]) and ("buf", c.vals[0]) not in st else c.vals[0]
                fm = next((S.literal(S.chars(m, v, k) or S.UNKNOWN) for v, k in list(zip(c.vals, c.keys))[1:] if S.chars(m, v, k) is not None), None)
                if not is_sym(b) or fm is None:
                    return None
                args = [v for v, k in list(zip(c.vals, c.keys))[1:] if is_sym(v) and v[1] == "LOC"]
                out, parts_ = (), re.split(r"\{\}", fm)
                for j, s in enumerate(parts_):
                    out += S.lit(s)
                    if j < len(parts_) - 1:
                        v = st.get(args[j]) if j < len(args) else None
                        out += v[1][1] if is_sym(v) and isinstance(v[1], tuple) and v[1][0] == "chars" else (("int", v),) if v is not None else S.UNKNOWN
                w.put(st, b, out)
                return c.vals[0]
            return None
        w.call = call
        args = [EX, MSG] + [("o", "errno")] * (len(f.args) > 2) + [LOC] * (len(f.args) > 3)
        M = w.machine(f, args, st0)
        for msg, i, path in M.bad():
            fail(f, "description", i, msg)
        for kind, v, st, i in M.exits("ret"):
            fld = [v for k, v in st.items() if isinstance(k, tuple) and k[0] == "str" and is_sym(k[1]) and k[1][1] == "EX"]
            want = w.t.segs(text_) if len(f.args) == 2 else (("syserr", text_, ("o", "errno")),)
            if len(f.args) == 4:
                want = w.t.segs(want + S.lit("\n[location: ") + (("field", "file"),) + S.lit(":") + (("int", ("o", "line")),) + S.lit(" - ") + (("field", "func"),) + S.lit("]"))
            if [w.t.segs(x) for x in fld] != [want]:
                fail(f, "description", i, "the exception's text is not what it was made from: %s" % ("the text given", "the text and the system's description of the error", "the text, the system's "
                                          "description of the error and the location")[len(f.args) - 2])
                continue
            for g in funcs(m, E + "what"):
                rep.fn(g)
                M2 = Sys(m).machine(g, [EX], St({k: v for k, v in st.items() if isinstance(k, tuple) and k[0] in ("str", "s")}))
                for kind, v, st2, i2 in M2.exits("ret", "escape"):
                    if kind != "ret" or not (is_sym(v) and isinstance(v[1], tuple) and v[1][0] == "chars" and w.t.segs(v[1][1]) == want and v[2] == 0):
                        fail(g, "description", i2, "what() does not give the exception's text")
        if not any(k[0] == f.nbase for k in fail.seen):
            rep.ok("description", start(f), p[:120])
    if n < 3:
        raise AnalysisBroken("constructors of learnlog_excpt not found")
    # the helpers that throw hand everything on
    for f in m.all():
        if f.nbase != "learnlog::throw_learnlog_excpt":
            continue
        rep.fn(f)
        args = [obj("A%d" % k) if a["ty"] == "ptr" else ("o", "errno") for k, a in enumerate(f.args)]

        def call2(st, c):
            if c.nb == E + "learnlog_excpt":
                st.trace("made", tuple(S.get(st, v) if is_sym(v) and ("str", v) in st else v for v in c.vals[1:]))
                return "done"
            if c.nb == "__cxa_allocate_exception":
                return obj("EXC")
            if c.nb == "__cxa_throw":
                st.trace("throw", c.vals[0])
                return "done"
            return S.strings(m, st, c)
        st0 = St({("str", args[0]): (("msg", "text"),)})
        M = Machine(m, f, args, st0, call2, counting=100)
        good = False
        for kind, v, st, i in M.exits():
            tr = st.get("trace", ())
            made = [e for e in tr if e[0] == "made"]
            want = ((("msg", "text"),),) + tuple(args[1:])
            if kind in ("escape", "unreachable", "throw") or any(e[0] == "throw" for e in tr):
                good = True
            if kind == "ret" and not any(e[0] == "throw" for e in tr):
                fail(f, "description", i, "returns without throwing")
            elif made != [("made", want)]:
                fail(f, "description", i, "does not throw an exception made from what it was given")
        if good and not any(k[0] == f.nbase for k in fail.seen):
            rep.ok("description", start(f), "throws an exception made from its arguments")


PID, ERRNO, SIZE = ("o", "pid"), ("o", "errno"), ("o", "size")


def wrappers(rep, m, fail):
    P, Q, FILE = obj("P"), obj("Q"), obj("FILE")
    A, B = (("path", 1),), (("path", 2),)
    lin = Lin({"pid": (1, 2 ** 31 - 1), "errno": (0, 133), "size": (0, 2 ** 62), "fd": (0, 2 ** 20)})

    def run(name, args, script, judge, st0=()):
        for f in [f for f in m.all() if f.nbase == OS + name]:
            rep.fn(f)

            def call(st, c):
                r = S.strings(m, st, c)
                if r is not None:
                    return r
                if c.nb == "fileno" and c.vals[0] == FILE:
                    return ("o", "fd")
                r = script(st, c)
                if r is None and c.nb.startswith(OS) and c.fn is not None:
                    return nested(m, st, c, call=call, load=load, arith=lin.arith, term=term, counting=100)
                return r

            def load(st, a):
                return ERRNO if a == obj("errno") else None

            def term(st, t):
                return lin.cmp(t[1], *[v[1] if isinstance(v, tuple) and v[0] == "const" else v for v in t[2:4]]) if t[0] == "icmp" else None
            M = Machine(m, f, args, St(dict(st0)), call, load=load, arith=lin.arith, term=term)
            for msg, i, path in M.bad():
                fail(f, "wrapper", i, msg)
            ex = M.exits("ret", "escape")
            if not ex and not M.bad():
                fail(f, "wrapper", None, "does not return")
            for kind, v, st, i in ex:
                rep.paths += 1
                msg = judge(v, st.get("trace", ())) if kind == "ret" else "throws"
                if msg:
                    fail(f, "wrapper", i, msg)
            if not any(k[0] == f.nbase for k in fail.seen):
                rep.ok("wrapper", start(f), m.name(f.mangled)[:100])
            return
        return

    ret = lambda table: lambda st, c: table[c.nb] if c.nb in table else None
    run("pid", [], ret({"getpid": PID, "getppid": ("o", "fd"), "gettid": ("o", "size")}), lambda v, t: None if v == PID else "is not the id of this process")
    run("get_errno", [], ret({"__errno_location": obj("errno")}), lambda v, t: None if v == ERRNO else "is not errno")
    for tty in (0, 1):
        def isatty(st, c):
            if c.nb == "isatty":
                if c.vals[0] != ("o", "fd"):
                    raise Bad("asks about another stream")
                return tty
        run("in_terminal", [FILE], isatty, lambda v, t: None if v == tty else "says the opposite of the system")
    for r in (0, -1):
        def fsync(st, c):
            if c.nb in ("fsync", "fdatasync", "sync"):
                if c.nb != "fsync" or c.vals[0] != ("o", "fd"):
                    raise Bad("does not bring this stream's file to the disk")
                st.trace("fsync")
                return r
        run("fsync", [FILE], fsync, lambda v, t: None if t == (("fsync",),) and v == int(r == 0) else "does not say whether the file is on the disk")

        def fstat(st, c):
            if c.nb in ("fstat", "fstat64"):
                if c.vals[0] != ("o", "fd"):
                    raise Bad("asks about another file")
                if is_sym(c.vals[1]) and r == 0:
                    for k in range(0, 144, 8):
                        st[("s", c.vals[1][1], c.vals[1][2] + k)] = SIZE if k == 48 else ("o", ("stat", k))
                return r
        run("filesize", [FILE], fstat, lambda v, t: None if v == (SIZE if r == 0 else -1) else "is not the size of the file, or -1 when it cannot be told")

        def rename(st, c):
            if c.nb in ("rename", "link", "remove", "unlink"):
                st.trace(c.nb, *[S.chars(m, v, k) for v, k in zip(c.vals, c.keys)])
                return r
        run("rename_file", [P, Q], rename, lambda v, t: None if t == (("rename", A, B),) and v == r else "does not rename the first path to the second and say how that went", {("str", P): A, ("str", Q): B})
        run("remove_file", [P], rename, lambda v, t: None if t in ((("remove", A),), (("unlink", A),)) and v == r else "does not remove the path and say how that went", {("str", P): A})
        for there in (1, 0):
            def gone(st, c):
                if c.nb in ("stat", "stat64", "lstat", "access"):
                    return 0 if there else -1
                if c.nb in ("remove", "unlink"):
                    st.trace("remove", S.chars(m, c.vals[0], c.keys[0]))
                    return r if there else -1
            run("remove_file_if_exist", [P], gone, lambda v, t: None if (v == r and t == (("remove", A),) if there else v == 0) else
                "does not remove the path when it is there, or fails when it is not", {("str", P): A})


def p26(rep):
    rep.explanation = ("The helpers that ask the system are run as machines over symbolic results of the system calls: dates and times are compared character by character with the local time of a symbolic "
                       "moment for every size of the buffer, exception texts and reports with what they were made from, and each wrapper's result with that of the call it wraps.")
    m = get_model("tls")
    fail = fail_once(rep)
    moments(rep, m, fail)
    reports(rep, m, fail, "release")
    reports(rep, get_model("debug"), fail, "with assertions")
    descriptions(rep, m, fail)
    wrappers(rep, m, fail)


PROPERTIES = {"P26": p26}
