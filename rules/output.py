"""P21: what is written and what happens when it cannot be; P23: colours."""
import itertools
from rules._machine import *
from rules._strings import *
from rules import _format as FW, _strings as S
from rules.files import FB, OS, STD_EXC, fail_once

T, MSG, BUF, FNM, FILE = obj("T"), obj("MSG"), obj("BUF"), obj("FNM"), obj("FILE")
SK = "learnlog::sinks::"
TEXT = 10                                   # bytes of the formatted message


def find(m, nbase):
    fs = [f for f in m.all() if f.nbase == nbase]
    if not fs:
        raise AnalysisBroken("no function %s" % nbase)
    return fs[0]


def span(v, n):
    """a piece of the formatted message: (from, to)"""
    if is_sym(v) and isinstance(v[1], tuple) and v[1] == ("chars", (("msg", TEXT),)) and isinstance(n, int):
        return (v[2], v[2] + n)
    return None


class Io:
    """the operating system's side of output: results come from a script, what reached the stream is kept in order"""

    def __init__(self, m, script=(), colors=(), fmt=None):
        self.m, self.script, self.colors, self.fmt = m, script, colors, fmt

    def outcome(self, st, kind, dflt):
        k = sum(1 for e in st.get("trace", ()) if e[0] == "io")
        st.trace("io", kind)
        return self.script[k] if k < len(self.script) else dflt

    def call(self, st, c):
        m = self.m
        if c.threw:
            return None
        for model in (strings, buffers):
            r = model(m, st, c)
            if r is not None:
                return r
        if c.nb in ("fwrite", "fwrite_unlocked"):
            p, size, cnt, fp = c.vals[:4]
            if not isinstance(size, int) or not isinstance(cnt, int):
                raise Bad("how much is written does not follow from the message")
            n = size * cnt
            s = span(p, n)
            if s is None:
                x = chars(m, p, c.keys[0])
                if x is None or length(x) != n:
                    raise Bad("writes something that is neither the formatted message nor a colour")
                st.trace("put", fp, ("text", literal(x)))
                return cnt
            short = self.outcome(st, "fwrite", None)
            got = n if short is None else max(0, n - short)
            st.trace("put", fp, ("msg", s[0], s[0] + got, s[1]))
            return got // size if size else 0
        if c.nb in ("fflush", "fflush_unlocked"):
            r = self.outcome(st, "fflush", 0)
            st.trace("flush", c.vals[0], r)
            return r
        if c.nb == "fclose":
            r = self.outcome(st, "fclose", 0)
            st.trace("close", c.vals[0], r)
            return r
        if c.nb in ("fsync", "fdatasync"):
            r = self.outcome(st, "fsync", 0)
            st.trace("sync", c.vals[0], r)
            return r
        if c.nb in ("fileno", "fileno_unlocked"):
            return obj(("fd", c.vals[0]))
        if c.nb in ("fstat64", "fstat"):
            r = self.outcome(st, "fstat", 0)
            st.trace("stat", c.vals[0], r)
            b = c.vals[1]
            if is_sym(b):
                for o in range(0, 144, 8):
                    st[("s", b[1], b[2] + o)] = 4000 + o
            return r
        if c.nb == OS + "fsync":
            r = self.outcome(st, "sync", 1)
            st.trace("sync", c.vals[0], r)
            return r
        if c.nb == OS + "filesize":
            r = self.outcome(st, "size", 77)
            st.trace("size", c.vals[0], r)
            return r
        if c.nb == OS + "get_errno":
            return 5
        if c.nb == "__errno_location":
            return obj("errno")
        if c.last == "format" and len(c.vals) == 3 and is_sym(c.vals[2]) and c.nb.startswith(("virtual:", "learnlog::sinks::")):
            st.trace("format", c.vals[1])
            if self.fmt:
                self.fmt(st)
            st[("buf", c.vals[2])] = norm(st.get(("buf", c.vals[2]), UNKNOWN) + (("msg", TEXT),))
            return "done"
        if c.nb == "isatty":
            if c.vals[0] != obj(("fd", FILE)):
                raise Bad("asks whether another stream is a terminal")
            return st.get(("tty",))
        if c.nb == OS + "in_terminal":
            return st.get(("tty",)) if c.vals[0] == FILE else None
        if c.nb == OS + "is_color_terminal":
            return st.get(("color",))
        if c.nb.startswith("fmt::"):
            return "done"
        if c.last == "mutex" and "static_" in c.nb:
            return obj("MX")
        return None


def throws(st, c):
    return STD_EXC if c.nb == "learnlog::throw_learnlog_excpt" else ()


def pieces(tr):
    """what reached streams: [(stream, what)], neighbouring message pieces joined; (text, complete)"""
    out, whole = [], True
    for e in tr:
        if e[0] != "put":
            continue
        w = e[2]
        if w[0] == "msg":
            whole = whole and w[2] == w[3]
            if w[1] == w[2] == w[3]:
                continue
            if out and out[-1][0] == e[1] and out[-1][1][0] == "msg" and out[-1][1][2] == w[1]:
                out[-1] = (e[1], ("msg", out[-1][1][1], w[2]))
                continue
            out.append((e[1], ("msg", w[1], w[2])))
        elif w[1]:
            out.append((e[1], w))
    return out, whole


def run(m, f, args, st, io, **k):
    return Machine(m, f, args, st, io.call, load=bufload, throws=throws, **k)


def p21(rep):
    rep.explanation = ("Output and its errors: the file operations and the output functions of the sinks are run as machines whose operating-system calls succeed, fail or "
                       "write less than asked; on every path that comes back normally the whole formatted message has been handed over once, and every failure throws.")
    m = get_model("tls")
    fail = fail_once(rep)
    file_ops(rep, m, fail)
    os_ops(rep, m, fail)
    sinks(rep, m, fail)


def file_ops(rep, m, fail):
    # write
    f = find(m, FB + "write")
    rep.fn(f)
    for fp in (0, FILE):
        for n, short in ((TEXT, None), (TEXT, 1), (TEXT, TEXT)):
            io = Io(m, (short,))
            M = run(m, f, [fp, FNM, BUF], St({("buf", BUF): (("msg", TEXT),), ("str", FNM): (("fname",),)}), io)
            for msg, i, path in M.bad():
                fail(f, "write", i, msg)
            for kind, v, st, i in M.exits("ret", "escape"):
                tr = st.get("trace", ())
                got, whole = pieces(tr)
                if fp == 0:
                    if kind == "ret" or got:
                        fail(f, "write", i, "goes on without an open stream")
                elif kind == "ret":
                    if got != [(FILE, ("msg", 0, TEXT))]:
                        fail(f, "write", i, "returns normally although %s" % ("not everything was written" if short else "something other than the whole buffer was written"))
                elif short is None:
                    fail(f, "write", i, "throws although everything was written")
            if not M.exits("ret", "escape"):
                fail(f, "write", None, "never comes back")
    # flush, sync
    for name, op, ok, bad in (("flush", "flush", 0, (-1, 1)), ("sync", "sync", 1, (0,))):
        f = find(m, FB + name)
        rep.fn(f)
        for r in (ok,) + bad:
            M = run(m, f, [FILE, FNM], St({("str", FNM): (("fname",),)}), Io(m, (r,)))
            for kind, v, st, i in M.exits("ret", "escape"):
                done = [e for e in st.get("trace", ()) if e[0] == op]
                if len(done) != 1 or done[0][1] != FILE:
                    fail(f, name, i, "does not %s the given stream once" % name)
                if (kind == "ret") != (r == ok):
                    fail(f, name, i, "does not throw when it fails" if r != ok else "throws although it succeeded")
            if not M.exits("ret", "escape"):
                fail(f, name, None, "never comes back")
    # size
    f = find(m, FB + "size")
    rep.fn(f)
    for fp in (0, FILE):
        for r in (77, 0, -1):
            M = run(m, f, [fp, FNM], St({("str", FNM): (("fname",),)}), Io(m, (r,)))
            for kind, v, st, i in M.exits("ret", "escape"):
                asked = [e for e in st.get("trace", ()) if e[0] == "size"]
                if fp == 0:
                    if kind == "ret" or asked:
                        fail(f, "size", i, "goes on without an open stream")
                elif (kind == "ret") != (r >= 0):
                    fail(f, "size", i, "does not throw when it fails" if r < 0 else "throws although it succeeded")
                elif kind == "ret" and v != r:
                    fail(f, "size", i, "does not return the size")
            if not M.exits("ret", "escape"):
                fail(f, "size", None, "never comes back")
    # close
    f = find(m, FB + "close")
    rep.fn(f)
    FPP = obj("FPP")
    for cur in (0, FILE):
        for r in (0, -1):
            M = run(m, f, [FPP, FNM], St({FPP: cur, ("str", FNM): (("fname",),)}), Io(m, (r,)))
            for kind, v, st, i in M.exits("ret", "escape"):
                done = [e for e in st.get("trace", ()) if e[0] == "close"]
                if [e[1] for e in done] != ([cur] if cur else []):
                    fail(f, "close", i, "the stream is closed %d times" % len(done) if cur else "closes a stream although none is open")
                if st.get(FPP) != 0:
                    fail(f, "close", i, "the stream that was closed is not forgotten%s" % (" when closing it fails" if kind == "escape" else ""))
                if (kind == "ret") != (cur == 0 or r == 0):
                    fail(f, "close", i, "does not throw when it fails" if r else "throws although it succeeded")
            if not M.exits("ret", "escape"):
                fail(f, "close", None, "never comes back")
    for n in ("write", "flush", "sync", "size", "close"):
        if not any(k[0] == FB + n for k in fail.seen):
            rep.ok(n, FB + n, "all outcomes agree")


def os_ops(rep, m, fail):
    f = find(m, OS + "filesize")
    rep.fn(f)
    for r in (0, -1):
        M = run(m, f, [FILE], St({}), Io(m, (r,)))
        for kind, v, st, i in M.exits("ret", "escape"):
            done = [e for e in st.get("trace", ()) if e[0] == "stat"]
            if kind != "ret" or len(done) != 1 or done[0][1] != obj(("fd", FILE)):
                fail(f, "filesize", i, "does not ask for the state of the given stream's file")
            elif v != (4048 if r == 0 else -1):
                fail(f, "filesize", i, "does not return the size of the file" if r == 0 else "does not report the failure")
    f = find(m, OS + "fsync")
    rep.fn(f)
    for r in (0, -1):
        M = run(m, f, [FILE], St({}), Io(m, (r,)))
        for kind, v, st, i in M.exits("ret", "escape"):
            done = [e for e in st.get("trace", ()) if e[0] == "sync"]
            if kind != "ret" or len(done) != 1 or done[0][1] != obj(("fd", FILE)) or v != int(r == 0):
                fail(f, "fsync", i, "does not pass on the outcome for the given stream")
    for n in ("filesize", "fsync"):
        if not any(k[0] == OS + n for k in fail.seen):
            rep.ok(n, OS + n, "both outcomes agree")


def insts(m, cls, method):
    return [f for f in m.all() if f.nbase == SK + cls + "::" + method and not f.mangled.startswith("_ZThn")]


def members(st):
    return St({k: v for k, v in st.items() if is_sym(k) and k[1] == "T" or isinstance(k, tuple) and len(k) == 2 and k[0] == "str" and is_sym(k[1]) and k[1][1] == "T"})


def built(m, f, args, st=None):
    """the sink's members after its constructor"""
    M = run(m, f, [T] + args, St(st or {("tty",): 0, ("color",): 0}), Io(m))
    ex = M.exits("ret")
    if len({members(s).freeze() for k, v, s, i in ex}) != 1:
        raise AnalysisBroken("what %s leaves in the object is not known" % f.name[:120])
    return members(ex[0][2])


def ctor_of(m, f, cls, nargs=None):
    pre = f.name[:f.name.index("::" + f.nbase.split("::")[-1] + "(")]
    c = [x for x in m.all() if x.name.startswith(pre + "::" + cls + "(") and "'lambda" not in x.name]
    if not c:
        raise AnalysisBroken("no constructor for %s" % pre)
    return next((x for x in c if len(x.args) == nargs), c[0])


def sinks(rep, m, fail):
    n = 0
    # standard streams: whole message, flushed after every message
    for f in insts(m, "std_sink", "log"):
        rep.fn(f)
        base = built(m, ctor_of(m, f, "std_sink"), [FILE])
        for short in (None, 1, TEXT):
            n += 1
            M = run(m, f, [T, MSG], St(base), Io(m, (short,)))
            for msg, i, path in M.bad():
                fail(f, "write", i, msg)
            for kind, v, st, i in M.exits("ret", "escape"):
                tr = st.get("trace", ())
                one_message(f, fail, kind, st, i, short, FILE)
                if kind == "ret":
                    fl = [k for k, e in enumerate(tr) if e[0] == "flush" and e[1] == FILE]
                    if not fl or any(e[0] == "put" for e in tr[fl[-1]:]):
                        fail(f, "flush", i, "the message is not flushed before the call returns")
            if not M.exits("ret", "escape"):
                fail(f, "write", None, "never comes back")
    for cls in ("std_sink", "ansicolor_sink"):
        for f in insts(m, cls, "flush"):
            rep.fn(f)
            base = built(m, ctor_of(m, f, cls), [FILE])
            M = run(m, f, [T], St(base), Io(m))
            n += 1
            for kind, v, st, i in M.exits("ret", "escape"):
                if kind == "ret" and not [e for e in st.get("trace", ()) if e[0] == "flush" and e[1] == FILE]:
                    fail(f, "flush", i, "does not flush the stream")
    # which stream
    for cls, glob in (("stdout_sink", "stdout"), ("stderr_sink", "stderr"), ("stdout_ansicolor_sink", "stdout"), ("stderr_ansicolor_sink", "stderr")):
        for f in insts(m, cls, cls):
            rep.fn(f)
            n += 1
            ok = []

            def call(st, c):
                if re.match(r"^learnlog::sinks::(std|ansicolor)_sink::(std|ansicolor)_sink$", c.nb):
                    ok.append(c.keys[1])
                    return "done"
                return None
            Machine(m, f, [T], St({}), call)
            if not ok or any(x != ("load", ("global", glob)) for x in ok):
                fail(f, "stream", None, "does not write to %s" % glob)
    # files
    for f in insts(m, "basic_file_sink", "output_"):
        rep.fn(f)
        n += 1

        def call(st, c):
            if c.nb == FB + "write":
                b = c.vals[2]
                st.trace("put", c.vals[0], ("msg", 0, TEXT, TEXT) if is_sym(b) and st.get(("buf", b)) == (("msg", TEXT),) else ("text", "?"))
                return "done"
            return Io(m).call(st, c)
        fo = [None]

        def cc(st, c):
            if c.nb == FB + "open" and not c.threw:
                st[c.vals[0]] = FILE
                return "done"
            if c.last == "basic_file_sink":
                return nested(m, st, c, call=cc, load=bufload)
            return Io(m).call(st, c)
        M0 = Machine(m, ctor_of(m, f, "basic_file_sink", 3), [T, FNM, 0], St({("str", FNM): (("fname",),)}), cc, load=bufload)
        base = next((members(st) for k, v, st, i in M0.exits("ret")), None)
        if base is None:
            raise AnalysisBroken("the constructor of basic_file_sink does not come up")
        M = Machine(m, f, [T, MSG], St(base), call, load=bufload, throws=throws)
        for msg, i, path in M.bad():
            fail(f, "write", i, msg)
        for kind, v, st, i in M.exits("ret"):
            one_message(f, fail, kind, st, i, None, FILE)
        for g in insts(m, "basic_file_sink", "flush_"):
            if g.name.split("::flush_")[0] != f.name.split("::output_")[0]:
                continue
            rep.fn(g)

            def call(st, c):
                if c.nb == FB + "flush":
                    st.trace("flush", c.vals[0])
                    return "done"
                return Io(m).call(st, c)
            M = Machine(m, g, [T], St(base), call, load=bufload)
            for kind, v, st, i in M.exits("ret"):
                if ("flush", FILE) not in st.get("trace", ()):
                    fail(g, "flush", i, "does not flush the file")
    # any std::ostream
    for f in insts(m, "ostream_sink", "output_"):
        rep.fn(f)
        for force in (0, 1):
            n += 1
            base = built(m, ctor_of(m, f, "ostream_sink"), [FILE, force])

            def call(st, c):
                if c.threw:
                    return None
                if c.last == "write" and "ostream" in c.nb:
                    s = span(c.vals[1], c.vals[2])
                    st.trace("put", c.vals[0], ("msg", s[0], s[1], s[1]) if s else ("text", "?"))
                    return c.vals[0]
                if c.last == "flush" and "ostream" in c.nb:
                    st.trace("flush", c.vals[0])
                    return c.vals[0]
                return Io(m).call(st, c)
            M = Machine(m, f, [T, MSG], St(base), call, load=bufload, throws=throws)
            for kind, v, st, i in M.exits("ret"):
                one_message(f, fail, kind, st, i, None, FILE)
                tr = st.get("trace", ())
                fl = [k for k, e in enumerate(tr) if e[0] == "flush" and e[1] == FILE]
                if force and (not fl or any(e[0] == "put" for e in tr[fl[-1]:])):
                    fail(f, "flush", i, "the message is not flushed although asked to")
            for g in insts(m, "ostream_sink", "flush_"):
                if g.name.split("::flush_")[0] == f.name.split("::output_")[0]:
                    rep.fn(g)
                    M = Machine(m, g, [T], St(base), call, load=bufload)
                    for kind, v, st, i in M.exits("ret"):
                        if ("flush", FILE) not in st.get("trace", ()):
                            fail(g, "flush", i, "does not flush the stream")
    # basic_sink hands everything to the derived sink
    for name, virt in (("log", "output_"), ("flush", "flush_")):
        for f in insts(m, "basic_sink", name):
            rep.fn(f)
            n += 1

            def call(st, c):
                if c.nb.startswith("virtual:") and c.last == virt:
                    st.trace("virtual", tuple(c.vals))
                    return "done"
                return None
            M = Machine(m, f, [T, MSG][:2 if name == "log" else 1], St({}), call)
            for kind, v, st, i in M.exits("ret"):
                if [e for e in st.get("trace", ()) if e[0] == "virtual"] != [("virtual", (T, MSG) if name == "log" else (T,))]:
                    fail(f, "write", i, "does not hand the %s to the derived sink once" % ("message" if name == "log" else "flush"))
    rep.check(n >= 14, "coverage", "sinks", "%d cases of sink and outcome" % n, "only %d cases of sink and outcome" % n)
    for cls in ("std_sink", "basic_file_sink", "ostream_sink", "basic_sink", "ansicolor_sink"):
        if not any(k[0].startswith(SK + cls + "::") for k in fail.seen):
            rep.ok("sink", SK + cls, "all outcomes agree")


def one_message(f, fail, kind, st, i, short, stream):
    tr = st.get("trace", ())
    got, whole = pieces(tr)
    if kind != "ret":
        if short is None:
            fail(f, "write", i, "throws although everything was written")
        return
    if [e for e in tr if e[0] == "format"] != [("format", MSG)]:
        fail(f, "write", i, "does not format the message once")
    elif not whole:
        fail(f, "write", i, "returns normally although not everything was written")
    elif got != [(stream, ("msg", 0, TEXT))]:
        fail(f, "write", i, "something other than the whole formatted message is written, or to another stream")


# ------------------------------------------------------------------------------------------------ colours
def p23(rep):
    rep.explanation = ("Colours: ansicolor_sink is run as a machine for every combination of colour support, marked range (none, ordinary, whole text, empty, inverted, left over "
                       "from an earlier message), level and write outcome; the bytes handed to the stream are compared with the message, the level's colour and the reset sequence.")
    m = get_model("tls")
    fail = fail_once(rep)
    F = {n: o for c, n, o, t in m.fields_of(m.cls("learnlog::base::log_msg"))}
    for k in ("color_index_start", "color_index_end", "level"):
        if k not in F:
            raise AnalysisBroken("log_msg has no member %s" % k)
    S, E, L = (("s", "MSG", F[k]) for k in ("color_index_start", "color_index_end", "level"))
    logs = insts(m, "ansicolor_sink", "log")
    if not logs:
        raise AnalysisBroken("no ansicolor_sink::log")
    n = 0
    ranges = [None, (0, TEXT), (2, 5), (0, 4), (3, TEXT), (4, 4), (5, 2), (0, 0), (6, 0)]
    for f in logs:
        rep.fn(f)
        ctor = ctor_of(m, f, "ansicolor_sink")
        rep.fn(ctor)
        setc = [x for x in insts(m, "ansicolor_sink", "set_level_color") if x.name.split("::set_level_color")[0] == f.name.split("::log(")[0]]
        if not setc:
            raise AnalysisBroken("no set_level_color")
        rep.fn(setc[0])
        for tty, color in ((1, 1), (0, 1), (1, 0), (0, 0)):
            def cc(st, c):
                return Io(m).call(st, c)
            M = run(m, ctor, [T, FILE], St({("tty",): tty, ("color",): color}), Io(m))
            bases = {members(s).freeze() for k, v, s, i in M.exits("ret")}
            if len(bases) != 1:
                raise AnalysisBroken("what the constructor of ansicolor_sink leaves in the object is not known")
            base = St(next(iter(bases)))
            on = tty and color
            for level in range(6) if on else (0, 5):
                own = "<own%d>" % level
                for c in (None, own):
                    st1 = St(base)
                    if c:
                        A = obj("ARG")
                        st2 = St(st1)
                        st2[("str", A)] = lit(own)
                        M = run(m, setc[0], [T, level, A], st2, Io(m))
                        ex = M.exits("ret")
                        if not ex:
                            fail(setc[0], "colour", None, "does not come back")
                            continue
                        st1 = members(ex[0][2])
                        # the other levels keep theirs
                        other = {k: v for k, v in base.items() if isinstance(k, tuple) and k[0] == "str"}
                        now = {k: v for k, v in st1.items() if isinstance(k, tuple) and k[0] == "str"}
                        changed = [k for k in other if now.get(k) != other[k]]
                        if len(changed) != 1 or now[changed[0]] != lit(own):
                            fail(setc[0], "colour", ex[0][3], "changes %d colours instead of the level's" % len(changed))
                    for r in ranges:
                        for left in ((0, 0), (1, 7)):
                            for script in ((), (1,), (None, 1), (None, None, 1)):
                                if script and (left != (0, 0) or c):
                                    continue
                                n += 1
                                one_case(m, f, fail, st1, on, level, c, r, left, script, S, E, L)
    rep.paths += n
    # colour support
    g = [x for x in m.all() if x.nbase == OS + "in_terminal"]
    for f in g:
        rep.fn(f)
        for r in (0, 1):
            M = run(m, f, [FILE], St({("tty",): r}), Io(m))
            for msg, i, path in M.bad():
                fail(f, "terminal", i, msg)
            for kind, v, st, i in M.exits("ret"):
                if v != r:
                    fail(f, "terminal", i, "does not tell whether the stream is a terminal")
    n += color_terminals(rep, m, fail)
    if not any(k[0].startswith(SK + "ansicolor") for k in fail.seen):
        rep.ok("colour", SK + "ansicolor_sink::log", "%d cases of support, level, range and outcome in %d instantiations" % (n, len(logs)))
    rep.check(len(logs) >= 2, "coverage", "ansicolor_sink", "%d instantiations" % len(logs), "only %d instantiations" % len(logs))


TERMS = ("ansi", "color", "console", "cygwin", "gnome", "konsole", "kterm", "linux", "msys", "putty", "rxvt", "screen", "vt100", "xterm", "alacritty", "vt102")


def color_terminals(rep, m, fail):
    "is_color_terminal: COLORTERM is set, or TERM contains one of the names; the environment is given as text"
    W = FW.World(m)

    def text(s):
        return 0 if s is None else ("s", ("chars", S.lit(s)), 0)

    def chars(v):
        return S.literal(v[1][1])[v[2]:] if is_sym(v) and isinstance(v[1], tuple) and v[1][0] == "chars" and S.literal(v[1][1]) is not None else None

    def load(st, a):
        if isinstance(a[1], tuple) and a[1][0] == "g" and not m.globals.get(a[1][1], {}).get("const"):
            return 0 if m.globals.get(a[1][1], {}).get("zero") else None
        return W.load(st, a)

    def call(st, c):
        if c.nb in ("getenv", "secure_getenv"):
            k = chars(c.vals[0])
            if k not in ("COLORTERM", "TERM"):
                raise Bad("asks the environment for something else than COLORTERM and TERM")
            return text(env[k])
        if c.nb == "__cxa_guard_acquire":
            return 0 if st.get(c.vals[0]) else 1
        if c.nb == "__cxa_guard_release":
            st[c.vals[0]] = 1
            return "done"
        if c.nb == "strstr":
            if 0 in c.vals[:2]:
                raise Bad("compares a null string")
            a, b = chars(c.vals[0]), chars(c.vals[1])
            if a is None or b is None:
                return None
            return ("s", c.vals[0][1], c.vals[0][2] + a.index(b)) if b in a else 0
        return W.call(st, c)

    known = set(TERMS)
    vals = [None, "", "dumb", "unknown", "vt52", "sun"] + list(TERMS) + ["x" + t + "-256" for t in TERMS] + [t[:-1] for t in TERMS] + [t[1:] for t in TERMS] + [t.upper() for t in TERMS]
    n = 0
    for f in [x for x in m.all() if x.nbase == OS + "is_color_terminal"]:
        rep.fn(f)
        for ct, term in [(None, t) for t in vals] + [(c, t) for c in ("", "truecolor") for t in (None, "dumb", "xterm")]:
            env = {"COLORTERM": ct, "TERM": term}
            want = 1 if ct is not None or term is not None and any(t in term for t in known) else 0
            what = "with COLORTERM %s and TERM %s" % tuple("not set" if x is None else '"%s"' % x for x in (ct, term))
            st = St()
            for turn in (1, 2):
                n += 1
                M = Machine(m, f, [], st, call=call, load=load, store=W.store, term=W.term, arith=W.lin.arith, counting=60)
                ex = M.exits("ret", "escape")
                for msg, i, path in M.bad():
                    fail(f, "terminal", i, msg + " " + what)
                if M.bad():
                    break
                if not ex:
                    fail(f, "terminal", None, "does not come back " + what)
                    break
                for kind, v, s2, i in ex:
                    if kind != "ret" or v != want:
                        fail(f, "terminal", i, "does not tell whether the terminal supports colour %s" % what)
                if any(k[0] == f.nbase for k in fail.seen):
                    return n
                st = St({k: v for k, v in ex[0][2].items() if is_sym(k) and isinstance(k[1], tuple) and k[1][0] == "g"})
        rep.ok("terminal", f.nbase, "%d values of COLORTERM and TERM" % n)
    if not n:
        raise AnalysisBroken("no is_color_terminal")
    return n


def one_case(m, f, fail, st1, on, level, own, r, left, script, S, E, L):
    def fmt(st):
        if st.get(S) != 0 or st.get(E) != 0:
            st["stale"] = True
        if r is not None:
            st[S], st[E] = r
    st0 = St(st1)
    st0[S], st0[E] = left
    st0[L] = level
    M = run(m, f, [T, MSG], st0, Io(m, script, fmt=fmt))
    for msg, i, path in M.bad():
        fail(f, "colour", i, msg)
    ex = M.exits("ret", "escape")
    if not ex:
        fail(f, "colour", None, "never comes back")
    for kind, v, st, i in ex:
        tr = st.get("trace", ())
        got, whole = pieces(tr)
        if kind == "escape":
            if whole:
                fail(f, "write", i, "throws although everything was written")
            continue
        if not whole:
            fail(f, "write", i, "returns normally although not everything was written")
            continue
        if [e for e in tr if e[0] == "format"] != [("format", MSG)]:
            fail(f, "write", i, "does not format the message once")
        if any(s != FILE for s, w in got):
            fail(f, "write", i, "writes to another stream")
        text = [w for s, w in got]
        if not on or r is None or r[1] <= r[0]:
            if text != [("msg", 0, TEXT)]:
                why = "the terminal does not support it" if not on else "the pattern marks nothing" if r is None else "the marked range is empty"
                fail(f, "colour", i, "does not write exactly the message when %s" % why)
            continue
        want = [("msg", 0, r[0])] if r[0] else []
        tail = [("msg", r[1], TEXT)] if r[1] < TEXT else []
        k = len(want)
        if text[:k] != want or len(text) != k + 3 + len(tail) or text[k + 1] != ("msg",) + r or text[k + 3:] != tail:
            fail(f, "colour", i, "a coloured message is not written as text, colour, marked text, reset, text")
            continue
        if own and text[k] != ("text", own):
            fail(f, "colour", i, "does not use the colour set for the message's level")
        if not own and (text[k][0] != "text" or not (text[k][1] or "").startswith("\x1b[")):
            fail(f, "colour", i, "does not use a colour sequence")
        if text[k + 2] not in (("text", "\x1b[m"), ("text", "\x1b[0m")):
            fail(f, "colour", i, "does not go back to the default colour")


PROPERTIES = {"P21": p21, "P23": p23}
