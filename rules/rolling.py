"""P20: rolling file sinks."""
import itertools
from rules._machine import *
from rules._strings import *
from rules.files import FB, OS, STD_EXC, fail_once, literal_paths

RS = "learnlog::sinks::rolling_file_sink::"
T, FN, MSG = obj("T"), obj("FN"), obj("MSG")
BASE = "d.e/log.txt"


def name_of(base, k, top):
    p = suffix(base)
    return base[:p] + "_" + str(k).rjust(len(str(top)), "0") + base[p:]


def suffix(s):
    """where the extension starts: the last dot of the last component, unless that component starts with it"""
    d, f = s.rfind("."), s.rfind("/")
    return d if d > f + 1 else len(s)


class World:
    """the stream and the files around the sink, kept in the machine state:
    ("exists", k) files there; ("cur",) number of the open file; ("size",) bytes written to it; ("flushed",) bytes of them flushed"""

    def __init__(self, m, top, n=0, faults=()):
        self.m, self.top, self.n, self.faults = m, top, n, faults
        self.names = {lit(name_of(BASE, k, top)): k for k in range(0, top + 2)}

    def number(self, st, v):
        s = get(st, v) if is_sym(v) else UNKNOWN
        k = self.names.get(s)
        if k is None:
            if literal(s) is None:
                raise Bad("uses a file name that does not follow from the base name and the number")
            raise Bad("uses the file name \"%s\" where one of \"%s\" was expected" % (literal(s), name_of(BASE, 1, self.top)))
        return k

    def call(self, st, c):
        m = self.m
        if c.nb in (FB + "open", FB + "close", FB + "flush", FB + "write", FB + "size") and c.threw:
            if c.nb == FB + "close":
                self.close(st, c.vals[0])
            elif c.nb == FB + "open":
                self.close(st, c.vals[0])
                st.trace("open", self.number(st, c.vals[1]), c.vals[2], 0)
                st.pop(("cur",), None)
            return None
        if c.threw:
            return None
        for model in (strings, buffers):
            r = model(m, st, c)
            if r is not None:
                return r
        if c.nb == RS + "get_rolling_filename":
            if isinstance(c.vals[2], int):
                put(st, c.vals[0], lit(name_of(BASE, c.vals[2], self.top)))
            return "done"
        if c.nb == FB + "suffix_pos":
            s = literal(get(st, c.vals[0]))
            return suffix(s) if s is not None else None
        if c.nb in (OS + "dir_exist",):
            k = self.number(st, c.vals[0])
            st.trace("look", k)
            return int(k in st.get(("exists",), ()))
        if c.nb == FB + "open":
            self.close(st, c.vals[0])
            k = self.number(st, c.vals[1])
            st.trace("open", k, c.vals[2], 1)
            st[("exists",)] = tuple(sorted(set(st.get(("exists",), ())) | {k}))
            if c.vals[2] == 1:
                st[("size",)] = st[("flushed",)] = 0
            st[("cur",)] = k
            st[("file",)] = c.vals[0]
            st[c.vals[0]] = obj(("F", k))
            return "done"
        if c.nb == FB + "close":
            self.close(st, c.vals[0])
            return "done"
        if c.nb == FB + "size":
            self.stream(st, c.vals[0], "asks for the size of")
            return st.get(("flushed",))
        if c.nb == FB + "flush" or c.nb.startswith("virtual:") and c.last == "flush_" and c.vals[0] == T:
            if c.nb == FB + "flush" and c.vals[0] != 0:
                self.stream(st, c.vals[0], "flushes")
            st.trace("flush")
            st[("flushed",)] = st.get(("size",), 0)
            return "done"
        if c.nb == FB + "write":
            self.stream(st, c.vals[0], "writes to")
            v = c.vals[2]
            b = st.get(("buf", v)) if is_sym(v) else None
            st.trace("write", b)
            L = length(b) if b is not None else None
            if not isinstance(L, int):
                raise Bad("writes something other than the formatted message")
            st[("size",)] = st.get(("size",), 0) + L
            return "done"
        if c.last == "format" and c.nb.startswith(("virtual:", "learnlog::sinks::")) and len(c.vals) == 3 and is_sym(c.vals[2]):
            st.trace("format", c.vals[1] == MSG)
            st[("buf", c.vals[2])] = norm(st.get(("buf", c.vals[2]), UNKNOWN) + (("msg", self.n),))
            return "done"
        if c.nb.startswith("fmt::") or c.nb.startswith("learnlog::sinks::basic_sink::"):
            return "done"
        return None

    def close(self, st, p):
        v = st.get(p) if is_sym(p) else None
        if is_sym(v):
            if st.get(("cur",)) is None or v != obj(("F", st[("cur",)])):
                raise Bad("closes a stream that has been closed before")
            st.trace("close", st[("cur",)], st.get(("size",)))
            del st[("cur",)]
        if is_sym(p):
            st[p] = 0

    def stream(self, st, v, what):
        if not is_sym(v) or st.get(("cur",)) is None or v != obj(("F", st[("cur",)])):
            raise Bad("%s a stream that is not open" % what)

    def throws(self, st, c):
        if c.nb == "learnlog::throw_learnlog_excpt":
            return STD_EXC
        if c.nb in (FB + "write", FB + "size") and c.vals[0] == 0:
            return ("std", "only")
        if c.nb == FB + "write" and is_sym(c.vals[2]) and st.get(("buf", c.vals[2])) is None:
            return ()
        return STD_EXC if c.nb in self.faults else ()


def p20(rep):
    rep.explanation = ("Rolling files: the constructor and output_ are run as machines over a model of the numbered files (which exist, which is open, how much it holds), "
                       "for small maxima, every set of files present at the start, every sequence of message sizes from a set around the maximum (to a fixpoint of sink state) "
                       "and failures of every file operation; file names are computed by the code itself on path shapes.")
    m = get_model("tls")
    fail = fail_once(rep)
    flavours = sorted({f.name.split("::rolling_file_sink(")[0] for f in m.all() if f.nbase == RS + "rolling_file_sink"})
    if not flavours:
        raise AnalysisBroken("no rolling file sink")
    rep.check(len(flavours) >= 2, "coverage", "rolling_file_sink", "%d instantiations" % len(flavours), "only %d instantiations of the rolling file sink" % len(flavours))
    for fl in flavours:
        refuse(rep, m, fail, fl)
        for top in ((1, 2, 3) if rep.tier == "quick" else (1, 2, 3, 4)):
            roll(rep, m, fail, fl, top)
        other(rep, m, fail, fl)
    names(rep, m, fail)


def member(m, fl, name):
    fs = [f for f in m.all() if f.name.startswith(fl + "::" + name + "(") and not f.mangled.startswith("_ZThn") and "'lambda" not in f.name and (name[0] != "~" or "D2Ev" in f.mangled)]
    if not fs:
        raise AnalysisBroken("no %s of %s" % (name, fl))
    return fs[0]


def start(m, fl, exists, top, size, faults=()):
    f = member(m, fl, "rolling_file_sink")
    w = World(m, top, 0, faults)
    st0 = St({("str", FN): lit(BASE), ("exists",): tuple(exists)})
    return f, Machine(m, f, [T, FN, size, top], st0, w.call, throws=lambda st, c: [k for k in w.throws(st, c) if k != "only"], load=bufload, counting=60)


def keep(st):
    """the part of the state that lives on between calls"""
    return St({k: v for k, v in st.items() if is_sym(k) and k[1] == "T" or isinstance(k, tuple) and k and (k[0] in ("exists", "cur", "size", "flushed", "file") or k[0] == "str" and is_sym(k[1]) and k[1][1] == "T")})


def smallest(exists, lo, top):
    return next((k for k in range(lo, top) if k not in exists), top)


def refuse(rep, m, fail, fl):
    for size, top, why in ((0, 1, "size 0"), (10, 10001, "more than 10000 files")):
        f, M = start(m, fl, (), top, size)
        for kind, v, st, i in M.exits():
            if kind == "ret" or any(e[0] == "open" for e in st.get("trace", ())):
                fail(f, "limits", i, "accepts %s" % why)
    f, M = start(m, fl, range(1, 1), 10, 1)
    if not M.exits("ret"):
        fail(f, "limits", None, "refuses ordinary limits")


def roll(rep, m, fail, fl, top):
    fo = member(m, fl, "output_")
    rep.fn(fo)
    BIG = 10
    sizes = (3, 7, 10, 12) if rep.tier == "quick" else (0, 1, 3, 7, 9, 10, 11, 12)
    starts, seen, n = [], set(), 0
    for r in range(top + 1):
        for exists in itertools.combinations(range(1, top + 1), r):
            f, M = start(m, fl, exists, top, BIG, (FB + "open",))
            rep.fn(f)
            for msg, i, path in M.bad():
                fail(f, "start", i, msg)
            if not M.exits("ret"):
                fail(f, "start", None, "does not come up")
            for kind, v, st, i in M.exits("ret", "escape"):
                n += 1
                tr = st.get("trace", ())
                want = smallest(exists, 1, top)
                ops = [e for e in tr if e[0] == "open"]
                if len(ops) != 1:
                    fail(f, "start", i, "opens %d files" % len(ops))
                    continue
                if ops[0][1] != want:
                    fail(f, "number", i, "starts with file %d of %d where %s exist" % (ops[0][1], top, list(exists) or "none"))
                if ops[0][2] != 1:
                    fail(f, "start", i, "does not empty the file it starts with")
                if kind == "ret":
                    k = keep(st)
                    if k not in starts:
                        starts.append(k)
    work = list(starts)
    seen = {k.freeze() for k in work}
    while work:
        s0 = work.pop(0)
        if len(fail.seen) > 40:
            return
        if len(seen) > 4000:
            raise AnalysisBroken("too many states of the rolling file sink")
        for msg in sizes:
            for st in output(m, fo, fail, top, BIG, s0, msg):
                n += 1
                k = keep(st)
                if k.freeze() not in seen:
                    seen.add(k.freeze())
                    work.append(k)
        # another party may flush at any time
        k = St(s0)
        if k.get(("cur",)) is not None and k.get(("flushed",)) != k.get(("size",)):
            k[("flushed",)] = k[("size",)]
            if k.freeze() not in seen:
                seen.add(k.freeze())
                work.append(k)
    rep.paths += n
    if not any(k[0].startswith(RS) for k in fail.seen):
        rep.ok("rolling", fl, "at most %d files: %d sink states, %d outcomes of starting and writing" % (top, len(seen), n))


def output(m, f, fail, top, big, s0, n):
    """successors of a sink state by one message of n bytes"""
    out = []
    faults = (FB + "open", FB + "write", FB + "close")
    w = World(m, top, n, faults)

    def throws(st, c):
        return [k for k in w.throws(st, c) if k != "only"]

    def call(st, c):
        if not c.threw and "only" in w.throws(st, c):
            raise Prune()
        return w.call(st, c)
    st0 = St(s0)
    M = Machine(m, f, [T, MSG], st0, call, throws=throws, load=bufload, counting=60)
    for msg, i, path in M.bad():
        fail(f, "stream", i, msg)
    file = s0.get(("file",))
    cur, size = s0.get(("cur",)), s0.get(("size",), 0)
    ex = M.exits("ret", "escape")
    if not ex:
        fail(f, "rolling", None, "does not come back")
    for kind, v, st, i in ex:
        tr = st.get("trace", ())
        ops = [e for e in tr if e[0] == "open"]
        wr = [e for e in tr if e[0] == "write"]
        where = "file %s of %d with %s bytes, maximum %d, message of %d" % (cur, top, size, big, n)
        if kind == "ret":
            if cur is None and not ops:
                fail(f, "dead", i, "a message for which no file is open is lost without an error")
                continue
            if [e for e in tr if e[0] == "format"] != [("format", True)]:
                fail(f, "write", i, "does not format the message once")
            if len(wr) != 1:
                fail(f, "write", i, "a message is written %d times" % len(wr))
                continue
            if wr[0][1] != norm((("msg", n),)):
                fail(f, "write", i, "writes something other than the formatted message")
            if ops and tr.index(wr[0]) < tr.index(ops[0]):
                fail(f, "rolling", i, "writes the message before changing files")
            if st.get(file) != obj(("F", st.get(("cur",)))):
                fail(f, "stream", i, "the sink does not keep the stream that is open")
        if cur is None:
            out.append(st)
            continue
        must = size > 0 and size + n > big
        closes = [e for e in tr if e[0] == "close"]
        if bool(ops) != must and (kind == "ret" or ops):
            fail(f, "rolling", i, ("changes files although the message fits (%s)" if ops else "does not change files (%s)") % where)
        if ops:
            if len(ops) > 1:
                fail(f, "rolling", i, "changes files %d times" % len(ops))
            want = smallest([k for k in s0.get(("exists",), ())], cur, top)
            if ops[0][1] != want:
                fail(f, "number", i, "goes from file %d to %d of %d where %s exist" % (cur, ops[0][1], top, list(s0.get(("exists",), ()))))
            if ops[0][2] != 1:
                fail(f, "rolling", i, "does not empty the file it goes on with")
            if len(closes) != 1 or tr.index(closes[0]) > tr.index(ops[0]):
                fail(f, "stream", i, "the full file is not closed before the next one is opened")
        elif closes and kind == "ret":
            fail(f, "stream", i, "closes the file without opening another")
        if kind == "ret" and not must and st.get(("size",)) != size + n or kind == "ret" and must and st.get(("size",)) != n:
            fail(f, "write", i, "the file does not hold what was written (%s)" % where)
        out.append(st)
    return out


def other(rep, m, fail, fl):
    """flush_, the destructor and the base name"""
    f, M = start(m, fl, (), 2, 10)
    st0 = next((keep(st) for kind, v, st, i in M.exits("ret")), None)
    if st0 is None:
        return
    w = World(m, 2, 3, (FB + "close", FB + "flush"))
    for name in ("flush_", "~rolling_file_sink"):
        f = member(m, fl, name)
        rep.fn(f)

        def call(st, c):
            if c.nb.startswith("learnlog::sinks::basic_sink::") and c.last == "flush":
                st.trace("flush" if not c.threw else "tried")
                return "done"
            return w.call(st, c)

        def throws(st, c):
            if c.nb.startswith("learnlog::sinks::basic_sink::") and c.last == "flush":
                return ("std",)
            return [k for k in w.throws(st, c) if k != "only"]
        M = Machine(m, f, [T], St(st0), call, throws=throws, load=bufload)
        for msg, i, path in M.bad():
            fail(f, "stream", i, msg)
        for kind, v, st, i in M.exits("ret", "escape"):
            tr = st.get("trace", ())
            if name == "flush_":
                if kind == "ret" and [e[0] for e in tr] != ["flush"]:
                    fail(f, "flush", i, "does not flush the file once")
            else:
                if [e[0] for e in tr].count("close") != 1:
                    fail(f, "stream", i, "the file is closed %d times" % [e[0] for e in tr].count("close"))
        if not M.exits("ret"):
            fail(f, "stream", None, "does not come back")
    f = member(m, fl, "base_filename[abi:cxx11]") if any(x.name.startswith(fl + "::base_filename[") for x in m.all()) else member(m, fl, "base_filename")
    M = Machine(m, f, [obj("OUT"), T], St(st0), w.call)
    for kind, v, st, i in M.exits("ret"):
        if get(st, obj("OUT")) != lit(BASE):
            fail(f, "names", i, "does not return the base name")


def names(rep, m, fail):
    f = next((x for x in m.all() if x.nbase == FB + "suffix_pos"), None)
    if f is None:
        raise AnalysisBroken("no suffix_pos")
    rep.fn(f)
    P = obj("P")
    n = 0
    for s in literal_paths("a./", 4 if rep.tier == "quick" else 6):
        M = Machine(m, f, [P], St({("str", P): lit(s)}), lambda st, c: strings(m, st, c))
        ex = M.exits("ret")
        n += 1
        if not ex or any(v != suffix(s) for kind, v, st, i in ex):
            fail(f, "names", ex[0][3] if ex else None, "the extension of a path like \"%s\" is looked for in the wrong place" % s)
    if not any(k[0] == f.nbase for k in fail.seen):
        rep.ok("names", f.nbase, "%d path shapes" % n)
    done = set()
    for f in m.all():
        if f.nbase.replace("[abi:cxx11]", "") != RS + "get_rolling_filename":
            continue
        fl = f.name.split("::get_rolling_filename")[0]
        if fl in done:
            continue
        done.add(fl)
        rep.fn(f)
        for base in ("log.txt", "log", "d.e/log", "d.e/log.txt", "a/.log", ".log", "log.", "x.y.z"):
            for top, ks in ((1, (1,)), (9, (1, 9)), (10, (1, 9, 10)), (10000, (1, 99, 10000))):
                w = World(m, top)
                w.names = {}
                fc = member(m, fl, "rolling_file_sink")
                M0 = Machine(m, fc, [T, FN, 10, top], St({("str", FN): lit(base), ("exists",): ()}), lambda st, c: quiet(w, st, c), throws=lambda st, c: (), load=bufload, counting=3)
                st0 = next((keep(st) for kind, v, st, i in M0.exits("ret")), None)
                if st0 is None:
                    raise AnalysisBroken("the constructor of %s does not come up" % fl)
                for k in ks:
                    M = Machine(m, f, [obj("OUT"), T, k], St(st0), lambda st, c: quiet(w, st, c, inner=True), load=bufload)
                    ex = M.exits("ret")
                    if not ex or any(get(st, obj("OUT")) != lit(name_of(base, k, top)) for kind, v, st, i in ex):
                        got = literal(get(ex[0][2], obj("OUT"))) if ex else None
                        fail(f, "names", ex[0][3] if ex else None, "base name like \"%s\", number %d of %d: the file is called %s, not \"%s\"" % (
                            base, k, top, '"%s"' % got if got is not None else "something else", name_of(base, k, top)))
        if not any(x[0] == f.nbase for x in fail.seen):
            rep.ok("names", fl, "8 base names with 9 numbers")


def quiet(w, st, c, inner=False):
    """strings only: files are all absent and open at once"""
    if c.nb == OS + "dir_exist":
        return 0
    if c.nb == RS + "get_rolling_filename" and not inner:
        put(st, c.vals[0], lit("?"))
        return "done"
    if c.nb == FB + "open":
        return "done"
    for model in (strings, buffers):
        r = model(w.m, st, c)
        if r is not None:
            return r
    if c.nb == FB + "suffix_pos":
        s = literal(get(st, c.vals[0]))
        return suffix(s) if s is not None else None
    if c.nb.startswith(("fmt::", "learnlog::sinks::basic_sink::")):
        return "done"
    return None


PROPERTIES = {"P20": p20}
