"""P17: what a pattern prints; P18: padding and truncation."""
import itertools
from lib import *
from model import AnalysisBroken
from sim import is_sym, Bad
from rules import _strings as S
from rules._machine import Machine, St, nested, obj
from rules._lin import parts, mk, add, norm as lnorm
from rules._format import World, TM, TMR, LEVELS, DAYS, MONTHS
from rules.files import fail_once
from rules.lifetime import field

PF = "learnlog::sinks::pattern_formatter"
FLAGS = "+nlabcymdHMSEFGTWXYZptv^$@ABC%"
UNIT = {"W": 1, "X": 10 ** 3, "Y": 10 ** 6, "Z": 10 ** 9}
P, MSG, BUF, TMO = obj("P"), obj("MSG"), obj("BUF"), obj("TM")


def lit(s):
    return (("lit", s),) if s else ()


def fld(n):
    return (("field", n),)


def text(v):
    return ("s", ("chars", v), 0)


class Msg:
    """a message as a formatter sees it; symbolic unless told otherwise"""

    def __init__(self, **k):
        self.name, self.msg, self.level = fld("name"), fld("msg"), 2
        self.file, self.func, self.line = fld("file"), fld("func"), ("o", "line")
        self.tid, self.pid = ("o", "tid"), ("o", "pid")
        self.sec, self.ns, self.at = ("o", "sec"), ("o", "ns"), None
        self.tm = {x: ("o", "tm_" + x) for x in TM}
        self.tm["wday"], self.tm["mon"] = 3, 5
        for a, b in k.items():
            if a.startswith("tm_"):
                self.tm[a[3:]] = b
            else:
                setattr(self, a, b)

    def time(self):
        if self.at is not None:
            return self.at
        from rules._lin import scale
        return add(scale(self.sec, 10 ** 9), self.ns)

    def cells(self, m):
        """initial memory: offsets of the message's fields from the program"""
        L = "learnlog::base::log_msg"
        c = {}

        def put(base, off, v):
            c[("s", base, off)] = v
        for n, v in (("logger_name", self.name), ("msg", self.msg)):
            off = field(m, L, n)
            put("MSG", off, text(v))
            put("MSG", off + 8, lnorm(("o", ("len", v))) if not all(x[0] == "lit" for x in v) else sum(len(x[1]) for x in v))
        put("MSG", field(m, L, "level"), self.level)
        put("MSG", field(m, L, "tid"), self.tid)
        put("MSG", field(m, L, "time"), self.time())
        loc = field(m, L, "loc")
        SL = "learnlog::source_loc"
        put("MSG", loc + field(m, SL, "filename"), text(self.file) if self.file is not None else 0)
        put("MSG", loc + field(m, SL, "funcname"), text(self.func) if self.func is not None else 0)
        put("MSG", loc + field(m, SL, "line"), self.line)
        for x, off in TM.items():
            put("TM", off, self.tm[x])
        c["pid"] = self.pid
        return c


def num(n, w=0):
    return (("pad0", n, w),) if w else (("int", n),)


def content(w, c, x, last=None):
    """what flag c prints for message x, before padding: segments, or None when it prints nothing and takes no padding (colour marks)"""
    t, lin = x.tm, w.lin
    ns = lambda k: lin.div(x.ns, k) if not isinstance(x.ns, int) else x.ns // k
    hms = num(t["hour"], 2) + lit(":") + num(t["min"], 2) + lit(":") + num(t["sec"], 2)
    loc = not (isinstance(x.line, int) and x.line <= 0)
    file, func = x.file or (), x.func or ()
    if c == "n":
        return x.name
    if c == "l":
        return lit(LEVELS[x.level])
    if c == "a":
        return lit(DAYS[t["wday"]])
    if c == "b":
        return lit(MONTHS[t["mon"]])
    if c == "c":
        return lit(DAYS[t["wday"]] + " " + MONTHS[t["mon"]] + " ") + num(t["mday"], 2) + lit(" ") + hms + lit(" ") + num(add(t["year"], 1900), 4)
    if c == "y":
        return num(add(t["year"], 1900), 4)
    if c == "m":
        return num(add(t["mon"], 1), 2)
    if c in "dHMS":
        return num(t[{"d": "mday", "H": "hour", "M": "min", "S": "sec"}[c]], 2)
    if c in "EFG":
        return num(ns({"E": 10 ** 6, "F": 10 ** 3, "G": 1}[c]), {"E": 3, "F": 6, "G": 9}[c])
    if c == "T":
        return hms
    if c in UNIT:
        d = add(x.time(), last, -1)
        lo, hi = lin.range(d)
        d = 0 if hi <= 0 else d
        return num(d // UNIT[c] if isinstance(d, int) else lin.div(d, UNIT[c]))
    if c == "p":
        return num(x.pid)
    if c == "t":
        return num(x.tid)
    if c == "v":
        return x.msg
    if c == "@":
        return file + lit(":") + num(x.line) if loc else ()
    if c == "A":
        return file if loc else ()
    if c == "B":
        return num(x.line) if loc else ()
    if c == "C":
        return func if loc else ()
    if c == "%":
        return lit("%")
    if c == "+":
        return (lit("[") + num(add(t["year"], 1900), 4) + lit("-") + num(add(t["mon"], 1), 2) + lit("-") + num(t["mday"], 2) + lit(" ") + hms + lit(".") + num(ns(10 ** 6), 3)
                + lit("] ") + (lit("[") + x.name + lit("] ") if x.name else ()) + lit("[" + LEVELS[x.level] + "] ")
                + (lit("[") + file + lit(":") + (("wide", x.line, 5),) + lit("] ") if loc else ()) + x.msg)
    return ()


PADDED = set("nlabcymdHMSEFGTWXYZptv@ABC")


def show(v):
    if not isinstance(v, tuple) or v and not isinstance(v[0], tuple):
        return str(v)
    r = ""
    for x in v:
        r += x[1] if x[0] == "lit" else "<%s>" % x[1] if x[0] == "field" else "<%d digits>" % x[2] if x[0] == "pad0" else "<number>" if x[0] == "int" else "<spaces>" if x[0] == "sp" else \
            "<start of %s>" % show(x[1]) if x[0] == "upto" else "<%s>" % x[0]
    return '"%s"' % r


class Pattern:
    """a pattern_formatter constructed, in the abstract, from a pattern"""

    def __init__(self, w, rep, custom=()):
        self.w, self.m, self.rep = w, w.m, rep
        self.custom = custom
        self.outs = {}

    def start(self, pattern, eol="\n"):
        st = St()
        a, b, c = obj("apat"), obj("aeol"), obj("amap")
        S.put(st, a, lit(pattern))
        S.put(st, b, lit(eol))
        st[("map", c)] = tuple(ord(k) for k in self.custom)
        for k in self.custom:
            st[("s", ("node", c, ord(k)), 16)] = ("s", ("copy", 0, k), 0)
        return st, [P, a, b, c]

    def ctor(self):
        f = [f for f in self.m.all() if f.nbase == PF + "::pattern_formatter" and len(f.d["args"]) >= 4]
        if not f:
            raise AnalysisBroken("the constructor of pattern_formatter is gone")
        return f[0]

    def single(self, M, what):
        """the state in which a machine comes back, None when it does not come back in one way"""
        if M.bad():
            return None, M.bad()[0][0], M.bad()[0][1]
        ex = M.exits("ret")
        sts = {x[2].freeze() for x in ex}
        self.rep.paths += M.sim.states
        if len(sts) != 1:
            return None, ("%s does not come back" if not sts else "%s depends on something other than the pattern") % what, None
        return ex[0][2], "", None

    def build(self, pattern, eol="\n"):
        st, args = self.start(pattern, eol)
        return self.single(self.w.run(self.ctor(), args, st), "the constructor")

    def formatters(self, st, this=P):
        """the list of formatters of the object"""
        for k, v in st.items():
            if isinstance(k, tuple) and k and k[0] == "vec" and k[1][1] == this[1]:
                return v
        return None

    def out(self, st, o, x, before=(("pre",),), w=None):
        """[(text added to the buffer, marks, state)] when object o of state st formats message x"""
        w = w or self.w
        if isinstance(o[1], tuple) and o[1][0] == "copy":
            return [(tuple(before) + (("custom", o[1][2], w.cells(st, o)),), {}, st)]
        vt = st.get(("s", o[1], o[2]))
        f = None
        if is_sym(vt) and isinstance(vt[1], tuple) and vt[1][0] == "g":
            for off, e in self.m.globals.get(vt[1][1], {}).get("init", ()):
                if off >= vt[2] and e[0] == "f" and self.m.nbase(e[1]).split("::")[-1] == "format":
                    f = self.m.fn(e[1])
        if f is None:
            return []
        s2 = St({k: v for k, v in st.items() if not (isinstance(k, tuple) and k and k[0] == "r")})
        s2[("buf", BUF)] = tuple(before)
        w.fields = x.cells(self.m)
        for k in [k for k in s2 if is_sym(k) and k[1] in ("MSG", "TM")]:
            del s2[k]
        s2.update({k: v for k, v in w.fields.items() if is_sym(k)})
        M = w.run(f, [o, MSG, TMO, BUF], s2)
        self.rep.fn(f)
        self.rep.paths += M.sim.states
        r = []
        for kind, v, s3, i in M.exits("ret"):
            marks = {k[2]: v for k, v in s3.items() if is_sym(k) and k[1] == "MSG"}
            r.append((s3.get(("buf", BUF)), marks, s3))
        for msg, i, path in M.bad():
            r.append(((("bad", msg),), {}, s2))
        self.fn = f
        return r


def symbols(tag):
    """a message all of whose fields are symbols of their own"""
    return Msg(name=fld("name" + tag), msg=fld("msg" + tag), file=fld("file" + tag), func=fld("func" + tag), line=("o", "line" + tag), tid=("o", "tid" + tag),
               sec=("o", "sec" + tag), ns=("o", "ns" + tag), **{"tm_" + k: ("o", "tm_" + k + tag) for k in TM if k not in ("wday", "mon")})


def bounds():
    b = {"sec": (0, 2 ** 33), "ns": (0, 10 ** 9 - 1), ("now", 1): (10 ** 18, 2 * 10 ** 18), "D": (1, 10 ** 17), "E": (1, 10 ** 17), "gap": (1, 2 ** 32), ("len", (("pre",),)): (0, 2 ** 40)}
    for tag in ("", "2", "3"):
        b["sec" + tag], b["ns" + tag], b["line" + tag], b["tid" + tag] = b["sec"], b["ns"], (1, 2 ** 31 - 1), (0, 2 ** 63 - 1)
        for n in ("name", "msg", "file", "func"):
            b[("len", fld(n + tag))] = (1, 2 ** 40)
        for k, r in TMR.items():
            b["tm_" + k + tag] = r
    return b


def marks_of(m, w, c, x, pre):
    """colour marks that flag c sets"""
    L = "learnlog::base::log_msg"
    a, b = field(m, L, "color_index_start"), field(m, L, "color_index_end")
    n = w.t.length(pre)
    if c == "^":
        return {a: n}
    if c == "$":
        return {b: n}
    if c == "+":
        v = w.t.segs(content(w, c, x))
        # up to the level's name
        name = LEVELS[x.level]
        before, k = (), 0
        tail = (lit("[") + x.name + lit("] ") if x.name else ())
        head = w.t.segs(content(w, c, Msg(**dict(x.__dict__, **{"name": (), "msg": (), "line": 0, "tm": x.tm}))))
        head = w.t.segs(head[:-1] + lit(head[-1][1][:-len("[%s] " % name)]) + tail + lit("["))
        s = add(n, w.t.length(head))
        return {a: s, b: add(s, len(name))}
    return {}


def cases(c):
    """messages that matter for flag c: [(what, Msg)]"""
    r = [("", symbols(""))]
    if c in "l+":
        r += [("level %d" % k, Msg(level=k)) for k in range(7)]
    if c in "ac":
        r += [("weekday %d" % k, Msg(tm_wday=k)) for k in range(7)]
    if c in "bc":
        r += [("month %d" % k, Msg(tm_mon=k)) for k in range(12)]
    if c in "m+":
        r += [("any month", Msg(tm_mon=("o", "tm_mon")))]
    if c in "@ABC+":
        r += [("no location", Msg(line=0, file=None, func=None)), ("a line number of 0", Msg(line=0)), ("a negative line", Msg(line=-2)), ("no file name", Msg(file=None)),
              ("no function name", Msg(func=None)), ("an empty file name", Msg(file=())), ("an empty function name", Msg(func=()))]
    if c in "n+":
        r.append(("an empty logger name", Msg(name=())))
    if c in "v+":
        r.append(("an empty text", Msg(msg=())))
    return r


def p17(rep):
    rep.explanation = ("What a pattern prints: the pattern formatter is constructed from each pattern in the abstract, and every formatter it holds is run on a message of symbolic "
                       "fields; the text added to the buffer, the colour marks and the order are compared with the documented meaning of the flags.")
    m = get_model("tls")
    fail = fail_once(rep)
    w = World(m, bounds())
    p = Pattern(w, rep)
    flags(rep, m, w, p, fail)
    parsing(rep, m, fail)
    whole(rep, m, fail)
    numbers(rep, m, fail)
    texts(rep, m, fail)


def objects(p, pattern, fail, rule, n=None):
    st, msg, i = p.build(pattern)
    if st is None:
        fail(p.ctor(), rule, i, 'pattern "%s": %s' % (pattern, msg))
        return None, ()
    fs = p.formatters(st)
    if fs is None or n is not None and len(fs) != n:
        fail(p.ctor(), rule, None, 'pattern "%s": %s formatters are set up instead of %d' % (pattern, "no" if fs is None else len(fs), n))
        return None, ()
    return st, fs


def compare(rep, w, p, fail, rule, c, st, fs, x, what, last=None, pad=None, pre=(("pre",),)):
    """runs the formatters of a one-flag pattern on x; the state afterwards when it printed what it should"""
    m = w.m
    want = w.t.segs(content(w, c, x, last))
    if pad is not None:
        want = pad(want)
    else:
        want = w.t.segs(pre + want)
    good = None
    cur = [(pre, {}, st)]
    for o in fs:
        nxt = []
        for b, mk_, s in cur:
            for b2, mk2, s2 in p.out(s, o, x, before=b or (("?",),)):
                nxt.append((b2, {**mk_, **mk2}, s2))
        cur = nxt
    f = p.fn if fs else p.ctor()
    if not cur:
        fail(f, rule, None, "%%%s: %s: its formatter has no format function or does not come back" % (c, what))
        return None
    for b, marks, s in cur:
        if b is not None and w.t.segs(b) != want:
            fail(f, rule, None, "%%%s%s: prints %s instead of %s" % (c, what and ", " + what, show(w.t.segs(b)), show(want)))
            return None
        if b is None:
            fail(f, rule, None, "%%%s%s: the buffer is not written" % (c, what and ", " + what))
            return None
        wm = marks_of(m, w, c, x, pre)
        ini = {k[2]: v for k, v in x.cells(m).items() if is_sym(k) and k[1] == "MSG"}
        got = {k: v for k, v in marks.items() if ini.get(k, k) != v}
        if got != wm:
            fail(f, rule, None, "%%%s%s: the message's colour marks (or other fields) become %s instead of %s" % (c, what and ", " + what, got, wm))
            return None
        good = s
    if len({frozenset((k, v) for k, v in s.items() if is_sym(k) and isinstance(k[1], tuple) and k[1][0] == "new") for b, k_, s in cur}) != 1:
        pass
    return [s for b, k_, s in cur]


def flags(rep, m, w, p, fail):
    from rules._lin import scale
    for c in FLAGS:
        rule = "flag"
        st, fs = objects(p, "%" + c, fail, rule, 1)
        if st is None:
            continue
        f = None
        if c in UNIT:
            now = [v for k, v in st.items() if is_sym(k) and isinstance(k[1], tuple) and k[1][0] == "new" and v == ("o", ("now", 1))]
            if not now:
                fail(p.ctor(), rule, None, "%%%s: does not remember when it was made" % c)
                continue
            t0 = now[0]
            for seq in itertools.product((1, 0, -1), repeat=2):
                last, s1 = t0, [st]
                for k, d in enumerate(seq):
                    x = Msg(at=last if d == 0 else add(last, ("o", "DE"[k]), d))
                    nxt = []
                    for s in s1:
                        r = compare(rep, w, p, fail, rule, c, s, fs, x, "message %d, %s the previous one" % (k + 1, {1: "after", 0: "at the time of", -1: "dated before"}[d]), last)
                        nxt += r or []
                    last, s1 = x.time(), nxt
            rep.ok(rule, p.fn.where() if hasattr(p.fn, "where") else c, "%%%s: time since the previous message" % c) if not fail.seen else None
            continue
        for what, x in cases(c):
            r = compare(rep, w, p, fail, rule, c, st, fs, x, what)
            if r is None or what:
                continue
            # a later message, then one in the same second: nothing of the earlier one is left
            y = symbols("2")
            y.sec, y.tm["wday"], y.tm["mon"], y.level = add(x.sec, ("o", "gap")), 6, 11, 4
            z = symbols("3")
            z.sec, z.tm, z.level = y.sec, y.tm, 1
            back = symbols("3")
            back.sec, back.tm["wday"], back.tm["mon"] = x.sec, 1, 0
            for s in r:
                r2 = compare(rep, w, p, fail, rule, c, s, fs, y, "second message")
                for s2 in r2 or ():
                    compare(rep, w, p, fail, rule, c, s2, fs, z, "a further message of the same second")
                    compare(rep, w, p, fail, rule, c, s2, fs, back, "a message dated before the previous one")
        if not any(k[1] == rule and ("%%%s" % c) in k[2] for k in fail.seen):
            rep.ok(rule, start(p.fn), "%%%s prints what it stands for" % c)


def concrete():
    return Msg(name=lit("nm"), msg=lit("hello, world"), file=lit("dir/f.cpp"), func=lit("fun"), line=123, tid=4567, pid=89, sec=1700000000, ns=123456789,
               tm_sec=5, tm_min=34, tm_hour=7, tm_mday=9, tm_mon=10, tm_year=123, tm_wday=4, tm_yday=312, tm_isdst=0)


def reference(pattern, custom):
    """what the parser has to make of a pattern: [("lit", text) or ("flag", c, width or None, side, truncate)]"""
    out, i, n = [], 0, len(pattern)
    while i < n:
        if pattern[i] != "%":
            out.append(("lit", pattern[i]))
            i += 1
            continue
        i += 1
        side = ">"
        if i < n and pattern[i] in "-=":
            side = {"-": "<", "=": "^"}[pattern[i]]
            i += 1
        d = i
        while i < n and "0" <= pattern[i] <= "9":
            i += 1
        width, trunc = None, False
        if i > d:
            width = min(int(pattern[d:i]), 64)
            if i < n and pattern[i] == "!":
                trunc = True
                i += 1
        if i < n:
            out.append(("flag", pattern[i], width, side, trunc))
            i += 1
    return out


def padded(v, width, side, trunc):
    """v and its padding, texts being literal"""
    t = S.literal(v)
    if width is None or t is None:
        return v
    k = width - len(t)
    if k >= 0:
        h = {">": k, "<": 0, "^": k // 2}[side]
        return lit(" " * h + t + " " * (k - h))
    return lit(t[:width]) if trunc else v


class Concrete:
    """outputs of whole patterns on one message, every formatter object evaluated once per distinct contents"""

    def __init__(self, p, custom):
        self.p, self.w, self.m, self.custom = p, p.w, p.m, custom
        self.x = concrete()
        self.cache = {}

    def key(self, st, o):
        ks = []
        for k, v in st.items():
            if is_sym(k) and k[1] == o[1]:
                ks.append((k[2], repr(v)))
            elif isinstance(k, tuple) and len(k) == 2 and k[0] in ("buf", "str") and is_sym(k[1]) and k[1][1] == o[1]:
                ks.append((k[0], k[1][2], repr(v)))
        return repr(sorted(map(repr, ks))), isinstance(o[1], tuple) and o[1][0] == "copy" and o[1][2]

    def one(self, st, o):
        k = self.key(st, o)
        if k not in self.cache:
            rs = {r[0] for r in self.p.out(st, o, self.x, before=(("pre",),))}
            r = rs.pop() if len(rs) == 1 else (("pre",), ("?",))
            self.cache[k] = self.w.t.segs(r if r is not None else (("?",),))
        return self.cache[k]

    def text(self, st):
        fs = self.p.formatters(st)
        if fs is None:
            return None
        out = ()
        for o in fs:
            v = self.one(st, o) if is_sym(o) else (("pre",), ("?",))
            out += v[1:] if v[:1] == (("pre",),) else (("short",),) + v
        return self.w.t.segs(out)

    def kind(self, st, o):
        """what makes two formatters print the same"""
        s = tuple(sorted((k[1][2] - o[2], v) for k, v in st.items() if isinstance(k, tuple) and k[0] == "str" and is_sym(k[1]) and k[1][1] == o[1]))
        return st.get(o), isinstance(o[1], tuple) and o[1][0] == "copy" and o[1][2], self.info(st, o), s

    def info(self, st, o):
        """the padding a formatter object carries"""
        F = "learnlog::sinks::flag_formatter"
        a = field(self.m, F, "spaces_info_")
        S_ = "learnlog::sinks::spaces_info"
        return tuple(st.get(("s", o[1], o[2] + a + field(self.m, S_, n)), 0) for n in ("target_len_", "side_", "truncate_", "enabled_"))

    def want(self, pattern):
        out = ()
        for e in reference(pattern, self.custom):
            if e[0] == "lit":
                out += lit(e[1])
            elif e[1] in self.custom:
                out += (("custom", e[1], e[2:]),)
            elif e[1] == "%":
                out += lit("%")
            elif e[1] in "^$":
                pass
            elif e[1] == "+":
                out += content(self.w, "+", self.x)
            elif e[1] in UNIT:
                out += (("since", e[1]),) if e[2] is None else (("since", e[1]) + e[2:],)
            elif e[1] in FLAGS:
                out += padded(self.w.t.segs(content(self.w, e[1], self.x)), *e[2:])
            else:
                out += lit("%" + e[1])
        return self.w.t.segs(out)


ALPHABET = "%-=03!vlxq*"


def patterns(tier):
    for n in range(4 if tier == "quick" else 5):
        for t in itertools.product(ALPHABET, repeat=n):
            yield "".join(t)
    for c in range(32, 127):
        yield "%" + chr(c)
    for f in "vlnt":
        for side in ("", "-", "="):
            for n in ("0", "1", "2", "4", "5", "11", "12", "13", "15", "63", "64", "65", "100", "007", "18446744073709551617", "36893488147419103296"):
                for tr in ("", "!"):
                    yield "%" + side + n + tr + f
    yield from ("", "%", "%%", "%%%", "%%v", "%v%%", "[%l] %v", "%5", "%-5", "%=5!", "%-", "%=", "%5%v", "%-5!%v", "%--5v", "%5-v", "%-5!!v", "%12!", "abc%", "%v %v %v", "%3!v%3!v", "%^%l%$ %v", "%-8!n|%=8l|%8v|",
                "a%vb%lc%nd%te", "%v%l%n%t%p%a%b%c%y%m%d%H%M%S%E%F%G%T%@%A%B%C%+")


def parsing(rep, m, fail):
    w = World(m, bounds())
    for custom in ("", "*v"):
        p = Pattern(w, rep, custom)
        cc = Concrete(p, custom)
        pads = {}
        n = 0
        bad = 0
        for pat in patterns(rep.tier):
            if custom and not any(k in pat for k in custom):
                continue
            st, msg, i = p.build(pat)
            n += 1
            if st is None:
                fail(p.ctor(), "parse", i, 'pattern "%s": %s' % (pat, msg))
                bad += 1
            else:
                got, want = cc.text(st), cc.want(pat)
                if custom:
                    got = tuple(("custom", s[1]) if s[0] == "custom" else s for s in got)
                    # the padding of custom flags goes to the copies that the pattern holds
                    objs = [o for o in p.formatters(st) if isinstance(o[1], tuple) and o[1][0] == "copy"]
                    for o, e in zip(objs, [s for s in want if s[0] == "custom"]):
                        if e[2] not in pads:
                            q = Pattern(w, rep)
                            s2, _, _ = q.build("%%%s%s%sA" % ({">": "", "<": "-", "^": "="}[e[2][1]] if e[2][0] is not None else "", "" if e[2][0] is None else e[2][0], "!" if e[2][2] else ""))
                            pads[e[2]] = cc.info(s2, p.formatters(s2)[0]) if s2 is not None and p.formatters(s2) else None
                        if cc.info(st, o) != pads[e[2]]:
                            fail(p.ctor(), "parse", None, 'pattern "%s": the custom flag %%%s is given the padding %s instead of %s' % (pat, e[1], cc.info(st, o), pads[e[2]]))
                            bad += 1
                        if o[1][1] == 0:
                            fail(p.ctor(), "parse", None, 'pattern "%s": the custom flag %%%s is not a copy of its own' % (pat, e[1]))
                            bad += 1
                    want = tuple(("custom", s[1]) if s[0] == "custom" else s for s in want)
                if any(s[0] == "since" for s in want):
                    if len(p.formatters(st) or ()) != 1:
                        fail(p.ctor(), "parse", None, 'pattern "%s": is not one formatter' % pat)
                        bad += 1
                elif got != want:
                    fail(p.ctor(), "parse", None, 'pattern "%s": prints %s instead of %s' % (pat, show(got) if got is not None else "nothing", show(want)))
                    bad += 1
            if bad >= 5:
                return
        rep.ok("parse", start(p.ctor()), "%d patterns%s are parsed as documented, without a read outside them" % (n, " with custom flags" if custom else ""))


def method(m, name, nargs=None):
    f = [f for f in m.all() if f.nbase == PF + "::" + name and (nargs is None or len(f.d["args"]) == nargs)]
    if not f:
        raise AnalysisBroken("pattern_formatter::%s is gone" % name)
    return f[0]


def whole(rep, m, fail):
    """format() runs every formatter once, in order, and ends with the end of line; constructors, set_pattern and clone agree"""
    w = World(m, bounds())
    w.stub = True
    f = method(m, "format", 3)
    rep.fn(f)
    ok = True
    a_eol, a_pat = field(m, PF, "eol_"), field(m, PF, "pattern_")
    for custom, pat, eol in (("", "", "\n"), ("", "abc", "\n"), ("", "%v", ""), ("", "[%l] %v%", "\r\n"), ("", "%+%n x %t%p%a%%", "\n"), ("*", "%*%v%*", "\n"), ("", "%v", "-eol-")):
        p = Pattern(w, rep, custom)
        st, msg, i = p.build(pat, eol)
        if st is None:
            continue
        want = tuple(("obj", o[1]) for o in p.formatters(st) or ())
        cur, prev = [st], None
        for n, x in enumerate((symbols(""), symbols("2"), symbols("3"))):
            if n == 1:
                x.sec = add(("o", "sec"), ("o", "gap"))
            if n == 2:
                x.sec, x.tm = prev.sec, prev.tm
            prev = x
            nxt = []
            for s in cur:
                s = St({k: v for k, v in s.items() if not (isinstance(k, tuple) and k and k[0] == "r") and k != "trace" and not (is_sym(k) and k[1] in ("MSG", "TM"))})
                s[("buf", BUF)] = (("pre",),)
                w.fields = x.cells(m)
                s.update({k: v for k, v in w.fields.items() if is_sym(k) and k[1] == "MSG"})
                M = w.run(f, [P, MSG, BUF], s)
                rep.paths += M.sim.states
                for b, i, path in M.bad():
                    fail(f, "format", i, 'pattern "%s": %s' % (pat, b))
                    ok = False
                ex = M.exits("ret")
                if not ex and not M.bad():
                    fail(f, "format", None, 'pattern "%s": format() does not come back' % pat)
                    ok = False
                for kind, v, s2, i in ex:
                    got = s2.get(("buf", BUF))
                    if got != w.t.segs((("pre",),) + want + lit(eol)):
                        fail(f, "format", i, 'message %d, pattern "%s": the buffer gets %s instead of the output of %d formatters and the end of line' % (n + 1, pat, show(got) if got else "nothing", len(want)))
                        ok = False
                    for e in s2.get("trace", ()):
                        if e[0] == "fmt" and (e[1] != MSG or e[3] != BUF):
                            fail(f, "format", i, 'pattern "%s": a formatter is given another message or buffer' % pat)
                            ok = False
                        if e[0] == "fmt" and not e[2]:
                            fail(f, "format", i, 'message %d, pattern "%s": a formatter is not given the calendar time of the message' % (n + 1, pat))
                            ok = False
                        if e[0] == "calendar" and (e[1] != "local" or e[2] != lnorm(x.sec)):
                            fail(f, "format", i, 'pattern "%s": the calendar time is not the local time of the message' % pat)
                            ok = False
                    nxt.append(s2)
            cur = nxt[:4]
    if ok:
        rep.ok("format", start(f), "every formatter once, in order, with the message, its calendar time and the buffer; then the end of line")

    # constructors, set_pattern, clone
    def same(what, p, st, this, pat, eol, g):
        q = Pattern(w, rep, p.custom)
        ref, _, _ = q.build(pat, eol)
        if ref is None or st is None:
            if st is None:
                fail(g, "same pattern", None, "%s does not come back in one way" % what)
            return False
        c = Concrete(q, p.custom)
        a, b = [c.kind(ref, o) for o in q.formatters(ref) or ()], [c.kind(st, o) for o in p.formatters(st, this) or ()]
        if a != b:
            fail(g, "same pattern", None, "%s: the formatters are not those of pattern \"%s\"" % (what, pat))
            return False
        for n, off, t in (("end of line", a_eol, eol), ("pattern", a_pat, pat)):
            got = st.get(("str", ("s", this[1], this[2] + off)))
            if got is None or S.literal(got) != t:
                fail(g, "same pattern", None, "%s: its %s becomes %s instead of \"%s\"" % (what, n, show(got) if got is not None else "something else", t))
                return False
        return True

    d = method(m, "pattern_formatter", 1)
    p = Pattern(w, rep)
    st, msg, i = p.single(w.run(d, [P], St()), "the default constructor")
    good = same("the default constructor", p, st, P, "%+", "\n", d)
    if st is not None:
        v = [s for k, s in st.items() if isinstance(k, tuple) and k[0] == "map" and k[1][1] == "P"]
        if v and v[0]:
            fail(d, "same pattern", None, "the default constructor defines custom flags")
            good = False
    if good:
        rep.ok("same pattern", start(d), "constructed without a pattern, the pattern is %+")
    sp, cl = method(m, "set_pattern"), method(m, "clone")
    rep.fn(sp)
    rep.fn(cl)
    good = True
    for custom in ("", "*"):
        for old, new, eol in (("%l abc", "x%8!v", "\n"), ("%v", "", "||"), ("%v%*%n", "%*[%5l]%", "\n"), ("", "%t", "")):
            p = Pattern(w, rep, custom)
            st, msg, i = p.build(old, eol)
            if st is None:
                continue
            a = obj("anew")
            S.put(st, a, lit(new))
            st, msg, i = p.single(w.run(sp, [P, a], St({k: v for k, v in st.items() if k[0] != "r"})), "set_pattern")
            good &= same('set_pattern("%s") after "%s"' % (new, old), p, st, P, new, eol, sp)
            if st is None:
                continue
            before = {k: v for k, v in st.items() if isinstance(k, tuple) and k[0] != "r" and ("P" in k or len(k) > 1 and isinstance(k[1], tuple) and k[1][1] in ("P", ("node", P)))}
            st, msg, i = p.single(w.run(cl, [obj("RET"), P], St({k: v for k, v in st.items() if k[0] != "r"})), "clone")
            r = st.get(obj("RET")) if st is not None else None
            if not is_sym(r) or r[1] == "P":
                fail(cl, "same pattern", None, "clone returns no formatter of its own")
                good = False
                continue
            good &= same('the clone of a formatter with pattern "%s"' % new, p, st, r, new, eol, cl)
            if any(st.get(k) != v for k, v in before.items()):
                fail(cl, "same pattern", None, "clone changes the original")
                good = False
            mine = [v for k, v in st.items() if isinstance(k, tuple) and k[0] == "map" and k[1][1] == r[1]]
            if (mine[0] if mine else ()) != tuple(ord(k) for k in custom):
                fail(cl, "same pattern", None, "the clone does not have the custom flags of the original")
                good = False
            for k in custom:
                nodes = {kk[1][1][1]: v for kk, v in st.items() if is_sym(kk) and isinstance(kk[1], tuple) and kk[1][0] == "node" and kk[1][2] == ord(k) and kk[2] == 16}
                if nodes.get(r[1]) is None or nodes.get(r[1]) == nodes.get("P") or not is_sym(nodes.get(r[1])):
                    fail(cl, "same pattern", None, "the clone shares the custom flag %%%s with the original" % k)
                    good = False
    if good:
        rep.ok("same pattern", start(sp), "set_pattern replaces the whole pattern")
        rep.ok("same pattern", start(cl), "a clone has the same pattern, end of line and custom flags of its own")


def numbers(rep, m, fail):
    """the helpers that print numbers, and the calendar time"""
    w = World(m, bounds())
    F = "learnlog::base::fmt_base::"
    n = 0
    for f in [f for f in m.all() if f.nbase in (F + "fill_uint", F + "count_unsigned_digits", F + "append_int")]:
        n += 1
        bits = 64 if f.d["args"][0]["ty"] == "i64" else 32
        vals = sorted({0, 1, 5, 7, 9, 10, 11, 42, 59, 60, 70, 99, 100, 101, 123, 305, 999, 1000, 1001, 1970, 2026, 9999, 10000, 99999, 123456, 999999, 1000000, 123456789, 999999999} |
                      ({2 ** 31 - 1, 10 ** 9} if bits == 32 else {10 ** 12, 2 ** 62}) | (set(range(1001)) if rep.tier != "quick" else set()))
        kind = f.nbase.split("::")[-1]
        if kind == "append_int":
            vals = [("o", "line"), 0, 7, 10 ** 6]
        good = True
        for v in vals:
            for width in ((0, 1, 2, 3, 4, 5, 6, 9) if kind == "fill_uint" else (None,)):
                st = St({("buf", BUF): lit("<")})
                args = [v] + ([width] if width is not None else []) + ([BUF] if kind != "count_unsigned_digits" else [])
                M = Machine(m, f, args, st, call=digits(w), load=w.load, store=w.store, term=w.term, arith=w.lin.arith, counting=100)
                rep.paths += M.sim.states
                ex = M.exits("ret")
                if kind == "count_unsigned_digits":
                    got, want = {x[1] for x in ex}, {len(str(v))}
                else:
                    got, want = {x[2].get(("buf", BUF)) for x in ex}, {w.t.segs(lit("<") + ((("int", v),) if kind == "append_int" else lit(str(v).rjust(width, "0"))))}
                if got != want or M.bad():
                    good = False
                    fail(f, "number", None, "%s(%s%s) gives %s instead of %s" % (kind, v, "" if width is None else ", %d" % width, " or ".join(map(show, got)) or "nothing", show(want.pop())))
                    break
            if not good:
                break
        rep.fn(f)
        if good:
            rep.ok("number", start(f), "%s over %d values" % (m.name(f.mangled)[:80], len(vals)))
    if not n:
        raise AnalysisBroken("the helpers that print numbers are gone")
    f = [f for f in m.all() if f.nbase == "learnlog::base::os::time_point_to_tm"]
    if not f:
        raise AnalysisBroken("os::time_point_to_tm is gone")
    f = f[0]
    x = symbols("")
    tp = obj("TP")
    w.fields = x.cells(m)
    M = Machine(m, f, [obj("RET"), tp], St({tp: lnorm(x.time())}), call=digits(w), load=w.load, store=w.store, term=w.term, arith=w.lin.arith)
    good = not M.bad() and bool(M.exits("ret"))
    for kind, v, st, i in M.exits("ret"):
        tr = [e for e in st.get("trace", ()) if e[0] == "calendar"]
        if len(tr) != 1 or tr[0][1] != "local" or tr[0][2] != ("o", "sec"):
            good = False
        if any(st.get(("s", "RET", off)) != x.tm[k] for k, off in TM.items()):
            good = False
    if not good:
        fail(f, "calendar", None, "the calendar time of a message is not the local time of the second it was made in")
    else:
        rep.ok("calendar", start(f), "local calendar time of the message's second")


def texts(rep, m, fail):
    """the helper that prints a text adds exactly its characters"""
    fs = [f for f in m.all() if f.nbase == "learnlog::base::fmt_base::append_string_view"]
    if not fs:
        raise AnalysisBroken("the helper that prints a text is gone")
    for f in fs:
        rep.fn(f)
        good = True
        for text in ("", "a", "b{}", "0123456789"):
            src = ("chars", lit(text))

            def load(st, a):
                return S.charload(a)

            def call(st, c):
                k = S.SBUF.match(c.nb)
                v = c.vals
                if k and v and v[0] == BUF:
                    what, more = k.group(3), None
                    if what == "append" and len(v) == 3 and is_sym(v[1]) and is_sym(v[2]) and v[1][1] == v[2][1] == src:
                        if not 0 <= v[1][2] <= v[2][2] <= len(text):
                            raise Bad("adds characters that are not the text's")
                        more = text[v[1][2]:v[2][2]]
                    elif what == "append" and len(v) == 2 and is_sym(v[1]):
                        a, n = st.get(v[1]), st.get(("s", v[1][1], v[1][2] + 8))
                        if is_sym(a) and a[1] == src and isinstance(n, int) and 0 <= a[2] <= a[2] + n <= len(text):
                            more = text[a[2]:a[2] + n]
                    elif what == "push_back":
                        ch = st.get(v[1]) or load(st, v[1]) if is_sym(v[1]) else v[1]
                        more = chr(ch & 255) if isinstance(ch, int) else None
                    elif what in ("size", "reserve", "try_reserve", "capacity"):
                        return None
                    st["out"] = st.get("out", "") + more if more is not None and st.get("out", "") is not None else None
                    return "done"
                return None
            M = Machine(m, f, [obj(src), len(text), BUF], St(), call=call, load=load, counting=100)
            ex = M.exits("ret")
            if M.bad() or not ex or any(x[2].get("out", "") != text for x in ex):
                good = False
                fail(f, "text", None, 'the text "%s" is printed as %s' % (text, " or ".join(sorted('"%s"' % x[2].get("out", "") for x in ex)) or "something else"))
                break
        if good:
            rep.ok("text", start(f), "a text is printed with exactly its characters")


def digits(w):
    """calls inside the helpers"""
    def call(st, c):
        v, nb = c.vals, c.nb
        if re.match(r"^fmt::v\d+::detail::count_digits$", nb):
            return len(str(v[0] & 2 ** 64 - 1)) if isinstance(v[0], int) else None
        if re.match(r"^fmt::v\d+::format_int::format_int$", nb) and is_sym(v[0]):
            st[("fi", v[0])] = v[1]
            return "done"
        if re.match(r"^fmt::v\d+::format_int::(data|size|c_str|str)$", nb) and v and ("fi", v[0]) in st:
            n = st[("fi", v[0])]
            t = (("int", n),) if not isinstance(n, int) else lit(str(n))
            return ("s", ("chars", t), 0) if c.last in ("data", "c_str") else ("o", ("len", t)) if c.last == "size" and not isinstance(n, int) else len(str(n)) if c.last == "size" else None
        if c.nb.startswith("learnlog::") and c.fn is not None and c.last != "append_int" and c.last != "append_string_view":
            return nested(w.m, st, c, call=call, load=w.load, store=w.store, term=w.term, arith=w.lin.arith, counting=100)
        return w.call(st, c)
    return call


def p18(rep):
    rep.explanation = ("Padding and truncation: every flag is set up with a width in the abstract, the width replaced by a symbol above, at or below the length of the text, and the "
                       "flag's formatter run on a symbolic message; the spaces added to the left and right, and the text kept, are compared with the documented ones.")
    m = get_model("tls")
    fail = fail_once(rep)
    b = bounds()
    b["J"], b["J1"], b["cut"] = (1, 32), (0, 31), (1, 2 ** 40)
    w = World(m, b)
    p = Pattern(w, rep)
    off = field(m, "learnlog::sinks::flag_formatter", "spaces_info_") + field(m, "learnlog::sinks::spaces_info", "target_len_")
    pre = (("pre",),)
    n0 = w.t.length(pre)
    for c in FLAGS:
        good = True
        shapes = 0
        for side, trunc in itertools.product(("", "-", "="), ("", "!")):
            pat = "%%%s7%s%s" % (side, trunc, c)
            st, fs = objects(p, pat, fail, "padding", 1)
            if st is None:
                good = False
                continue
            o = fs[0]
            if c not in PADDED:
                # no padding: what is printed does not depend on the width
                for T in (0, 1, 7, 64):
                    s = St(st)
                    if is_sym(o) and ("s", o[1], o[2] + off) in s:
                        s[("s", o[1], o[2] + off)] = T
                    shapes += 1
                    good &= compare(rep, w, p, fail, "padding", c, s, fs, symbols(""), "width %d, pattern %s" % (T, pat)) is not None
                continue
            if st.get(("s", o[1], o[2] + off)) != 7:
                fail(p.ctor(), "padding", None, "pattern %s: the formatter does not keep the width" % pat)
                good = False
                continue
            msgs = [("", symbols(""))]
            if c in "@ABC":
                msgs += [("no location", Msg(line=0, file=None, func=None)), ("no file name", Msg(file=None)), ("no function name", Msg(func=None))]
            if c in "nv":
                msgs.append(("an empty text", Msg(name=(), msg=())))
            last = None
            if c in UNIT:
                last = [v for k, v in st.items() if is_sym(k) and isinstance(k[1], tuple) and k[1][0] == "new" and v == ("o", ("now", 1))]
                last = last[0] if last else 0
                msgs = [("", Msg(at=add(last, ("o", "D")))), ("no time passed", Msg(at=last))]
            for what, x in msgs:
                text_ = w.t.segs(content(w, c, x, last))
                L = w.t.length(text_)
                widths = [(add(L, mk(0, {"J": 2})), mk(0, {"J": 1}), mk(0, {"J": 1})), (add(L, mk(1, {"J1": 2})), mk(0, {"J1": 1}), mk(1, {"J1": 1})), (L, 0, 0)]
                if isinstance(L, int):
                    widths += [(L - d, None, d) for d in range(1, L + 1)]
                else:
                    widths.append((add(L, ("o", "cut"), -1), None, ("o", "cut")))
                for T, a, z in widths:
                    w.lin.nonneg = {lnorm(T), lnorm(L)}
                    if a is not None:
                        k = add(a, z)
                        left, right = {"": (k, 0), "-": (0, k), "=": (a, z)}[side]
                        pad = lambda v: w.t.segs(pre + (("sp", left),) + v + (("sp", right),))
                    elif trunc:
                        pad = lambda v: w.t.upto(pre + v, add(n0, T))
                    else:
                        pad = lambda v: w.t.segs(pre + v)
                    s = St(st)
                    s[("s", o[1], o[2] + off)] = T
                    shapes += 1
                    kind = "%s%swidth %s the text" % (what, what and ", ", "above" if a is not None and T != L else "equal to" if T == L else "below")
                    if compare(rep, w, p, fail, "padding", c, s, fs, x, "%s, pattern %s" % (kind, pat), last, pad) is None:
                        good = False
        if good:
            rep.ok("padding", start(p.fn), "%%%s: %d shapes of padding" % (c, shapes))


PROPERTIES = {"P18": p18, "P17": p17}
