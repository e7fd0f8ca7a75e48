"""Formatters in a Machine: text buffers with symbolic contents, affine lengths, objects on the heap, the containers of a pattern formatter."""
from lib import *
from model import AnalysisBroken
from sim import is_sym, Bad
from rules import _strings as S
from rules._machine import Machine, St, nested, obj
from rules._lin import Lin, parts, mk, add, scale as lscale, norm as lnorm

TM = {"sec": 0, "min": 4, "hour": 8, "mday": 12, "mon": 16, "year": 20, "wday": 24, "yday": 28, "isdst": 32}
TMR = {"sec": (0, 60), "min": (0, 59), "hour": (0, 23), "mday": (1, 31), "mon": (0, 11), "year": (70, 8099), "wday": (0, 6), "yday": (0, 365), "isdst": (0, 1)}
BOUNDS = {"tm_" + k: v for k, v in TMR.items()}
BOUNDS.update({"pid": (1, 2 ** 31 - 1), "tid": (0, 2 ** 63 - 1), "line": (1, 2 ** 31 - 1)})


def mention(x, what):
    if isinstance(x, tuple):
        return x == what or any(mention(y, what) for y in x)
    return x == what


class Texts:
    """segments: ("lit", s) ("field", name) ("int", n) ("pad0", n, w) ("sp", n) ("upto", segments, n) ("custom", ...)"""

    def __init__(self, lin):
        self.lin = lin

    def segs(self, v):
        out = []
        for x in v:
            if x[0] == "cut":       # pointer and length
                v2, n = self.segs(x[1]), x[2]
                t = S.literal(v2)
                lo, hi = self.lin.range(n)
                total = self.length(v2)
                if lo >= 0 and self.lin.cmp("sle", n, total) == 1:
                    if t is not None and t and not t.strip(" "):
                        x = ("sp", n)
                    elif n == total:
                        out += [y for y in v2]
                        continue
                    else:
                        x = ("upto", v2, n)
                else:
                    x = ("beyond", v2, n)
            if x[0] == "int" and not isinstance(x[1], int):
                lo, hi = self.lin.range(x[1])
                for w in range(1, 19):
                    if lo >= 10 ** (w - 1) and hi < 10 ** w:
                        x = ("pad0", x[1], w)
                        break
            if x[0] in ("int", "pad0", "wide") and isinstance(x[1], int):
                x = ("lit", str(x[1]).rjust(x[2] if x[0] != "int" else 0, "0"))
            if x[0] == "sp" and isinstance(x[1], int):
                x = ("lit", " " * x[1])
            if x[0] == "lit" and not x[1]:
                continue
            if out and x[0] == "pad0" and x[2] == 1 and out[-1][0] == "pad0":        # digit by digit
                n = add(lscale(out[-1][1], 10), x[1])
                if lnorm(self.lin.div(n, 10)) == lnorm(out[-1][1]):
                    out[-1] = ("pad0", n, out[-1][2] + 1)
                    continue
            if out and out[-1][0] == x[0] == "lit":
                out[-1] = ("lit", out[-1][1] + x[1])
                continue
            if out and out[-1][0] == x[0] == "sp":
                out[-1] = ("sp", add(out[-1][1], x[1]))
                continue
            out.append(x)
        return tuple(out)

    def length(self, v):
        from rules._lin import textlen
        return mk(*textlen(v))

    def upto(self, v, n):
        """the first n characters of v"""
        v = self.segs(v)
        total = self.length(v)
        if lnorm(n) == total:
            return v
        if isinstance(n, int) and isinstance(total, int) and n > total or self.lin.cmp("sgt", n, total) == 1:
            return v + (("grown",),)
        out = ()
        v = list(v)
        while v:
            L = self.length((v[0],))
            if self.lin.cmp("sge", n, L) == 1:
                out += (v.pop(0),)
                n = add(n, L, -1)
            elif isinstance(n, int) and v[0][0] == "lit":
                out += (("lit", v[0][1][:n]),)
                return self.segs(out)
            else:
                break
        if v and self.lin.range(n) != (0, 0):
            out += (("upto", tuple(v), n),)
        return self.segs(out)


class World:
    """meaning of everything a formatter calls"""

    def __init__(self, m, bounds=None):
        self.m = m
        b = dict(BOUNDS)
        b.update(bounds or {})
        self.lin = Lin(b)
        self.t = Texts(self.lin)
        self.fields = {}            # initial contents of message and calendar time
        self.stub = False           # formatters only leave their mark
        self.bodies = False         # functions given meaning by name run on their own bodies

    # ------------------------------------------------------------ memory
    def load(self, st, a):
        o = a[1]
        if isinstance(o, tuple):
            if o[0] == "g":
                return self.gload(o[1], a[2])
            if o[0] == "elems":
                v = st.get(("vec", o[1]))
                if v is not None and a[2] % 8 == 0 and 0 <= a[2] // 8 < len(v):
                    return v[a[2] // 8]
                raise Bad("reads past the end of the list of formatters")
            if o[0] == "chars":
                t = S.literal(o[1])
                if t is not None and not 0 <= a[2] <= len(t):
                    raise Bad('reads outside the text "%s"' % t)
            if o[0] == "node":
                if a[2] == 8:
                    return o[2]
                if a[2] == 0:
                    ks = st.get(("map", o[1]), ())
                    j = ks.index(o[2]) + 1 if o[2] in ks else len(ks)
                    return ("s", ("node", o[1], ks[j]), 0) if j < len(ks) else 0
        if ("vec", a) in st:
            return ("s", ("elems", a), 0)
        b = ("s", a[1], a[2] - 8)
        if ("vec", b) in st:
            return ("s", ("elems", b), 8 * len(st[("vec", b)]))
        if a in self.fields:
            return self.fields[a]
        if isinstance(o, tuple) and o[0] in ("new", "L", "copy"):
            for k in range(1, 8):       # part of a wider store
                w = st.get(("s", o, a[2] - k))
                if isinstance(w, int):
                    return w >> (8 * k)
                if w is not None:
                    break
        v = S.bufload(st, a)
        return lnorm(v) if v is not None and not is_sym(v) else v

    def gload(self, n, off):
        g = self.m.globals.get(n, {})
        for o, v in g.get("init", ()) or ():
            if o == off:
                if v[0] == "f":
                    return ("fnp", v[1])
                if v[0] == "g":
                    s = self.m.string_at(("addr", ("global", v[1]), v[2], ()) if v[2] else ("global", v[1]))
                    return ("s", ("chars", S.lit(s)), 0) if s is not None else ("s", ("g", v[1]), v[2])
                if v[0] == "c":
                    return int(v[1])
        if g.get("zero") and g.get("const") and not self.ginit(n):
            return 0
        return self.ginit(n).get(off)

    def ginit(self, n):
        """contents that a global gets before main()"""
        m = self.m
        tab = m.__dict__.setdefault("_ginit", {})
        if n not in tab:
            tab[n] = {}
            for f in m.all():
                if not f.mangled.startswith("__cxx_global_var_init"):
                    continue
                if not any(i.op == "store" and i.d["p"][0] == "g" and i.d["p"][1] == n for i in f.instrs()):
                    continue
                M = Machine(m, f, [], {}, call=self.call, load=self.load, store=self.store, term=self.term, arith=self.lin.arith)
                for kind, v, st, i in M.exits("ret"):
                    for k, x in st.items():
                        if is_sym(k) and k[1] == ("g", n):
                            tab[n][k[2]] = x
        return tab[n]

    def term(self, st, t):
        if t[0] == "global":
            s = self.m.string_at(t)
            return ("s", ("chars", S.lit(s)), 0) if s is not None else ("s", ("g", t[1]), 0)
        if t[0] == "addr" and t[1][0] == "global" and not t[3]:
            s = self.m.string_at(t)
            return ("s", ("chars", S.lit(s)), 0) if s is not None else ("s", ("g", t[1][1]), t[2])
        if t[0] == "icmp":
            x, y = (v[1] if isinstance(v, tuple) and v[0] == "const" else v for v in t[2:4])
            return self.lin.cmp(t[1], x, y)
        return None

    def store(self, st, a, v, i):
        if i.d.get("sz") == 8 and isinstance(v, int):
            for k in range(1, 8):
                st.pop(("s", a[1], a[2] + k), None)
        return False

    # ------------------------------------------------------------ calls
    def run(self, f, args, st):
        return Machine(self.m, f, args, st, call=self.call, load=self.load, store=self.store, term=self.term, arith=self.lin.arith, counting=400)

    def buf(self, st, b):
        return st.get(("buf", b), S.UNKNOWN)

    def put(self, st, b, more):
        st[("buf", b)] = self.t.segs(self.buf(st, b) + tuple(more))

    def new(self, st, what="new"):
        n = st[("count",)] = st.get(("count",), 0) + 1
        return ("s", (what, n), 0)

    def call(self, st, c):
        m, v, nb, last = self.m, c.vals, c.nb, c.last
        if nb.startswith("virtual:?::slot"):
            last = self.method(st, v, int(last[4:])) or last
        if nb in ("operator new", "_Znwm"):
            return self.new(st)
        if nb in ("operator delete", "_ZdlPv"):
            return "done"
        if nb == "isdigit" and isinstance(v[0], int):
            return int(0 <= v[0] < 256 and chr(v[0]).isdigit() and v[0] < 128)
        if nb in ("std::chrono::_V2::system_clock::now", "std::chrono::system_clock::now"):
            n = st[("clock",)] = st.get(("clock",), 0) + 1
            return ("o", ("now", n))
        if nb == "learnlog::base::os::pid":
            return self.fields.get("pid", ("o", "pid"))
        if last in ("localtime_r", "gmtime_r", "localtime", "gmtime"):
            t = st.get(v[0]) if is_sym(v[0]) else None
            st.trace("calendar", "local" if last.startswith("local") else "utc", t)
            d = v[1] if len(v) > 1 else ("s", "static tm", 0)
            if is_sym(d):
                for k, off in TM.items():
                    x = self.fields.get(("s", "TM", off))
                    if x is not None:
                        st[("s", d[1], d[2] + off)] = x
            return d
        if nb == "learnlog::base::fmt_base::count_unsigned_digits" or re.match(r"^fmt::v\d+::detail::count_digits$", nb):
            if isinstance(v[0], int):
                return len(str(abs(v[0])))
            return ("o", ("digits", v[0])) if isinstance(v[0], tuple) else None
        if nb == "learnlog::base::fmt_base::append_int" and len(v) == 2 and is_sym(v[1]):
            self.put(st, v[1], (("int", v[0]),) if v[0] is not None else S.UNKNOWN)
            return "done"
        if nb == "learnlog::base::fmt_base::fill_uint" and len(v) == 3 and is_sym(v[2]):
            n, w = v[0], v[1]
            x = ("?",)
            if n is not None and w is not None:
                if isinstance(w, int) and self.lin.range(n)[1] < 10 ** w:
                    x = ("pad0", n, w)
                elif isinstance(w, int) and w <= 1 or w == ("o", ("digits", n)):
                    x = ("int", n)
                else:
                    x = ("wide", n, w)
            self.put(st, v[2], (x,))
            return "done"
        if nb == "learnlog::base::fmt_base::fill_uint_" and len(v) == 4 and is_sym(v[3]) and v[1] == ("o", ("digits", v[0])) and isinstance(v[2], int):
            self.put(st, v[3], (("pad0", v[0], v[2]),) if self.lin.range(v[0])[1] < 10 ** v[2] else (("int", v[0]),) if v[2] <= 1 else (("wide", v[0], v[2]),))
            return "done"
        if nb == "learnlog::base::fmt_base::append_string_view" and is_sym(v[2]):
            self.put(st, v[2], self.piece(v[0], c.keys[0], v[1], st))
            return "done"
        k = S.SBUF.match(nb)
        if k and v and is_sym(v[0]):
            what = k.group(3)
            if what == "resize":
                st[("buf", v[0])] = self.t.upto(self.buf(st, v[0]), v[1])
                return "done"
            if what == "size":
                return self.t.length(self.buf(st, v[0]))
            if what == "push_back":
                ch = st.get(v[1]) if is_sym(v[1]) else v[1]
                self.put(st, v[0], S.lit(chr(ch & 255)) if isinstance(ch, int) else self.digit(ch) if parts(ch) is not None else S.UNKNOWN)
                return "done"
            if what == "append" and len(v) == 3:
                if is_sym(v[1]) and isinstance(v[2], tuple) and v[2][0] == "o" and isinstance(v[2][1], tuple) and v[2][1][:2] == ("at", v[1]):
                    self.put(st, v[0], self.piece(v[1], c.keys[1], v[2][1][2]))
                    return "done"
                if is_sym(v[1]) and is_sym(v[2]) and v[1][1] == v[2][1] and v[1][2] == 0 and isinstance(v[1][1], tuple) and v[1][1][0] == "chars":
                    self.put(st, v[0], self.piece(v[1], c.keys[1], v[2][2]))
                    return "done"
                if is_sym(v[1]) and is_sym(v[2]) and v[1][1] == v[2][1]:
                    x = self.piece(v[1], c.keys[1], v[2][2] - v[1][2], st)
                    if x is not S.UNKNOWN and S.literal(x) is not None:
                        self.put(st, v[0], x)
                        return "done"
                r = S.buffers(m, st, c)
                st[("buf", v[0])] = self.t.segs(self.buf(st, v[0]))
                return r
            return S.buffers(m, st, c)
        if S.SB.match(nb):
            what = S.SB.match(nb).group(2)
            if what == "resize" and len(v) == 3 and isinstance(v[1], int) and isinstance(v[2], int) and is_sym(v[0]):
                old = S.get(st, v[0]) if ("str", v[0]) in st else ()
                t = S.literal(old)
                if t is not None:
                    S.put(st, v[0], S.lit(t[:v[1]].ljust(v[1], chr(v[2]))))
                    return "done"
            if what == "basic_string" and len(v) >= 3 and isinstance(v[1], int) and isinstance(v[2], int) and is_sym(v[0]):
                S.put(st, v[0], S.lit(chr(v[2]) * v[1]))
                return "done"
            if what in ("end", "cend"):
                t = S.literal(S.get(st, v[0]))
                return ("s", ("chars", S.get(st, v[0])), len(t)) if t is not None else None
        r = S.strings(m, st, c)
        if r is not None:
            if is_sym(r) or r == "done":
                return r
            return lnorm(r)
        if nb.startswith("std::vector::") and v and is_sym(v[0]):
            a = v[0]
            if last in ("vector", "clear"):
                st[("vec", a)] = ()
                return "done"
            if last in ("push_back", "emplace_back"):
                if ("vec", a) not in st:
                    return None
                x = st.get(v[1]) if is_sym(v[1]) else None
                if x is None:
                    raise Bad("an element of unknown origin is put into the list of formatters")
                st[v[1]] = 0
                st[("vec", a)] = st[("vec", a)] + (x,)
                return ("s", ("elems", a), 8 * len(st[("vec", a)]) - 8)
            if last in ("reserve", "shrink_to_fit", "~vector", "resize"):
                return "done"
            if last == "swap" and is_sym(v[1]):
                st[("vec", a)], st[("vec", v[1])] = st.get(("vec", v[1]), ()), st.get(("vec", a), ())
                return "done"
            if last == "operator=" and is_sym(v[1]):
                st[("vec", a)] = st.get(("vec", v[1]), ())
                st[("vec", v[1])] = ()
                return a
            return None
        if nb.startswith("std::unordered_map::") and v and is_sym(v[0]):
            a = v[0]
            ks = st.get(("map", a))
            if last == "unordered_map" and (len(v) == 1 or not is_sym(v[1])):
                st[("map", a)] = ()
                return "done"
            if last in ("unordered_map", "operator=") and is_sym(v[1]):
                b = v[1]
                st[("map", a)] = st.get(("map", b), ())
                for k2 in st[("map", a)]:
                    st[("s", ("node", a, k2), 16)] = st.get(("s", ("node", b, k2), 16))
                st[("map", b)] = ()
                return "done" if last == "unordered_map" else a
            if last in ("~unordered_map", "clear", "reserve", "rehash"):
                if last == "clear":
                    st[("map", a)] = ()
                return "done"
            if ks is None:
                return None
            if last in ("begin", "cbegin"):
                return ("s", ("node", a, ks[0]), 0) if ks else 0
            if last in ("end", "cend"):
                return 0
            if last in ("size",):
                return len(ks)
            if last == "empty":
                return int(not ks)
            key = ((st[v[1]] if v[1] in st else self.load(st, v[1])) if is_sym(v[1]) else v[1]) if len(v) > 1 else None
            if not isinstance(key, int):
                return None
            if last == "find":
                return ("s", ("node", a, key), 0) if key in ks else 0
            if last == "count":
                return int(key in ks)
            if last in ("operator[]", "at"):
                if key not in ks:
                    st[("map", a)] = ks + (key,)
                    st[("s", ("node", a, key), 16)] = 0
                return ("s", ("node", a, key), 16)
            if last in ("emplace", "insert", "try_emplace"):
                src = v[-1]
                if key not in ks:
                    st[("map", a)] = ks + (key,)
                    st[("s", ("node", a, key), 16)] = st.get(src) if is_sym(src) else None
                return "done"
            return None
        if self.stub and last == "format" and len(v) == 4 and is_sym(v[0]) and isinstance(v[0][1], tuple) and v[0][1][0] in ("new", "copy") and is_sym(v[3]):
            self.put(st, v[3], (("obj", v[0][1]),))
            self.mark(st, v)
            return "done"
        if nb.startswith("virtual:") and last == "clone" and len(v) == 2 and is_sym(v[0]) and is_sym(v[1]):
            n = self.new(st)
            o = v[1][1]
            while isinstance(o, tuple) and o[0] == "copy":
                o = o[2]
            n = ("s", ("copy", n[1][1], o), 0)
            st[v[0]] = n
            return "done"
        if nb.startswith("virtual:") and last == "format" and v and is_sym(v[0]):
            o = v[0][1]
            if isinstance(o, tuple) and o[0] == "copy" and is_sym(v[3]):
                self.put(st, v[3], (("custom", o[2], self.cells(st, v[0])),))
                st.trace("custom", v[1], v[2])
                return "done"
        if c.fn is not None and (c.name.startswith("learnlog::") or " learnlog::" in c.name.split("(")[0]):
            return nested(m, st, c, join=lambda k: S.UNKNOWN if k[0] in ("buf", "str") else None, call=self.call, load=self.load, store=self.store, term=self.term, arith=self.lin.arith, counting=400)
        return None

    def method(self, st, v, slot):
        """the method in a slot of the table of the receiver, an object of a known class or a custom flag"""
        for x in v[:2]:
            if not is_sym(x):
                continue
            vt = st.get(x)
            if is_sym(vt) and isinstance(vt[1], tuple) and vt[1][0] == "g":
                tabs = [(vt[1][1], vt[2])]
            elif isinstance(x[1], tuple) and x[1][0] == "copy":
                tabs = [("_ZTVN4vdrv7my_flagE", 16)]
            else:
                continue
            for t, base in tabs:
                for off, e in self.m.globals.get(t, {}).get("init", ()):
                    if off == base + 8 * slot and e[0] == "f":
                        return self.m.nbase(e[1]).split("::")[-1]
        return None

    def digit(self, v):
        n = add(v, -48)
        lo, hi = self.lin.range(n)
        return (("pad0", n, 1),) if lo >= 0 and hi <= 9 else S.UNKNOWN

    def mark(self, st, v):
        tm = {k: st.get(("s", v[2][1], v[2][2] + off)) for k, off in TM.items()} if is_sym(v[2]) else {}
        want = {k: self.fields.get(("s", "TM", off)) for k, off in TM.items()}
        st.trace("fmt", v[1], tm == want, v[3])

    def cells(self, st, o):
        return tuple(sorted((k[2] - o[2], v) for k, v in st.items() if is_sym(k) and k[1] == o[1] and k[2] >= o[2]))

    def piece(self, p, key, n, st=None):
        if n is None:
            return S.UNKNOWN
        if st is not None and is_sym(p) and isinstance(p[1], tuple) and p[1][0] == "L" and isinstance(n, int) and n <= 64:
            bs = [st.get(("s", p[1], p[2] + k)) for k in range(n)]
            if all(isinstance(b, int) for b in bs):
                return S.lit("".join(chr(b & 255) for b in bs))
        t = S.chars(self.m, p, key)
        if t is not None and lnorm(n) == self.t.length(t):
            return t
        x = S.piece(self.m, p, key, n)
        if x is S.UNKNOWN or x == S.UNKNOWN or x and x[0][0] == "cut":
            t = S.chars(self.m, p, key)
            if t is not None:
                return (("cut", t, n),)
        return x


# ---------------------------------------------------------------- what the documentation says
LEVELS = ("trace", "debug", "info", "warn", "error", "critical", "off")
DAYS = ("Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat")
MONTHS = ("Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec")
