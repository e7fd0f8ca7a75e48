"""logger::set_formatter, stepped through for a few sinks: who owns which formatter afterwards."""
from rules._machine import *
from rules.files import fail_once, one

LG = "learnlog::logger"
SINK, FMT = "learnlog::sinks::null_sink<std::mutex>", "learnlog::sinks::pattern_formatter"


class Setter:
    """any sink and any formatter: their virtual functions are known by their names"""

    def __init__(self, m, sinks_off):
        self.m, self.off = m, sinks_off
        self.kw = dict(call=self.call, load=self.load, throws=lambda st, c: (), counting=20)

    def load(self, st, a):
        o = a[1]
        if isinstance(o, tuple) and o[0] == "VT":
            g = self.m.vtables()[o[1]]["slots"].get(a[2] // 8)
            return ("fnp", g) if g else None
        if isinstance(o, tuple) and o[0] in ("SINK", "FMT") and a[2] == 0:
            return obj(("VT", SINK if o[0] == "SINK" else FMT))
        return None

    def formatter(self, st, v):
        if v == 0:
            raise Bad("uses a formatter that was already given away")
        if not is_sym(v) or not (isinstance(v[1], tuple) and v[1][0] == "FMT"):
            raise Bad("uses something that is not the formatter given or a clone of it")
        if v[1] in st.get("freed", ()):
            raise Bad("uses a formatter that was destroyed")
        return v[1]

    def call(self, st, c):
        v = c.vals
        if c.nb.startswith(("llvm.memcpy", "llvm.memmove")) and is_sym(v[0]) and is_sym(v[1]) and isinstance(v[2], int):
            st.copy_obj(v[0], v[1], v[2])
            return "done"
        if c.nb.startswith("learnlog::sinks::") and is_sym(v[0]):
            if isinstance(v[0][1], tuple) and v[0][1][0] == "SINK":
                if c.last != "set_formatter":
                    raise Bad("calls %s of a sink" % c.last)
                x = self.formatter(st, st.get(v[1]))
                st[v[1]] = 0
                st.trace(v[0][1][1], x)
                return "done"
            if c.last == "clone" and len(v) > 1:
                self.formatter(st, v[1])
                n = st["clones"] = st.get("clones", 0) + 1
                st[v[0]] = obj(("FMT", n))
                return "done"
            if c.last.startswith("~"):
                x = self.formatter(st, v[0])
                if any(t[1] == x for t in st.get("trace", ())):
                    raise Bad("destroys a formatter that a sink was given")
                st["freed"] = st.get("freed", ()) + (x,)
                return "done"
        if c.nb == "std::unique_ptr::~unique_ptr" and is_sym(v[0]):
            x = st.get(v[0])
            if is_sym(x) and any(t[1] == x[1] for t in st.get("trace", ())):
                raise Bad("destroys a formatter that a sink was given")
            return "done"
        if c.fn is not None and c.nb.startswith(LG + "::"):
            return nested(self.m, st, c, **self.kw)
        return None

    def run(self, f, which):
        n = len(which)
        st = St({("s", "A", self.off): obj("VEC"), ("s", "A", self.off + 8): obj("VEC", 16 * n), ("s", "A", self.off + 16): obj("VEC", 16 * n), obj("ARG"): obj(("FMT", 0))})
        for k, s in enumerate(which):
            st[("s", "VEC", 16 * k)] = obj(("SINK", s))
            st[("s", "VEC", 16 * k + 8)] = obj(("COUNT", s))
        return Machine(self.m, f, [obj("A"), obj("ARG")], st, **self.kw)


def set_formatter(rep, m, sinks_off):
    """every sink of a logger gets one formatter of its own: the one given or a clone of it"""
    fail = fail_once(rep)
    f = one(m, LG + "::set_formatter")
    rep.fn(f)
    # a sink may be in the list twice
    cases = [tuple(range(n)) for n in range(5 if rep.tier == "thorough" else 4)] + [(0, 0), (0, 1, 0), (0, 0, 1), (0, 1, 1)]
    for which in cases:
        n = "%d sinks" % len(which) if len(set(which)) == len(which) else "the sinks %s" % ", ".join(str(k + 1) for k in which)
        M = Setter(m, sinks_off).run(f, which)
        bad = False
        for msg, i, path in M.bad():
            fail(f, "set-formatter", i, "a logger with %s: %s" % (n, msg))
            bad = True
        ex = M.exits("ret")
        if not ex and not bad:
            fail(f, "set-formatter", None, "a logger with %s: does not come back" % n)
            continue
        for kind, v, st, i in ex:
            t = st.get("trace", ())
            for k in sorted(set(which)):
                q = sum(1 for s, x in t if s == k)
                if not 1 <= q <= which.count(k):
                    fail(f, "set-formatter", None, "a logger with %s: sink %d is given %d formatters" % (n, k + 1, q))
                    bad = True
            if len({x for s, x in t}) != len(t):
                fail(f, "set-formatter", None, "a logger with %s: two sinks share a formatter" % n)
                bad = True
            x = st.get(obj("ARG"))
            if is_sym(x) and any(y == x[1] for s, y in t):
                fail(f, "set-formatter", None, "a logger with %s: a formatter that a sink was given has a second owner" % n)
                bad = True
        if not bad:
            rep.ok("set-formatter", start(f), "a logger with %s: each gets one formatter of its own" % n)
