"""P29: loggers are constructed, copied, cloned and swapped whole.  P22: a pattern or formatter that is set is the one in use.

The contents of every member are followed as a token through the real code: strings, containers and smart pointers are single values,
moved, copied and exchanged by their own operations."""
from rules._machine import *
from rules.files import fail_once, one

LG, AL, BT = "learnlog::logger", "learnlog::async_logger", "learnlog::base::backtracer"
PF = "learnlog::sinks::pattern_formatter"
MOVED = ("o", "moved from")
EMPTY = ("o", ("text", ""))
VALUE = re.compile(r"^std::(__)?(shared_ptr|weak_ptr|unique_ptr)::|^std::__cxx11::basic_string::|^std::basic_string::|^std::vector::|^std::unordered_map::|^learnlog::base::circular_queue::")


def members(m, cls):
    return [(n, o, m.tname(tt)) for c, n, o, tt in m.fields_of(m.cls(cls))]


class World:
    """cells of the objects in orig start with a token that names them"""

    def __init__(self, m, orig, fixed=None, vts=None):
        self.m, self.orig, self.fixed, self.vts = m, orig, fixed or {}, vts or {}
        self.kw = dict(call=self.call, load=self.load, store=self.store, term=self.term, throws=lambda st, c: (), counting=20)

    def start(self, a):
        if a in self.fixed:
            return self.fixed[a]
        if a[1] in self.vts and a[2] == 0:
            return ("s", ("VT", self.vts[a[1]]), 0)
        if isinstance(a[1], tuple) and a[1][0] == "VT":
            g = self.m.vtables()[a[1][1]]["slots"].get(a[2] // 8)
            return ("fnp", g) if g else None
        if a[1] in self.orig or (isinstance(a[1], tuple) and a[1][0] in ("ARG", "ELEM")):
            return ("o", ("init",) + a[1:])
        return None

    def load(self, st, a):
        return self.start(a)

    def get(self, st, a):
        v = st.get(a)
        return v if v is not None else self.start(a)

    def store(self, st, a, v, i):
        if isinstance(v, tuple) and v and v[0] == "t":
            s = self.m.string_at(v[1])
            if s is not None:
                st[a] = ("s", ("text", s), 0)
                return True
        return False

    def term(self, st, t):
        if t[0] == "global":
            s = self.m.string_at(t)
            return ("s", ("text", s), 0) if s is not None else ("s", ("G", t[1]), 0)
        if t[0] == "fn":
            return ("fnp", t[1])
        return None

    # ------------------------------------------------------------------ values
    def value_call(self, st, c):
        op = c.last
        d = c.vals[0]
        if not is_sym(d):
            return None
        a = c.vals[1] if len(c.vals) > 1 else None
        n = len(c.vals)
        vec = "::vector::" in c.nb
        ptr = "_ptr::" in c.nb
        q = "circular_queue" in c.nb
        if op.startswith("~"):
            st.pop(d, None)
            return "done"
        kind = "ctor" if op in ("basic_string", "vector", "shared_ptr", "__shared_ptr", "weak_ptr", "__weak_ptr", "circular_queue", "unordered_map", "unique_ptr") else op
        empty = ("o", ("list", ())) if vec else 0 if ptr else ("o", ("queue", 0)) if q else ("o", "nothing") if "unordered" in c.nb else EMPTY
        if kind in ("ctor", "operator=", "assign"):
            # (allocators are no contents)
            if vec and n >= 3 and kind == "ctor" and is_sym(a) and isinstance(c.vals[2], int):
                st[d] = ("o", ("list", tuple(self.get(st, ("s", a[1], a[2] + 16 * k)) for k in range(c.vals[2]))))
                return "done"
            if vec and n >= 3 and is_sym(a) and is_sym(c.vals[2]) and kind in ("ctor", "assign"):
                b = c.vals[2]
                if a[1] == b[1]:
                    st[d] = ("o", ("list", tuple(self.get(st, ("s", a[1], x)) for x in range(a[2], b[2], 16))))
                else:
                    st[d] = ("o", ("range", a, b))
                return "done"
            if vec and is_sym(a) and n >= 3 and (isinstance(b := c.vals[2], tuple)):
                st[d] = ("o", ("range", a, b))
                return "done"
            if vec and n >= 3 and kind in ("ctor", "assign") and a is not None and c.vals[2] is not None:
                st[d] = ("o", ("range", a, c.vals[2]))
                return "done"
            if a is None or (is_sym(a) and a[1] and self.get(st, a) is None and n == 2 and "allocator" in c.name.rsplit("(", 1)[-1] and "basic_string" not in c.name.rsplit("(", 1)[-1]):
                st[d] = empty
                return d if kind != "ctor" else "done"
            if is_sym(a) and isinstance(a[1], tuple) and a[1][0] == "text":
                st[d] = ("o", ("text", a[1][1]))
                return d if kind != "ctor" else "done"
            if ptr and (a == 0 or is_sym(a) and c.name.rsplit("(", 1)[-1].rstrip(")").endswith("*")):
                st[d] = a                                   # made from a raw pointer
                return d if kind != "ctor" else "done"
            if is_sym(a):
                v = self.get(st, a)
                if v is None:
                    raise Bad("takes the contents of something unknown")
                if d != a:
                    st[d] = v
                    if "&&" in c.name:
                        st[a] = 0 if ptr else MOVED
                return d if kind != "ctor" else "done"
            st[d] = ("o", ("unknown", c.i.id))
            return d if kind != "ctor" else "done"
        if op == "swap" and is_sym(a):
            x, y = self.get(st, d), self.get(st, a)
            st[d], st[a] = y, x
            return "done"
        if op == "reset":
            st[d] = a if a is not None else 0
            return "done"
        if op in ("clear",):
            st[d] = empty
            return "done"
        if vec and op in ("push_back", "emplace_back") and is_sym(a):
            v = self.get(st, d)
            if isinstance(v, tuple) and v[0] == "o" and v[1][0] == "list":
                st[d] = ("o", ("list", v[1][1] + (self.get(st, a),)))
                if "&&" in c.name or op == "emplace_back":
                    st[a] = 0
                return "done"
        if op in ("reserve", "shrink_to_fit", "capacity"):
            return "done"
        if op in ("data", "c_str", "size", "length", "empty", "begin", "end", "get", "operator->", "operator*", "operator bool"):
            return None
        st[d] = ("o", ("unknown", c.i.id))
        return None

    def make(self, st, cls, args, c):
        """constructs an object of the class by its own constructor"""
        o = obj(("N", c.i.id, st.get("made", 0)))
        st["made"] = st.get("made", 0) + 1
        self.construct(st, cls, o, args, c)
        return o

    def construct(self, st, cls, o, args, c):
        m = self.m
        short = cls.split("::")[-1]
        fs = [f for f in m.all() if f.nbase == cls + "::" + short and len(f.args) == 1 + len(args)]
        if len(fs) > 1:
            given = c.name.rsplit("(", 1)[-1]
            like = [f for f in fs if ("&&)" in f.name) == (cls + "&&)" in given) and f.name.endswith((cls + " const&)", cls + "&&)"))] if cls in given else []
            fs = like or [f for f in fs if f.name.endswith(cls + " const&)")] if cls in given else [f for f in fs if cls + " const&)" not in f.name and cls + "&&)" not in f.name]
        if len(fs) != 1:
            raise Bad("constructs an object in a way that cannot be followed")
        sub = Call(i=c.i, nb=fs[0].nbase, last=short, vals=[o] + list(args), keys=[o] + list(args), name=fs[0].name, fn=fs[0], threw=None)
        if nested(m, st, sub, **self.kw) is None:
            raise Bad("the constructor of %s comes back in more than one way" % short)

    def call(self, st, c):
        m = self.m
        if c.nb in ("std::make_shared", "std::allocate_shared", "std::make_unique") and is_sym(c.vals[0]):
            k = re.match(r"std::(?:make|allocate)_\w+<([\w:]+)[,>]", c.name)
            st[c.vals[0]] = self.make(st, k.group(1), c.vals[1:], c) if k else ("o", ("unknown", c.i.id))
            return "done"
        if c.nb == "operator new":
            st["made"] = st.get("made", 0) + 1
            return obj(("N", c.i.id, st["made"]))
        if c.nb == PF + "::pattern_formatter" and is_sym(c.vals[0]):
            if len(c.vals) >= 3 and is_sym(c.vals[1]):
                st[("fmt", c.vals[0])] = ("pattern", self.get(st, c.vals[1]), self.get(st, c.vals[2]) if is_sym(c.vals[2]) else None)
            else:
                st[("fmt", c.vals[0])] = ("default",)
            return "done"
        if c.nb == PF + "::set_pattern":
            # (what an existing formatter keeps besides its pattern is its own: such a formatter is not a new one)
            if len(c.vals) > 1 and is_sym(c.vals[0]):
                st[("fmt", c.vals[0])] = ("changed", self.get(st, c.vals[1]) if is_sym(c.vals[1]) else None)
            return "done"
        if c.nb.startswith(PF + "::") and c.last in ("format", "clone"):
            return None
        if c.nb == "__dynamic_cast" and is_sym(c.vals[0]):
            return c.vals[0]
        if c.nb.startswith(("llvm.memcpy", "llvm.memmove")):
            d, a, n = c.vals[:3]
            if is_sym(d) and is_sym(a) and isinstance(n, int):
                for k in range(0, n, 4):
                    x = ("s", a[1], a[2] + k)
                    if x not in st and self.start(x) is not None:
                        st[("s", d[1], d[2] + k)] = self.start(x)
            return "done"
        if VALUE.match(c.nb):
            return self.value_call(st, c)
        if c.nb == "std::swap" and is_sym(c.vals[0]) and is_sym(c.vals[1]):
            x, y = self.get(st, c.vals[0]), self.get(st, c.vals[1])
            st[c.vals[0]], st[c.vals[1]] = y, x
            return "done"
        if "enable_shared_from_this" in c.nb or c.nb.startswith(("std::allocator", "std::__new_allocator", "std::mutex", "std::recursive_mutex")):
            return "done"
        if c.last == "set_formatter" and c.nb in (LG + "::set_formatter",):
            st.trace("set_formatter", st.get(("fmt", self.get(st, c.vals[1]))) if is_sym(c.vals[1]) else None)
            if is_sym(c.vals[1]):
                st[c.vals[1]] = 0
            return "done"
        if c.nb == "std::unique_ptr::~unique_ptr":
            return "done"
        if c.fn is not None and c.nb.startswith("learnlog::") and (c.nb.startswith((LG + "::", AL + "::", BT + "::", "learnlog::sinks::")) or c.nb == "learnlog::swap"):
            if c.last.startswith("~"):
                return "done"
            return nested(m, st, c, **self.kw)
        return None

    def run(self, f, args, st=None):
        return Machine(self.m, f, args, St(st or {}), **self.kw)


def finish(rep, fail, f, M, what, judge, rule="members"):
    """judge(st, value) -> complaint or None"""
    rep.fn(f)
    bad = False
    for msg, i, path in M.bad():
        fail(f, rule, i, "%s: %s" % (what, msg))
        bad = True
    ex = M.exits("ret")
    if not ex and not bad:
        fail(f, rule, None, "%s: does not come back" % what)
        return
    for kind, v, st, i in ex:
        x = judge(st, v)
        if x:
            fail(f, rule, None, "%s: %s" % (what, x))
            bad = True
    if not bad:
        rep.ok(rule, start(f), what)


def p29(rep):
    m = get_model("tls")
    fail = fail_once(rep)
    mem = {c: [x for x in members(m, c) if "enable_shared_from_this" not in x[2] and x[0] not in ("_M_weak_this",)] for c in (LG, AL)}
    R = Roles(m)
    NAME = R.field_off(LG, R.name[1])
    SINKS = R.field_off(LG, R.sinks[1])
    PAT = R.field_off(LG, R.pattern[1])
    TR = R.field_off(LG, R.tracer[1])
    LV, FL = R.field_off(LG, R.log_level[1]), R.field_off(LG, R.flush_level[1])
    asy = R.getter(r"^learnlog::logger::is_async\(")
    ASY = R.field_off(LG, asy[1])
    names = {c: {o: n for n, o, t in mem[c]} for c in mem}
    own = [o for o in names[AL] if o not in names[LG]]
    if len(mem[LG]) < 7 or len(own) != 1:
        raise AnalysisBroken("unexpected members of the logger classes")
    POOL = own[0]

    def differ(W, st, o, cls, want):
        if not is_sym(o):
            return "no logger is produced"
        for off, n in sorted(names[cls].items()):
            w = want(off)
            if n.startswith("_vptr"):
                w = Ellipsis if w is Ellipsis or o[1] in W.orig else ("s", ("G", m.vtables()[cls]["symbol"]), 16)
            if w is Ellipsis:
                continue
            v = W.get(st, ("s", o[1], o[2] + off))
            if v != w:
                return "the member %s is not what it should be%s" % (n, " (its contents were already taken)" if v == MOVED else "")
        return None

    # ---- copies and clones
    n = 0
    for cls in (LG, AL):
        short = cls.split("::")[-1]
        isa = 1 if cls == AL else 0
        W = World(m, ("A",), {("s", "A", ASY): isa})

        def same(o, src="A"):
            return lambda off: isa if off == ASY else ("o", ("init", src, off))
        cps = [f for f in m.all() if f.nbase == "%s::%s" % (cls, short) and len(f.args) == 2 and ("%s const&)" % cls) in f.name]
        mvs = [f for f in m.all() if f.nbase == "%s::%s" % (cls, short) and len(f.args) == 2 and ("(%s&&)" % cls) in f.name]
        for f in cps + mvs:
            M = W.run(f, [obj("O"), obj("A")])
            finish(rep, fail, f, M, "a copy of %s equals the original" % ("a " + short if not isa else "an " + short) if f in cps else "a moved %s has everything the original had" % short,
                   lambda st, v: differ(W, st, obj("O"), cls, same("A")) or (f in cps and differ(W, st, obj("A"), cls, same("A"))) or None)
        n += len(cps)
        cl = one(m, cls + "::clone")
        M = W.run(cl, [obj("OUT"), obj("A"), obj(("ARG", "name"))])

        def judged(st, v):
            o = W.get(st, obj("OUT"))
            if o is not None and is_sym(o) and o[1] == "A":
                return "returns the original itself"
            return differ(W, st, o, cls, lambda off: ("o", ("init", ("ARG", "name"), 0)) if off == NAME else same("A")(off)) or \
                (differ(W, st, obj("A"), cls, same("A")) and "changes the original")
        finish(rep, fail, cl, M, "a clone has the new name and everything else of the original", judged)

    # ---- swap
    for f in [one(m, LG + "::swap")] + [x for x in m.all() if x.nbase == "learnlog::swap" and LG in x.name]:
        for a, b in (("A", "B"), ("A", "A")):
            W = World(m, ("A", "B"))
            M = W.run(f, [obj(a), obj(b)])
            src = lambda o: (lambda off: Ellipsis if off in (ASY, 0) else ("o", ("init", "A" if a == b else ("B" if o == "A" else "A"), off)))
            finish(rep, fail, f, M, "swapping two loggers exchanges everything" if a != b else "swapping a logger with itself changes nothing",
                   lambda st, v: differ(W, st, obj("A"), LG, src("A")) or (a != b and differ(W, st, obj("B"), LG, src("B"))) or None)

    # ---- constructors
    for cls in (LG, AL):
        short = cls.split("::")[-1]
        isa = 1 if cls == AL else 0
        for f in m.all():
            if f.nbase != "%s::%s" % (cls, short) or ("%s const&)" % cls) in f.name or ("(%s&&)" % cls) in f.name:
                continue
            params = f.name[f.name.index("(") + 1:]
            k = len(f.args) - 2 - isa
            name, tp = obj(("ARG", "name")), obj(("ARG", "pool"))
            cases = []
            if k == 0:
                cases.append(([], ("list", ())))
            elif k == 1:
                cases.append(([obj(("ARG", "sink"))], ("list", (("o", ("init", ("ARG", "sink"), 0)),))))
            elif "initializer_list" in f.name.split("(", 1)[1]:
                for q in (0, 1, 3):
                    cases.append(([obj(("ELEM", 0)), q], ("list", tuple(("o", ("init", ("ELEM", 0), 16 * x)) for x in range(q)))))
            else:
                cases.append(([obj(("ELEM", "b")), obj(("ELEM", "e"))], ("range", obj(("ELEM", "b")), obj(("ELEM", "e")))))
            for given, sinks in cases:
                W = World(m, (), {})
                M = W.run(f, [obj("O"), name] + given + ([tp] if isa else []))
                want = {NAME: ("o", ("init", ("ARG", "name"), 0)), SINKS: ("o", sinks), TR: 0, LV: 2, FL: 6, PAT: ("o", ("text", "%+")), ASY: isa, POOL: ("o", ("init", ("ARG", "pool"), 0))}
                finish(rep, fail, f, M, "a new %s has the name and the sinks given (%d arguments, %s), level info, no flush level, the default pattern%s" % (
                    short, len(f.args) - 1, sinks[0] if sinks[0] == "range" else "%d sinks" % len(sinks[1]), " and the pool" if isa else ""),
                    lambda st, v: differ(W, st, obj("O"), cls, lambda off: want.get(off, Ellipsis)))
                n += 1
    if n < 10:
        raise AnalysisBroken("only %d constructor cases" % n)

    # ---- the backtrace store
    bmem = [x for x in members(m, BT) if "mutex" not in x[2]]
    W = World(m, ("A", "B"), {("s", x, o): k for x in "AB" for nme, o, t in bmem if t == "bool" for k in (1 if x == "B" else 0,)})
    for f in m.all():
        if f.nbase not in (BT + "::backtracer", BT + "::operator=") or len(f.args) != 2:
            continue
        for dst, src in (("A", "B"), ("B", "A")) + ((("B", "B"),) if f.nbase.endswith("=") else ()):
            M = W.run(f, [obj(dst), obj(src)])

            def judged(st, v):
                for who in (dst,) + (() if "&&)" in f.name else (src,)):
                    for nme, o, t in bmem:
                        if W.get(st, ("s", who, o)) != W.start(("s", src, o)):
                            return "the member %s is not that of the source" % nme if who == dst else "the source is changed"
                return None
            finish(rep, fail, f, M, "a copy of a backtrace store has its messages and its state" if dst != src else "assigning a store to itself changes nothing", judged)
    rep.explanation = "Every member of a logger followed as a token through its constructors, copies, clones and swaps (%d constructor cases, single value per string, container and smart pointer)." % n


def p22(rep):
    m = get_model("tls")
    fail = fail_once(rep)
    R = Roles(m)
    PAT = R.field_off(LG, R.pattern[1])
    EOLS = {("o", ("text", "\n")), ("o", ("text", "\r\n"))}
    # ---- the logger
    f = one(m, LG + "::set_pattern")
    W = World(m, ("A",))
    given = ("o", ("init", ("ARG", "pattern"), 0))
    M = W.run(f, [obj("A"), obj(("ARG", "pattern"))])

    def judged(st, v):
        if W.get(st, ("s", "A", PAT)) != given:
            return "get_pattern() does not tell the pattern afterwards"
        t = st.get("trace", ())
        if len(t) != 1:
            return "hands %d formatters to its sinks" % len(t)
        if t[0][1] is None or t[0][1][:2] != ("pattern", given):
            return "the formatter handed to the sinks is not made from the pattern"
        if t[0][1][2] not in EOLS:
            return "the formatter handed to the sinks has another line end"
        return None
    finish(rep, fail, f, M, "set_pattern: the pattern is remembered and the sinks get a formatter made from it", judged, "logger")
    # ---- every sink
    SK = "learnlog::sinks::sink"
    n = 0
    for cls, d in sorted(m.vtables().items()):
        if SK not in [strip_targs(b) for b in d["bases"]] or strip_targs(cls) in (SK, "learnlog::sinks::basic_sink", "learnlog::sinks::ostream_sink_base") or cls.startswith("vdrv"):
            continue
        t = m.cls_by_name.get(cls) or m._cls_fuzzy(cls)
        fo = [(nme, o) for c, nme, o, tt in m.fields_of(t[0]) if re.search(r"unique_ptr<learnlog::sinks::formatter", m.tname(tt))] if t else []
        if len(fo) != 1:
            continue
        off = fo[0][1]
        for op in ("set_pattern", "set_formatter"):
            fs = [m.fn(g) for g in d["slots"].values() if g and m.nbase(g).split("::")[-1] == op]
            if len(fs) != 1 or fs[0] is None:
                raise AnalysisBroken("%s has no %s" % (cls, op))
            f = fs[0]
            W = World(m, ("A",), vts={"A": cls})
            arg = obj(("ARG", op))
            M = W.run(f, [obj("A"), arg], {arg: obj(("ARG", "formatter"))} if op == "set_formatter" else None)

            def judged(st, v):
                x = W.get(st, ("s", "A", off))
                if op == "set_formatter":
                    if x != obj(("ARG", "formatter")):
                        return "the formatter given is not the one in use afterwards"
                    if W.get(st, arg) not in (0, None):
                        return "the formatter is left with two owners"
                    return None
                y = st.get(("fmt", x)) if is_sym(x) else None
                if y is None or y[:2] != ("pattern", ("o", ("init", ("ARG", op), 0))):
                    return "the formatter in use afterwards is not made from the pattern given"
                if y[2] not in EOLS:
                    return "the formatter has another line end"
                return None
            finish(rep, fail, f, M, "%s of %s" % (op, cls.replace("learnlog::sinks::", "")), judged, "sink")
            n += 1
    if n < 8:
        raise AnalysisBroken("only %d sink operations" % n)
    rep.explanation = "The string or formatter given followed as a token through the logger's and every concrete sink's setters (%d sink operations, virtual calls resolved per class)." % n


PROPERTIES = {"P29": p29, "P22": p22}
