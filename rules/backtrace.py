"""P25: the backtrace as a log of the last n messages.

Every history of the operations is covered: the joint state of the logger's own code (abstract memory) and of the list model is
explored to a fixpoint over the alphabet of operations, for every small capacity.
"""
from rules._machine import *
from rules.files import fail_once, one

LG, BT = "learnlog::logger", "learnlog::base::backtracer"
LOG = obj("LOG")
TRACE, INFO, OFF = 0, 2, 6


class World:
    def __init__(self, m):
        self.m = m
        R = Roles(m)
        self.tracer = R.field_off(LG, R.tracer[1])
        self.level = R.field_off(LG, R.log_level[1])
        self.made = 0
        self.ctor = next((f for f in m.all() if f.nbase == BT + "::backtracer" and len(f.args) == 1), None)
        if self.ctor is None:
            raise AnalysisBroken("no default constructor of " + BT)
        self.init = None
        self.kw = dict(call=self.call, load=self.load, store=self.store, term=self.term, throws=lambda st, c: (), counting=20)

    # ------------------------------------------------------------------ memory
    def load(self, st, a):
        if a == ("s", "LOG", self.tracer):
            return 0
        if a == ("s", "LOG", self.level):
            return st["lvl"]
        return None

    def store(self, st, a, v, i):
        return False

    def term(self, st, t):
        if t[0] == "global":
            s = self.m.string_at(t)
            return ("s", ("text", s), 0) if s is not None else None
        if t[0] == "fn":
            return ("fnp", t[1])
        return None

    def fresh(self, st):
        """a default-constructed backtracer, by its own constructor"""
        n = st.get("made", 0)
        st["made"] = n + 1
        o = ("T", n)
        M = Machine(self.m, self.ctor, [obj(o)], St({"lvl": 0}), **self.kw)
        for msg, i, path in M.bad():
            raise Bad(msg)
        for kind, v, s, i in M.exits("ret"):
            for k, x in s.items():
                if isinstance(k, tuple) and (k[0] == "q" or k[0] == "s" and k[1] == o):
                    st[k] = x
        return obj(o)

    # ------------------------------------------------------------------ calls
    def message(self, st, c):
        """identity of the message a constructor builds"""
        for v, k in zip(c.vals[1:], c.keys[1:]):
            for x in (v, k):
                if isinstance(x, tuple) and len(x) == 3 and x[0] == "s" and isinstance(x[1], tuple) and x[1][0] in ("text", "user"):
                    return x[1]
                if is_sym(x) and is_sym(st.get(x)) and isinstance(st[x][1], tuple) and st[x][1][0] in ("text", "user"):
                    return st[x][1]         # (a view passed by address)
                if isinstance(x, tuple) and x[0] == "global":
                    s = self.m.string_at(x)
                    if s is not None:
                        return ("text", s)
        return None

    def ident(self, st, v):
        if is_sym(v) and isinstance(v[1], tuple) and v[1][0] == "slot":
            q, gen, x = v[1][1:]
            if st.get(("gen", q), 0) != gen:
                raise Bad("uses a message of the store after the store was emptied or replaced")
            return x
        return st.get(("id", v))

    def renew(self, st, q, cap, items):
        st[("q", q)] = (cap, items)
        st[("gen", q)] = st.get(("gen", q), 0) + 1

    def queue(self, st, c, op):
        q = c.vals[0]
        if not is_sym(q):
            raise Bad("operates on an unknown store")
        a = c.vals[1] if len(c.vals) > 1 else None
        if op == "circular_queue" or op == "operator=":
            if a is None and len(c.vals) == 1:
                self.renew(st, q, 0, ())
            elif isinstance(a, int):
                self.renew(st, q, a + 1, ())
            elif is_sym(a) and ("q", a) in st:
                if q != a:
                    self.renew(st, q, *st[("q", a)])
                    if "&&" in c.name:
                        self.renew(st, a, 0, ())
            else:
                raise Bad("creates a store of a size that is not the one asked for")
            return q if op == "operator=" else "done"
        if op == "~circular_queue":
            return "done"
        if ("q", q) not in st:
            raise Bad("uses a store that was never constructed")
        cap, items = st[("q", q)]
        if op == "clear":
            self.renew(st, q, 0, ())
            return "done"
        if op == "push_back":
            x = self.ident(st, a)
            if x is None:
                raise Bad("stores something that is not the message")
            if cap:
                st[("q", q)] = (cap, (items + (x,))[-(cap - 1):] if cap > 1 else ())
            return "done"
        if op == "empty":
            return 0 if items else 1
        if op == "size":
            return len(items)
        if op == "vec_size":
            return cap
        if op == "full":
            return 1 if cap and len(items) == cap - 1 else 0
        if op == "front" or op == "at":
            k = 0 if op == "front" else a
            if not isinstance(k, int) or k >= len(items):
                raise Bad("reads a message of the store that is not there")
            return ("s", ("slot", q, st.get(("gen", q), 0), items[k]), 0)
        if op == "pop_front":
            if not items:
                raise Bad("removes a message from an empty store")
            st[("q", q)] = (cap, items[1:])
            return "done"
        return "done"

    def sink(self, st, v):
        x = self.ident(st, v)
        if x is None:
            raise Bad("hands something to the sinks that is not a message")
        st.trace("sink", x)

    def call(self, st, c):
        m = self.m
        if c.nb.startswith("virtual:"):
            if c.last == "sink_log_" or (c.nb.endswith("logger::?") and len(c.vals) == 2):
                self.sink(st, c.vals[1])
                return "done"
            if c.last == "what":
                return None
            return None
        if c.nb in (LG + "::sink_log_", "learnlog::async_logger::sink_log_"):
            raise Bad("writes to the sinks of this class directly: a logger of a derived class is bypassed")
        if "circular_queue::" in c.nb and c.nb.startswith("learnlog::"):
            return self.queue(st, c, c.last)
        if c.nb in ("learnlog::base::log_msg::log_msg", "learnlog::base::log_msg_buf::log_msg_buf", "learnlog::base::log_msg::operator=", "learnlog::base::log_msg_buf::operator="):
            d = c.vals[0]
            x = self.ident(st, c.vals[1]) if len(c.vals) > 1 and len(c.vals) == 2 else None
            if x is None:
                x = self.message(st, c)
                if x is not None and x[0] == "text":
                    lv = [v for v in c.vals[1:] if isinstance(v, int)]
                    x = ("line", x[1], lv[0] if lv else None)
            if is_sym(d):
                st.pop(("id", d), None)
                if x is not None:
                    st[("id", d)] = x
            return d if c.last == "operator=" else "done"
        if c.last.startswith("~") and c.nb.startswith("learnlog::base::log_msg"):
            return "done"
        if c.nb in ("std::make_shared", "std::allocate_shared") and is_sym(c.vals[0]):
            if "backtracer" in c.name:
                st[c.vals[0]] = self.fresh(st)
                st[("s", c.vals[0][1], c.vals[0][2] + 8)] = ("o", "count")
                return "done"
            return None
        if c.nb in ("std::shared_ptr::operator=", "std::__shared_ptr::operator=") and is_sym(c.vals[0]) and is_sym(c.vals[1]):
            d, s = c.vals[0], c.vals[1]
            st[d] = st.get(s, 0)
            if "&&" in c.name:
                st[s] = 0
            return d
        if c.nb in ("std::shared_ptr::swap", "std::__shared_ptr::swap") and is_sym(c.vals[0]) and is_sym(c.vals[1]):
            d, s = c.vals[0], c.vals[1]
            st[d], st[s] = st.get(s, 0), st.get(d, 0)
            return "done"
        if c.nb in ("std::shared_ptr::shared_ptr", "std::__shared_ptr::__shared_ptr") and is_sym(c.vals[0]):
            a = c.vals[1] if len(c.vals) > 1 else 0
            st[c.vals[0]] = st.get(a, self.load(st, a) or 0) if is_sym(a) and not (isinstance(a[1], tuple) and a[1][0] == "T") else (a if is_sym(a) else 0)
            return "done"
        if c.nb in ("std::shared_ptr::reset", "std::__shared_ptr::reset") and is_sym(c.vals[0]):
            a = c.vals[1] if len(c.vals) > 1 else 0
            st[c.vals[0]] = a if a is not None else 0
            return "done"
        if "shared_ptr::~" in c.nb:
            return "done"
        if c.nb == "operator new":
            return obj(("H", c.i.id))
        if c.nb == "operator delete":
            return "done"
        if c.nb == BT + "::backtracer" and len(c.vals) == 1 and is_sym(c.vals[0]):
            return nested(m, st, c, **self.kw)
        if c.nb == "std::function::function" and is_sym(c.vals[0]):
            s = c.vals[1] if len(c.vals) > 1 else None
            if is_sym(s) and ("fn", s) in st:
                st[("fn", c.vals[0])] = st[("fn", s)]
                return "done"
            k = re.search(r">::function<(.*), void>\(", c.name)
            ops = [f for f in m.all() if k and f.name.startswith(k.group(1).rstrip("&") + "::operator()(")]
            if len(ops) == 1 and is_sym(s):
                box = ("fnbox", c.i.id)
                st.copy_obj(obj(box), s)
                st[("fn", c.vals[0])] = (ops[0].mangled, obj(box))
                return "done"
            raise Bad("cannot tell what it does to each message")
        if c.nb.startswith("std::_Function_base") or c.nb == "std::function::~function":
            return "done"
        if c.nb == "std::function::operator()" and is_sym(c.vals[0]):
            g = st.get(("fn", c.vals[0]))
            if g is None:
                raise Bad("calls an unknown function on the messages")
            sub = Call(i=c.i, nb=m.nbase(g[0]), last="operator()", vals=[g[1]] + c.vals[1:], keys=[g[1]] + c.keys[1:], name=m.name(g[0]), fn=m.fn(g[0]), threw=None)
            r = nested(m, st, sub, **self.kw)
            if r is None:
                raise Bad("cannot tell what it does to each message")
            return r
        if c.nb in ("std::mutex::lock", "std::mutex::unlock", "std::recursive_mutex::lock", "std::recursive_mutex::unlock"):
            return "done"
        if c.fn is not None and c.nb.startswith(("learnlog::logger::", "learnlog::base::backtracer::", "learnlog::base::")) and "basic_string" not in c.nb:
            r = nested(m, st, c, **self.kw)
            if r is None and ("backtrac" in c.nb):
                raise Bad("%s comes back in more than one way" % c.nb.replace("learnlog::", ""))
            return r
        return None

    # ------------------------------------------------------------------ histories
    def norm(self, st, spec):
        """the part of the state that lives on between operations, messages renumbered"""
        t = st.get(("s", "LOG", self.tracer), 0)
        ren = {t[1]: "T*"} if is_sym(t) else {}
        out = {}
        for k, v in st.items():
            if not isinstance(k, tuple):
                continue
            if k[0] == "s" and k[1] == "LOG":
                out[k] = ("s", ren.get(v[1], v[1]), v[2]) if is_sym(v) else v
            elif k[0] == "s" and k[1] in ren:
                out[("s", ren[k[1]], k[2])] = v
            elif k[0] == "q" and is_sym(k[1]) and (k[1][1] in ren or k[1][1] == "LOG"):
                out[("q", ("s", ren.get(k[1][1], k[1][1]), k[1][2]))] = v
        order = {}
        for x in (spec[1] or ()):
            order.setdefault(x, ("user", "#%d" % len(order)))
        for k, v in sorted(out.items(), key=repr):
            if k[0] == "q":
                for x in v[1]:
                    order.setdefault(x, ("user", "#%d" % len(order)))
                out[k] = (v[0], tuple(order[x] for x in v[1]))
        return frozenset(out.items()), (spec[0], tuple(order[x] for x in (spec[1] or ())))


def run(rep, m, cfg, fail):
    W = World(m)
    fs = {n: one(m, LG + "::" + n, cfg) for n in ("enable_backtrace_n", "disable_backtrace", "dump_backtrace")}
    logs = [f for f in m.all() if f.nbase == LG + "::log" and len(f.args) == 4 and "basic_string_view" in f.name and "source_loc" not in f.name]
    if len(logs) != 1:
        raise AnalysisBroken("no log(level, text) of the logger")
    for f in list(fs.values()) + logs:
        rep.fn(f)
    top = 4 if rep.tier == "quick" else 9
    ops = [("enable", n) for n in range(0, top + 1)] + [("disable",), ("dump",), ("save", 0), ("save", 1)]
    start0 = (frozenset(), (None, ()))
    seen, todo = {start0: ()}, [start0]
    bad = set()
    while todo:
        cur = todo.pop()
        cells, (cap, items) = cur
        for op in ops:
            st = St(cells)
            st["lvl"] = OFF
            want, ncap, nitems = (), cap, items
            if op[0] == "enable":
                f, args = fs["enable_backtrace_n"], [LOG, op[1]]
                ncap, nitems = op[1], ()
            elif op[0] == "disable":
                f, args = fs["disable_backtrace"], [LOG]
                ncap, nitems = None, ()
            elif op[0] == "dump":
                f, args = fs["dump_backtrace"], [LOG]
                if cap is not None:
                    want = "dump"
                    nitems = ()
            else:
                f, args = logs[0], [LOG, TRACE, ("s", ("user", "new"), 0), 5]
                st["lvl"] = TRACE if op[1] else OFF
                if op[1]:
                    want = (("sink", ("user", "new")),)
                if cap is not None:
                    nitems = (items + (("user", "new"),))[-cap:] if cap else ()
            if (f.nbase, op) in bad:
                continue
            M = Machine(m, f, args, st, **W.kw)
            rep.paths += getattr(M.sim, "nstates", 0) or 0
            hist = " ".join("%s%s" % (o[0], o[1] if o[0] == "enable" else "") for o in seen[cur] + (op,))

            def no(i, msg):
                bad.add((f.nbase, op))
                fail(f, "history", i, msg + " (history: %s)" % hist)
            for msg, i, path in M.bad():
                no(i, msg)
            ex = M.exits("ret")
            if M.bad():
                continue
            if not ex:
                no(None, "does not come back")
                continue
            nexts = set()
            for kind, v, s, i in ex:
                tr = s.get("trace", ())
                if want == "dump":
                    ok = len(tr) == len(items) + 2 and all(x[0] == "sink" for x in tr) and tr[0][1][0] == "line" and tr[-1][1][0] == "line"
                    mid = tuple(x[1] for x in tr[1:-1]) if ok else ()
                    if not ok:
                        no(i, "the dump of %d saved messages hands %d lines to the sinks: not a first line, each message once and a last line" % (len(items), len(tr)))
                    elif mid != items:
                        no(i, "the dump does not hand out the saved messages oldest first, each once")
                    elif tr[0][1][2] != INFO or tr[-1][1][2] != INFO:
                        no(i, "the lines around the dump are not of level info")
                    elif "Start" not in tr[0][1][1] or "End" not in tr[-1][1][1]:
                        no(i, "the lines around the dump do not tell its start and its end")
                elif tuple(tr) != tuple(want):
                    no(i, "%d lines are handed to the sinks where %d should be" % (len(tr), len(want)))
                nexts.add(W.norm(s, (ncap, nitems)))
            if (f.nbase, op) in bad:
                continue
            rep.ok("history", f.where(), "[%s] %s" % (cfg, hist))
            for nx in nexts:
                if nx not in seen:
                    seen[nx] = seen[cur] + (op,)
                    todo.append(nx)
        if len(seen) > 4000:
            if fail.seen:
                return
            raise AnalysisBroken("the states of the backtrace do not close")
    return len(seen)


def p25(rep):
    fail = fail_once(rep)
    n = run(rep, get_model("tls"), "tls", fail)
    rep.explanation = ("The logger's enable_backtrace_n, disable_backtrace, dump_backtrace and log, with the backtracer's own code, interpreted over an abstract memory "
                       "together with a list of the last n messages; the joint states (%s) are explored to a fixpoint, so every history of these operations is covered "
                       "for the capacities of the alphabet." % n)
    if n is not None and n < 12 and not fail.seen:
        raise AnalysisBroken("only %d states" % n)


PROPERTIES = {"P25": p25}
