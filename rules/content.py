"""P32: what a message carries."""
from rules._machine import *
from rules._strings import *
from rules.files import fail_once
from rules.lifetime import field, scalars, LM
from rules.dispatch import entries, level_arg, LVN, level_arg

LOG, DL, LOC, V, TIME = obj("LOG"), obj("DL"), obj("LOC"), obj("V"), ("o", "GIVEN TIME")
FMT = re.compile(r"^fmt::(v\d+::)?(vformat_to|format_to|vformat|format|detail::vformat_to)$")
INT = ("o", "ARG")
MAKE = re.compile(r"^fmt::(v\d+::)?(make_format_args|detail::format_arg_store::format_arg_store)$")


def string_args(st, vals):
    return [v for v in vals if v is not None]


class Caller:
    def __init__(self, m, free):
        self.m, self.free = m, free
        self.name_off = field(m, "learnlog::logger", "name_")
        self.target = DL if free else LOG
        self.scal = scalars(m, LM)
        self.locs = scalars(m, "learnlog::source_loc")
        self.kw = dict(call=self.call, load=self.load, store=self.store, term=self.term, throws=lambda st, c: (), counting=20)

    def patch(self, c):
        for k, (v, key) in enumerate(zip(c.vals, c.keys)):
            if v is None and not is_sym(key):
                s = self.m.string_at(key)
                if s is not None:
                    c.vals[k] = ("s", ("chars", lit(s)), 0)

    def store(self, st, a, v, i):
        if isinstance(v, tuple) and v and v[0] == "t":
            s = self.m.string_at(v[1])
            if s is not None:
                st[a] = ("s", ("chars", lit(s)), 0)
                return True
        return False

    def load(self, st, a):
        r = bufload(st, a)
        if r is not None:
            return r
        return None

    def term(self, st, t):
        if t[0] == "global":
            s = self.m.string_at(t)
            return ("s", ("chars", lit(s)), 0) if s is not None else None
        if t[0] == "ev" and t[1][0] == "call":
            v = st.get(("r", t[1][2]))
            if isinstance(v, tuple) and v[0] == "o" and isinstance(v[1], tuple) and v[1][0] == "view":
                return v[1][1 + t[2][0]]
            if isinstance(v, tuple) and v[0] == "o" and isinstance(v[1], tuple) and v[1][0] == "args":
                return v
        return None

    def value(self, st, v):
        """what a formatting argument at an address is"""
        if not is_sym(v):
            return v
        if ("str", v) in st:
            return ("str", get(st, v))
        x = st.get(v)
        if is_sym(x) and isinstance(x[1], tuple) and x[1][0] == "chars":
            return ("str", x[1][1])
        return x

    def made(self, fs, args):
        """text produced by a format string and arguments"""
        s = literal(fs)
        if s is None:
            return (("runtime format", fs, args),)
        if "{" not in s and "}" not in s:
            return lit(s)
        if s == "{}" and len(args) == 1 and isinstance(args[0], tuple) and args[0][0] == "str":
            return args[0][1]
        return (("fmt", s, args),)

    def call(self, st, c):
        m = self.m
        self.patch(c)
        if c.threw:
            return None
        if c.nb == LM + "::log_msg" and c.fn is not None:
            r = nested(m, st, c, **self.kw)
            if r is None:
                raise Bad("the message's constructor does not come back in one way")
            return r
        if c.nb == "std::chrono::_V2::system_clock::now" or c.nb.endswith("system_clock::now"):
            return ("o", "NOW")
        if c.nb == "learnlog::base::os::thread_id":
            return ("o", "TID")
        if c.nb == "learnlog::base::backtracer::is_enabled":
            return st[("tracing",)]
        if c.nb.endswith("registry::get_default_logger"):
            st[c.vals[0]] = DL
            return "done"
        if c.nb.endswith("registry::instance"):
            return obj("REG")
        if c.nb == "learnlog::base::backtracer::push_back":
            self.arrive(st, c.vals[1], "saved")
            return "done"
        if re.match(r"^fmt::(v\d+::)?runtime$", c.nb) and len(c.vals) == 2:
            return ("o", ("view", c.vals[0], c.vals[1]))
        if c.nb == "strlen" and is_sym(c.vals[0]) and isinstance(c.vals[0][1], tuple) and c.vals[0][1][0] == "chars" and literal(c.vals[0][1][1]) is None:
            x = c.vals[0][1][1]
            return ("o", ("len", x)) if x == NAME or self.cstr and x == self.want else ("o", ("strlen", x))
        if MAKE.match(c.nb):
            return ("o", ("args", tuple(self.value(st, v) for v in c.vals)))
        if re.match(r"^fmt::(v\d+::)?basic_format_args::basic_format_args$", c.nb) and is_sym(c.vals[0]) and is_sym(c.vals[-1]):
            v = st.get(c.vals[-1])
            if v is not None:
                st[c.vals[0]] = v
                st[("s", c.vals[0][1], c.vals[0][2] + 8)] = v
            return "done"
        if re.match(r"^fmt::(v\d+::)?basic_appender::basic_appender$|^std::back_inserter$|^std::back_insert_iterator::back_insert_iterator$", c.nb):
            bufs = [v for v in c.vals if is_sym(v) and ("buf", v) in st]
            if bufs:
                st[("app", c.vals[0])] = bufs[-1]
            return "done"
        if FMT.match(c.nb):
            vals = list(c.vals)
            out = None
            if is_sym(vals[0]) and ("app", vals[0]) in st:
                out = ("buf", st[("app", vals[0])])
            elif is_sym(vals[0]) and ("buf", vals[0]) in st:
                out = ("buf", vals[0])
            elif c.i.d.get("sret"):
                out = ("str", vals[0])
            if out is None:
                return None
            rest = vals[1:]
            fs = None
            for k in range(len(rest) - 1):
                if is_sym(rest[k]) and isinstance(rest[k][1], tuple) and rest[k][1][0] == "chars":
                    fs = piece(m, rest[k], None, rest[k + 1])
                    rest = rest[:k] + rest[k + 2:]
                    break
            toks = [v for v in rest if isinstance(v, tuple) and v[0] == "o" and isinstance(v[1], tuple) and v[1][0] == "args"]
            args = toks[0][1][1] if toks else tuple(self.value(st, v) for v in rest)
            text = self.made(fs, args) if fs is not None else UNKNOWN
            st[out] = norm((st.get(out, UNKNOWN) if out[0] == "buf" else ()) + text)
            return "done"
        for model in (strings, buffers):
            r = model(m, st, c)
            if r is not None:
                return r
        if c.i.callee is None:
            from lib import logger_call
            if logger_call(self.fn, c.i) == "deliver":
                if c.vals[0] != self.target:
                    raise Bad("the message is handed to another logger")
                self.arrive(st, c.vals[1], "handed over")
                return "done"
        if c.nb.startswith("learnlog::") and c.nb.split("::")[-2:-1] == ["logger"] and c.fn is not None:
            return nested(m, st, c, **self.kw)
        return None

    def arrive(self, st, a, what):
        if not is_sym(a):
            raise Bad("something other than the call's message is %s" % what)
        at = lambda o: st.get(("s", a[1], a[2] + o))
        st.trace(what)
        m = self.m
        lv = at(field(m, LM, "level"))
        if lv != self.lvl:
            raise Bad("the message %s does not carry the call's level" % what)
        o = field(m, LM, "msg")
        t = self.text(st, at(o), at(o + 8))
        if t != self.want:
            raise Bad("the text of the message %s is not %s%s" % (what, say(self.want), "" if t is None or t == UNKNOWN else ": it is " + say(t)))
        o = field(m, LM, "logger_name")
        if self.text(st, at(o), at(o + 8)) != NAME:
            raise Bad("the message %s does not carry the logger's name" % what)
        o = field(m, LM, "loc")
        for n, k in self.locs:
            v = at(o + k)
            if self.loc and v != ("o", ("loc", n)):
                raise Bad("the message %s does not carry the caller's source location (%s)" % (what, n))
            if not self.loc and v != 0:
                raise Bad("the message %s carries a source location although none was given" % what)
        t = at(field(m, LM, "time"))
        if t != (TIME if self.time else ("o", "NOW")):
            raise Bad("the message %s does not carry the %s" % (what, "given time" if self.time else "time of the call"))
        if at(field(m, LM, "tid")) != ("o", "TID"):
            raise Bad("the message %s does not carry the calling thread's id" % what)
        for n in ("color_index_start", "color_index_end"):
            if at(field(m, LM, n)) != 0:
                raise Bad("the message %s starts with colour marks" % what)

    def text(self, st, p, n):
        if p == 0 and n == 0:
            return ()
        if not (is_sym(p) and isinstance(p[1], tuple) and p[1][0] == "chars"):
            return None
        return piece(self.m, p, None, n)


NAME = (("name",),)


def say(t):
    out = []
    for x in t:
        if x[0] == "lit":
            out.append('"%s"' % x[1])
        elif x[0] == "fmt":
            out.append('"%s" applied to the arguments' % x[1])
        elif x[0] == "given":
            out.append("the given string")
        elif x[0] == "runtime format":
            out.append("the given string used as a format string")
        elif x[0] == "name":
            out.append("the logger's name")
        else:
            out.append("something else")
    return " + ".join(out) or "empty"


def p32(rep):
    rep.explanation = ("Every public logging overload is run as a machine over symbolic strings: the message object that reaches the sinks or the backtrace is read back field by "
                       "field and compared with what the caller gave; strings are tracked through views, buffers and formatting calls, so a run-time string used as a format string is seen.")
    m = get_model("tls")
    fail = fail_once(rep)
    R = Roles(m)
    total = 0
    for prefix, free in (("m", False), ("f", True)):
        for f in entries(m, prefix):
            rep.fn(f)
            total += 1
            overload(rep, m, R, fail, f, free)
    rep.check(total >= 85, "coverage", "driver/api.cpp", "%d overloads" % total, "only %d logging overloads" % total)
    for cfg in ("tls", "notls"):
        thread(rep, get_model(cfg), fail, cfg)


def overload(rep, m, R, fail, f, free):
    w = Caller(m, free)
    w.fn = f
    form, suffix = f.nbase.split("::")[-1].rsplit("__", 1)
    la = level_arg(f) if suffix == "arg" else None
    cases = 0
    tr_off, ll_off = field(m, "learnlog::logger", "tracer_"), field(m, R.log_level[0], R.log_level[1])
    for lvl in (LVN.values() if la is not None else [LVN[suffix]]):
        for ll, tracing in ((0, 1), (0, 0), (6, 1)):
            st = St()
            w.lvl, w.loc, w.time = lvl, False, False
            st[("str", ("s", w.target[1], w.name_off))] = NAME
            st[("s", w.target[1], ll_off)] = ll
            st[("s", w.target[1], tr_off)] = obj("TR")
            st[("tracing",)] = tracing
            args, k = [], 0
            want = None
            for a in f.args:
                n = a["n"].split(".")[0]
                if n == "l":
                    args.append(LOG)
                elif n in ("lvl", "level"):
                    args.append(lvl)
                elif n == "loc":
                    w.loc = True
                    for x, o in w.locs:
                        st[("s", "LOC", o)] = ("o", ("loc", x))
                    args.append(LOC)
                elif n == "t":
                    w.time = True
                    args.append(TIME)
                elif n == "a":
                    args.append(INT)
                    want = (("fmt", "x {}", (INT,)),)
                elif n == "v":
                    if "_val_" in form + "_":
                        st[V] = INT
                        args.append(V)
                        want = (("fmt", "{}", (INT,)),)
                    elif "_str_" in form + "_":
                        st[("str", V)] = want = (("given",),)
                        args.append(V)
                    elif "_cstr_" in form + "_":
                        want = (("given",),)
                        args.append(("s", ("chars", want), 0))
                    elif "_sv_" in form + "_" or "_time_" in form + "_":
                        want = (("given",),)
                        if k == 0:
                            args.append(("s", ("chars", want), 0))
                        else:
                            args.append(("o", ("len", want)))
                        k += 1
                    else:
                        raise AnalysisBroken("unknown logging form " + f.name)
                else:
                    # second half of a view passed in registers or memory
                    if ("_sv_" in form + "_" or "_time_" in form + "_") and k == 1:
                        args.append(("o", ("len", want)))
                        k += 1
                    else:
                        raise AnalysisBroken("unknown parameter %s of %s" % (n, f.name))
            if (("_sv_" in form + "_") or ("_time_" in form + "_")) and f.args and f.args[-1]["ty"] == "ptr" and k == 1:
                args[-1] = V                    # the view is passed in memory
                st[V] = ("s", ("chars", want), 0)
                st[("s", "V", 8)] = ("o", ("len", want))
            w.cstr = "_cstr_" in form + "_"
            w.want = want if want is not None else lit("text")
            M = Machine(m, f, args, st, **w.kw)
            cases += 1
            rep.paths += M.sim.states
            for msg, i, path in M.bad():
                fail(f, "content", i, msg)
            ex = M.exits("ret")
            if not ex and not M.bad():
                fail(f, "content", None, "does not come back")
            for kind, v, s1, i in ex:
                tr = s1.get("trace", ())
                if lvl >= ll and ("handed over",) not in tr and lvl != 6:
                    fail(f, "content", i, "the message does not reach the logger's sinks")
    if not any(x[0] == f.nbase for x in fail.seen):
        rep.ok("content", f.where(), "%s: level, text, location, name, time and thread in %d cases" % (f.nbase.split("::")[-1], cases))


def thread(rep, m, fail, cfg):
    f = next((x for x in m.all() if x.nbase == "learnlog::base::os::thread_id"), None)
    if f is None:
        raise AnalysisBroken("no os::thread_id")
    rep.fn(f)

    def call(st, c):
        if c.nb == "syscall" or c.nb.endswith("::gettid") or c.nb == "gettid":
            n = c.vals[0] if c.vals else 186
            return ("o", "TID") if n == 186 else ("o", "other")
        if c.nb == "pthread_self" or c.nb.endswith("get_id"):
            return ("o", "TID")
        if c.nb.startswith("llvm.threadlocal.address"):
            return c.vals[0] if is_sym(c.vals[0]) else None
        if c.fn is not None:
            return nested(m, st, c, call=call, load=load, term=term, throws=lambda st, c: ())
        return None

    def term(st, t):
        return ("s", ("G", t), 0) if t[0] == "global" else None

    def load(st, a):
        if isinstance(a[1], tuple) and a[1][0] == "G":
            g = m.globals.get(a[1][1][1], {})
            if not g.get("tls"):
                return ("o", "shared")
            return None if "guard" in g.get("d", "") else ("o", "TID")      # its own earlier value
        return None
    M = Machine(m, f, [], St(), call, load=load, term=term, throws=lambda st, c: ())
    ex = M.exits("ret")
    for msg, i, path in M.bad():
        fail(f, "thread", i, msg)
    if not ex:
        fail(f, "thread", None, "does not come back")
    for kind, v, st, i in ex:
        if v != ("o", "TID"):
            fail(f, "thread", i, "does not return the calling thread's id on every path" + (": it is kept in storage that threads share" if v == ("o", "shared") else ""))
    for i in f.instrs():
        if i.op in ("store", "rmw"):
            t = f.term(i.d["p"])
            while t[0] == "addr":
                t = t[1]
            if t[0] == "call":
                continue
            if t[0] == "global" and not m.globals.get(t[1], {}).get("tls"):
                fail(f, "thread", i, "keeps the id in storage that threads share")
    if not any(x[0] == f.nbase for x in fail.seen):
        rep.ok("thread", f.where(), "[%s] the id is the calling thread's" % cfg)


PROPERTIES = {"P32": p32}
