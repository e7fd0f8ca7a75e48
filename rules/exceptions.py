"""Containment and reporting of exceptions at the library's boundary, destructors that cannot throw."""
from lib import *
from model import AnalysisBroken
from rules._throws import *
import model as _model
from rules.dispatch import entries, slot_fn, thread_bodies

FRONT = ("initialize_logger", "register_logger", "set_pattern", "set_log_level", "set_flush_level", "register_thread_pool", "close")


def is_what(fn, t):
    i = fn.instr_of(t) if t[0] == "call" else None
    if i is None or i.callee:
        return False
    c = describe(fn, i)
    if c.kind == "v" and c.name == "what":
        return True
    v = fn.m.vcall(fn, i)
    # slot 2 of a caught object (type unknown to the debug information when the handler has been inlined)
    return bool(v) and v[1] == 2 and mentions_catch(fn, v[0])


def mentions_catch(fn, t):
    if not isinstance(t, tuple):
        return False
    if t and t[0] == "call":
        i = fn.instr_of(t)
        return i is not None and i.callee == "__cxa_begin_catch"
    return any(mentions_catch(fn, x) for x in t[1:] if isinstance(x, tuple))


def text_from_what(fn, t, depth=0, seen=None):
    seen = seen if seen is not None else set()
    if depth > 6:
        return False
    if has_what(fn, t):
        return True
    r = root_of(t)
    if r[0] != "alloca" or r in seen:
        return False
    seen.add(r)
    for k, off, src, i in writers(fn, r):
        if k == "call":
            for a in i.args:
                if fn.term(a) != r and text_from_what(fn, fn.term(a), depth + 1, seen):
                    return True
        elif src is not None and text_from_what(fn, src, depth + 1, seen):
            return True
    return False


def has_what(fn, t):
    if not isinstance(t, tuple):
        return False
    if is_what(fn, t):
        return True
    return any(has_what(fn, x) for x in t[1:] if isinstance(x, tuple) and x and isinstance(x[0], str))


class Contain:
    """nothing is dropped silently: (pending exception kind, reported since)"""

    def __init__(self, rep, T, fn, rule, only=None, oracle=None):
        self.rep, self.T, self.fn, self.rule, self.only, self.oracle = rep, T, fn, rule, only, oracle

    def throws(self, sim, i, env):
        if self.only is not None and not self.only(self.fn, i):
            return ()
        return self.T.of_call(self.fn, i)

    def event(self, sim, i, env):
        if not i.is_call:
            return ()
        if is_report(self.fn, i):
            return [("report",)]
        return [("call",)]

    def step(self, a, e, i):
        pend, rep, n = a
        if e[0] == "threw":
            return (e[2], 1 if e[2] == REPORTED else 0, 1)
        if e[0] == "report":
            if pend == STD and not rep and not text_from_what(self.fn, self.fn.term(i.args[0])):
                raise Bad("the report of a std::exception does not contain its description")
            return (pend, min(rep + 1, 2), n)
        if i.callee == "__cxa_throw":
            return (sim_kind(i), 0, 1)
        return a

    def run(self, std_escapes=False, what=""):
        f = self.rep.fn(self.fn)
        s = Sim(f, self.oracle, self.event, self.step, (None, 0, 0), self.throws, max_states=200000).run()
        nthrow = 0
        for k, a, i, exc, val, st in s.exits:
            nthrow = max(nthrow, a[2])
            if k == "ret" and a[0] and not a[1]:
                s.bad("an exception is dropped without a report", i, st)
            elif k == "escape" and exc == STD and not std_escapes:
                s.bad("a std::exception reaches the caller", i, st)
            elif k == "escape" and exc == OTHER and not a[1] and not std_escapes:
                s.bad("a foreign exception reaches the caller unreported", i, st)
            elif k == "terminate":
                s.bad("an exception ends the program", i, st)
            elif k == "ret" and a[1] > 1:
                s.bad("one failure is reported more than once", i, st)
        self.rep.sim(s, self.rule, what)
        return nthrow


def sim_kind(i):
    a = i.args[1] if len(i.args) > 1 else None
    from sim import is_std_exc
    return STD if a and a[0] == "g" and is_std_exc(a[1]) else OTHER


def p04(rep):
    m = get_model()
    T = Throws(m)
    rep.explanation = (
        "interprocedural may-throw summaries (user sinks, formatters and callbacks may throw anything; formatting, futures, threads and "
        "library-raised errors throw std::exception) and a simulation of every public operation with exception edges: a std::exception never "
        "leaves it and is always reported with its description, a foreign one is reported before it leaves")
    n = 0
    for prefix in ("m", "f"):
        for f in entries(m, prefix):
            n += Contain(rep, T, f, "contain").run(what="logging call")
    rep.check(n >= 60, "contain", "driver/api.cpp", "%d logging overloads contain calls that may throw" % n)
    for cls in ("learnlog::logger", "learnlog::async_logger"):
        for k in ("deliver", "flush"):
            Contain(rep, T, slot_fn(m, cls, k), "contain").run(what="%s %s" % (cls.split("::")[-1], k))
    Contain(rep, T, m.one(r"^learnlog::logger::flush\("), "contain").run(what="flush")
    for nm in FRONT:
        f = m.one(r"^learnlog::%s\(" % nm)
        k = Contain(rep, T, f, "contain-front").run(what="registry front end")
    # factories: a name that is already taken is reported, the new logger is returned all the same
    fs = m.some(r"^vdrv::(fa|cr)_", 56)
    for f in fs:
        only = lambda fn, i: is_direct(fn, i, "learnlog::base::registry::initialize_logger")
        k = Contain(rep, T, f, "contain-factory", only).run(what="registration in a factory")
        rep.check(k == 1, "contain-factory", f.where(), "%s initialises its logger through the registry" % f.nbase)
    # workers
    for f in thread_bodies(m):
        only = lambda fn, i: sink_call(fn, i) is not None
        Contain(rep, T, f, "contain-worker", only).run(what="worker thread, failing sinks")
    handler(rep, m)
    handler(rep, get_model("debug"))         # with assertions on
    swallow(rep, m, T)


def handler(rep, m):
    """the reporting function prints every report exactly once to stderr, with its text and a number of its own"""
    f = rep.fn(m.one(r"^learnlog::handle_excpt\("))

    def ev(sim, i, env):
        if not i.is_call:
            return [("count", f.val(i))] if i.op == "rmw" and i.d.get("rop", i.d.get("kind", "add")) in ("add", "Add") else ()
        nb = m.nbase(i.callee) if i.callee else "?"
        if nb in ("fprintf", "fputs", "fwrite", "vfprintf", "puts", "printf", "std::operator<<") or nb.startswith("fmt::"):
            return [("print", i)]
        if nb in ("abort", "exit", "_exit", "std::terminate", "__assert_fail"):
            raise Bad("reporting ends the program")
        return ()

    def step(a, e, i):
        n, c, c2 = a
        if e[0] == "count":
            return (n, e[1], c2)
        if n:
            return (2, c, c2)
        to_stderr = any(is_stderr(f, f.term(x)) for x in i.args)
        if not to_stderr:
            raise Bad("the report is not printed to stderr")
        txt = any(str_of_arg(f, f.term(x), 0) for x in i.args)
        if not txt:
            raise Bad("the report's text is not printed")
        num = c is not None and any(mentions(f.term(x), c) for x in i.args)
        if not num:
            raise Bad("the report's number is not the one taken atomically for it")
        return (1, c, c2)
    s = Sim(f, None, ev, step, (0, None, None)).run()
    for k, a, i, exc, val, st in s.exits:
        if k == "ret" and a[0] != 1:
            s.bad("a report is printed %s" % ("more than once" if a[0] else "not at all"), i, st)
    rep.sim(s, "report", "each report is printed once with its text and its own number")


def is_stderr(f, t):
    return t[0] == "load" and t[1] == ("global", "stderr")


def str_of_arg(f, t, n):
    """c_str()/data() of the string parameter n"""
    if t[0] == "call":
        i = f.instr_of(t)
        return i is not None and i.callee and re.search(r"basic_string::(c_str|data)$", f.m.nbase(i.callee)) and f.term(i.args[0]) == ("arg", n)
    return t == ("load", ("arg", n)) or t == ("arg", n)


def mentions(t, x):
    if t == x:
        return True
    return isinstance(t, tuple) and any(mentions(y, x) for y in t if isinstance(y, tuple))


def swallow(rep, m, T):
    """no handler anywhere in the library drops an exception without reporting it or throwing on"""
    n = 0
    for f in m.all():
        if not f.nbase.startswith("learnlog::") or f.nbase == "learnlog::handle_excpt":
            continue
        if not f.sp or not _model.is_repo_file(f.sp["f"]):
            continue
        if not any(i.callee == "__cxa_begin_catch" for i in f.calls()):
            continue
        n += 1

        def ev(sim, i, env):
            if i.is_call and is_report(f, i):
                return ["report"]
            if i.is_call and i.callee == "__cxa_begin_catch":
                return ["catch"]
            if i.is_call and i.callee == "__cxa_end_catch":
                return ["end"]
            return ()

        def step(a, e, i):
            if e == "catch":
                return "open"
            if e == "report" and a == "open":
                return "told"
            if e == "end" and a == "open":
                return "dropped"
            return a
        s = Sim(f, None, ev, step, "none", lambda sim, i, env: T.of_call(f, i), max_states=200000).run()
        for k, a, i, exc, val, st in s.exits:
            if k == "ret" and a == "dropped":
                s.bad("a handler drops an exception without reporting it", i, st)
        if s.violations:
            rep.sim(s, "no-silent-handler")
        else:
            rep.fn(f)
            rep.paths += s.states
    rep.check(n >= 20, "no-silent-handler", "library", "%d functions with handlers: every handler reports or throws on" % n)


# ------------------------------------------------------------------------------------------------ P33
def p33(rep):
    m = get_model()
    rep.explanation = ("may-throw summaries over the destructors of sinks, loggers, formatters, files and the helpers they own: no std::exception "
                       "(failed write, flush, close, formatting, library error) can leave one, on any path")
    T = Throws(m)
    n = 0
    for f in sorted(m.all(), key=lambda f: f.name):
        last = f.nbase.split("::")[-1]
        if not last.startswith("~") or not SAFE_DTOR.match(f.nbase):
            continue
        n += 1
        rep.fn(f)
        s = Sim(f, None, lambda sim, i, env: ["call"] if i.is_call else (), lambda a, e, i: a, 0,
                lambda sim, i, env: [k for k in T.of_call(f, i) if k == STD], max_states=200000).run()
        for k, a, i, exc, val, st in s.exits:
            if k in ("terminate", "escape"):
                s.bad("a failure while the object is destroyed %s" % ("ends the program" if k == "terminate" else "leaves the destructor"), i, st)
        rep.sim(s, "destructor", "cannot throw")
    rep.check(n >= 12, "destructor", "library", "%d destructors" % n)


SAFE_DTOR = re.compile(r"^learnlog::(sinks::\w*(sink|formatter)::|logger::|async_logger::|base::(file_base|backtracer|async_msg|log_msg_buf)::)")


PROPERTIES = {"P04": p04, "P33": p33}
