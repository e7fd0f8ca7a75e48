"""What happens to a log call between the caller and the sinks: level gate, fan-out, flush level, failure isolation."""
from lib import *
from model import AnalysisBroken

LEVELS = range(7)
OFF = 6


# ------------------------------------------------------------------------------------------------ shared pieces
def level_value(fn, i):
    """the log_msg constructor's level argument: the one whose parameter is the level enumeration"""
    pass


def is_msg_ctor(fn, i):
    return i.is_call and i.callee and fn.m.nbase(i.callee) == "learnlog::base::log_msg::log_msg"


def scalar_level(role_load_level, role_load_flush, roles, fn):
    pass


class Gate:
    """oracle of one logging call: the caller's level, the logger's level, the state of its backtracer"""

    def __init__(self, fn, roles, lvl_arg, lvl, logger_level, tracer, flush_level=None):
        self.fn, self.roles, self.lvl_arg, self.lvl, self.ll, self.tracer = fn, roles, lvl_arg, lvl, logger_level, tracer

    def __call__(self, sim, t, env):
        if t[0] == "arg":
            return self.lvl if t[1] == self.lvl_arg else None
        if t[0] == "load":
            fs = self.fn.fields(t[1])
            if role_name(self.roles.log_level) in fs:
                return self.ll
            if role_name(self.roles.tracer) in fs:
                return 0 if self.tracer == 0 else NN
        if t[0] == "call":
            nb = self.fn.m.nbase(t[3])
            if nb == "learnlog::base::backtracer::is_enabled":
                return 1 if self.tracer == 2 else 0
        return None


def role_name(r):
    return r[0] + "::" + r[1]


def level_arg(fn):
    """index of the parameter that is the message level"""
    for n, a in enumerate(fn.args):
        if a["n"] in ("lvl", "level"):
            return n
    raise AnalysisBroken("driver entry %s has no level parameter" % fn.name)


def entries(m, prefix):
    fs = m.some(r"^vdrv::%s_[a-z_]+__[a-z]+\(" % prefix, 30)
    return sorted(fs, key=lambda f: f.name)


LVN = {"trace": 0, "debug": 1, "info": 2, "warn": 3, "error": 4, "critical": 5, "off": 6}


def names(m):
    """numeric values of the level enumeration, read from the program's debug information"""
    return LVN


def call_object(fn, i):
    """root of the object a virtual call is made on"""
    o = vobj(fn, i)
    return origin(fn, o)


def is_default_logger(fn, t):
    """the logger held by a local that registry::get_default_logger() filled"""
    t = origin(fn, t)
    if t[0] != "load":
        return False
    r = root_of(t[1])
    if r[0] != "alloca":
        return False
    for w in writers(fn, r):
        if w[0] == "call" and is_direct(fn, w[3], "learnlog::base::registry::get_default_logger") and w[3].d.get("sret"):
            continue
        return False
    return bool(writers(fn, r))


def is_target(fn, t, free):
    if free:
        return is_default_logger(fn, t)
    return t == ("arg", 0)


# ------------------------------------------------------------------------------------------------ P01
def p01(rep):
    m = get_model()
    R = Roles(m)
    rep.explanation = (
        "every public logging overload (member and free function) is simulated for each message level x logger level x backtrace "
        "state; the number of hand-overs to the sink stage and of backtrace insertions on every path is compared with the gate")
    n = 0
    for prefix, free in (("m", False), ("f", True)):
        fs = entries(m, prefix)
        rep.check(len(fs) >= 42, "gate", "driver/api.cpp", "%d logging overloads with prefix %s" % (len(fs), prefix))
        for f in fs:
            rep.fn(f)
            suffix = f.nbase.rsplit("__", 1)[1]
            la = level_arg(f) if suffix == "arg" else None
            lvls = LEVELS if la is not None else [LVN[suffix]]
            bad = 0
            for lvl in lvls:
                for ll in LEVELS:
                    for tr in (0, 1, 2):
                        bad += gate_one(rep, m, R, f, la, lvl, ll, tr, free)
                        n += 1
            if not bad:
                rep.ok("gate", f.where(), "%s: hands over exactly when level >= logger level, saves exactly when backtrace enabled (%d cases)"
                       % (f.nbase.split("::")[-1], len(list(lvls)) * 21))
    rep.notes.append("%d (overload, level, level, tracer) cases" % n)
    accessors(rep, m, R)


def gate_one(rep, m, R, f, la, lvl, ll, tr, free):
    g = Gate(f, R, la, lvl, ll, tr)

    def ev(sim, i, env):
        if not i.is_call:
            return ()
        if logger_call(f, i) == "deliver":
            if not is_target(f, call_object(f, i), free):
                raise Bad("the message is handed to another logger")
            return ("deliver",)
        if is_direct(f, i, "learnlog::base::backtracer::push_back"):
            return ("save",)
        if is_msg_ctor(f, i):
            vals = [sim.val(a, env) for a in i.args]
            k = ctor_level_index(m, i.callee)
            if vals[k] != lvl:
                raise Bad("the message is created with a level other than the caller's")
        return ()

    def step(a, e, i):
        d, s = a
        if e == "deliver":
            d = min(d + 1, 2)
        elif e == "save":
            s = min(s + 1, 2)
        return (d, s)
    sim = Sim(f, g, ev, step, (0, 0), lambda s, i, e: ()).run()
    rep.paths += sim.states
    want = (1 if lvl >= ll else 0, 1 if tr == 2 else 0)
    bad = 0
    for msg, i, path in sim.violations:
        rep.viol("gate", i.where(), msg + " (level %d, logger level %d)" % (lvl, ll), path, key="gate|%s|%s" % (f.nbase, msg))
        bad += 1
    rets = [x for x in sim.exits if x[0] == "ret"]
    if not rets:
        rep.viol("gate", f.where(), "%s never returns normally at level %d with logger level %d" % (f.nbase, lvl, ll))
        return 1
    for kind, auto, i, exc, val, st in rets:
        if auto != want:
            what = []
            if auto[0] != want[0]:
                what.append("hands the message to the sinks %d time(s) instead of %d" % (auto[0], want[0]))
            if auto[1] != want[1]:
                what.append("saves it to the backtrace %d time(s) instead of %d" % (auto[1], want[1]))
            rep.viol("gate", i.where(), "%s at level %d with logger level %d and backtrace %s %s" % (
                f.nbase.split("::")[-1], lvl, ll, ("absent", "disabled", "enabled")[tr], " and ".join(what)), sim.path(st, i),
                key="gate|%s|%s|%s" % (f.nbase, auto, want))
            bad += 1
    return bad


def ctor_level_index(m, mangled):
    sp = m.sp_by_link.get(mangled)
    if sp:
        # types: [ret, this, ...]; by-value aggregates of 16 bytes occupy two arguments
        k = 0
        for t in sp["t"][1:]:
            s = m.strip(t)
            if m.types[s]["k"] == "enum":
                return k
            k += width(m, s)
    raise AnalysisBroken("log_msg constructor %s takes no level" % m.name(mangled))


def width(m, t):
    """number of IR arguments a parameter occupies under the x86-64 ABI, small aggregates only"""
    ty = m.types[t]
    if ty["k"] in ("class", "union"):
        sz = m.tsize(t) or 8
        return 2 if 8 < sz <= 16 else 1
    return 1


def accessors(rep, m, R):
    """get_/set_ functions read and write exactly the field they are named after"""
    for nm, role in (("log_level", R.log_level), ("flush_level", R.flush_level)):
        f = rep.fn(m.some(r"^learnlog::logger::set_%s\(" % nm)[0])
        sts = [i for i in f.instrs() if i.op == "store"]
        ok = [i for i in sts if role_name(role) in f.fields(f.term(i.d["p"])) and f.term(i.d["v"]) == ("arg", 1)]
        others = [i for i in sts if i not in ok]
        rep.check(len(ok) == 1 and not others and dominates_all_rets(f, ok[0]), "accessor", f.where(),
                  "set_%s stores its argument in the field get_%s reads" % (nm, nm))
    rep.check(R.log_level != R.flush_level, "accessor", "include/logger.h", "log level and flush level are different fields")


def dominates_all_rets(f, i):
    rets = [j for j in f.instrs() if j.op == "ret"]
    return all(f.idominates(i, j) for j in rets)


PROPERTIES = {"P01": p01}


# ------------------------------------------------------------------------------------------------ P02 / P03 / P05
from rules._fanout import *


def slot_fn(m, cls, kind):
    """the function in cls's vtable that a logger's 'deliver' / 'flush' virtual call reaches"""
    key = "_slots"
    if not hasattr(m, key):
        sl = {}
        for f in m.some(r"^vdrv::m_[a-z_]+__[a-z]+\("):
            for i in f.calls():
                if logger_call(f, i) == "deliver":
                    sl["deliver"] = m.vcall(f, i)[1]
        f = m.some(r"^learnlog::logger::flush\(")[0]
        for i in f.calls():
            if logger_call(f, i) == "flush":
                sl["flush"] = m.vcall(f, i)[1]
        setattr(m, key, sl)
    sl = getattr(m, key)
    if kind not in sl:
        raise AnalysisBroken("no virtual %s call found in the logging entry points" % kind)
    vt = m.vtables().get(cls)
    fn = vt and m.fn(vt["slots"].get(sl[kind]) or "")
    if fn is None:
        raise AnalysisBroken("%s has no %s implementation" % (cls, kind))
    return fn


def enum_values(m, name):
    for t in m.types:
        if t["k"] == "enum" and t.get("n") == name and t.get("m"):
            return {x["n"]: int(x["v"]) for x in t["m"]}
    raise AnalysisBroken("enumeration %s not found" % name)


def msg_types(m):
    """values of the message kinds, from the program's debug information"""
    v = enum_values(m, "learnlog::base::async_msg_type")
    for k in ("log", "flush", "terminate"):
        if k not in v:
            raise AnalysisBroken("message kind %s not found" % k)
    return v


class SinkOps:
    """classification of a function's instructions: operations on sinks, reports, everything that may throw"""

    def __init__(self, fn, msg=None, extra=None, throwing=True, aspects=("log", "flush", "set_formatter", "set_pattern")):
        self.fn, self.msg, self.extra, self.throwing, self.aspects = fn, msg, extra, throwing, aspects

    def __call__(self, sim, i, env):
        if not i.is_call:
            return ()
        fn = self.fn
        k = sink_call(fn, i)
        if k in self.aspects:
            if k == "log" and self.msg is not None:
                a = sim.resolve(i.args[-1], env)
                if not self.msg(a):
                    raise Bad("a sink is given something other than the message being logged")
            return [("elem", k, vobj(fn, i))]
        if is_report(fn, i):
            return [("report",)]
        if self.extra:
            return self.extra(sim, i, env)
        return ()

    def throws(self, sim, i, env):
        if not self.throwing:
            return ()
        if sink_call(self.fn, i) in ("log", "flush", "set_formatter", "set_pattern"):
            return (STD, OTHER)
        return ()


def own_arg(n):
    def ok(a):
        return root_of(a) == ("arg", n)
    return ok


def cases(full):
    """(message level, sink level, flush level)"""
    out = []
    for ml in LEVELS:
        for sl in LEVELS if full else sorted({0, max(ml - 1, 0), ml, min(ml + 1, OFF), OFF}):
            for fl in LEVELS if full else sorted({0, max(ml - 1, 0), ml, min(ml + 1, OFF), OFF}):
                out.append((ml, sl, fl))
    return out


def want_ops(ml, sl, fl):
    return (["log"] if ml >= sl else []), (1 if ml >= fl and ml != OFF else 0)


def judge(seq, wantlog, wantflush, what, aspects, virt_flush=0):
    """compares what every sink received with the specification; returns a message or None"""
    if seq is None:
        return None
    logs, fl = seq.count("log"), seq.count("flush") + virt_flush
    if "log" in aspects:
        if logs != len(wantlog):
            return "%s reaches each sink %d time(s) instead of %d" % (what, logs, len(wantlog))
    if "flush" in aspects:
        if fl != wantflush:
            return "%s flushes each sink %d time(s) instead of %d" % (what, fl, wantflush)
        if wantflush and wantlog and "flush" in seq and "log" in seq[seq.index("flush"):]:
            return "%s: a sink is flushed before the message is written to it" % what
    return None


def sync_deliver(rep, rule, aspects, throwing, full):
    m = get_model()
    R = Roles(m)
    f = rep.fn(slot_fn(m, "learnlog::logger", "deliver"))
    cont = sinks_of(R, lambda fn, c: root_of(c) == ("arg", 0))

    def extra(sim, i, env):
        if logger_call(f, i) == "flush":
            if call_object(f, i) != ("arg", 0):
                raise Bad("another logger is flushed")
            return [("vflush",)]
        return ()

    def other(a, e, i):
        if e[0] == "vflush":
            if a[0] >= 0:
                raise Bad("all sinks are flushed from inside the loop over the sinks")
            return a[:4] + (a[4] + (("F", "F"),), a[5])
        raise Bad("unexpected operation")
    n = 0
    fan = None
    for ml, sl, fl in cases(full):
        wl, wf = want_ops(ml, sl, fl)
        if throwing:        # what happens without a failure is decided elsewhere: only judge cases that are right then
            base, ops = Rep(rep.pid), SinkOps(f, own_arg(1), extra, False)
            finish(base, rule, f, Fan(f, cont, ops, level_oracle(f, R, ml, sl, fl), ops.throws, other).run(), wl, wf, "", aspects, False)
            if base.violations:
                continue
        ops = SinkOps(f, own_arg(1), extra, throwing, aspects)
        fan = Fan(f, cont, ops, level_oracle(f, R, ml, sl, fl), ops.throws, other)
        sim = fan.run()
        n += 1
        finish(rep, rule, f, sim, wl, wf, "a message of level %d at sink level %d, flush level %d" % (ml, sl, fl), aspects, throwing)
    rep.ok(rule, f.where(), "%s: %d level combinations, every path, %d recognised loop(s) over the sinks" % (f.nbase, n, len(fan.trav) if fan else 0))


def finish(rep, rule, f, sim, wl, wf, what, aspects, throwing, require_ret=True):
    rep.paths += sim.states
    for msg, i, path in sim.violations:
        rep.viol(rule, i.where(), "%s: %s" % (f.nbase, msg), path, key="%s|%s|%s" % (rule, f.nbase, msg))
    nret = 0
    for kind, a, i, exc, val, st in sim.exits:
        msg = None
        if kind == "ret":
            nret += 1
            try:
                vf = sum(1 for x in a[4] if x[0] == "F")
                d = tuple(x for x in a[4] if x[0] != "F")
                seq = totals(d)
                if a[2] and not a[2].startswith("reported"):
                    msg = "an exception is dropped without a report"
                else:
                    msg = judge(seq, wl, wf, what, aspects, vf)
            except Bad as b:
                msg = "%s: %s" % (what, b)
        elif kind == "escape":
            if exc != OTHER:
                msg = "a std::exception thrown by a sink escapes instead of being reported (%s)" % what
            elif not str(a[2]).startswith("reported"):
                msg = "a foreign exception thrown by a sink leaves without being reported (%s)" % what
        elif kind == "terminate":
            msg = "an exception thrown by a sink ends the program (%s)" % what
        if msg:
            rep.viol(rule, i.where(), "%s: %s" % (f.nbase, msg), sim.path(st, i),
                     key="%s|%s|%s" % (rule, f.nbase, re.sub(r"\d+", "#", msg)))
    if require_ret and not nret:
        rep.viol(rule, f.where(), "%s never returns normally (%s)" % (f.nbase, what))


def sync_flush(rep, rule, throwing):
    m = get_model()
    R = Roles(m)
    f = rep.fn(slot_fn(m, "learnlog::logger", "flush"))
    ops = SinkOps(f, None, None, throwing)
    fan = Fan(f, sinks_of(R, lambda fn, c: root_of(c) == ("arg", 0)), ops, level_oracle(f, R, None, None, None), ops.throws)
    sim = fan.run()
    finish(rep, rule, f, sim, [], 1, "logger::flush()", ("log", "flush"), throwing)
    rep.ok(rule, f.where(), "%s reaches every sink exactly once" % f.nbase)


class Worker:
    def __init__(self, rep, f):
        m = self.m = get_model()
        self.R = Roles(m)
        self.f = rep.fn(f)
        self.local = None
        for i in f.calls():
            if self.is_dequeue(i):
                t = root_of(f.term(i.args[1]))
                if t[0] == "alloca":
                    self.local = t
        if self.local is None:
            raise AnalysisBroken("the worker's dequeue was not found")
        self.types = msg_types(m)

    def is_dequeue(self, i):
        return pool_virtual(self.f, i) == "dequeue"

    def run(self, rep, rule, kind, ml, sl, fl, aspects, throwing):
        f, R, m = self.f, self.R, self.m
        lg = None

        def base_ok(fn, cont):
            # sinks of the logger the popped message names
            b = root_of(cont)
            return b[0] == "load" and root_of(b[1]) == self.local

        def extra(sim, i, env):
            if self.is_dequeue(i):
                return [("dequeue",)]
            if i.callee:
                nb = m.nbase(i.callee)
                if nb == "std::promise::set_value":
                    if root_of(f.term(i.args[0])) != self.local:
                        raise Bad("another message's promise is completed")
                    return [("done",)]
                if nb in ("learnlog::base::thread_pool::enqueue_log", "learnlog::base::thread_pool::enqueue_flush") or \
                        nb.startswith("std::future::") or nb.startswith("std::__basic_future::") and "~" not in nb:
                    raise Bad("the pool's own worker waits on the pool (%s)" % nb)
            elif logger_call(f, i) in ("deliver", "flush"):
                raise Bad("the worker goes back through the logger's queueing operation")
            return ()

        if throwing:
            base = Rep(rep.pid)
            self.run(base, rule, kind, ml, sl, fl, aspects, False)
            if base.violations:
                return 0

        def close(a):
            """judges the message just processed"""
            if a[5] is None:
                return
            if a[2] and not a[2].startswith("reported"):
                raise Bad("an exception thrown by a sink is dropped without a report")
            seq = totals(tuple(x for x in a[4] if x[0] != "D"))
            ndone = sum(1 for x in a[4] if x[0] == "D")
            if kind == "log":
                wl, wf = want_ops(ml, sl, fl)
                msg = judge(seq, wl, wf, "a queued message of level %d at sink level %d, flush level %d" % (ml, sl, fl), aspects)
            elif kind == "flush":
                msg = judge(seq, [], 1, "a queued flush request", aspects)
                if not msg and "flush" in aspects and ndone != 1:
                    msg = "a queued flush request completes its promise %d time(s)" % ndone
            else:
                msg = "a terminate message makes the worker use sinks" if seq else None
            if msg:
                raise Bad(msg)

        def other(a, e, i):
            if e[0] == "dequeue":
                if a[5] is not None:
                    close(a)
                    if kind == "terminate":
                        raise Bad("a terminate message does not end the worker")
                return START[:5] + ("msg",)
            if e[0] == "done":
                if kind == "log":
                    raise Bad("a log message completes a flush promise")
                if "flush" in aspects and not any(x[0] != "D" for x in a[4]):
                    raise Bad("the flush promise is completed before the sinks are flushed")
                return a[:4] + (a[4] + (("D", "D"),), a[5])
            raise Bad("unexpected operation")
        ops = SinkOps(f, lambda a: root_of(a) == self.local, extra, throwing, aspects)
        fan = Fan(f, sinks_of(R, base_ok), ops, level_oracle(f, R, ml, sl, fl, self.types[kind]), ops.throws, other)
        sim = fan.run()
        rep.paths += sim.states
        for msg, i, path in sim.violations:
            rep.viol(rule, i.where(), "worker: " + msg, path, key="%s|worker|%s" % (rule, re.sub(r"\d+", "#", msg)))
        rets = 0
        for k, a, i, exc, val, st in sim.exits:
            msg = None
            if k == "ret":
                rets += 1
                if kind != "terminate":
                    msg = "the worker stops after a %s message" % kind
                else:
                    try:
                        close(a)
                    except Bad as b:
                        msg = str(b)
            elif k == "escape" and (exc != OTHER or not str(a[2]).startswith("reported")):
                msg = "an exception thrown by a sink leaves the worker %s" % ("unreported" if exc == OTHER else "although it is a std::exception")
            elif k == "terminate":
                msg = "an exception thrown by a sink ends the program"
            if msg:
                rep.viol(rule, i.where(), "worker: " + msg, sim.path(st, i), key="%s|worker|%s" % (rule, msg))
        if kind == "terminate" and not rets:
            rep.viol(rule, f.where(), "worker: a terminate message does not end the worker")
        return len(fan.trav)


def _queue_virtual(fn):
    for i in fn.calls():
        if not i.callee:
            c = describe(fn, i)
            if c.kind == "v" and c.cls.endswith("thread_pool") and len(i.args) == 2:
                return True
    return False


def thread_bodies(m, cls=r"\w*thread_pool"):
    """what the worker threads of a pool class run"""
    fs = [f for f in m.find(r"^std::thread::_State_impl<.*learnlog::base::%s(::|\*).*::_M_run" % cls) if _queue_virtual(f)]
    if not fs:
        # started through a pointer to member: the member that runs a callback and takes messages
        fs = [f for f in m.find(r"^learnlog::base::%s::" % cls) if _queue_virtual(f) and
              any(i.callee and m.nbase(i.callee) == "std::function::operator()" for i in f.calls())]
    if not fs:
        raise AnalysisBroken("the function that the workers of %s run was not found" % cls)
    return fs


def pool_slots(m):
    """vtable slots of a pool's enqueue and dequeue operations"""
    if not hasattr(m, "_pool_slots"):
        def slots(fn):
            out = set()
            for i in fn.calls():
                if not i.callee:
                    c = describe(fn, i)
                    if c.kind == "v" and c.cls.endswith("thread_pool") and len(i.args) == 2:
                        out.add(m.vcall(fn, i)[1])
            return out
        enq = slots(m.one(r"^learnlog::base::thread_pool::enqueue_log\("))
        deq = set()
        for b in thread_bodies(m):
            deq |= slots(b)
        if len(enq) != 1 or len(deq - enq) != 1:
            raise AnalysisBroken("the pool's queue operations were not recognised (%s / %s)" % (enq, deq))
        e = enq.pop()
        m._pool_slots = {e: "enqueue", (deq - {e}).pop(): "dequeue"}
    return m._pool_slots


def pool_virtual(f, i):
    """'enqueue' / 'dequeue' when i is such a virtual call on a thread pool"""
    if not i.is_call or i.callee:
        return None
    c = describe(f, i)
    if c.kind == "v" and c.cls.endswith("thread_pool") and len(i.args) == 2:
        return pool_slots(f.m).get(f.m.vcall(f, i)[1])
    return None


def worker(rep, rule, aspects, throwing, full):
    bodies = thread_bodies(get_model())
    for b in bodies:
        w = Worker(rep, b)
        n = 0
        for ml, sl, fl in cases(full):
            w.run(rep, rule, "log", ml, sl, fl, aspects, throwing)
            n += 1
        w.run(rep, rule, "flush", 2, 0, 0, aspects, throwing)
        k = w.run(rep, rule, "terminate", 2, 0, 0, aspects, throwing)
        rep.ok(rule, b.where(), "background thread body %s: %d level combinations + flush + terminate, every path, %d loops over the sinks" % (
            re.sub(r".*learnlog::base::", "", b.name)[:60], n, k))


def p02(rep):
    rep.explanation = ("each function that hands a message to sinks is simulated per level combination with a per-element automaton "
                       "over its loops: every sink whose level admits the message gets it exactly once, the others not at all")
    full = rep.tier == "thorough"
    sync_deliver(rep, "fanout", ("log",), False, full)
    worker(rep, "fanout", ("log",), False, full)
    should_log(rep)
    set_formatter(rep)


def should_log(rep):
    m = get_model()
    R = Roles(m)
    f = rep.fn(m.one(r"^vdrv::sk_should_log\("))
    bad = []
    for ml in LEVELS:
        for sl in LEVELS:
            def orc(sim, t, env):
                if t == ("arg", 1):
                    return ml
                if t[0] == "load" and role_name(R.sink_level) in f.fields(t[1]):
                    return sl
                return None
            s = Sim(f, orc).run()
            for kind, a, i, exc, val, st in s.exits:
                if kind == "ret" and val[0] is not None and (val[0] & 1) != (1 if ml >= sl else 0) or kind == "ret" and val[0] is None:
                    bad.append((ml, sl))
    rep.check(not bad, "sink-gate", f.where(), "should_log(level) is level >= the sink's level for all 49 pairs",
              "should_log disagrees with level >= sink level for %s" % bad[:4])
    f = rep.fn(m.one(r"^vdrv::sk_set_level\("))
    st = [i for i in f.instrs() if i.op == "store" and role_name(R.sink_level) in f.fields(f.term(i.d["p"]))]
    rep.check(len(st) == 1 and f.term(st[0].d["v"]) == ("arg", 1), "sink-gate", f.where(), "set_level stores its argument")


def set_formatter(rep):
    from rules._setters import set_formatter as run
    m = get_model()
    R = Roles(m)
    run(rep, m, R.field_off("learnlog::logger", R.sinks[1]))


def p03(rep):
    rep.explanation = ("the same simulations with every sink operation allowed to throw: a std::exception must be reported and the "
                       "remaining sinks still served, a foreign exception must be reported before it leaves")
    full = rep.tier == "thorough"
    sync_deliver(rep, "isolation", ("log", "flush"), True, full)
    sync_flush(rep, "isolation", True)
    worker(rep, "isolation", ("log", "flush"), True, full)


def p05(rep):
    rep.explanation = ("flush requests: level-triggered flush on the caller's and on the worker's side, logger::flush, and the queued "
                       "flush handshake, simulated per level combination")
    full = rep.tier == "thorough"
    sync_deliver(rep, "flush-level", ("flush",), False, full)
    sync_flush(rep, "flush", False)
    worker(rep, "flush-level", ("flush",), False, full)
    public_flush(rep)


def public_flush(rep):
    m = get_model()
    f = rep.fn(m.one(r"^learnlog::logger::flush\("))

    def ev(sim, i, env):
        return [logger_call(f, i)] if i.is_call and logger_call(f, i) else []
    s = Sim(f, None, ev, lambda a, e, i: a + (e,) if len(a) < 3 else a, ()).run()
    for kind, a, i, exc, val, st in s.exits:
        if kind == "ret":
            rep.check(a == ("flush",), "flush", f.where(), "logger::flush() performs exactly one flush of the logger", path=s.path(st, i))


PROPERTIES = {"P01": p01, "P02": p02, "P03": p03, "P05": p05}
