"""Periodic flushing: the timer thread, its shutdown, and its replacement."""
from lib import *
from model import AnalysisBroken
from sim import is_sym
from rules._own import *
from rules.registry import Shape, REG

PF = "learnlog::base::periodic_function"


def fld(fn, a, pred):
    for c, f, r, t in fn.chain(a):
        if c == PF and r == 0 and pred(fn.m.tname(t)):
            return f
    return None


def is_flag(fn, a):
    return fld(fn, a, lambda t: re.search(r"atomic<bool>|atomic_bool|^bool$", t)) is not None


def is_mutex(fn, a):
    return fld(fn, a, lambda t: "mutex" in t) is not None


def is_thread(fn, a):
    return fld(fn, a, lambda t: t == "std::thread") is not None


def is_cv(fn, a):
    return fld(fn, a, lambda t: "condition_variable" in t) is not None


def mutex_of(sim, i, env):
    return sim.resolve(i.args[0], env)


# ------------------------------------------------------------------------------------------------ destructor
def dtor(rep, m):
    f = rep.fn(m.one(r"^%s::~periodic_function\(" % PF))
    for alive in (1, 0):
        def orc(sim, t, env):
            if t[0] == "call":
                i = f.instr_of(t)
                if i is not None and i.callee and m.nbase(i.callee) == "std::thread::joinable":
                    return alive
            if t[0] == "load" and is_flag(f, t[1]):
                return alive if not sim.auto[1] else 0
            return None

        def ev(sim, i, env):
            if i.op in ("store", "xchg", "rmw") and i.d.get("p") is not None and is_flag(f, sim.resolve(i.d["p"], env)):
                return [("flag", sim.val(i.d["v"], env))]
            if not i.is_call or not i.callee:
                return ()
            nb = m.nbase(i.callee)
            if nb in ("std::mutex::lock", "std::mutex::unlock") and is_mutex(f, sim.resolve(i.args[0], env)):
                return [(nb.split("::")[-1],)]
            if re.match(r"std::condition_variable::notify_(one|all)$", nb) and is_cv(f, sim.resolve(i.args[0], env)):
                return [("notify",)]
            if nb == "std::thread::join" and is_thread(f, sim.resolve(i.args[0], env)):
                return [("join",)]
            if nb == "std::thread::detach":
                return [("detach",)]
            return ()

        def step(a, e, i):
            held, off, note, joined = a
            k = e[0]
            if k == "lock":
                held = True
            elif k == "unlock":
                held = False
            elif k == "flag":
                if e[1] == 0:
                    if not held and alive:
                        raise Bad("the stop flag is set without the mutex: the timer thread may miss the wake-up")
                    off = True
            elif k == "notify":
                if off:
                    note = True
            elif k == "join":
                if held:
                    raise Bad("joins the timer thread while holding the mutex that thread needs")
                if not off or not note:
                    raise Bad("joins the timer thread without having told it to stop")
                if joined:
                    raise Bad("joins twice")
                joined = True
            elif k == "detach":
                raise Bad("the timer thread is left running")
            return (held, off, note, joined)
        s = Sim(f, orc, ev, step, (False, False, False, False)).run()
        for k, a, i, exc, val, st in s.exits:
            if k in ("ret", "escape") and a[3] != bool(alive):
                s.bad("the timer thread is %s" % ("not waited for" if alive else "joined although there is none"), i, st)
        rep.sim(s, "stop", "destructor, %s thread" % ("running" if alive else "no"))


# ------------------------------------------------------------------------------------------------ constructor and thread body
def ctors(rep, m):
    n = 0
    for f in m.some(r"^%s::periodic_function<.*>\(" % PF):
        if not any(i.callee and m.nbase(i.callee) == "std::thread::thread" for i in f.calls()):
            if len(f.args) == 3 and not any(i.is_call for i in f.instrs()):
                continue
        if len(f.args) != 3 or f.args[2].get("t", f.d.get("at", "")) == "ptr":
            continue
        rep.fn(f)
        n += 1
        for iv in (-1, 0, 1, 5):
            def orc(sim, t, env):
                if t == ("arg", 2):
                    return iv
                if t[0] == "load" and is_flag(f, t[1]):
                    return sim.auto[0]
                return None

            def ev(sim, i, env):
                if i.op in ("store", "xchg") and is_flag(f, sim.resolve(i.d["p"], env)):
                    return [("flag", sim.val(i.d["v"], env))]
                if i.is_call and i.callee:
                    nb = m.nbase(i.callee)
                    if nb == "std::thread::thread" and len(i.args) > 1 and "<" in m.name(i.callee).split("(")[0]:
                        return [("start", sim.resolve(i.args[0], env))]
                    if nb in ("std::thread::operator=", "std::thread::swap") and is_thread(f, sim.resolve(i.args[0], env)):
                        return [("keep", sim.resolve(i.args[1], env))]
                return ()

            def step(a, e, i):
                flag, started, kept = a
                if e[0] == "flag":
                    flag = e[1]
                elif e[0] == "start":
                    if started is not None:
                        raise Bad("more than one timer thread is started")
                    if flag != 1:
                        raise Bad("the timer thread is started before it is marked as active")
                    started = e[1]
                    kept = is_thread(f, e[1])
                elif e[0] == "keep" and e[1] == started:
                    kept = True
                return (flag, started, kept)
            s = Sim(f, orc, ev, step, (None, None, False)).run()
            for k, a, i, exc, val, st in s.exits:
                if k != "ret":
                    continue
                if iv > 0 and not (a[1] and a[2]):
                    s.bad("no timer thread is started for a positive interval", i, st)
                if iv <= 0 and a[1]:
                    s.bad("a timer thread is started although the interval is not positive", i, st)
                if iv > 0 and a[0] != 1:
                    s.bad("the timer is not active", i, st)
            rep.sim(s, "start", "constructor %s, interval %d" % (short(f), iv))
    rep.check(n >= 2, "coverage", PF, "constructors found", "only %d constructors were found" % n)


def short(f):
    return f.where()


def bodies(rep, m):
    fs = [f for f in m.some(r"^std::thread::_State_impl<.*periodic_function.*::_M_run") if True]
    rep.check(len(fs) >= 2, "coverage", PF, "timer thread bodies found", "only %d timer thread bodies were found" % len(fs))
    for f in fs:
        rep.fn(f)
        # flag cleared while the thread has released the mutex for the k-th time; every wait result
        for flip in (0, 1, 2, 3, 9):
            for res in ((1,), (0, 1), (1, 0), (0, 0, 1)):
                body(rep, m, f, flip, res)
        interval(rep, m, f)


def is_wait(m, i):
    nb = m.nbase(i.callee) if i.callee else ""
    return nb.startswith("std::condition_variable::") and "wait" in nb.split("::")[-1]


def body(rep, m, f, flip, res):
    # automaton: (times the mutex was released, capped; mutex held; a wait timed out since the last call; flag seen active under
    # this hold; calls after stop; waits so far)
    def active(a):
        return 1 if a[0] < flip else 0

    def orc(sim, t, env):
        if t[0] == "load" and is_flag(f, t[1]):
            return active(sim.auto)
        if t[0] == "call":
            i = f.instr_of(t)
            if i is not None and i.callee and is_wait(m, i):
                return res[sim.auto[4] % len(res)]
        return None

    def ev(sim, i, env):
        if i.op == "load" and is_flag(f, sim.resolve(i.d["p"], env)):
            return [("seen",)]
        if not i.is_call:
            return ()
        if i.callee:
            nb = m.nbase(i.callee)
            if nb in ("std::mutex::lock", "std::mutex::unlock"):
                return [(nb.split("::")[-1],)]
            if is_wait(m, i):
                return [("wait", "until" in nb or "for" in nb.split("::")[-1])]
            if nb == "std::function::operator()":
                return [("func",)]
            if nb.startswith("std::this_thread::sleep") or nb in ("nanosleep", "usleep", "sleep", "clock_nanosleep"):
                raise Bad("sleeps where it cannot be woken up")
        return ()

    def step(a, e, i):
        rel, held, due, seen, waits, saw = a
        k = e[0]
        if k == "lock":
            if held:
                raise Bad("locks the mutex twice")
            held = True
        elif k == "unlock":
            held, seen = False, False
            rel = min(rel + 1, 12)
        elif k == "seen":
            seen = held
            saw = bool(active(a))
        elif k == "wait":
            if not held:
                raise Bad("waits without the mutex")
            if not seen:
                raise Bad("waits without having looked at the stop flag under the mutex: a stop request may be missed")
            if not active(a):
                raise Bad("waits again although it was told to stop")
            if not e[1]:
                raise Bad("waits without a time limit")
            waits += 1
            rel = min(rel + 1, 12)
            seen = saw = False
            due = due or res[(waits - 1) % len(res)] == 1
            if waits > 8:
                waits = 8 - len(res)
        elif k == "func":
            if not due:
                raise Bad("calls the function although the interval has not elapsed")
            if not saw:
                raise Bad("calls the function although it was told to stop")
            due = False
        return (rel, held, due, seen, waits, saw)
    s = Sim(f, orc, ev, step, (0, False, False, False, 0, False)).run()
    for k, a, i, exc, val, st in s.exits:
        if k == "ret" and active(a):
            s.bad("the timer thread ends although it was not told to stop", i, st)
    if flip < 9 and not any(k == "ret" for k, *_ in s.exits) and not s.violations:
        s.violations.append(("the timer thread does not end after it was told to stop", None, []))
    if not any(i.callee and m.nbase(i.callee) == "std::function::operator()" for i in f.calls()):
        s.violations.append(("the function is never called", None, []))
    rep.sim(s, "timer", "%s: stopped at release %d, waits ending %s" % (f.where(), flip, "".join("T" if r else "s" for r in res)))


def interval(rep, m, f):
    """every deadline is computed from the captured interval"""
    for i in f.calls():
        if i.callee and is_wait(m, i):
            t = f.term(i.args[2]) if len(i.args) > 2 else None
            vals = [src for k, o, src, w in writers(f, t) if k == "store"] if t is not None and t[0] == "alloca" else [t]
            ok = bool(vals) and all(from_closure(f, v) for v in vals)
            rep.check(ok, "timer", i.where(), "the deadline is the current time plus the captured interval", "the wait does not use the interval")


def from_closure(f, t, depth=0):
    if not isinstance(t, tuple) or depth > 10:
        return False
    if t[0] == "load" and root_of(t[1]) == ("arg", 0) and t[1][0] == "addr" and t[1][1] == ("arg", 0):
        return True
    return any(from_closure(f, x, depth + 1) for x in t[1:] if isinstance(x, tuple))


# ------------------------------------------------------------------------------------------------ flush_every
def flush_every(rep, m):
    S = Shape(m)
    fs = m.some(r"^vdrv::rg_flush_every")
    for f in fs:
        rep.fn(f)

        def is_fl(a):
            return any(c == REG and fl == S.flusher and r == 0 for c, fl, r, t in f.chain(a))

        def orc(sim, t, env):
            if t[0] == "load" and not is_sym(t[1]) and is_fl(t[1]):
                v = sim.auto[0]
                return ("s", v, 0) if v else 0
            if t[0] == "load" and root_of(t[1])[0] == "alloca" and not is_sym(t[1]):
                for a, v in sim.auto[3]:
                    if a == t[1]:
                        return v
            if t[0] == "call":
                i = f.instr_of(t)
                if i is not None and i.callee and m.nbase(i.callee) == "operator new":
                    return ("s", ("new", i.id), 0)
            return None

        def ev(sim, i, env):
            if i.op == "store":
                a = sim.resolve(i.d["p"], env)
                v = sim.val(i.d["v"], env)
                if is_fl(a):
                    return [("set", v[1] if is_sym(v) else None)]
                if root_of(a)[0] == "alloca" and (is_sym(v) or v == 0):
                    return [("loc", a, v)]
                return ()
            if i.is_call and i.callee:
                nb = m.nbase(i.callee)
                o = sim.val(i.args[0], env) if i.args else None
                if nb == PF + "::periodic_function":
                    t = sim.resolve(i.args[2], env)
                    while t[0] == "cast":
                        t = t[4]
                    if t not in (("arg", 0), ("load", ("arg", 0))):
                        raise Bad("the timer does not get the given interval")
                    handler(sim, i, env)
                    return [("made", o[1] if is_sym(o) else None)]
                if nb == PF + "::~periodic_function" and is_sym(o):
                    return [("gone", o[1])]
            return ()

        def handler(sim, i, env):
            fo = f.term(i.args[1])
            made = [w for k, o, src, w in writers(f, fo) if k == "call" and m.nbase(w.callee) == "std::function::function"]
            for c in f.calls():
                if c.callee and m.nbase(c.callee) == "std::function::function" and f.term(c.args[0]) == fo and c not in made:
                    made.append(c)
            if len(made) != 1:
                raise Bad("the timer's function is not made in one place")
            lam = m.name(made[0].callee)
            body_ = [h for h in m.some(r"^std::_Function_handler<.*flush_every.*_M_invoke") if any(is_direct(h, j, REG + "::flush_all") for j in h.calls())]
            if not body_:
                raise Bad("the timer's function does not flush all loggers")
            for h in m.some(r"^std::_Function_handler<.*flush_every.*_M_invoke"):
                rep.fn(h)
                n = [j for j in h.calls() if is_direct(h, j, REG + "::flush_all")]
                doms = [j for j in n if all(h.dominates(j.blk, b) for b in range(len(h.blocks)) if h.blocks[b] and h.blocks[b][-1].op == "ret")]
                if not doms:
                    raise Bad("the timer's function does not flush all loggers on every call")

        def step(a, e, i):
            cur, made, gone, loc = a
            if e[0] == "threw":
                return a
            if e[0] == "set":
                cur = e[1]
            elif e[0] == "loc":
                loc = frozenset([(x, y) for x, y in loc if x != e[1]] + [(e[1], e[2])])
            elif e[0] == "made":
                if made:
                    raise Bad("two timers are started")
                made = e[1]
            elif e[0] == "gone":
                gone = gone | {e[1]}
            return (cur, made, gone, loc)
        for old in (("F0",), None):
            s = Sim(f, orc, ev, step, (old, None, frozenset(), frozenset())).run()
            for k, a, i, exc, val, st in s.exits:
                if k == "ret":
                    if not a[1] or a[0] != a[1]:
                        s.bad("the new timer is not the registry's flusher", i, st)
                    elif a[1] in a[2]:
                        s.bad("the new timer is destroyed at once", i, st)
                    elif old and old not in a[2]:
                        s.bad("the previous timer is not stopped", i, st)
            rep.sim(s, "replace", "flush_every, %s" % ("timer running" if old else "no timer running"))


def p24(rep):
    m = get_model()
    rep.explanation = ("the timer's constructor, thread body and destructor are simulated for every interval sign, every sequence of wait results "
                       "(timed out, spurious) and every point at which it can be told to stop; flush_every for both states of the registry")
    ctors(rep, m)
    bodies(rep, m)
    dtor(rep, m)
    flush_every(rep, m)


PROPERTIES = {"P24": p24}
