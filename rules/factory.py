"""Factories and thread pools of the registry: what gets made, with which arguments, and what it is tied to."""
from lib import *
from model import AnalysisBroken
from sim import is_sym
from rules._own import *
from rules.registry import Shape, RS, Res, judge, REG, K, END
from rules._fanout import totals

POOLS = ("lock_thread_pool", "lockfree_thread_pool", "lockfree_concurrent_thread_pool")
B = "learnlog::base::"


def tmpl_args(s):
    """template arguments of the last template-id before the parameter list"""
    d = 0
    out, cur = [], ""
    k = s.index("<")
    for ch in s[k + 1:]:
        if ch == "<":
            d += 1
        elif ch == ">":
            if d == 0:
                out.append(cur.strip())
                return out
            d -= 1
        elif ch == "," and d == 0:
            out.append(cur.strip())
            cur = ""
            continue
        cur += ch
    return out


class Make(Sim):
    """follows the objects a function makes and hands on; automaton: (store, log of registry operations)"""

    def __init__(self, fn, args, pool=None, qtype=None, scalars=None):
        self.args_, self.pool, self.qtype, self.scalars = args, pool, qtype, scalars or {}
        self.fn = fn
        self.m = fn.m
        self.st = Store(self.dflt)
        Sim.__init__(self, fn, self.orc, self.ev, self.stp, (frozenset(), ()), self.thr)

    def dflt(self, st, a):
        if a[0] == "arg":
            return self.args_.get(a[1])
        return None

    def get(self, a):
        return self.st.get(self.auto[0], a)

    def value(self, o, env):
        """value of the object an operand refers to"""
        a = addr(self, o, env)
        v = self.get(a)
        if v is not None:
            return v
        return None

    def scalar(self, v, o, env):
        if is_sym(v):
            return v[1]
        if isinstance(v, int):
            return ("int", v)
        t = self.resolve(o, env)
        while t[0] == "cast":
            t = t[4]
        if t[0] == "arg":
            return ("argv", t[1])
        if t[0] == "load" and t[1][0] == "arg" and self.args_.get(t[1][1]) is not None:
            return self.args_[t[1][1]]
        return None

    def orc(self, sim, t, env):
        if t[0] == "load":
            v = self.get(t[1])
            if v is None:
                return None
            if v == ("null",) or v[0] == "moved":
                return 0
            return ("s", v, 0)
        if t[0] == "call":
            i = self.fn.instr_of(t)
            if i is None or not i.callee:
                return None
            nb = self.m.nbase(i.callee)
            k = re.match(B + r"(\w+::)?(message_queue_size|threads_size|message_queue_type)$", nb)
            if k:
                o = sim.val(i.args[0], env)
                if not is_sym(o):
                    return None
                o = o[1]
                if k.group(2) == "message_queue_type":
                    return ("s", ("qtype", o[1] if o[0] == "made" else self.qtype), 0)
                return ("s", (k.group(2), o), 0)
            if nb == "operator new":
                return ("s", ("new", i.id), 0)
            if nb == "__dynamic_cast":
                o = sim.val(i.args[0], env)
                if is_sym(o) and o[1] == self.pool:
                    to = self.m.name(self.fn.term(i.args[2])[1]) if self.fn.term(i.args[2])[0] == "global" else ""
                    return o if self.qtype and to.endswith(self.qtype) else 0
                return o
        if t[0] == "icmp":
            return None
        return None

    def ev(self, sim, i, env):
        if i.op == "store":
            a = addr(sim, i.d["p"], env)
            v = sim.val(i.d["v"], env)
            if root_of(a)[0] == "alloca" or is_sym(a):
                s = self.scalar(v, i.d["v"], env)
                return [("put", a, ("null",) if v == 0 and i.d.get("sz") == 8 else s)]
            return ()
        if not i.is_call or not i.callee:
            return ()
        nb = self.m.nbase(i.callee)
        if re.match(r"std::(make_shared|allocate_shared)$", nb) or nb == "learnlog::make_unique":
            ty = tmpl_args(self.m.name(i.callee))[0]
            vals = tuple(self.value(o, env) for o in i.args[1:])
            return [("made", addr(sim, i.args[0], env), ty, vals, tuple(addr(sim, o, env) for o in i.args[1:]), self.m.name(i.callee))]
        if nb.startswith("std::dynamic_pointer_cast") or nb.startswith("std::static_pointer_cast"):
            v = self.value(i.args[1], env)
            if nb.startswith("std::static") or v is None or v[0] != "pool":
                return [("put", addr(sim, i.args[0], env), v)]
            ty = tmpl_args(self.m.name(i.callee))[0]
            return [("put", addr(sim, i.args[0], env), v if self.qtype == ty else ("null",))]
        k = re.match(REG + r"::(\w+)$", nb)
        if k and k.group(1) != "instance":
            if k.group(1) == "get_thread_pool":
                return [("put", addr(sim, i.args[0], env), self.pool)]
            return [("reg", k.group(1), tuple(self.value(o, env) or self.scalar(sim.val(o, env), o, env) for o in i.args[1:]))]
        if nb == "learnlog::handle_excpt":
            return [("reg", "handle_excpt", ())]
        # an object made with new
        k = re.match(r"(learnlog::.*)::(\w+)$", nb)
        if k and i.args and is_sym(sim.val(i.args[0], env)) and sim.val(i.args[0], env)[1][0] == "new" and k.group(1).split("::")[-1] == k.group(2):
            full = self.m.name(i.callee).split("(")[0]
            ty = full[:full.rindex("::")]
            return [("made", sim.val(i.args[0], env), ty, tuple(self.value(o, env) or self.scalar(sim.val(o, env), o, env) for o in i.args[1:]), (), "")]
        e = own_event(self.fn, sim, i, env)
        if e is not None:
            if e[0] in ("copy", "move") and is_sym(e[2]) and e[2][1][0] == "new":
                return [("put", e[1], self.get(e[2]))]
            return [("own",) + e]
        return ()

    def stp(self, a, e, i):
        st, log = a
        thrown = None
        if e[0] == "threw":
            e, thrown = e[1], e[2]
        if e[0] == "put":
            st = self.st.put(st, e[1], e[2])
        elif e[0] == "made":
            if not thrown:
                v = ("made", e[2], e[3], i.id)
                if e[5] and "&&" in e[5]:
                    # arguments bound to rvalue references are emptied
                    sig = split_params(e[5])
                    for s, src in zip(sig, e[4]):
                        if s.endswith("&&"):
                            st = self.st.put(st, src, ("moved", self.st.get(st, src)))
                st = self.st.put(st, e[1], v)
                log = log + (v,)
        elif e[0] == "reg":
            log = log + ((e[1], e[2]),)
        elif e[0] == "own":
            if not thrown:
                st = self.st.apply(st, e[1:])
        if len(log) > 14:
            raise Bad("operations are repeated")
        return (st, log)

    def thr(self, sim, i, env):
        if i.callee and self.m.nbase(i.callee) == REG + "::initialize_logger":
            return ("std",)
        return ()


def split_params(pretty):
    p = pretty[pretty.rindex(">(") + 2:] if ">(" in pretty else ""
    p = p.rstrip(")")
    d, out, cur = 0, [], ""
    for ch in p:
        if ch in "<(":
            d += 1
        elif ch in ">)":
            d -= 1
        if ch == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    return out + [cur.strip()]


KIND = {"basic_file": "basic_file_sink", "rolling_file": "rolling_file_sink", "stdout": "stdout_sink", "stderr": "stderr_sink",
        "stdout_color": "stdout_(ansi|win)?color_sink", "stderr_color": "stderr_(ansi|win)?color_sink", "null": "null_sink"}


def right_sink(ty, key):
    """a type name is that of the sink a factory is named after: kind, and mt or st by its mutex"""
    kind, mt = key.rsplit("_", 1)
    k = re.match(r"learnlog::sinks::%s<(.*)>$" % KIND[kind], ty)
    return bool(k) and ("null" in k.group(k.lastindex)) == (mt == "st")


def factory_case(rep, fn, what, sync, ptype, sink, nparams, mode):
    """one factory function for one state of the registered pool"""
    m = fn.m
    name = ("param", 1)
    args = {n: ("param", n) for n in range(1, nparams + 1)}
    pool = {"none": ("null",), "same": ("pool",), "other": ("pool",)}[mode] if not sync else None
    s = Make(fn, args, pool, {"same": ptype, "other": "other type"}.get(mode))
    s.run()
    n = 0
    for k, a, i, exc, val, st in s.exits:
        if k == "noreturn":
            continue
        if k != "ret":
            s.bad("an exception of the registry leaves the factory", i, st)
            continue
        n += 1
        log = a[1]
        made = [e for e in log if e[0] == "made"]
        sinks = [e for e in made if "::sinks::" in e[1].split("<")[0]]
        logs = [e for e in made if e[1] in ("learnlog::logger", "learnlog::async_logger")]
        pools = [e for e in made if e[1].startswith(B) and e[1].endswith("_thread_pool")]
        regs = [e[1][0] for e in log if e[0] == "register_thread_pool"]
        inits = [e for e in log if e[0] in ("initialize_logger", "register_logger")]
        err = None
        if len(sinks) != 1 or not right_sink(sinks[0][1], sink):
            err = "makes %s instead of one sink of type %s" % ([x[1] for x in sinks] or "no sink", sink)
        elif not same_args(sinks[0][2], nparams):
            err = "the sink's parameters are not those given, in order"
        elif len(logs) != 1 or logs[0][1] != ("learnlog::logger" if sync else "learnlog::async_logger"):
            err = "makes %d logger(s) of type %s" % (len(logs), [x[1] for x in logs])
        elif logs[0][2][:2] != (name, sinks[0]):
            err = "the logger does not get the given name and the new sink"
        elif [e[0] for e in inits] != ["initialize_logger"] or inits[0][1][0] != logs[0]:
            err = "the new logger is not initialised by the registry exactly once"
        elif s.st.get(a[0], ("arg", 0)) != logs[0]:
            err = "does not return the new logger"
        elif sync:
            if pools or regs:
                err = "a synchronous factory touches the thread pool"
        else:
            want = logs[0][2][2] if len(logs[0][2]) > 2 else None
            if mode == "same":
                if regs:
                    err = "the pool in use is replaced although it is of the right type"
                elif want != ("pool",):
                    err = "the logger does not use the registered pool"
            else:
                if len(regs) != 1:
                    err = "%d thread pools are registered" % len(regs)
                elif regs[0] not in pools or regs[0][1] != ptype:
                    err = "the pool registered is not a new one of the factory's type"
                elif want != regs[0]:
                    err = "the logger does not use the registered pool"
                elif mode == "none" and regs[0][2]:
                    err = "the first pool is not made with the default sizes"
                elif mode == "other" and regs[0][2] != (("message_queue_size", ("pool",)), ("threads_size", ("pool",))):
                    err = "the new pool does not take over the sizes of the old one"
                elif log.index(("register_thread_pool", (regs[0],))) > log.index(inits[0]):
                    err = "the pool is replaced after the logger was registered"
        if err:
            s.bad(err, i, st)
    if not n and not s.violations:
        s.violations.append(("no path returns a logger", None, []))
    rep.sim(s, "factory", "%s, %s" % (what, {"none": "no pool registered", "same": "pool of the same type registered",
                                              "other": "pool of another type registered", "": "synchronous"}[mode]))


def same_args(vals, nparams):
    want = []
    for x in range(2, nparams + 1):
        want.append({("param", x), ("argv", x)})
    return len(vals) == len(want) and all(v in w for v, w in zip(vals, want))


def p30(rep):
    m = get_model()
    rep.explanation = ("every factory function (each sink type, mt and st, each factory class, and the generic create functions) is simulated for each "
                       "state of the registered pool; what is made, with which arguments, tied to what, and what is returned must be right on every path")
    n = 0
    for f in m.some(r"^vdrv::(fa|cr)_"):
        nm = m.name(f.mangled).split("(")[0].split("::")[-1]
        k = re.match(r"fa_(\w+?)__(\w+?)_(mt|st)$", nm)
        if k:
            fac, sn, mt = k.groups()
            key = sn + "_" + mt
        else:
            fac, key = nm[3:], "basic_file_mt"
        if key.rsplit("_", 1)[0] not in KIND:
            raise AnalysisBroken("no sink type known for " + nm)
        sync = fac == "sync"
        ptype = None if sync else B + fac + "_thread_pool"
        rep.fn(f)
        for mode in ([""] if sync else ["none", "same", "other"]):
            factory_case(rep, f, nm, sync, ptype, key, len(f.args) - 1, mode)
            n += 1
    rep.check(n >= 100, "coverage", "factories", "all factories are analysed", "only %d factory cases were found" % n)


# ------------------------------------------------------------------------------------------------ P31
def p31(rep):
    m = get_model()
    S = Shape(m)
    rep.explanation = ("replacing, releasing and looking up the registered thread pool is simulated on an abstract registry with synchronous and "
                       "asynchronous loggers")
    NEW = ("N",)
    f = m.one(r"^%s::register_thread_pool\(" % REG)

    cases = []
    dn = [("elem", n) for n in range(len(RS(f, S, {}).trav))]
    for asy in (1, 0):
        for d in [("D",), ("null",)] + dn:
            for old in (("TP0",), ("null",)):
                for new in (NEW, ("null",)):
                    cases.append({"label": "loggers are %s, %s default logger, %s -> %s" % (
                        "asynchronous" if asy else "synchronous", {"D": "separate", "null": "no", "elem": "registered"}[d[0]],
                        "pool" if old[0] == "TP0" else "no pool", "pool" if new is NEW else "no pool"), "asy": asy, "d": d, "new": new,
                        "rs": dict(args={1: new}, default=d, is_async=asy, pool=old)})

    def ex(c, k, r):
        if k != "ret":
            return "fails"
        if r.fld(S.pool) != c["new"] and not (c["new"] == ("null",) and r.fld(S.pool) == ("moved", ("null",))):
            return "the given pool is not the registered one afterwards"
        if r.ent != ("E",) and r.others != "cleared" and not (c["asy"] and r.ent == ("absent",)):
            return "a single entry is changed"
        a = r.applied()
        if c["asy"]:
            if a is not None and a != [("erase", ())] or r.others != "same":
                return "asynchronous loggers of the old pool stay registered" if a is not None and ("erase", ()) not in a else "other entries are changed"
            if r.default != ("null",):
                return "the default logger stays although its pool is gone"
        else:
            if r.others != "same" or a and ("erase", ()) in a:
                return "synchronous loggers are removed"
            if r.default != c["d"]:
                return "a synchronous default logger is removed"
        return None
    judge(rep, f, S, "pool replacement", "register_thread_pool", cases, ex)
    f = m.one(r"^%s::get_thread_pool\(" % REG)
    judge(rep, f, S, "pool lookup", "get_thread_pool", [{"label": "any registry", "rs": dict(args={})}],
          lambda c, k, r: None if k == "ret" and r.at(("arg", 0)) == ("TP0",) and r.fld(S.pool) == ("TP0",) else "does not return the registered pool")
    f = m.one(r"^%s::close_registry\(" % REG)
    judge(rep, f, S, "close", "close_registry", [{"label": "any registry", "rs": dict(args={}, default=("D",))}],
          lambda c, k, r: "fails" if k != "ret" else "the registry keeps the thread pool" if r.fld(S.pool) not in (("null",), ("moved", ("TP0",))) else
          "loggers stay registered" if r.others != "cleared" or r.default != ("null",) else
          "the periodic flusher is not stopped" if r.fld(S.flusher) != ("null",) else None)
    for p in POOLS:
        f = rep.fn(m.one(r"^vdrv::tp_init_%s\(" % p[:-len("_thread_pool")]))
        s = Make(f, {}, None, None)
        s.run()
        for k, a, i, exc, val, st in s.exits:
            if k != "ret":
                continue
            made = [e for e in a[1] if e[0] == "made"]
            regs = [e[1][0] for e in a[1] if e[0] == "register_thread_pool"]
            if len(regs) != 1 or regs[0] not in made or regs[0][1] != B + p:
                s.bad("does not register one new %s" % p, i, st)
            elif regs[0][2] != (("argv", 0), ("argv", 1)):
                s.bad("the pool is not made with the given queue size and number of threads", i, st)
        rep.sim(s, "pool creation", "initialize_thread_pool<%s>" % p)


PROPERTIES = {"P30": p30, "P31": p31}
