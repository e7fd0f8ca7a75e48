"""The registry: names, global and per-name settings, thread pool replacement, factories."""
from lib import *
from model import AnalysisBroken
from sim import is_sym
from rules._fanout import Fan, totals
from rules._own import *
import model as _model

REG = "learnlog::base::registry"
K = ("K",)
END = ("s", ("end",), 0)


def sym(v):
    return ("s", v, 0)


class Shape:
    """where the registry keeps what, found through its public interface"""

    def __init__(self, m):
        self.m = m
        R = Roles(m)
        self.R = R
        self.map = R.by_type(REG, r"^std::unordered_map<.*logger")[1]
        self.default = R.by_type(REG, r"^std::shared_ptr<learnlog::logger>$|logger_shr_ptr$")[1]
        self.fmt = R.by_type(REG, r"unique_ptr<learnlog::sinks::formatter|formatter_uni_ptr")[1]
        self.pat = R.by_type(REG, r"^std::(__cxx11::)?(basic_)?string")[1]
        self.pool = R.by_type(REG, r"shared_ptr<learnlog::base::thread_pool>|thread_pool_shr_ptr")[1]
        self.flusher = R.by_type(REG, r"periodic_function")[1]
        self.level = self.setter_field("set_global_log_level")
        self.flush = self.setter_field("set_global_flush_level")
        self.auto = self.setter_field("set_auto_register_logger")
        self.name_off = R.field_off(R.name[0], R.name[1])

    def setter_field(self, nm):
        f = self.m.one(r"^%s::%s\(" % (REG, nm))
        hit = set()
        for i in f.instrs():
            if i.op == "store":
                t = f.term(i.d["v"])
                while t[0] == "cast":
                    t = t[4]
                if t == ("arg", 1):
                    for c, fl, r, tt in f.chain(f.term(i.d["p"])):
                        if c == REG and r == 0:
                            hit.add(fl)
        if not hit:
            hit = set(self.given_to(nm.replace("global_", "")))
        if len(hit) != 1:
            raise AnalysisBroken("registry::%s stores its argument in %d members" % (nm, len(hit)))
        return hit.pop()

    def given_to(self, setter):
        """member whose value a logger gets by this setter when it is initialised"""
        f = self.m.one(r"^%s::initialize_logger\(" % REG)
        for i in f.calls():
            if i.callee and self.m.nbase(i.callee) == "learnlog::logger::" + setter and len(i.args) > 1:
                t = f.term(i.args[1])
                while t[0] == "cast":
                    t = t[4]
                if t[0] == "load":
                    for c, fl, r, tt in f.chain(t[1]):
                        if c == REG and r == 0:
                            yield fl


class RS(Fan):
    """simulates one registry operation; the automaton's extra state is (values of objects, log of setter calls, others)"""

    def __init__(self, fn, S, args, present=True, default=("null",), names=None, auto=1, scalars=None, is_async=0, pool=("TP0",), init=None):
        self.init = init or {}
        self.S, self.args, self.present, self.default_v, self.names = S, args, present, default, names or {}
        self.auto_flag, self.scalars, self.async_, self.pool_v = auto, scalars or {}, is_async, pool
        self.m = fn.m
        self.fld = {}
        self.st = Store(self.dflt)
        super().__init__(fn, self.cont_ok, self.classify, self.orc, self.throws_, self.other_)
        self.opaque = frozenset(t.phi.id for t in self.trav if t.phi is not None)

    # ---------------------------------------------------------------- addresses
    def field(self, a):
        """registry member an address denotes exactly"""
        if is_sym(a) or not isinstance(a, tuple):
            return None
        if a in self.fld:
            return self.fld[a]
        r = None
        for c, f, rest, t in self.fn.chain(a):
            if c == REG and rest == 0:
                r = f
                break
        self.fld[a] = r
        return r

    def is_map(self, a):
        return self.field(a) == self.S.map

    def cont_ok(self, fn, cont):
        return self.is_map(cont) or root_of(cont)[0] == "alloca" and cont[0] == "alloca"

    def canon(self, a):
        if is_sym(a):
            if a == ("s", ("slot", K), 0) or a[1] == ("node", K) and a[2] == 40:
                return ("ent",)
        f = self.field(a) if isinstance(a, tuple) and a and a[0] == "addr" else None
        if f is not None:
            return ("fld", f)
        return a

    def dflt(self, st, a):
        S = self.S
        if a == ("ent",):
            return ("E",) if self.present else ("absent",)
        if a[0] == "fld" and a[1] in self.init:
            return self.init[a[1]]
        if a[0] == "fld":
            return {S.default: self.default_v, S.fmt: ("G0",), S.pat: ("pat0",), S.level: ("lvl0",), S.flush: ("flv0",),
                    S.pool: self.pool_v, S.flusher: ("F0",)}.get(a[1])
        if a[0] == "arg":
            return self.args.get(a[1])
        if is_sym(a):
            o, k = a[1], a[2]
            if o == ("node", K) and k == 8:
                return K
            if k == S.name_off:
                return self.name_of(o)
            return None
        for n, t in enumerate(self.trav):
            if t.kind == "map":
                if a == t.elem:
                    return ("key", n)
                if a == off(t.elem, 32):
                    return ("elem", n)
            if t.kind == "vec" and a == t.elem:
                return ("elem", n)
        return None

    def name_of(self, o):
        if o in self.names:
            return self.names[o]
        return ("name", o)

    def get(self, st, a):
        return self.st.get(st, self.canon(a))

    def put(self, st, a, v):
        return self.st.put(st, self.canon(a), v)

    def X(self, sim):
        return sim.auto[5]

    # ---------------------------------------------------------------- values
    def to_val(self, v):
        if v is None or v == ("?",):
            return None
        if v in (("null",), ("absent",)) or v[0] == "moved":
            return 0
        return sym(v)

    def orc(self, sim, t, env):
        x = self.X(sim)
        if t[0] == "load":
            a = t[1]
            f = self.field(a) if not is_sym(a) else None
            if f == self.S.auto:
                v = self.get(x[0], a)
                return self.auto_flag if v is None else v[1] if v[0] == "int" else sym(v)
            return self.to_val(self.get(x[0], a))
        if t[0] == "arg":
            v = self.scalars.get(t[1])
            return sym(v) if v is not None else None
        if t[0] == "call":
            i = self.fn.instr_of(t)
            if i is None:
                return None
            if not i.callee:
                return None
            nb = self.m.nbase(i.callee)
            if nb.startswith("std::unordered_map::") and i.args and self.is_map(sim.resolve(i.args[0], env)):
                op = nb.split("::")[-1]
                if op in ("end", "cend"):
                    return END
                if op in ("find", "count", "operator[]", "at"):
                    k = self.get(x[0], addr(sim, i.args[1], env))
                    ent = self.get(x[0], ("ent",))
                    if k == K:
                        if op == "find":
                            return END if ent == ("absent",) else ("s", ("node", K), 0)
                        if op == "count":
                            return int(ent != ("absent",))
                        return ("s", ("slot", K), 0)
                    if op in ("operator[]", "at"):
                        return ("s", ("slot", k), 0)
                return None
            if nb == "operator new":
                return sym(("new", i.id))
            if nb.endswith("logger::is_async"):
                return self.async_
            if re.search(r"basic_string::compare$", nb):
                r = self.same(self.get(x[0], addr(sim, i.args[0], env)), self.get(x[0], addr(sim, i.args[1], env)))
                return None if r is None else 0 if r else NN
            if re.search(r"basic_string::(size|length|data|c_str)$", nb):
                v = self.get(x[0], addr(sim, i.args[0], env))
                return ("o", nb.split("::")[-1][:1] in "sl", v) if v is not None else None
            if nb in ("memcmp", "strcmp", "bcmp"):
                a, b = (sim.val(o, env) for o in i.args[:2])
                if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == b[0] == "o":
                    r = self.same(a[2], b[2])
                    return None if r is None else 0 if r else NN
            return None
        if t[0] == "ev" and t[1][0] == "call":
            return {("int", 0): 0, ("int", 1): 1}.get(self.st.get(x[0], ("res", t[1][2]))) if t[2] == (1,) else \
                ("s", ("node", K), 0) if self.st.get(x[0], ("res", t[1][2])) else None
        if t[0] == "icmp" and t[1] in ("eq", "ne"):
            # equality of the sizes of two strings
            a, b = t[2], t[3]
            if a[0] == b[0] == "o":
                r = self.same(a[2], b[2])
                return int(t[1] == "eq") if r else None
            if a[0] == "o" and b == ("const", 0) and a[1]:
                # only looked at for strings of the same length, which differ or not: an empty one would be equal
                return int(t[1] == "ne")
        return None

    def same(self, x, y):
        """equality of two strings' values: True, False or None"""
        if x is None or y is None:
            return None
        if x == y:
            return True
        if {x, y} <= {K, ("other",)} or {x, y} <= {("pat0",), ("argstr",)}:
            return False
        return None

    # ---------------------------------------------------------------- events
    def throws_(self, sim, i, env):
        if is_direct(self.fn, i, "learnlog::throw_learnlog_excpt"):
            return (STD,)
        if is_direct(self.fn, i, "learnlog::base::registry::register_logger"):
            return (STD,) if self.get(self.X(sim)[0], ("ent",)) != ("absent",) else ()
        return ()

    def classify(self, sim, i, env):
        x = self.X(sim)
        st = x[0]
        if i.op == "store":
            v = sim.val(i.d["v"], env)
            a = addr(sim, i.d["p"], env)
            if is_sym(v):
                return [("put", a, v[1])]
            f = self.field(a)
            if v == 0 and (f is not None or self.get(st, a) is not None):
                return [("put", a, ("null",) if f != self.S.auto else ("int", 0))]
            if f is not None:
                return [("put", a, ("int", v) if isinstance(v, int) else ("?",))]
            return ()
        if not i.is_call:
            return ()
        if not i.callee:
            c = describe(self.fn, i)
            if c.kind == "v" and c.name == "clone" or self.fn.m.vmethod(self.fn, i) and i.d.get("sret"):
                if c.cls.endswith("formatter"):
                    o = sim.val(i.args[1] if i.d.get("sret") else i.args[0], env)
                    return [("put", addr(sim, i.args[0], env), ("clone", o[1] if is_sym(o) else None))]
            k = logger_call(self.fn, i)
            if k in ("flush", "deliver"):
                return self.on_logger(sim, i, env, k, ())
            return ()
        nb = self.m.nbase(i.callee)
        if nb.startswith("std::unordered_map::") and i.args:
            a0 = sim.resolve(i.args[0], env)
            if self.is_map(a0):
                return self.map_op(sim, i, env, nb.split("::")[-1])
        e = own_event(self.fn, sim, i, env)
        if e is not None:
            return [("own",) + e]
        if re.match(r"learnlog::sinks::pattern_formatter::pattern_formatter$", nb) and len(i.args) > 1:
            o = sim.val(i.args[0], env)
            if is_sym(o):
                return [("put", o, ("pf", self.get(st, addr(sim, i.args[1], env))))]
            return ()
        if nb.startswith("learnlog::logger::set_"):
            return self.on_logger(sim, i, env, nb.split("::")[-1], i.args[1:])
        if nb == "learnlog::logger::flush":
            return self.on_logger(sim, i, env, "flush", ())
        if nb == "std::function::operator()":
            v = self.get(st, addr(sim, i.args[1], env)) if len(i.args) > 1 else None
            return [("user", v)]
        if nb.startswith(REG + "::"):
            return [("self", nb.split("::")[-1], tuple(self.get(st, addr(sim, a, env)) for a in i.args[1:]))]
        if nb == "learnlog::throw_learnlog_excpt":
            return [("throw",)]
        if re.match(r"std::vector::(push_back|emplace_back)$", nb):
            v = self.get(st, addr(sim, i.args[1], env)) if len(i.args) > 1 else None
            return [("push", sim.resolve(i.args[0], env), v)]
        if re.match(r"std::vector::(clear|erase|pop_back|resize|assign)$", nb):
            return [("push", sim.resolve(i.args[0], env), None)]
        return ()

    def on_logger(self, sim, i, env, what, args):
        o = sim.val(i.args[0], env)
        st = self.X(sim)[0]
        vals = []
        for a in args:
            v = sim.val(a, env)
            if is_sym(v):
                held = self.get(st, v)
                vals.append(held if held is not None and v[2] == 0 and v[1][0] not in ("argv", "lvl0", "flv0") else v[1])
            else:
                vals.append(self.get(st, sim.resolve(a, env)))
        return [("logger", what, o[1] if is_sym(o) and o[2] == 0 else None, tuple(vals))]

    def map_op(self, sim, i, env, op):
        st = self.X(sim)[0]
        if op == "erase":
            v = sim.val(i.args[1], env)
            if is_sym(v) and v[1] == ("node", K):
                return [("erase", K, i)]
            t = sim.resolve(i.args[1], env)
            for n, tr in enumerate(self.trav):
                if tr.kind == "map" and t == tr.phi_term():
                    return [("erase", ("key", n), i)]
            return [("erase", self.get(st, addr(sim, i.args[1], env)), i)]
        if op == "clear":
            return [("clear",)]
        if op in ("operator[]",):
            k = self.get(st, addr(sim, i.args[1], env))
            return [("slot", k)]
        if op in ("emplace", "insert", "try_emplace", "insert_or_assign"):
            if len(i.args) == 2:        # a pair
                p = addr(sim, i.args[1], env)
                k, v = self.get(st, p), self.get(st, off(p, 32))
            elif len(i.args) >= 3:
                k, v = self.get(st, addr(sim, i.args[1], env)), self.get(st, addr(sim, i.args[2], env))
            else:
                k = v = None
            return [("insert", op, k, v, i)]
        if op in ("operator=", "swap", "merge", "extract"):
            return [("touch", op)]
        return ()

    def other_(self, a, e, i):
        cur, evs, pend, its, done, x = a
        st, log, oth = x
        if e[0] == "threw":
            return a
        k = e[0]
        if k == "put":
            st = self.put(st, e[1], e[2])
        elif k == "own":
            e2 = tuple([e[1]] + [self.canon(y) if n < 2 and isinstance(y, tuple) else y for n, y in enumerate(e[2:])])
            if e2[0] in ("set", "null", "drop"):
                e2 = (e2[0], e2[1]) + tuple(e[3:])
            if e2[0] != "drop" and is_sym(e2[1]) and e2[1][1][0] == "slot":
                oth = "touched"
            if e2[0] in ("copy", "move") and e2[1] == ("ent",) and cur >= 0:
                oth = "touched"
            st = self.st.apply(st, e2)
        elif k == "logger":
            if cur >= 0 and e[2] == ("elem", cur):
                evs = evs + ((e[1], e[3]),)
                if len(evs) > 6:
                    raise Bad("an operation is applied repeatedly to one logger")
            else:
                log = log + ((e[1], e[2], e[3]),)
                if len(log) > 12:
                    raise Bad("an operation is applied to one logger again and again")
        elif k == "user":
            if cur >= 0 and e[1] == ("elem", cur):
                evs = evs + (("callback", ()),)
            else:
                log = log + (("callback", e[1], ()),)
        elif k == "push":
            if cur >= 0 and e[2] in (("elem", cur), ("key", cur)) and e[1][0] == "alloca":
                evs = evs + (("snap", e[1], e[2][0]),)
            elif e[1][0] == "alloca":
                st = self.st.put(st, ("spoilt", e[1]), ("int", 1))
        elif k == "erase":
            if e[1] == K:
                st = self.st.put(st, ("ent",), ("absent",))
            elif cur >= 0 and e[1] in (("key", cur), ("elem", cur)):
                evs = evs + (("erase", ()),)
            else:
                oth = "touched"
        elif k == "clear":
            st = self.st.put(st, ("ent",), ("absent",))
            oth = "cleared"
        elif k == "slot":
            if e[1] == K:
                if self.st.get(st, ("ent",)) == ("absent",):
                    st = self.st.put(st, ("ent",), ("null",))
            else:
                oth = "touched"
        elif k == "insert":
            op, key, v, j = e[1:5]
            if key != K:
                oth = "touched"
            else:
                free = self.st.get(st, ("ent",)) == ("absent",)
                if free or op == "insert_or_assign":
                    st = self.st.put(st, ("ent",), v if v is not None else ("?",))
                st = self.st.put(st, ("res", j.id), ("int", int(free)))
        elif k == "touch":
            oth = "touched"
        elif k == "self":
            if e[1] == "register_logger":
                st = self.st.put(st, ("ent",), e[2][0] if e[2] and e[2][0] else ("?",))
            elif e[1] == "remove_all":
                st = self.st.put(st, ("ent",), ("absent",))
                st = self.st.put(st, ("fld", self.S.default), ("null",))
                oth = "cleared"
            else:
                log = log + (("self:" + e[1], None, e[2]),)
        elif k == "throw":
            log = log + (("throw", None, ()),)
        return (cur, evs, pend, its, done, (st, log, oth))

    def _event(self, sim, i, env):
        return list(self.classify(sim, i, env))

    def _step(self, a, e, i):
        if e[0] == "threw":
            if e[1][0] == "throw":
                return self.other_(a, e[1], i)
            return a
        return self.other_(a, e, i)

    def fresh(self, c):
        """a local vector that starts out empty and is only filled by push_back"""
        if c[0] != "alloca":
            return False
        ok = False
        for i in self.fn.calls():
            if not i.callee or not i.args or self.fn.term(i.args[0]) != c:
                continue
            nb = self.m.nbase(i.callee)
            if nb == "std::vector::vector":
                if len(i.args) != 1:
                    return False
                ok = True
        return ok

    def go(self):
        # a collection of loggers from an earlier traversal: only those matter
        s = Fan.run(self, (frozenset(), (), "same"))
        return s

    # ---------------------------------------------------------------- result of a path
    def result(self, a):
        return Res(self, a)


class Res:
    def __init__(self, rs, a):
        self.rs = rs
        self.st, self.log, self.others = a[5]
        self.done = a[4]
        self.ent = rs.st.get(self.st, ("ent",))
        self.default = rs.st.get(self.st, ("fld", rs.S.default))

    def fld(self, f):
        return self.rs.st.get(self.st, ("fld", f))

    def at(self, a):
        return self.rs.get(self.st, a)

    def applied(self):
        """what is done to every registered logger, as one sequence; raises Bad when they are not all treated alike"""
        snaps = set()
        out = []
        for n, its in self.done:
            t = self.rs.trav[n]
            full = t.kind == "map" and self.rs.is_map(t.container)
            snap = t.kind == "vec" and t.container in snaps and self.rs.st.get(self.st, ("spoilt", t.container)) is None
            if not full and not snap:
                if t.kind == "vec" and self.rs.fresh(t.container) and self.rs.st.get(self.st, ("spoilt", t.container)) is None:
                    continue            # nothing was put into it on this path
                if its == "abandoned" or any(e for ev in its for e in ev if e[0] != "snap"):
                    raise Bad("a loop touches loggers that are not known to be all the registered ones")
                continue
            if its == "abandoned":
                raise Bad("the loop over the registered loggers is given up early")
            if not its:
                return None
            if len(its) != 1:
                raise Bad("registered loggers are treated differently")
            for e in next(iter(its)):
                if e[0] == "snap":
                    snaps.add(e[1])
                else:
                    out.append(e)
        return out


def judge(rep, fn, S, rule, what, cases, expect, **kw):
    """cases: list of dicts of RS parameters; expect(case, kind, res) -> error text or None"""
    rep.fn(fn)
    for c in cases:
        rs = RS(fn, S, **c["rs"])
        s = rs.go()
        seen = set()
        for k, a, i, exc, val, st in s.exits:
            if k == "noreturn":
                continue
            seen.add(k)
            try:
                msg = expect(c, k, Res(rs, a))
            except Bad as b:
                msg = str(b)
            if msg:
                s.bad("%s: %s" % (c["label"], msg), i, st)
        if not s.exits and not s.violations:
            s.violations.append(("%s: no path leaves the operation" % c["label"], None, []))
        rep.sim(s, rule, "%s, %s" % (what, c["label"]))


def arg_index(fn, k):
    """k-th parameter (0 = this) counting the hidden result parameter"""
    return k + (1 if fn.args and fn.args[0]["n"] == "agg.result" else 0)


# ------------------------------------------------------------------------------------------------ P15
def p15(rep):
    m = get_model()
    S = Shape(m)
    rep.explanation = ("each registry operation is simulated on an abstract registry (the entry of the name in question, all other entries, the "
                       "default logger) for every relevant initial state; the resulting registry, the returned value and the way the operation "
                       "ends must be what its contract says")
    P = ("P",)

    def reg_cases(**kw):
        return [{"label": "name %s" % ("taken" if p else "free"), "p": p, "rs": dict(args={1: P}, present=p, default=("D",),
                                                                                    names={P: K, ("E",): K}, **kw)} for p in (True, False)]

    def reg_expect(c, k, r):
        if r.others != "same":
            return "other entries are changed"
        if r.default != ("D",):
            return "the default logger is changed"
        if c["p"]:
            if k == "ret":
                return "an already used name is accepted"
            if r.ent != ("E",):
                return "the logger registered first is replaced or removed"
        else:
            if k != "ret":
                return "a free name is refused"
            if r.ent != P:
                return "the logger is not registered under its name"
    judge(rep, m.one(r"^%s::register_logger\(" % REG), S, "register", "register_logger", reg_cases(), reg_expect)
    f = m.one(r"^%s::initialize_logger\(" % REG)
    judge(rep, f, S, "register", "initialize_logger with automatic registration", reg_cases(auto=1), reg_expect)
    judge(rep, f, S, "register", "initialize_logger without automatic registration", reg_cases(auto=0),
          lambda c, k, r: "the logger is registered although automatic registration is off" if
          r.ent != (("E",) if c["p"] else ("absent",)) or r.others != "same" or r.default != ("D",) else
          "fails although nothing needs to be registered" if k != "ret" else None)
    # lookup
    f = m.one(r"^%s::get_logger\(" % REG)
    judge(rep, f, S, "lookup", "get_logger",
          [{"label": "registered" if p else "not registered", "p": p, "rs": dict(args={2: K}, present=p, default=("D",))} for p in (True, False)],
          lambda c, k, r: "fails" if k != "ret" else "the registry is changed" if (r.ent != (("E",) if c["p"] else ("absent",)) or r.others != "same" or
                                                                            r.default != ("D",)) else
          "returns something else than %s" % ("the registered logger" if c["p"] else "a null pointer")
          if r.at(("arg", 0)) != (("E",) if c["p"] else ("null",)) else None)
    # removal
    f = m.one(r"^%s::remove_logger\(" % REG)
    cases = []
    for p in (True, False):
        for d, nm in ((("null",), "no default logger"), (("D",), "default logger of that name"), (("D",), "default logger of another name")):
            same = "that name" in nm
            cases.append({"label": "%s, %s" % ("registered" if p else "not registered", nm), "d": d, "same": same,
                          "rs": dict(args={1: K}, present=p, default=d, names={("D",): K if same else ("other",), ("E",): K})})
    judge(rep, f, S, "remove", "remove_logger", cases,
          lambda c, k, r: "fails" if k != "ret" else "the entry is still there" if r.ent != ("absent",) else
          "other entries are changed" if r.others != "same" else
          "the default logger %s" % ("is not reset" if c["same"] else "is changed")
          if r.default != (("null",) if c["same"] else c["d"]) else None)
    # default logger
    f = m.one(r"^%s::get_default_logger\(" % REG)
    judge(rep, f, S, "default", "get_default_logger",
          [{"label": "set" if d == ("D",) else "not set", "d": d, "rs": dict(args={}, default=d)} for d in (("D",), ("null",))],
          lambda c, k, r: None if k == "ret" and r.at(("arg", 0)) == c["d"] and r.default == c["d"] else "does not return the default logger")
    f = m.one(r"^%s::set_default_logger\(" % REG)
    cases = [{"label": "%s, name %s" % ("a logger" if v == P else "a null pointer", "taken" if p else "free"), "v": v, "p": p,
              "rs": dict(args={1: v}, present=p, default=("D",), names={P: K, ("E",): K})} for v in (P, ("null",)) for p in (True, False)]
    judge(rep, f, S, "default", "set_default_logger", cases,
          lambda c, k, r: "fails" if k != "ret" else "other entries are changed" if r.others != "same" else
          "the default logger is not the given one" if r.default != c["v"] else
          "the new default logger is not registered under its name" if c["v"] == P and r.ent != P else
          "the registry is changed" if c["v"] != P and r.ent != (("E",) if c["p"] else ("absent",)) else None)
    f = m.one(r"^%s::remove_all\(" % REG)
    judge(rep, f, S, "remove", "remove_all", [{"label": "any registry", "rs": dict(args={}, default=("D",))}],
          lambda c, k, r: None if k == "ret" and r.ent == ("absent",) and r.others == "cleared" and r.default == ("null",) else
          "loggers or the default logger survive")
    front(rep, m)
    initial(rep, m, S)


FORWARD = ["initialize_logger", "register_logger", "set_auto_register_logger", "get_logger", "remove_logger", "get_default_logger",
           "set_default_logger", "set_global_pattern", "set_global_formatter", "set_pattern", "set_global_log_level", "set_log_level",
           "set_global_flush_level", "set_flush_level", "exec_all", "flush_all", "remove_all", "register_thread_pool", "get_thread_pool"]


def front(rep, m):
    """the free functions do what the registry's operation of the same name does, once, with their arguments"""
    for nm in FORWARD + ["close"]:
        f = rep.fn(m.one(r"^learnlog::%s\(" % nm))
        want = "%s::%s" % (REG, "close_registry" if nm == "close" else nm)
        sret = 1 if f.args and f.args[0]["n"] == "agg.result" else 0

        def ev(sim, i, env):
            if not i.is_call:
                return ()
            nb = m.nbase(i.callee) if i.callee else ""
            if nb.startswith(REG + "::") and nb != REG + "::instance":
                if nb != want:
                    return [("other", nb)]
                me = f.term(i.args[sret])
                j = f.instr_of(me) if me[0] == "call" else None
                if j is None or not is_direct(f, j, REG + "::instance"):
                    raise Bad("is not applied to the registry")
                for n, a in enumerate(i.args):
                    if n == sret:
                        continue
                    k = n if n < sret else n - 1
                    if not from_param(f, sim.resolve(a, env), k):
                        raise Bad("parameter %d is not passed on" % (k + 1 - sret))
                return [("call",)]
            return ()

        def step(a, e, i):
            if e[0] == "threw":
                e = e[1]
            if e[0] == "other":
                raise Bad("calls %s instead of %s" % (e[1], want))
            return a + 1
        s = Sim(f, None, ev, step, 0, lambda sim, i, env: ()).run()
        for k, a, i, exc, val, st in s.exits:
            if k == "ret" and a != 1:
                s.bad("%s is called %d times" % (want, a), i, st)
            if k == "ret" and not sret and f.d.get("rt") not in (None, "void"):
                pass
        rep.sim(s, "front end", "learnlog::%s forwards to the registry" % nm)


def from_param(f, t, k):
    """the address or value is parameter k, or a local copied or moved from it"""
    if t == ("arg", k) or t == ("load", ("arg", k)):
        return True
    while t[0] == "cast":
        t = t[4]
    if t == ("arg", k):
        return True
    if t[0] == "load":
        t = t[1]
    if t[0] == "alloca":
        for kind, o, src, i in writers(f, t):
            if kind == "copy" and src == ("arg", k):
                return True
            if kind == "store" and (src == ("arg", k) or src == ("load", ("arg", k))):
                return True
            if kind == "store" and src[0] == "load" and src[1] == ("arg", k):
                return True
            if kind == "call" and i.callee and len(i.args) >= 2 and f.term(i.args[0]) == t and f.term(i.args[1]) == ("arg", k) and \
                    re.search(r"::(basic_string|shared_ptr|unique_ptr|function|weak_ptr|operator=)$|^llvm\.memcpy", f.m.nbase(i.callee)):
                return True
    return False


def initial(rep, m, S):
    """a new registry: the default logger exists, is registered under its own name and automatic registration is on"""
    f = rep.fn(m.one(r"^%s::registry\(" % REG))
    made = [i for i in f.calls() if i.callee and re.match(r"std::(make_shared|allocate_shared)", m.nbase(i.callee)) and
            "learnlog::logger" in m.name(i.callee).split("(")[0]]
    rep.check(len(made) == 1, "initial state", f.where(), "exactly one logger is made for a new registry", "%d loggers are made" % len(made))
    if len(made) != 1:
        return
    mk = made[0]
    key = f.term(mk.args[1])

    class RS0(RS):
        def classify(self, sim, i, env):
            if i is mk:
                return [("put", sim.resolve(i.args[0], env), ("P",))]
            if i.is_call and i.callee and re.match(r"std::(__cxx11::)?basic_string::basic_string$", self.m.nbase(i.callee)) and \
                    sim.resolve(i.args[0], env) == key and not own_copy(self, sim, i, env):
                return [("put", key, K)]
            return RS.classify(self, sim, i, env)

        def dflt(self, st, a):
            if a == key:
                return K
            return RS.dflt(self, st, a)

    def own_copy(self, sim, i, env):
        e = own_event(self.fn, sim, i, env)
        return e is not None and e[0] in ("copy", "move")
    rs = RS0(f, S, args={}, present=False, default=("null",), names={("P",): K})
    s = rs.go()
    for k, a, i, exc, val, st in s.exits:
        if k == "ret":
            r = Res(rs, a)
            if r.default != ("P",):
                s.bad("a new registry has no default logger", i, st)
            elif r.ent != ("P",):
                s.bad("the default logger is not registered under its name", i, st)
            elif r.fld(S.auto) != ("int", 1):
                s.bad("automatic registration is not on initially", i, st)
    rep.sim(s, "initial state", "default logger registered")



# ------------------------------------------------------------------------------------------------ P16
def p16(rep):
    m = get_model()
    S = Shape(m)
    rep.explanation = ("each settings operation is simulated on an abstract registry; what is stored for later loggers and what is applied to every "
                       "registered logger, to the named logger and to the logger being initialised must be what the contract says")
    P, G0 = ("P",), ("G0",)
    V = ("argv", 1)

    def D(nm):
        """default logger apart from the others, or one of them"""
        f = m.one(r"^%s::%s\(" % (REG, nm))
        n = len(RS(f, S, {}).trav)
        return [("any registry", dict(default=("D",), present=True))] + \
            [("the default logger being one of those registered", dict(default=("elem", k), present=True)) for k in range(n)]
    base = {S.level: ("lvl0",), S.flush: ("flv0",), S.pat: ("pat0",), S.fmt: G0}

    def same_too(cases, field, v):
        """the stored global value is another one, or is the new one already"""
        return [(l, d) for l, d in cases] + [(l + ", the same value stored before", dict(d, init={field: v})) for l, d in cases[:1]]

    def others(r, but=()):
        if r.others != "same" or r.ent != ("E",) or r.default != r.rs.default_v:
            return "the set of registered loggers is changed"
        for f, v in base.items():
            if f not in but and r.fld(f) != v:
                return "%s is changed too" % f
        if any(e[0] != "throw" for e in r.log):
            return "single loggers are singled out"
        return None

    def glob(nm, field, setter):
        def ex(c, k, r):
            if k != "ret":
                return "fails"
            o = others(r, (field,))
            if o:
                return o
            if r.fld(field) != V:
                return "loggers created later do not get the new value"
            a = r.applied()
            return None if a is None or a == [(setter, (V,))] else "registered loggers get %s" % (a or "nothing")
        judge(rep, m.one(r"^%s::%s\(" % (REG, nm)), S, "global setting", nm,
              [{"label": l, "rs": dict(args={}, scalars={1: V}, **d)} for l, d in same_too(D(nm), field, V)], ex)
    glob("set_global_log_level", S.level, "set_log_level")
    glob("set_global_flush_level", S.flush, "set_flush_level")

    NP = ("argstr",)

    def gp(c, k, r):
        if k != "ret":
            return "fails"
        o = others(r, (S.pat, S.fmt))
        if o:
            return o
        if r.fld(S.pat) != NP:
            return "loggers created later do not get the new pattern"
        g = r.fld(S.fmt)
        if not (g and g[0] == "new" and r.at(("s", g, 0)) == ("pf", NP)):
            return "the formatter for loggers created later is not one for the new pattern"
        a = r.applied()
        if a is None:
            return None
        if a not in ([("set_pattern", (NP,))], [("set_pattern", (NP,)), ("set_formatter", (("clone", g),))]):
            return "registered loggers get %s instead of the new pattern" % (a or "nothing")
        return None
    judge(rep, m.one(r"^%s::set_global_pattern\(" % REG), S, "global setting", "set_global_pattern",
          [{"label": l, "rs": dict(args={1: NP}, **d)} for l, d in same_too(D('set_global_pattern'), S.pat, NP)], gp)

    U = ("U",)

    def gf(c, k, r):
        if k != "ret":
            return "fails"
        o = others(r, (S.fmt,))
        if o:
            return o
        if r.fld(S.fmt) != U:
            return "loggers created later do not get the new formatter"
        a = r.applied()
        return None if a is None or a == [("set_formatter", (("clone", U),))] else \
            "registered loggers get %s instead of an own copy of the new formatter" % (a or "nothing")
    judge(rep, m.one(r"^%s::set_global_formatter\(" % REG), S, "global setting", "set_global_formatter",
          [{"label": l, "rs": dict(args={1: U}, **d)} for l, d in D('set_global_formatter')], gf)

    def init(c, k, r):
        if k != "ret":
            return "fails"
        for f, v in base.items():
            if r.fld(f) != v:
                return "the global %s is changed" % f
        seq = [e for e in r.log if e[1] == P]
        for e in r.log:
            if e[1] != P and e[0] != "throw":
                return "another logger is changed"
        want = {"set_pattern": ("pat0",), "set_formatter": ("clone", G0), "set_log_level": ("lvl0",), "set_flush_level": ("flv0",)}
        got = [e[0] for e in seq]
        for n, v in want.items():
            hit = [e for e in seq if e[0] == n]
            if not hit:
                return "the new logger is not given the global value by %s" % n
            if hit[-1][2] != (v,):
                return "%s is called with something else than the global value" % n
        if max(n for n, g in enumerate(got) if g == "set_pattern") > max(n for n, g in enumerate(got) if g == "set_formatter"):
            return "the global formatter is replaced by one for the pattern"
        return None
    judge(rep, m.one(r"^%s::initialize_logger\(" % REG), S, "new loggers", "initialize_logger",
          [{"label": "automatic registration %s" % ("on" if a else "off"), "rs": dict(args={1: P}, present=False, default=("D",), auto=a, names={P: K})}
           for a in (1, 0)], init)

    def named(nm, args, scalars, val):
        def ex(c, k, r):
            if r.others != "same" or r.default != ("D",) or any(r.fld(f) != v for f, v in base.items()):
                return "other loggers or global settings are changed"
            lg = [e for e in r.log if e[0] != "throw"]
            if c["p"]:
                if k != "ret":
                    return "fails for a registered logger"
                return None if r.ent == ("E",) and lg == [(nm, ("E",), (val,))] else "the named logger is not (only) given the value"
            if k == "ret":
                return "an unknown name is not refused"
            return None if r.ent == ("absent",) and not lg else "something is changed although the name is unknown"
        judge(rep, m.one(r"^%s::%s\(" % (REG, nm)), S, "setting by name", nm,
              [{"label": "%s" % ("registered" if p else "not registered"), "p": p,
                "rs": dict(args=args, present=p, default=("D",), scalars=scalars)} for p in (True, False)], ex)
    named("set_log_level", {1: K}, {2: V}, V)
    named("set_flush_level", {1: K}, {2: V}, V)
    named("set_pattern", {1: K, 2: NP}, {}, NP)

    for nm, op, args in (("exec_all", ("callback", ()), {}), ("flush_all", ("flush", ()), {})):
        def ex(c, k, r, op=op):
            if k != "ret":
                return "fails"
            o = others(r)
            if o:
                return o
            a = r.applied()
            return None if a is None or a == [op] else "each registered logger gets %s instead of one %s" % (a or "nothing", op[0])
        judge(rep, m.one(r"^%s::%s\(" % (REG, nm)), S, "all loggers", nm, [{"label": l, "rs": dict(args={}, **d)} for l, d in D(nm)], ex)



PROPERTIES = {"P15": p15, "P16": p16}
