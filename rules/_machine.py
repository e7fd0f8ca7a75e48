"""A function as a machine over a finite abstract memory.

Locals and arguments are symbolic objects, memory cells ("s", object, offset) hold small integers, addresses or tokens, and calls are
given meaning by the rule.  The state is finite and carried in the automaton; paths are explored to a fixpoint.
"""
from lib import *
from model import AnalysisBroken
from sim import Sim, Bad, Prune, is_sym, NN

TRIVIAL = re.compile(r"^(llvm\.(lifetime|dbg|assume|experimental|eh|donothing|is\.constant|objectsize).*|std::(__new_)?allocator::.*|std::(__cxx11::)?basic_string::~basic_string|"
                     r"__cxa_(begin_catch|end_catch|free_exception|allocate_exception|get_exception_ptr)|__clang_call_terminate|std::(mutex|recursive_mutex)::(un)?lock)$")


def obj(o, off=0):
    return ("s", o, off)


class St(dict):
    """machine state: cells, results of calls and whatever the rule keeps"""

    def trace(self, *e):
        self["trace"] = self.get("trace", ()) + (e,)

    def freeze(self):
        return frozenset(self.items())

    def drop(self, o):
        for k in [k for k in self if isinstance(k, tuple) and len(k) == 3 and k[0] == "s" and k[1] == o]:
            del self[k]

    def copy_obj(self, d, s, n=None):
        src = {k: v for k, v in self.items() if isinstance(k, tuple) and len(k) == 3 and k[0] == "s" and k[1] == s[1] and k[2] >= s[2] and (n is None or k[2] < s[2] + n)}
        for k in [k for k in self if isinstance(k, tuple) and len(k) == 3 and k[0] == "s" and k[1] == d[1] and k[2] >= d[2] and (n is None or k[2] < d[2] + n)]:
            del self[k]
        for k, v in src.items():
            self[("s", d[1], d[2] + k[2] - s[2])] = v


class Call:
    """what a rule sees of a call"""
    __slots__ = ("i", "nb", "last", "vals", "keys", "name", "fn", "threw")

    def __init__(self, **k):
        for a, b in k.items():
            setattr(self, a, b)

    def __repr__(self):
        return "%s%r" % (self.nb, self.vals)


class Throw(Exception):
    """raised by a rule's call handler: this call leaves by an exception of the kind (std / other) on this path"""


class Machine:
    def __init__(self, m, f, args=(), st=None, call=None, load=None, store=None, term=None, throws=None, counting=40, max_states=30000, resolve=None, arith=None, cas=None, mutexes=False, strong=False):
        """call(st, c): effect of a call on st, its return value or None when unknown; load(st, addr): initial contents of a cell;
        store(st, addr, value, i): True when the rule dealt with it; term(sim, t): values of other terms; throws(st, c): kinds; cas(st, addr, expected, new, i): (old value,
        swapped) of a compare-and-exchange, its effect on st; mutexes: the rule sees them locked; strong: results of atomic operations are known"""
        self.m, self.f, self.args = m, f, list(args)
        self.rule_call, self.rule_load, self.rule_store, self.rule_term, self.rule_throws, self.resolve = call, load, store, term, throws, resolve
        self.rule_cas, self.mutexes, self.strong = cas, mutexes, strong
        self.n = 0
        self.cache = {}
        sim = Sim(f, self.oracle, self.event, self.step, St(st or {}).freeze(), self.may_throw, max_states=max_states)
        sim.counting = counting
        sim.arith = arith
        self.sim = sim
        try:
            sim.run()
        except AnalysisBroken:
            if not sim.violations:      # past a violation anything goes
                raise

    def thaw(self, fr):
        # the automaton is read far more often than it changes
        d = self.cache.get(fr)
        if d is None:
            if len(self.cache) > 2000:
                self.cache.clear()
            d = self.cache[fr] = St(fr)
        return d

    def oracle(self, sim, t, env):
        k = t[0]
        if k == "arg":
            return self.args[t[1]] if t[1] < len(self.args) else None
        if k == "alloca" and t[1] == self.f.mangled:
            return ("s", ("L", t[2]), 0)
        st = self.thaw(sim.auto)
        if k == "load":
            a = t[1] if is_sym(t[1]) else self.sym(sim, t[1], env)
            if a is not None:
                if a in st:
                    return st[a]
                if isinstance(a[1], tuple) and a[1][0] == "chars":
                    from rules._strings import charload
                    v = charload(a)
                    if v is not None:
                        return v
                if self.rule_load:
                    try:
                        v = self.rule_load(st, a)
                    except Bad as e:
                        v = None
                        if not any(x[0] == str(e) for x in sim.violations):
                            sim.violations.append((str(e), next(self.f.instrs()), []))
                    if v is not None:
                        return v
            if self.rule_term:
                return self.rule_term(st, t)
            return None
        if k == "addr":
            return self.sym(sim, t, env)
        if k == "call" and t[2] != sim.calling:
            v = st.get(("r", t[2]))
            if v is not None:
                return v
        if k == "rmw" and self.strong and t[2] != sim.calling:
            return st.get(("r", t[2]))
        if k == "ev" and self.rule_cas is not None and t[1][0] in ("cmpxchg", "call") and t[1][1] == self.f.mangled:
            v = st.get(("r", t[1][2]))
            return v[t[2][0]] if isinstance(v, tuple) and v and not is_sym(v) and v[0] != "o" and len(t[2]) == 1 and t[2][0] < len(v) else None
        if self.rule_term:
            return self.rule_term(st, t)
        return None

    def sym(self, sim, t, env):
        off = 0
        while isinstance(t, tuple) and t[0] == "addr" and not t[3]:
            off += t[2]
            t = t[1]
        if is_sym(t):
            return ("s", t[1], t[2] + off)
        if t[0] in ("arg", "alloca", "load", "global") or t[0] == "call":
            b = self.oracle(sim, t, env)
            return ("s", b[1], b[2] + off) if is_sym(b) else None
        return None

    def info(self, sim, i, env):
        m = self.m
        vals = [sim.val(a, env) for a in i.args]
        keys = [v if is_sym(v) else sim.resolve(a, env) for a, v in zip(i.args, vals)]
        callee = i.callee or (i.d["ind"][1] if i.d.get("ind") and i.d["ind"][0] == "f" else None)      # (an alias of a constructor)
        if callee is None and i.d.get("ind"):
            fv = sim.val(i.d["ind"], env)
            callee = fv[1] if isinstance(fv, tuple) and fv[0] == "fnp" else None        # the rule knows what is called
        if callee:
            nb = m.nbase(callee).replace("[abi:cxx11]", "")
        else:
            c = describe(self.f, i)
            nb = "virtual:%s::%s" % (strip_targs(c.cls or "?"), c.name or "?") if c.kind == "v" else "indirect"
        return Call(i=i, nb=nb, last=nb.split("::")[-1], vals=vals, keys=keys, name=m.name(callee) if callee else nb, fn=m.fn(callee) if callee else None, threw=None)

    def event(self, sim, i, env):
        if i.op == "store":
            a = sim.val(i.d["p"], env)
            if is_sym(a):
                v = sim.val(i.d["v"], env)
                if v is None:
                    t = sim.resolve(i.d["v"], env)
                    v = ("t", t) if t[0] in ("global", "fn") else None
                return [("store", a, v)]
            return ()
        if i.op == "rmw":
            a = sim.val(i.d["p"], env)
            return [("rmw", a, i.d["k"], sim.val(i.d["v"], env))] if is_sym(a) else ()
        if i.op == "cmpxchg" and self.rule_cas is not None:
            a = sim.val(i.d["p"], env)
            return [("cas", a, sim.val(i.d["x"], env), sim.val(i.d["y"], env))] if is_sym(a) else ()
        if i.is_call:
            return [("call", self.info(sim, i, env))]
        return ()

    def may_throw(self, sim, i, env):
        if self.rule_throws is None:
            return ()
        return self.rule_throws(self.thaw(sim.auto), self.info(sim, i, env)) or ()

    def step(self, au, e, i):
        if e[0] == "threw":
            if e[1][0] == "call" and self.rule_call is not None:
                st = St(au)
                c = e[1][1]
                c.threw = e[2]
                self.rule_call(st, c)
                return st.freeze()
            return au
        st = St(au)
        if e[0] == "store":
            if self.rule_store is not None and self.rule_store(st, e[1], e[2], i):
                return st.freeze()
            if e[2] is None:
                st.pop(e[1], None)
            else:
                st[e[1]] = e[2]
        elif e[0] == "rmw":
            old = st.get(e[1])
            if self.strong:
                if old is None and self.rule_load:
                    old = self.rule_load(st, e[1])
                if old is None:
                    st.pop(("r", i.id), None)
                else:
                    st[("r", i.id)] = old
                if self.rule_store is not None and self.rule_store(st, e[1], e[3] if e[2] == "xchg" else None, i):
                    return st.freeze()
                if e[2] == "xchg" and e[3] is not None:
                    st[e[1]] = e[3]
                    return st.freeze()
            else:
                st.trace("rmw", e[1], e[2], e[3])
            if isinstance(old, int) and isinstance(e[3], int) and e[2] in ("add", "sub"):
                st[e[1]] = old + e[3] if e[2] == "add" else old - e[3]
            else:
                st.pop(e[1], None)
        elif e[0] == "cas":
            r = self.rule_cas(st, e[1], e[2], e[3], i)
            if r is None:
                st.pop(("r", i.id), None)
            else:
                st[("r", i.id)] = r
        elif e[0] == "call":
            c = e[1]
            if TRIVIAL.match(c.nb) and not (self.mutexes and "mutex" in c.nb):
                return au
            if c.nb.startswith(("llvm.memcpy", "llvm.memmove")):
                if is_sym(c.vals[0]) and is_sym(c.vals[1]):
                    st.copy_obj(c.vals[0], c.vals[1], c.vals[2] if isinstance(c.vals[2], int) else None)
                elif is_sym(c.vals[0]):
                    st.drop(c.vals[0][1])
                if self.rule_call is not None:
                    self.rule_call(st, c)
                return st.freeze()
            if c.nb.startswith("llvm.memset"):
                if self.sim.arith is not None and is_sym(c.vals[0]) and c.vals[1] == 0 and isinstance(c.vals[2], int) and c.vals[2] <= 64:
                    for k in range(c.vals[2]):
                        st[("s", c.vals[0][1], c.vals[0][2] + k)] = 0
                    return st.freeze()
                return au
            r = None
            handled = False
            if self.rule_call is not None:
                r = self.rule_call(st, c)
                handled = r is not None
            if r is not None and r != "done":
                st[("r", i.id)] = r
            else:
                st.pop(("r", i.id), None)
            if not handled:
                for v in c.vals:
                    if is_sym(v) and isinstance(v[1], tuple) and v[1][0] == "L":
                        st.drop(v[1])
        return st.freeze()

    def exits(self, *kinds):
        """[(kind, return value, St, instr)]"""
        out = []
        for kind, au, i, exc, val, fr in self.sim.exits:
            if not kinds or kind in kinds:
                out.append((kind, val[0] if val else None, St(au), i))
        return out

    def bad(self):
        return self.sim.violations


def deep(x, f):
    if isinstance(x, tuple):
        if len(x) == 2 and x[0] == "L":
            return f(x)
        return tuple(deep(y, f) for y in x)
    return x


def nested(m, st, c, join=None, **k):
    """runs the callee of c on st as a machine of its own; its effect when it comes back in exactly one way, else None, or with join(key)
    giving the value of what differs between the ways it comes back"""
    if c.fn is None or len(st.get(("calls",), ())) > 4 or c.fn.mangled in st.get(("calls",), ()):
        return None
    up = lambda x: ("L", ("up", x[1]))
    down = lambda x: ("L", x[1][1]) if isinstance(x[1], tuple) and x[1][0] == "up" else ("L", ("gone", x[1]))
    sub = St({deep(a, up): deep(b, up) for a, b in st.items() if not (isinstance(a, tuple) and a and a[0] == "r")})
    sub[("calls",)] = st.get(("calls",), ()) + (c.fn.mangled,)
    M = Machine(m, c.fn, [deep(v, up) for v in c.vals], sub, **k)
    for msg, i, path in M.bad():
        raise Bad(msg)
    ex = M.exits("ret")
    ways = {(x[1], x[2].freeze()) for x in ex}
    if len(ways) != 1 and (join is None or not ways):
        return None
    v, new = ex[0][1], ex[0][2]
    if len(ways) > 1:
        v = v if len({w[0] for w in ways}) == 1 else None
        for a in {a for x in ex for a in x[2]}:
            if len({x[2].get(a) for x in ex}) > 1:
                j = join(a)
                if j is None:
                    new.pop(a, None)
                else:
                    new[a] = j
    rs = {a: b for a, b in st.items() if isinstance(a, tuple) and a and a[0] == "r"}
    old = st.get(("calls",))
    st.clear()
    for a, b in new.items():
        if isinstance(a, tuple) and a and a[0] == "r":
            continue
        a, b = deep(a, down), deep(b, down)
        if "'gone'" not in repr(a):
            st[a] = b
    st.update(rs)
    if old is None:
        st.pop(("calls",), None)
    else:
        st[("calls",)] = old
    return deep(v, down) if v is not None else "done"
