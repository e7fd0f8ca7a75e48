"""Lock events of a function: what is held at every instruction, on every path (exception edges included)."""
from lib import *
from model import AnalysisBroken
from sim import is_sym
from rules._own import addr, own_event, Store
from rules._throws import Throws

MUTEX = re.compile(r"^std::(recursive_|timed_|shared_|recursive_timed_|shared_timed_)?mutex$")
LOCK = re.compile(r"^std::(recursive_|timed_|shared_|recursive_timed_|shared_timed_)?mutex::(lock|unlock|try_lock|lock_shared|unlock_shared)$")
WAIT = re.compile(r"^std::condition_variable(_any)?::(wait|wait_for|wait_until|__wait_until_impl)$")


def mutex_field(fn, a):
    """(class, field) of the mutex an address denotes"""
    for c, f, r, t in fn.chain(a):
        if r == 0 and MUTEX.match(fn.m.tname(t)):
            return c, f
    return None


class LockNames:
    """the identity of mutexes: (class, field) of the mutex member, or the static object"""

    def __init__(self, m):
        self.m = m
        self.refs = {}
        self.throws = Throws(m)

    def key(self, fn, a):
        t = a
        while t[0] == "addr" and t[2] == 0 and not t[3]:
            t = t[1]
        if t[0] == "global":
            return ("static", self.m.globals.get(t[1], {}).get("d") or t[1])
        if root_of(a)[0] == "global" and a[0] in ("addr", "global"):
            return ("static", str(root_of(a)[1]))
        if t[0] == "load":
            ch = [x for x in fn.chain(t[1]) if x[2] == 0 and x[0].startswith("learnlog")]
            if ch and self.is_ref(ch[0]):
                return self.ref(ch[0][0], ch[0][1])
        k = mutex_field(fn, a)
        if k:
            return ("member",) + k
        return None

    def is_ref(self, x):
        return self.m.tname(x[3])[-1:] in "&*"

    def ref(self, cls, field):
        """a reference to a mutex: what the constructors bind it to"""
        if (cls, field) not in self.refs:
            got = set()
            base = strip_targs(cls)
            for f in self.m.some(r"^%s(<.*>)?::%s\(" % (re.escape(base), re.escape(base.split("::")[-1])), 0):
                for i in f.instrs():
                    if i.op == "store" and i.d.get("v"):
                        ch = [x for x in f.chain(f.term(i.d["p"])) if x[2] == 0]
                        if any(x[0] == cls and x[1] == field for x in ch):
                            v = f.term(i.d["v"])
                            got.add(self.key(f, v) if v[0] in ("global", "addr") and root_of(v)[0] == "global" else ("unknown", str(v)))
            self.refs[cls, field] = got.pop() if len(got) == 1 else ("member", cls, field)
        return self.refs[cls, field]


class Held:
    """locksets at every instruction of one function"""

    def __init__(self, names, fn, entry=frozenset(), may_throw=None, io=None, own=False):
        """io(fn, i): the instruction belongs to one indivisible action; own: follow which smart pointers are empty"""
        self.names = names
        self.fn = fn
        self.at = defaultdict(set)          # instr id -> set of locksets (frozenset of (key, address)) before it
        self.acquired = []                  # (key, instr, held before)
        self.unknown = []
        self.waits = []
        m = fn.m
        self.empty_at = defaultdict(set)
        store = Store(lambda st, a: ("init", a) if own else None)

        def ev(sim, i, env):
            self.at[i.id].add(sim.auto[0])
            if own and i.is_call:
                e = own_event(fn, sim, i, env)
                if e is not None:
                    v = store.get(sim.auto[2], e[1])
                    # nothing is destroyed: the pointer is empty, or another one still owns the same object
                    self.empty_at[i.id].add(v is not None and (v[0] in ("null", "moved") or v[0] == "init" and
                                                               any(x == v and k != e[1] for k, x in sim.auto[2])))
                    return [("own", e)]
            if io is not None and io(fn, i):
                return [("io",)]
            if i.is_call and i.callee:
                nb = m.nbase(i.callee)
                k = LOCK.match(nb)
                if k:
                    a = addr(sim, i.args[0], env)
                    key = names.key(fn, a) if not is_sym(a) else None
                    if key is None:
                        self.unknown.append(i)
                        key = ("?", str(a)[:80])
                    return [("lock" if "unlock" not in k.group(2) else "unlock", key, a, k.group(2))]
                if WAIT.match(nb):
                    return [("wait", i)]
            return ()

        def step(au, e, i):
            held, last, st = au
            if e[0] == "own":
                return (held, last, store.apply(st, e[1]))
            if e[0] == "io":
                if last == "out":
                    raise Bad("the lock is released and taken again in the middle of the action")
                return (held, "in", st)
            if e[0] == "lock":
                me = (e[1], e[2])
                if any(h == me for h in held):
                    raise Bad("locks a mutex it already holds: %s" % show(e[1]))
                self.acquired.append((e[1], i, held))
                return (held | {me}, last, st)
            if e[0] == "unlock":
                me = (e[1], e[2])
                if me not in held:
                    raise Bad("unlocks a mutex it does not hold: %s" % show(e[1]))
                return (held - {me}, "out" if last == "in" else last, st)
            if e[0] == "wait":
                self.waits.append((i, held))
            return au
        self.sim = Sim(fn, lambda sim, t, env: NN if t == ("arg", 0) else None, ev, step, (frozenset(entry), None, frozenset()), may_throw or (lambda sim, i, env: names.throws.of_call(fn, i))).run()
        for k, a, i, exc, val, st in self.sim.exits:
            if k in ("ret", "escape") and a[0] != frozenset(entry):
                self.sim.bad("a mutex is still locked when the function is left: %s" % ", ".join(show(h[0]) for h in a[0]), i, st)

    def keys(self, i):
        """locks held on every path to instruction i"""
        s = self.at.get(i.id)
        if not s:
            return None             # unreachable
        r = None
        for h in s:
            ks = {x for x in h}
            r = ks if r is None else r & ks
        return r


def show(k):
    return "%s::%s" % (k[1], k[2]) if k[0] == "member" else k[1] if len(k) > 1 else str(k)
