"""Values held by shared_ptr and string objects: a small store carried in the automaton of a property simulation."""
from lib import *
from sim import is_sym

SP = re.compile(r"^std::(__)?shared_ptr::(~?(__)?shared_ptr|operator=|reset|swap)$")
STR = re.compile(r"^std::(__cxx11::)?basic_string::(basic_string|operator=|assign|swap|clear)$")


def addr(sim, o, env):
    """address operand as a key: the symbolic pointer when there is one, else the term"""
    v = sim.val(o, env)
    return v if is_sym(v) else sim.resolve(o, env)


def off(a, k):
    if is_sym(a):
        return ("s", a[1], a[2] + k)
    return a if k == 0 else (("addr", a[1], a[2] + k, a[3]) if a[0] == "addr" else ("addr", a, k, ()))


def own_event(fn, sim, i, env):
    """('copy'|'move', dst, src) | ('null', dst) | ('set', dst, value) | ('swap', a, b) | None for a call on a shared_ptr or a string"""
    if not i.callee:
        return None
    nb = fn.m.nbase(i.callee)
    k = SP.match(nb)
    if k:
        what = k.group(2)
        if what.startswith("~"):
            return ("drop", addr(sim, i.args[0], env))
        d = addr(sim, i.args[0], env)
        if what == "swap":
            return ("swap", d, addr(sim, i.args[1], env))
        if len(i.args) == 1 or what == "reset" and len(i.args) == 1:
            return ("null", d)
        pretty = fn.m.name(i.callee)
        if "nullptr_t" in pretty.rsplit("(", 1)[-1]:
            return ("null", d)
        if what == "reset":
            return ("set", d, ("?",))
        return ("move" if pretty.rstrip().endswith("&&)") else "copy", d, addr(sim, i.args[1], env))
    if nb.startswith("llvm.memcpy") or nb.startswith("llvm.memmove"):
        return ("copy", addr(sim, i.args[0], env), addr(sim, i.args[1], env))
    k = STR.match(nb)
    if k:
        what = k.group(2)
        d = addr(sim, i.args[0], env)
        if what == "clear":
            return ("set", d, ("?",))
        pretty = fn.m.name(i.callee)
        params = pretty[pretty.rindex("("):] if "(" in pretty else ""
        if what == "swap":
            return ("swap", d, addr(sim, i.args[1], env))
        if len(i.args) == 2 and re.search(r"basic_string<.*> ?(const)?&&?\)$", params) or len(i.args) == 2 and re.search(r"\((std::.*basic_string.*) const&\)$", params):
            return ("move" if params.endswith("&&)") else "copy", d, addr(sim, i.args[1], env))
        if len(i.args) >= 2:
            t = fn.term(i.args[1])
            # c_str()/data() of another string
            j = fn.instr_of(t) if t[0] == "call" else None
            if j is not None and j.callee and re.search(r"basic_string::(c_str|data)$", fn.m.nbase(j.callee)):
                return ("copy", d, addr(sim, j.args[0], env))
            lit = fn.m.string_at(t)
            return ("set", d, ("lit", lit) if lit is not None else ("?",))
        return ("set", d, ("lit", ""))
    return None


class Store:
    """immutable mapping address -> value with rule-supplied defaults"""

    def __init__(self, default):
        self.default = default

    def get(self, st, a):
        for k, v in st:
            if k == a:
                return v
        return self.default(st, a)

    def put(self, st, a, v):
        return frozenset([(k, x) for k, x in st if k != a] + [(a, v)])

    def drop(self, st, a):
        return frozenset([(k, x) for k, x in st if k != a])

    def apply(self, st, e):
        op = e[0]
        if op == "copy":
            return self.put(st, e[1], self.strip(self.get(st, e[2])))
        if op == "move":
            v = self.get(st, e[2])
            st = self.put(st, e[2], ("moved", v if v is None or v[0] != "moved" else v[1]))
            return self.put(st, e[1], v)
        if op == "null":
            return self.put(st, e[1], ("null",))
        if op == "set":
            return self.put(st, e[1], e[2])
        if op == "swap":
            a, b = self.get(st, e[1]), self.get(st, e[2])
            return self.put(self.put(st, e[1], b), e[2], a)
        if op == "drop":
            if root_of(e[1])[0] == "alloca":
                return self.drop(st, e[1])
            return st
        return st

    @staticmethod
    def strip(v):
        return v
