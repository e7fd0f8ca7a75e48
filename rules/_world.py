"""Transfer functions of member functions over a finite abstract store.

A world maps cells ("s", object, offset) to small integers or symbolic addresses and vectors to tuples of slot contents.  Applying a
function to a world and argument values gives the possible outcomes; calls between the analysed functions are applied in turn.
Only constants are propagated; a function whose control flow depends on anything else gives several outcomes.
"""
from lib import *
from sim import Sim, Bad, Prune, is_sym, NN

JUNK = ("junk",)


class Unknown(Exception):
    pass


class World:
    def __init__(self, cells=(), vecs=()):
        self.cells = dict(cells)
        self.vecs = dict(vecs)

    def freeze(self):
        return (frozenset(self.cells.items()), frozenset(self.vecs.items()))


def thaw(fr):
    return World(fr[0], fr[1])


VEC = re.compile(r"^std::vector::(~?vector|operator=|clear|resize|swap|assign|reserve|shrink_to_fit|at|size|empty|data|begin|end|front|back|operator\[\])$")
COND = re.compile(r"^(llvm\.(lifetime|dbg|assume|experimental).*|std::(__new_)?allocator::.*|std::vector::_M_range_check)$")


class Apply:
    def __init__(self, m, esz, inside, atomics=()):
        """esz: size of a vector element; inside(fn): apply this callee too"""
        self.m, self.esz, self.inside = m, esz, inside
        self.memo = {}
        self.depth = 0

    def __call__(self, f, args, fr):
        """[(kind, value, frozen world)]"""
        key = (f.mangled, tuple(args), fr)
        if key not in self.memo:
            self.depth += 1
            if self.depth > 8:
                raise Unknown("recursion")
            try:
                self.memo[key] = self.run(f, args, fr)
            finally:
                self.depth -= 1
        return self.memo[key]

    def run(self, f, args, fr):
        m = self.m

        def load(sim, a):
            w = sim.auto[0]
            for k, v in w[0]:
                if k == a:
                    return v
            for k, v in w[1]:
                if k == a:
                    return ("s", ("slots", a), 0)
                if is_sym(a) and a[1] == k[1] and a[2] in (k[2] + 8, k[2] + 16):
                    return ("s", ("slots", k), self.esz * len(v))
            return None

        def oracle(sim, t, env):
            if t[0] == "arg":
                return args[t[1]] if t[1] < len(args) else None
            if t[0] == "load" and is_sym(t[1]):
                return load(sim, t[1])
            if t[0] == "load":
                a = self.sym(sim, t[1], env)
                return load(sim, a) if a is not None else None
            if t[0] == "call":
                for k, v in sim.auto[1]:
                    if k == t[2]:
                        return v
            return None

        def event(sim, i, env):
            if i.op == "store":
                a = sim.val(i.d["p"], env)
                if is_sym(a):
                    return [("put", a, sim.val(i.d["v"], env))]
                return ()
            if not i.is_call:
                return ()
            if not i.callee:
                raise Bad("an indirect call the analysis cannot follow")
            nb = m.nbase(i.callee)
            vals = [sim.val(a, env) for a in i.args]
            g = m.fn(i.callee)
            if g is not None and self.inside(g):
                return [("in", g, tuple(vals))]
            k = VEC.match(nb)
            if k and vals and is_sym(vals[0]):
                return [("vec", k.group(1), tuple(vals), m.name(i.callee))]
            if nb.startswith("llvm.memcpy") or nb.startswith("llvm.memmove"):
                return [("copy", vals[0], vals[1], vals[2])]
            if nb.startswith("llvm.memset"):
                return [("set", vals[0], vals[1], vals[2])]
            if COND.match(nb):
                return ()
            return [("call", nb, tuple(vals), m.name(i.callee))]

        def step(au, e, i):
            if e[0] == "threw":
                return au
            w, rets = thaw(au[0]), dict(au[1])
            if e[0] == "put":
                if self.slot(w, e[1]) is not None:
                    self.assign(w, e[1], JUNK if e[2] is None else e[2], i)
                else:
                    w.cells[e[1]] = e[2]
                    if e[2] is None:
                        del w.cells[e[1]]
            elif e[0] == "in":
                out = [o for o in self(e[1], e[2], au[0]) if o[0] == "ret"]
                if len(out) != 1:
                    raise Bad("the outcome of %s depends on more than the object's state" % e[1].nbase)
                w = thaw(out[0][2])
                rets[i.id] = out[0][1]
            elif e[0] == "copy":
                self.copy(w, e[1], e[2], e[3], i)
            elif e[0] == "set":
                if is_sym(e[1]) and isinstance(e[3], int):
                    for k in [k for k in w.cells if k[1] == e[1][1] and e[1][2] <= k[2] < e[1][2] + e[3]]:
                        w.cells[k] = 0 if e[2] == 0 else None
            elif e[0] == "vec":
                r = self.vec(w, e, i)
                if r is not None:
                    rets[i.id] = r
            elif e[0] == "call":
                self.call(w, e, i)
            return (w.freeze(), frozenset(rets.items()))

        self.bads = []
        sim = Sim(f, oracle, event, step, (fr, frozenset()), None, max_states=4000).run()
        out = []
        for msg, i, path in sim.violations:
            out.append(("bad", (msg, i), fr))
        for kind, au, i, exc, val, st in sim.exits:
            v = val[0] if val else None
            o = (kind, v, au[0])
            if o not in out:
                out.append(o)
        return out

    def sym(self, sim, t, env):
        off = 0
        while t[0] == "addr" and not t[3]:
            off += t[2]
            t = t[1]
        if t[0] == "arg":
            b = sim.oracle(sim, t, env)
            return ("s", b[1], b[2] + off) if is_sym(b) else None
        return None

    def slot(self, w, a):
        """(vector, index) of a slot address"""
        if is_sym(a) and isinstance(a[1], tuple) and a[1][0] == "slots":
            return a[1][1], a[2] // self.esz
        return None

    def content(self, w, a):
        s = self.slot(w, a)
        if s:
            v = w.vecs.get(s[0], ())
            return v[s[1]] if 0 <= s[1] < len(v) else None
        return w.cells.get(a, JUNK)

    def assign(self, w, a, x, i):
        s = self.slot(w, a)
        if s is None:
            w.cells[a] = x
            return
        v = w.vecs.get(s[0], ())
        if not 0 <= s[1] < len(v):
            raise Bad("writes outside the vector (index %d of %d)" % (s[1], len(v)))
        w.vecs[s[0]] = v[:s[1]] + (x,) + v[s[1] + 1:]

    def transfer(self, w, d, s, i, move):
        x = self.content(w, s)
        if x is None:
            raise Bad("reads outside the vector")
        if move and is_sym(s) and s != d:
            self.assign(w, s, JUNK, i)
        self.assign(w, d, x, i)

    def copy(self, w, d, s, n, i):
        if not is_sym(d) or not is_sym(s):
            return
        if self.slot(w, d) or self.slot(w, s) or w.cells.get(s, (None,))[0:1] == ("tok",) if isinstance(w.cells.get(s), tuple) else self.slot(w, d) or self.slot(w, s):
            self.transfer(w, d, s, i, False)
            return
        if not isinstance(n, int):
            return
        src = {k: v for k, v in w.cells.items() if k[1] == s[1] and s[2] <= k[2] < s[2] + n}
        for k in [k for k in w.cells if k[1] == d[1] and d[2] <= k[2] < d[2] + n]:
            del w.cells[k]
        for k, v in src.items():
            w.cells[("s", d[1], d[2] + k[2] - s[2])] = v

    def vec(self, w, e, i):
        _, what, vals, pretty = e
        a = vals[0]
        if what == "vector" or what == "operator=":
            if len(vals) >= 2 and isinstance(vals[1], int) and not isinstance(vals[1], bool) and what == "vector":
                if not 0 <= vals[1] <= 64:
                    raise Bad("makes a vector of %d elements" % vals[1])
                w.vecs[a] = (JUNK,) * vals[1]
            elif len(vals) >= 2 and is_sym(vals[1]) and vals[1] in w.vecs:
                mv = pretty.rstrip().rstrip("noexcept ").endswith("&&)") or "&&, std::allocator" in pretty or re.search(r"&&\)", pretty.rsplit("(", 1)[-1]) is not None
                src = vals[1]
                if src != a:
                    w.vecs[a] = w.vecs[src]
                    if mv:
                        w.vecs[src] = ()
            else:
                w.vecs[a] = ()
        elif what == "clear":
            w.vecs[a] = ()
        elif what == "resize" or what == "assign":
            n = vals[1]
            if not isinstance(n, int):
                raise Bad("resizes the vector to an unknown size")
            old = w.vecs.get(a, ()) if what == "resize" else ()
            w.vecs[a] = (old + (JUNK,) * n)[:n]
        elif what == "swap":
            w.vecs[a], w.vecs[vals[1]] = w.vecs.get(vals[1], ()), w.vecs.get(a, ())
        elif what == "~vector":
            w.vecs.pop(a, None)
        elif what in ("at", "operator[]", "front", "back"):
            v = w.vecs.get(a, ())
            k = vals[1] if len(vals) > 1 else 0 if what == "front" else len(v) - 1
            if not isinstance(k, int):
                raise Bad("an index that does not follow from the queue's state")
            if not 0 <= k < len(v):
                raise Bad("index %d of a vector of %d" % (k, len(v)))
            return ("s", ("slots", a), k * self.esz)
        elif what == "size":
            return len(w.vecs.get(a, ()))
        elif what == "empty":
            return int(not w.vecs.get(a, ()))
        elif what in ("data", "begin"):
            return ("s", ("slots", a), 0)
        elif what == "end":
            return ("s", ("slots", a), len(w.vecs.get(a, ())) * self.esz)
        return None

    def call(self, w, e, i):
        """assignment of one element to another"""
        _, nb, vals, pretty = e
        last = nb.split("::")[-1]
        if last == "operator=" and len(vals) == 2 and (self.slot(w, vals[0]) or self.slot(w, vals[1]) or is_sym(vals[0]) and is_sym(vals[1])):
            if not is_sym(vals[0]) or not is_sym(vals[1]):
                raise Bad("an element is exchanged with something unknown")
            self.transfer(w, vals[0], vals[1], i, "&&" in pretty.rsplit("(", 1)[-1])
        elif last.startswith("~") and self.slot(w, vals[0] if vals else None):
            raise Bad("destroys an element of the vector")
        elif any(is_sym(v) for v in vals):
            raise Bad("a call the analysis does not know changes the object: %s" % nb)
