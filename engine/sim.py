"""Property simulation (ESP style): path-sensitive dataflow of a finite automaton over a function's CFG.

The state is (program point, automaton state, values of SSA names that are known constants, in-flight / caught exceptions).
Unknown conditions go both ways; a condition once assumed stays assumed while its SSA value is live.  States are merged when
equal, so loops reach a fixpoint.  No arithmetic reasoning, no solver: only constant propagation on finite cases.
"""
from model import AnalysisBroken

NN = "nonnull"
STD, OTHER = "std", "other"
EXC_BASE = "_ZTISt9exception"


class Exit:
    def __init__(self, kind, state, instr, exc=None, value=None):
        self.kind = kind            # ret | escape | noreturn | terminate
        self.state = state
        self.instr = instr
        self.exc = exc
        self.value = value


class Prune(Exception):
    """raised by an edge hook: the path is infeasible"""


class Bad(Exception):
    """raised by an automaton: the property is violated at this point"""


def is_lock_obj(fn, r):
    """a local std::unique_lock: only its own operations (which are inlined) and waits touch it"""
    i = fn.by_id.get(r[2]) if r[1] == fn.mangled else None
    return i is not None and "std::unique_lock" in i.d.get("aty", "")


def mask(ty):
    if ty.startswith("i") and ty[1:].isdigit():
        return (1 << int(ty[1:])) - 1
    return (1 << 64) - 1


def signed(v, bits):
    v &= (1 << bits) - 1
    return v - (1 << bits) if v >> (bits - 1) else v


def bits_of(ty):
    return int(ty[1:]) if ty.startswith("i") and ty[1:].isdigit() else 64


def is_sym(v):
    """a symbolic pointer ("s", object, offset): non-null, distinct from every other one"""
    return isinstance(v, tuple) and len(v) == 3 and v[0] == "s"


class Sim:
    def __init__(self, fn, oracle=None, event=None, step=None, init=None, throws=None, max_states=60000, edge=None,
                 ignore_noreturn=False):
        self.fn = fn
        self.oracle = oracle or (lambda sim, term, env: None)
        self.event = event or (lambda sim, i, env: ())
        self.step = step or (lambda a, e, i: a)
        self.init = init
        self.throws = throws or (lambda sim, i, env: ())
        self.edge = edge
        self.max_states = max_states
        self.exits = []
        self.violations = []        # (message, instr, path)
        self._live = None
        self.states = 0
        self.counting = 0           # follow loop counters up to this value instead of widening at once
        self.arith = None           # arithmetic on values that are not both integers
        self.calling = None         # the call being evaluated: it has no result yet
        self.opaque = frozenset()   # phis that keep their own name on the first round

    # ---------------------------------------------------------------- liveness of SSA ids (to prune the environment)
    def live(self):
        fn = self.fn
        cached = getattr(fn, "_livein", None)
        if cached is not None:
            return cached
        n = len(fn.blocks)
        use = [set() for _ in range(n)]
        defs = [set() for _ in range(n)]
        phi_use = [set() for _ in range(n)]         # uses on the edge out of a predecessor

        def ids(o, acc):
            if isinstance(o, list):
                if len(o) >= 2 and o[0] == "v" and isinstance(o[1], int):
                    acc.add(o[1])
                else:
                    for x in o:
                        ids(x, acc)
        for b, ins in enumerate(fn.blocks):
            for i in ins:
                if i.op == "phi":
                    for o, p in i.d["in"]:
                        s = set()
                        ids(o, s)
                        phi_use[p] |= s
                else:
                    s = set()
                    for k, v in i.d.items():
                        if k in ("p", "v", "x", "y", "c", "base", "ind", "args", "ops", "var"):
                            ids(v, s)
                    use[b] |= s - defs[b]
                defs[b].add(i.id)
        # a term may look through chains of instructions: everything an instruction is built from stays live as well
        livein = [set() for _ in range(n)]
        ch = True
        while ch:
            ch = False
            for b in range(n - 1, -1, -1):
                out = set(phi_use[b])
                for s in fn.succ[b]:
                    out |= livein[s]
                new = use[b] | (out - defs[b])
                # phis of this block are defined on entry
                if new != livein[b]:
                    livein[b] = new
                    ch = True
        phis = [{i.id for i in ins if i.op == "phi"} | {o[1] for i in ins if i.op == "phi" for o, p in i.d["in"] if o[0] == "v"}
                for ins in fn.blocks]
        # conditions assumed earlier may be re-tested through a term: keep operands of live comparisons
        fn._livein = [livein[b] | phis[b] for b in range(n)]
        return fn._livein

    # ---------------------------------------------------------------- values
    def val(self, o, env):
        k = o[0]
        if k == "c":
            try:
                return int(o[1])
            except (TypeError, ValueError):
                return None
        if k == "n":
            return 0
        if k == "v":
            v = env.get(o[1])
            if v is not None and not (isinstance(v, tuple) and v[0] == "t"):
                return v
            if isinstance(v, tuple) and v[0] == "t":
                r = self.oracle(self, v[1], env)
                if r is not None:
                    return r
                return NN if v[1][0] in ("alloca", "global", "fn") or v[1][0] == "addr" and v[1][2] and not v[1][3] else None
            t = self.fn.term(o)
            r = self.oracle(self, t, env)
            if r is not None:
                return r
            if t[0] == "alloca":
                return NN
            return None
        if k in ("g", "f"):
            r = self.oracle(self, self.fn.term(o), env)
            return NN if r is None else r
        if k == "a":
            return self.oracle(self, ("arg", o[1]), env)
        return None

    def resolve(self, o, env):
        """term of an operand with the path's choice for phis"""
        t = self.fn.term(o)
        return self.rterm(t, env)

    def rterm(self, t, env, depth=0):
        if depth > 12 or not isinstance(t, tuple):
            return t
        if t[0] == "phi" and t[1] == self.fn.mangled:
            v = env.get(t[2])
            if isinstance(v, tuple) and v[0] == "t":
                return v[1]
            if isinstance(v, int):
                return ("const", v)
            return t
        if t[0] == "load":
            a = self.rterm(t[1], env, depth + 1)
            v = env.get(("m", a))
            return v[1] if isinstance(v, tuple) and v[0] == "t" else ("load", a)
        if t[0] in ("addr", "cast", "ev"):
            return tuple(self.rterm(x, env, depth + 1) if isinstance(x, tuple) and x and isinstance(x[0], str) else x for x in t)
        return t

    def compute(self, i, env):
        op = i.op
        d = i.d
        if op == "icmp":
            x, y = self.val(d["x"], env), self.val(d["y"], env)
            p = d["pred"]
            if x is None or y is None:
                if p in ("eq", "ne") and d["x"] == d["y"]:
                    return 1 if p == "eq" else 0
                # the same comparison of pure terms may have been assumed already
                return self.fact(i, env)
            if is_sym(x) or is_sym(y):
                if p in ("eq", "ne"):
                    if is_sym(x) and is_sym(y):         # symbolic objects are distinct
                        return int((x == y) == (p == "eq"))
                    if (y if is_sym(x) else x) == 0:
                        return int(p == "ne")
                return self.fact(i, env)
            if isinstance(x, tuple) or isinstance(y, tuple) or x == NN or y == NN:
                if x == NN and y == 0 or x == 0 and y == NN:
                    return {"eq": 0, "ne": 1, "ugt": 1 if x == NN else 0, "ult": 0 if x == NN else 1}.get(p)
                if isinstance(x, tuple) and isinstance(y, tuple) and x[0] == "ti" == y[0]:
                    return int((x == y) == (p == "eq")) if p in ("eq", "ne") else None
                if isinstance(x, tuple) and x[0] == "ti" and y == 0:
                    return {"eq": 0, "ne": 1}.get(p)
                return self.fact(i, env)
            b = bits_of(d.get("oty", "i64"))
            if p.startswith("s"):
                x, y = signed(x, b), signed(y, b)
            else:
                x &= (1 << b) - 1
                y &= (1 << b) - 1
            return int({"eq": x == y, "ne": x != y, "sgt": x > y, "sge": x >= y, "slt": x < y, "sle": x <= y,
                        "ugt": x > y, "uge": x >= y, "ult": x < y, "ule": x <= y}[p])
        if op in ("zext", "sext", "trunc", "ptrtoint", "inttoptr", "bitcast", "freeze"):
            x = self.val(d["ops"][0], env)
            if x is None or isinstance(x, tuple):
                if op == "trunc" and self.arith is not None and isinstance(x, tuple) and x[0] == "o":
                    return self.arith("trunc", x, bits_of(i.ty), i.ty)
                return x
            if x == NN:
                return NN
            if op == "zext":
                return x & mask(d.get("from", "i64"))
            if op == "trunc":
                b = bits_of(i.ty)
                return (x & 1) if b == 1 else signed(x, b)
            return x
        if op == "select":
            c = self.val(d["ops"][0], env)
            if c is None:
                a, b = self.val(d["ops"][1], env), self.val(d["ops"][2], env)
                return a if a is not None and a == b else None
            return self.val(d["ops"][1] if c else d["ops"][2], env)
        if op in ("and", "or", "xor", "add", "sub", "mul", "shl", "lshr", "ashr", "udiv", "sdiv", "urem", "srem"):
            x, y = (self.val(o, env) for o in d["ops"][:2])
            if op == "and" and (x == 0 or y == 0):
                return 0
            if op == "sub" and is_sym(x) and is_sym(y) and x[1] == y[1]:
                return x[2] - y[2]
            if op == "or" and i.ty == "i1" and (x == 1 or y == 1):
                return 1
            if not isinstance(x, int) or not isinstance(y, int):
                return self.arith(op, x, y, i.ty) if self.arith is not None and x is not None and y is not None and x != NN and y != NN else None
            if op in ("udiv", "sdiv", "urem", "srem") and y == 0:
                return None
            r = {"and": lambda: x & y, "or": lambda: x | y, "xor": lambda: x ^ y, "add": lambda: x + y, "sub": lambda: x - y,
                 "mul": lambda: x * y, "shl": lambda: x << (y & 63), "lshr": lambda: (x & mask(i.ty)) >> (y & 63),
                 "ashr": lambda: x >> (y & 63), "udiv": lambda: (x & mask(i.ty)) // (y & mask(i.ty)), "sdiv": lambda: int(x / y),
                 "urem": lambda: (x & mask(i.ty)) % (y & mask(i.ty)), "srem": lambda: x - y * int(x / y)}[op]()
            b = bits_of(i.ty)
            return (r & 1) if b == 1 else signed(r, b)
        if op == "gep":
            if "base" in d:
                x = self.val(d["base"], env)
                if x == NN:
                    return NN
                if is_sym(x):
                    vs = [(self.val(o, env), sc) for o, sc in d["var"]]
                    if all(isinstance(v, int) for v, sc in vs):
                        return ("s", x[1], x[2] + d["off"] + sum(v * sc for v, sc in vs))
                    if len(vs) == 1 and vs[0][1] == 1 and d["off"] == 0 and x[2] == 0 and isinstance(x[1], tuple) and x[1][0] == "chars" and vs[0][0] == ("o", ("len", x[1][1])):
                        return ("o", ("end", x[1][1]))      # one past the end of a text of unknown length
                    if self.arith is not None and len(vs) == 1 and vs[0][1] == 1 and vs[0][0] is not None and d["off"] == 0:
                        return ("o", ("at", x, vs[0][0]))
                    return None
            t = self.fn.val(i)
            r = self.oracle(self, self.rterm(t, env), env)
            return NN if r is None and "base" in d and d["off"] and not d["var"] else r     # a member of an object
        if op == "load":
            t = self.rterm(self.fn.val(i), env)
            if t[0] != "load":
                return ("t", t)
            x = self.val(d["p"], env)
            if is_sym(x):
                t = ("load", x)
            v = env.get(("m", t[1])) if t[0] == "load" else None
            if v is not None:
                return v
            return self.oracle(self, t, env)
        if op in ("call", "invoke"):
            if i.callee == "llvm.eh.typeid.for" or (i.callee or "").startswith("llvm.eh.typeid.for"):
                a = i.args[0]
                return ("ti", a[1] if a[0] in ("g", "f") else "null")
            return self.oracle(self, self.fn.val(i), env)
        if op == "iv" and list(d["ix"]) == [1]:      # the selector put back together after a clean-up
            y = self.val(d["y"], env)
            if isinstance(y, tuple) and y and y[0] == "ti":
                return ("lp", y)
            return None
        if op == "ev":
            x = self.val(d["x"], env)
            if isinstance(x, tuple) and x and x[0] == "lp" and list(d["ix"]) == [1]:
                return x[1]
            return self.oracle(self, self.fn.val(i), env)
        return self.oracle(self, self.fn.val(i), env)

    def fact(self, i, env):
        """a comparison constant propagation cannot decide: the rule may know it"""
        d = i.d
        x, y = (self.val(d[k], env) for k in "xy")
        x, y = (v if isinstance(v, tuple) and v[0] == "o" else ("const", v) if self.arith is not None and isinstance(v, int) else self.resolve(d[k], env) for v, k in ((x, "x"), (y, "y")))
        return self.oracle(self, ("icmp", d["pred"], x, y), env)

    # ---------------------------------------------------------------- exceptions
    def exc_kind_of_throw(self, i):
        """kind thrown by __cxa_throw from its type info"""
        a = i.args[1] if len(i.args) > 1 else None
        n = a[1] if a and a[0] == "g" else "?"
        return STD if is_std_exc(n) else OTHER

    def lpad(self, i, exc):
        """[(selector value, exc)] alternatives at a landing pad, [] when the exception is not stopped here"""
        out = []
        cl = i.d.get("cl", [])
        matched = False
        for c in cl:
            if c[0] == "filter":
                continue
            n = c[1] if c[0] == "g" else None
            if n is None:
                out.append(("ti", "null"))
                matched = True
                break
            if n == EXC_BASE:
                if exc == STD:
                    out.append(("ti", n))
                    matched = True
                    break
                continue
            if is_std_exc(n):
                if exc == STD:
                    out.append(("ti", n))       # a subclass: may or may not match
                continue
            if exc == OTHER:
                out.append(("ti", n))
        if not matched and i.d.get("cleanup"):
            out.append(("ti", "<cleanup>"))
            matched = True
        return out, matched

    # ---------------------------------------------------------------- run
    def run(self):
        fn = self.fn
        live = self.live()
        start = (0, None, frozenset(), self.init, None, ())
        seen = {start: None}
        work = [start]
        self.parents = seen
        while work:
            st = work.pop()
            self.states += 1
            if self.states > self.max_states:
                raise AnalysisBroken("too many abstract states in %s" % fn.name)
            for nxt in self._block(st):
                b = nxt[0]
                L = live[b]
                env = frozenset((k, v) for k, v in nxt[2] if (k in L if not isinstance(k, tuple) else True))
                nxt = (b, nxt[1] if any(x.op == "phi" for x in fn.blocks[b]) else None, env, nxt[3], nxt[4], nxt[5])
                if nxt not in seen:
                    seen[nxt] = st
                    work.append(nxt)
        return self

    def path(self, st, instr):
        blocks = []
        s = st
        while s is not None:
            blocks.append(s[0])
            s = self.parents.get(s)
        blocks.reverse()
        out, last = [], None
        for b in blocks:
            for i in self.fn.blocks[b]:
                if i.loc >= 0 and (i.is_call or i.op == "br"):
                    w = i.where()
                    if w != last:
                        out.append(w)
                        last = w
                    if i is instr:
                        break
        w = instr.where() if instr is not None else None
        if w and (not out or out[-1] != w):
            out.append(w)
        return out

    def bad(self, msg, instr, st):
        for v in self.violations:
            if v[0] == msg and v[1] is instr:
                return
        self.violations.append((msg, instr, self.path(st, instr)))

    def _emit(self, auto, i, env, st, threw=None):
        try:
            for e in self.event(self, i, env):
                auto = self.step(auto, e if threw is None else ("threw", e, threw), i)
        except Bad as b:
            self.bad(str(b), i, st)
            return None
        except Prune:
            return None
        return auto

    def _exit(self, kind, auto, i, st, exc=None, value=None):
        self.exits.append((kind, auto, i, exc, value, st))

    def _block(self, st):
        fn = self.fn
        b, pred, envf, auto, exc, caught = st
        self.auto = auto
        env = dict(envf)
        ins = fn.blocks[b]
        # phis, simultaneously
        upd = {}
        for i in ins:
            if i.op != "phi":
                break
            o = next((o for o, p in i.d["in"] if p == pred), None)
            if o is None:
                continue
            v = self.val(o, env)
            back = pred is not None and fn.dominates(b, pred)
            if back and isinstance(v, int):
                j = fn.by_id.get(o[1]) if o[0] == "v" else None
                if abs(v) > 16 if not self.counting else abs(v) > self.counting:
                    v = None
                if not self.counting and j is not None and j.op in ("add", "sub", "mul", "shl", "gep"):
                    v = None            # widening: counters and cursors are unknown after the first round
            if back and is_sym(v):
                j = self.fn.by_id.get(o[1]) if o[0] == "v" else None
                if j is not None and j.op == "gep" and not self.counting:
                    v = None
            if v is None and o[0] in ("v", "a") and not back and i.id not in self.opaque:
                t = self.rterm(fn.term(o), env)
                if not mentions_phi(t):
                    v = ("t", t)
            elif v == NN and o[0] in ("g", "f"):
                v = ("t", fn.term(o))
            upd[i.id] = v
        for k, v in upd.items():
            if v is None:
                env.pop(k, None)
            else:
                env[k] = v
        k = 0
        while k < len(ins):
            i = ins[k]
            k += 1
            op = i.op
            if op == "phi":
                continue
            if op == "store":
                self.auto = auto
                self._store(i, env)
                auto = self._emit(auto, i, env, st)
                if auto is None:
                    return []
                continue
            if op == "lpad":
                alts, matched = self.lpad(i, exc)
                res = []
                if not matched:
                    self._exit("escape", auto, i, st, exc)
                for n, sel in enumerate(alts):
                    e2 = dict(env)
                    e2[i.id] = ("lp", sel)
                    res += self._rest(st, b, k, e2, auto, exc, caught)
                return res
            return_ = self._step_instr(st, b, k, i, env, auto, exc, caught)
            if return_ is None:
                continue
            if return_[0] == "go":
                _, env, auto, exc, caught = return_
                continue
            return return_[1]
        return []

    def _rest(self, st, b, k, env, auto, exc, caught):
        """continues inside a block after a split"""
        ins = self.fn.blocks[b]
        while k < len(ins):
            i = ins[k]
            k += 1
            if i.op == "store":
                self.auto = auto
                self._store(i, env)
                auto = self._emit(auto, i, env, st)
                if auto is None:
                    return []
                continue
            r = self._step_instr(st, b, k, i, env, auto, exc, caught)
            if r is None:
                continue
            if r[0] == "go":
                _, env, auto, exc, caught = r
                continue
            return r[1]
        return []

    def _store(self, i, env):
        a = self.rterm(self.fn.term(i.d["p"]), env)
        x = self.val(i.d["p"], env)
        if is_sym(x):
            a = x
        root = root_of(a)
        for k in [k for k in env if isinstance(k, tuple) and k[0] == "m"]:
            r2 = root_of(k[1])
            if k[1] == a or not (root[0] == "alloca" and r2[0] == "alloca" and root != r2) and not disjoint(k[1], a):
                del env[k]
        v = self.val(i.d["v"], env)
        if isinstance(v, int) or v == NN and not self.address_of(i.d["v"], env) or is_sym(v):
            env[("m", a)] = v
        elif root[0] == "alloca":
            t = self.address_of(i.d["v"], env)
            if t is not None:
                env[("m", a)] = ("t", t)

    def address_of(self, o, env):
        """the operand is the address of (a part of) an argument, a local, a global or, in a thread body, of a captured object"""
        if o[0] not in ("v", "a", "g"):
            return None
        t = self.rterm(self.fn.term(o), env)
        x = t
        while x[0] == "addr" and not x[3]:
            x = x[1]
        if x[0] in ("arg", "alloca", "global"):
            return t
        if x[0] == "load" and root_of(x[1]) == ("arg", 0) and self.fn.nbase.endswith("::_M_run"):
            return t
        return None

    def _clobber(self, i, env):
        """a call may change memory it can reach"""
        ks = [k for k in env if isinstance(k, tuple) and k[0] == "m"]
        if not ks:
            return
        passed = {root_of(self.fn.term(a)) for a in i.args}
        if i.callee and self.fn.m.nbase(i.callee).startswith("std::condition_variable::"):
            # a wait leaves the lock object as it was
            passed = {r for r in passed if "unique_lock" not in (self.fn.by_id[r[2]].d.get("aty", "") if r[0] == "alloca" and r[2] in self.fn.by_id else "")}
        for k in ks:
            r = root_of(k[1])
            if r[0] == "alloca" and r not in passed and (not escapes(self.fn, r) or is_lock_obj(self.fn, r)):
                continue
            del env[k]

    def _step_instr(self, st, b, k, i, env, auto, exc, caught):
        self.auto = auto
        op = i.op
        fn = self.fn
        if op in ("br", "switch"):
            return ("next", self._branch(st, i, env, auto, exc, caught))
        if op == "ret":
            o = i.d["ops"][0] if i.d.get("ops") else None
            self._exit("ret", auto, i, st, None, (self.val(o, env) if o else None, o, dict(env)))
            return ("next", [])
        if op == "unreachable":
            self._exit("noreturn", auto, i, st)
            return ("next", [])
        if op == "resume":
            self._exit("escape", auto, i, st, exc)
            return ("next", [])
        if op in ("call", "invoke"):
            return self._call(st, b, i, env, auto, exc, caught)
        atomic = op in ("rmw", "cmpxchg")
        if atomic:
            self.calling = i.id
        v = self.compute(i, env)
        if atomic:
            self.calling = None
            if v is None:
                env.pop(i.id, None)
        if v is not None:
            env[i.id] = v
        if op in ("load", "rmw", "cmpxchg"):
            auto = self._emit(auto, i, env, st)
            if auto is None:
                return ("next", [])
            return ("go", env, auto, exc, caught)
        return None

    def _branch(self, st, i, env, auto, exc, caught):
        b = i.blk
        out = []
        if i.op == "br":
            ss = i.d["s"]
            if len(ss) == 1 or not i.d.get("c"):
                return self._goto(b, ss[0], env, auto, exc, caught, st, i)
            c = self.val(i.d["c"], env)
            if isinstance(c, tuple):
                c = None
            for n, s in enumerate(ss):
                want = 1 - n
                if c is not None and c != NN and int(c) != want:
                    continue
                e2 = dict(env)
                if c is None and i.d["c"][0] == "v":
                    self.assume(i.d["c"][1], want, e2)
                out += self._goto(b, s, e2, auto, exc, caught, st, i)
            return out
        c = self.val(i.d["c"], env) if i.d.get("c") else None
        cases = i.d["cases"]
        if isinstance(c, int):
            for v, s in cases:
                if int(v) == c or (int(v) & 0xffffffff) == (c & 0xffffffff):
                    return self._goto(b, s, env, auto, exc, caught, st, i)
            return self._goto(b, i.d["def"], env, auto, exc, caught, st, i)
        cid = i.d["c"][1] if i.d.get("c") and i.d["c"][0] == "v" else None
        for v, s in cases:
            e2 = dict(env)
            if cid is not None:
                e2[cid] = int(v)
            out += self._goto(b, s, e2, auto, exc, caught, st, i)
        out += self._goto(b, i.d["def"], env, auto, exc, caught, st, i)
        return out

    def assume(self, cid, truth, env):
        old = env.get(cid)
        env[cid] = truth
        i = self.fn.by_id[cid]
        if isinstance(old, tuple) and old[0] == "t":
            self.assume_term(old[1], truth, env)
        if i.op == "icmp":
            p = i.d["pred"]
            if (p, truth) in (("eq", 1), ("ne", 0)):
                for a, o in ((i.d["x"], i.d["y"]), (i.d["y"], i.d["x"])):
                    v = self.val(o, env)
                    if a[0] == "v" and isinstance(v, int):
                        env[a[1]] = v
            elif (p, truth) in (("eq", 0), ("ne", 1)):
                for a, o in ((i.d["x"], i.d["y"]), (i.d["y"], i.d["x"])):
                    if a[0] == "v" and o[0] == "n":
                        env[a[1]] = NN
        elif i.op == "xor" and i.ty == "i1" and i.d["ops"][1] == ["c", 1] and i.d["ops"][0][0] == "v":
            self.assume(i.d["ops"][0][1], 1 - truth, env)
        elif i.op == "select" and i.ty == "i1" and i.d["ops"][0][0] == "v" and sorted(map(str, i.d["ops"][1:])) == ["['c', 0]", "['c', 1]"]:
            self.assume(i.d["ops"][0][1], truth if i.d["ops"][1] == ["c", 1] else 1 - truth, env)
        elif i.op == "and" and truth == 1 or i.op == "or" and truth == 0:
            for o in i.d["ops"]:
                if o[0] == "v":
                    self.assume(o[1], truth, env)
        elif i.op in ("trunc", "zext") and i.d["ops"][0][0] == "v" and i.d.get("from") in ("i1", "i8"):
            j = self.fn.by_id[i.d["ops"][0][1]]
            if i.d.get("from") == "i1":
                self.assume(j.id, truth, env)
            else:
                old = env.get(j.id)
                env[j.id] = truth
                if isinstance(old, tuple) and old[0] == "t":
                    self.assume_term(old[1], truth, env)

    def assume_term(self, t, truth, env):
        """a flag that stands for the result of a call tells that result"""
        while t[0] == "cast" and t[1] in ("zext", "trunc"):
            t = t[4]
        if t[:2] == ("bin", "xor") and t[3] in (("const", 1), ("const", -1)):
            return self.assume_term(t[2], 1 - truth, env)
        if t[0] == "call" and t[1] == self.fn.mangled and t[2] in self.fn.by_id and self.fn.by_id[t[2]].ty == "i1":
            env[t[2]] = truth

    def _goto(self, b, s, env, auto, exc, caught, st, i):
        if self.edge is not None:
            try:
                auto = self.edge(self, b, s, auto, env)
            except Prune:
                return []
            except Bad as e:
                self.bad(str(e), i, st)
                return []
        return [(s, b, frozenset(env.items()), auto, exc, caught)]

    def _call(self, st, b, i, env, auto, exc, caught):
        cal = i.callee or ""
        inv = i.op == "invoke"

        def normal(env, auto, exc, caught):
            if inv:
                return ("next", self._goto(b, i.d["s"][0], env, auto, exc, caught, st, i))
            return ("go", env, auto, exc, caught)

        def unwind(kind, env, auto):
            if inv:
                return self._goto(b, i.d["s"][1], env, auto, kind, caught, st, i)
            if self.fn.nounwind:
                self._exit("terminate", auto, i, st, kind)
            else:
                self._exit("escape", auto, i, st, kind)
            return []

        if cal == "__cxa_begin_catch":
            e2 = exc
            return ("go", env, auto, None, caught + (e2,))
        if cal == "__cxa_end_catch":
            return normal(env, auto, exc, caught[:-1])
        if cal == "__cxa_rethrow":
            return ("next", unwind(caught[-1] if caught else STD, env, auto))
        if cal == "__cxa_throw":
            a2 = self._emit(auto, i, env, st)
            if a2 is None:
                return ("next", [])
            return ("next", unwind(self.exc_kind_of_throw(i), env, a2))
        if cal in ("__clang_call_terminate", "_ZSt9terminatev", "abort"):
            self._exit("terminate", auto, i, st, exc)
            return ("next", [])
        self.calling = i.id
        v = self.compute(i, env)
        self.calling = None
        if v is not None:
            env[i.id] = v
        else:
            env.pop(i.id, None)
        self._clobber(i, env)
        kinds = tuple(self.throws(self, i, env))
        res = []
        for kd in kinds:
            a2 = self._emit(auto, i, env, st, threw=kd)
            if a2 is not None:
                res += unwind(kd, dict(env), a2)
        if i.d.get("nr") or (self.fn.m.decls.get(cal, {}).get("nr")):
            a2 = self._emit(auto, i, env, st)
            if not kinds and a2 is not None:
                self._exit("noreturn", a2, i, st)
            return ("next", res)
        a2 = self._emit(auto, i, env, st)
        if a2 is None:
            return ("next", res)
        r = normal(env, a2, exc, caught)
        if r[0] == "go":
            if not res:
                return r
            # a call with unwinding successors inside a block only exits; keep going with the normal state
            return r
        return ("next", res + r[1])


def root_of(t):
    while t[0] in ("addr", "cast"):
        t = t[1] if t[0] == "addr" else t[4]
    return t


def disjoint(a, b):
    """same base, different constant offsets; different symbolic objects; a symbolic object and a local"""
    if is_sym(a) or is_sym(b):
        if is_sym(a) and is_sym(b):
            return a != b
        return root_of(b if is_sym(a) else a)[0] == "alloca"
    ba, oa = (a[1], a[2]) if a[0] == "addr" and not a[3] else (a, 0)
    bb, ob = (b[1], b[2]) if b[0] == "addr" and not b[3] else (b, 0)
    return ba == bb and oa != ob


def mentions_phi(t):
    if isinstance(t, tuple):
        if t and t[0] == "phi":
            return True
        return any(mentions_phi(x) for x in t)
    return False


def escapes(fn, alloca):
    """the address of the local is stored somewhere or passed to any call"""
    key = ("esc", alloca)
    c = fn.__dict__.setdefault("_esc", {})
    if key in c:
        return c[key]
    r = False
    for i in fn.instrs():
        if i.op == "store" and root_of(fn.term(i.d["v"])) == alloca:
            r = True
        elif i.is_call and any(root_of(fn.term(a)) == alloca for a in i.args):
            r = True
        if r:
            break
    c[key] = r
    return r


_STD_NAMES = ("_ZTISt", "_ZTINSt", "_ZTIN8learnlog14learnlog_excptE", "_ZTIN3fmt")


def is_std_exc(n):
    return any(n.startswith(p) for p in _STD_NAMES)
