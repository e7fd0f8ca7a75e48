"""Shared vocabulary of the rules: reports, call descriptors, roles of fields, traversals, lock events, throw summaries."""
import os, re, sys, time, json
from collections import defaultdict
import build
from build import VERIF, REPO
from model import Model, AnalysisBroken, strip_params, strip_targs
import model as _model
from sim import Sim, Bad, Prune, NN, STD, OTHER, root_of

_models = {}


def get_model(cfg="tls"):
    if cfg not in _models:
        try:
            p = build.build_model(cfg)
        except build.AnalysisBroken as e:
            raise AnalysisBroken(str(e))
        _models[cfg] = Model(p)
    return _models[cfg]


class Rep:
    """what a rule analysed and what it found"""

    def __init__(self, pid, tier="quick"):
        self.pid = pid
        self.tier = tier
        self.obligations = []           # (rule, where, text)
        self.violations = []            # dict(rule, where, msg, path, key)
        self.functions = set()
        self.paths = 0
        self.assumptions = []
        self.notes = []
        self.explanation = ""

    def fn(self, f):
        self.functions.add(f.name[:200])
        return f

    def ok(self, rule, where, text):
        self.obligations.append((rule, where, text))

    def viol(self, rule, where, msg, path=(), key=None):
        k = key or "%s|%s|%s" % (rule, where, msg)
        k = re.sub(r":\d+", "", k)             # findings are identified without line numbers
        if any(v["key"] == k for v in self.violations):
            return
        self.obligations.append((rule, where, "VIOLATED: " + msg))
        self.violations.append({"rule": rule, "where": where, "msg": msg, "path": list(path)[-60:], "key": k})

    def check(self, cond, rule, where, text, msg=None, path=(), key=None):
        if cond:
            self.ok(rule, where, text)
        else:
            self.viol(rule, where, msg or ("not established: " + text), path, key)
        return bool(cond)

    def sim(self, s, rule, what=""):
        """folds a finished property simulation in"""
        self.functions.add(s.fn.name[:200])
        self.paths += s.states
        for msg, i, path in s.violations:
            self.viol(rule, (i.where() if i is not None else s.fn.where()), msg + (" [%s]" % what if what else ""), path,
                      key="%s|%s|%s" % (rule, s.fn.nbase, msg))
        if not s.violations:
            self.ok(rule, s.fn.where(), "%s: %s (%d abstract states, %d exits)" % (s.fn.nbase, what or "property simulation", s.states, len(s.exits)))
        return not s.violations


# ------------------------------------------------------------------------------------------------ call descriptors
class Call:
    __slots__ = ("kind", "cls", "name", "i", "args")

    def __repr__(self):
        return "%s:%s::%s" % (self.kind, self.cls, self.name)


_cd = {}


def describe(fn, i):
    """kind: 'v' virtual (cls = static class, name), 'd' direct (name = qualified name without template arguments),
    'u' user callback through std::function, 'i' other indirect"""
    key = (fn.mangled, i.id, id(fn))
    c = _cd.get(key)
    if c is not None:
        return c
    c = Call()
    c.i = i
    c.args = i.args
    if i.callee:
        nb = fn.m.nbase(i.callee)
        c.name = nb
        c.kind = "d"
        c.cls = nb.rsplit("::", 1)[0] if "::" in nb else ""
        if nb == "std::function::operator()":
            c.kind = "u"
    else:
        v = fn.m.vmethod(fn, i)
        if v:
            c.kind, c.cls, c.name = "v", strip_targs(v[0]), v[1]
            if c.cls == "?":
                c.cls = guess_cls(fn, i)
        else:
            c.kind, c.cls, c.name = "i", "", "?"
    _cd[key] = c
    return c


def guess_cls(fn, i):
    return "?"


def is_direct(fn, i, *names):
    """direct call whose qualified name ends with one of names"""
    if not i.is_call or not i.callee:
        return False
    nb = fn.m.nbase(i.callee)
    return any(nb == n or nb.endswith("::" + n) for n in names)


def is_virtual(fn, i, cls, name=None):
    if not i.is_call or i.callee:
        return False
    c = describe(fn, i)
    return c.kind == "v" and (c.cls == cls or c.cls.endswith("::" + cls)) and (name is None or c.name == name)


def vobj(fn, i):
    v = fn.m.vcall(fn, i)
    return v[0] if v else None


def is_report(fn, i):
    return is_direct(fn, i, "learnlog::handle_excpt")


def logger_call(fn, i):
    """a virtual call on a logger: 'deliver' (takes a log message), 'flush' (no argument), 'clone', '~' or None"""
    if not i.is_call or i.callee:
        return None
    c = describe(fn, i)
    if c.kind != "v" or c.cls not in ("learnlog::logger", "learnlog::async_logger"):
        return None
    if c.name == "~":
        return "~"
    sret = 1 if i.d.get("sret") else 0
    n = len(i.args) - sret
    if n == 1:
        return "flush"
    if n == 2:
        t = fn.m.pointee(fn, fn.term(i.args[1]))
        if sret or c.name == "clone":
            return "clone"
        return "deliver"
    return None


def sink_call(fn, i):
    """name of a virtual call on a sink"""
    if not i.is_call or i.callee:
        return None
    c = describe(fn, i)
    if c.kind == "v" and (c.cls.startswith("learnlog::sinks::") and c.cls.endswith("sink")):
        return c.name
    return None


# ------------------------------------------------------------------------------------------------ provenance
def shared_copy(fn, i):
    """(dest, src) when i copies or moves a std::shared_ptr"""
    if i.is_call and i.callee and len(i.args) == 2:
        nb = fn.m.nbase(i.callee)
        if re.match(r"std::(__)?shared_ptr::(__)?shared_ptr$", nb) or nb in ("std::shared_ptr::operator=", "std::__shared_ptr::operator="):
            return fn.term(i.args[0]), fn.term(i.args[1])
    return None


def origin(fn, t, depth=0):
    """looks through shared_ptr copies, iterator locals and casts: the term the value ultimately comes from"""
    if depth > 12 or not isinstance(t, tuple):
        return t
    k = t[0]
    if k == "load":
        a = origin(fn, t[1], depth + 1)
        r = root_of(a)
        if r[0] == "alloca":
            w = writers(fn, r)
            srcs = []
            for kind, off, src, i in w:
                if kind == "copy":
                    srcs.append(("copy", src))
                elif kind == "store":
                    srcs.append(("store", off, src))
                else:
                    srcs.append(("?",))
            off = a[2] if a[0] == "addr" and not a[3] else 0
            if len(srcs) == 1 and srcs[0][0] == "copy":
                s = srcs[0][1]
                return origin(fn, ("load", fn._addr(s, off, ()) if off else s), depth + 1)
            st = [s for s in srcs if s[0] == "store" and s[1] == off]
            if len(st) == 1 and not any(s[0] != "store" for s in srcs):
                return origin(fn, st[0][2], depth + 1)
        return ("load", a)
    if k == "addr":
        b = origin(fn, t[1], depth + 1)
        return fn._addr(b, t[2], t[3]) if b != t[1] else t
    if k == "cast":
        return t[:4] + (origin(fn, t[4], depth + 1),)
    return t


def writers(fn, alloca):
    """everything that initialises a local: ('copy', 0, source address, instr) | ('store', offset, value term, instr) | ('call', ...)"""
    c = fn.__dict__.setdefault("_writers", {})
    if alloca in c:
        return c[alloca]
    out = []
    for i in fn.instrs():
        if i.op == "store":
            p = fn.term(i.d["p"])
            if root_of(p) == alloca:
                off = p[2] if p[0] == "addr" else 0
                out.append(("store", off, fn.term(i.d["v"]), i))
        elif i.is_call:
            sc = shared_copy(fn, i)
            if sc and sc[0] == alloca:
                out.append(("copy", 0, sc[1], i))
                continue
            if not i.args:
                continue
            for n, a in enumerate(i.args):
                if root_of(fn.term(a)) == alloca:
                    nb = fn.m.nbase(i.callee) if i.callee else "?"
                    last = nb.split("::")[-1]
                    if last.startswith("~") or last in ("lifetime", "get") or nb.startswith("llvm.lifetime"):
                        continue
                    if n == 0 and not i.d.get("sret") and i.callee and is_const_method(fn.m, i.callee):
                        continue
                    if n > 0 and sc and sc[1] == alloca:
                        continue        # source of a copy
                    out.append(("call", 0, None, i))
                    break
    c[alloca] = out
    return out


def is_const_method(m, mangled):
    return mangled.startswith("_ZNK")


# ------------------------------------------------------------------------------------------------ roles
def role_name(r):
    return r[0] + "::" + r[1]


class Roles:
    """identifies fields by what the public interface does with them, not by their names"""

    def __init__(self, m):
        self.m = m
        self._c = {}

    def getter(self, regex):
        """(class, field) whose value (or address) the accessor returns"""
        if regex in self._c:
            return self._c[regex]
        f = self.m.some(regex)[0]
        r = None
        for i in f.instrs():
            if i.op == "ret" and i.d.get("ops"):
                t = f.term(i.d["ops"][0])
                while t[0] == "cast":
                    t = t[4]
                if t[0] == "bin" and t[1] in ("trunc", "and", "icmp"):
                    t = t[2]
                if t[0] == "icmp":
                    t = t[2]
                    while t[0] == "cast":
                        t = t[4]
                a = t[1] if t[0] == "load" else t
                ch = f.chain(a)
                ch = [c for c in ch if _model.is_repo_cls(c[0])]
                if ch:
                    r = (ch[-1][0], ch[-1][1])
                    break
        if r is None:
            raise AnalysisBroken("the accessor %s does not return a member" % f.name)
        self._c[regex] = r
        return r

    def by_type(self, cls, type_re):
        key = (cls, type_re)
        if key in self._c:
            return self._c[key]
        t = self.m.cls(cls)
        hits = [(c, n, o) for c, n, o, tt in self.m.fields_of(t) if re.search(type_re, self.m.tname(tt))]
        if len(hits) != 1:
            raise AnalysisBroken("class %s has %d members of type /%s/" % (cls, len(hits), type_re))
        self._c[key] = (hits[0][0], hits[0][1])
        return self._c[key]

    def field_off(self, cls, field):
        t = self.m.cls(cls)
        for c, n, o, tt in self.m.fields_of(t):
            if n == field:
                return o
        raise AnalysisBroken("no field %s::%s" % (cls, field))

    log_level = property(lambda s: s.getter(r"^learnlog::logger::get_log_level\("))
    flush_level = property(lambda s: s.getter(r"^learnlog::logger::get_flush_level\("))
    pattern = property(lambda s: s.getter(r"^learnlog::logger::get_pattern"))
    sinks = property(lambda s: s.getter(r"^learnlog::logger::sinks\(\)"))
    name = property(lambda s: s.getter(r"^vdrv::lg_name"))
    tracer = property(lambda s: s.by_type("learnlog::logger", r"shared_ptr<learnlog::base::backtracer>"))
    msg_level = property(lambda s: s.by_type("learnlog::base::log_msg", r"level_enum"))
    msg_type = property(lambda s: s.by_type("learnlog::base::async_msg", r"async_msg_type"))
    sink_level = property(lambda s: s._sink_level())

    def _sink_level(self):
        f = self.m.one(r"^vdrv::sk_get_level\(")
        for i in f.instrs():
            if i.op == "load":
                ch = [c for c in f.chain(f.term(i.d["p"])) if _model.is_repo_cls(c[0])]
                if ch:
                    return (ch[0][0], ch[0][1])
        raise AnalysisBroken("sink::get_level does not read a member")


def loads_field(fn, t, role):
    """t is a load of (a part of) the given member"""
    return t[0] == "load" and any((c, f) == role for c, f, r, tt in fn.chain(t[1]))


# ------------------------------------------------------------------------------------------------ loop-carried traversals
class Trav:
    """a loop that visits every element of a container exactly once, in order, unless it leaves by an exception"""

    def __init__(self, fn, loop, kind, container, elem, test_blk, post, phi):
        self.fn, self.loop, self.kind, self.container, self.elem = fn, loop, kind, container, elem
        self.test_blk = test_blk        # block whose branch leaves the loop
        self.post = post                # the test looks at the next element (bottom-tested loop)
        self.phi = phi

    def __repr__(self):
        return "<traversal of %s at %s>" % (self.fn.m.show(self.fn, self.container), self.fn.blocks[self.loop["header"]][0].where())

    def phi_term(self):
        return self.fn.val(self.phi) if self.phi is not None else None

    def elem_value(self):
        return ("load", self.elem)


def _strip(t):
    while t[0] == "cast":
        t = t[4]
    return t


def vec_bounds(fn, t):
    """('begin'|'end', container address) when t is the begin/end pointer of a std::vector"""
    t = _strip(t)
    if t[0] != "load":
        return None
    a = t[1]
    off = 0
    base = a
    if a[0] == "addr":
        if a[3]:
            return None
    ch = fn.chain(a)
    for c, f, r, tt in reversed(ch):
        if f in ("_M_start", "_M_finish") and r == 0:
            if f == "_M_start":
                return ("begin", a)
            return ("end", fn._addr(a[1], a[2] - 8, ()) if a[0] == "addr" else ("addr", a, -8, ()))
    return None


def elem_size(fn, cont):
    for c, f, r, tt in reversed(fn.chain(cont)):
        if f == "_M_start":
            d = fn.m.deref(tt)
            return fn.m.tsize(d) if d is not None else None
    return None


def vec_size(fn, t):
    """container when t is vector::size()"""
    t = _strip(t)
    if t[0] == "bin" and t[1] in ("ashr", "lshr", "sdiv", "udiv") and t[3][0] == "const":
        d = t[2]
        if d[0] == "bin" and d[1] == "sub":
            a, b = vec_bounds(fn, d[2]), vec_bounds(fn, d[3])
            if a and b and a[0] == "end" and b[0] == "begin" and a[1] == b[1]:
                es = elem_size(fn, a[1])
                n = int(t[3][1])
                if es and (es == (1 << n) if t[1] in ("ashr", "lshr") else es == n):
                    return a[1]
    if t[0] == "bin" and t[1] == "mul":
        # exact division by a non power of two is lowered to a multiplication after a shift; accept the shape (ashr x) * inv
        for x in t[2:]:
            x = _strip(x)
            if x[0] == "bin" and x[1] in ("ashr", "sdiv"):
                d = x[2]
                if d[0] == "bin" and d[1] == "sub":
                    a, b = vec_bounds(fn, d[2]), vec_bounds(fn, d[3])
                    if a and b and a[0] == "end" and b[0] == "begin" and a[1] == b[1]:
                        return a[1]
    return None


def hash_call(fn, t, which):
    """container address when t is unordered_map::begin() / end()"""
    i = fn.instr_of(t) if t[0] == "call" else None
    if i is not None and i.callee and re.match(r"std::unordered_map::c?%s$" % which, fn.m.nbase(i.callee)):
        return fn.term(i.args[0])
    return None


def hash_begin(fn, t):
    """container address when t is the first node pointer of an unordered_map"""
    t = _strip(t)
    c = hash_call(fn, t, "begin")
    if c is not None:
        return c
    if t[0] != "load":
        return None
    a = t[1]
    for c, f, r, tt in fn.chain(a):
        if f == "_M_before_begin":
            return fn._addr(a[1], a[2] - 16, ()) if a[0] == "addr" else None
    return None


def exit_tests(fn, L):
    """[(block, successor inside, successor outside)] for branches that leave the loop normally"""
    out = []
    for b in L["blocks"]:
        t = fn.blocks[b][-1]
        if t.op == "br" and t.d.get("c"):
            ins = [s for s in t.d["s"] if s in L["blocks"]]
            outs = [s for s in t.d["s"] if s not in L["blocks"]]
            if ins and outs:
                out.append((b, ins[0], outs[0]))
        elif t.op in ("br", "switch"):
            for s in fn.succ[b]:
                if s not in L["blocks"]:
                    out.append((b, None, s))
        elif t.op == "invoke":
            if t.d["s"][0] not in L["blocks"]:
                out.append((b, None, t.d["s"][0]))
    return out


def leads_only_to_unwind(fn, b, seen=None):
    """every path from b ends by propagating an exception or not returning"""
    seen = seen if seen is not None else set()
    st = [b]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        t = fn.blocks[x][-1]
        if t.op == "ret":
            return False
        st += fn.succ[x]
    return True


def traversals(fn):
    c = fn.__dict__.get("_travs")
    if c is None:
        c = []
        for L in fn.loops():
            t = recognise(fn, L)
            if t:
                c.append(t)
        fn._travs = c
    return c


def recognise(fn, L):
    h = L["header"]
    tests = [t for t in exit_tests(fn, L) if not leads_only_to_unwind(fn, t[2])]
    if len(tests) != 1 or tests[0][1] is None:
        return None
    b, inn, out = tests[0]
    br = fn.blocks[b][-1]
    truth_in = 1 if br.d["s"][0] == inn else 0
    c = fn.term(br.d["c"])
    neg = 0
    while c[0] == "bin" and c[1] == "xor" and c[3] == ("const", 1):
        c = c[2]
        neg ^= 1
    truth_in ^= neg
    if c[0] != "icmp":
        return None
    pred, x, y = c[1], _strip(c[2]), _strip(c[3])
    # ---- a container that is filled until it has a given number of elements
    for a, o, p in ((x, y, pred), (y, x, SWAP.get(pred, pred))):
        cont = vec_size(fn, a)
        if cont is not None and loop_invariant(fn, L, o):
            stay = (p in ("ult", "slt", "ne") and truth_in) or (p in ("uge", "sge", "eq") and not truth_in)
            pushes = [i for bb in L["blocks"] for i in fn.blocks[bb] if i.is_call and i.callee and i.args and
                      _MUT.match(fn.m.nbase(i.callee)) and fn.term(i.args[0]) == cont]
            if stay and len(pushes) == 1 and re.search(r"::(emplace|push)_back$", fn.m.nbase(pushes[0].callee)) and \
                    all(fn.dominates(pushes[0].blk, q) for q in L["latches"]):
                return Trav(fn, L, "grow", o, ("index", ("opaque", fn.mangled, -1)), b, False, None)
    for phi in fn.blocks[h]:
        if phi.op != "phi":
            break
        P = fn.val(phi)
        init = next_ = None
        bad = False
        nexts = set()
        for o, p in phi.d["in"]:
            t = fn.term(o)
            if p in L["blocks"]:
                nexts |= merged(fn, L, t)
                if next_ is not None and next_ != t:
                    bad = True
                next_ = t
            else:
                if init is not None and init != t:
                    bad = True
                init = t
        er = erase_loop(fn, L, P, init, nexts, pred, x, y, truth_in, b, phi) if init is not None else None
        if er is not None:
            return er
        if bad or init is None or next_ is None:
            continue
        init = _strip(init)
        nx = _strip(next_)
        # ---- vector, cursor form
        vb = vec_bounds(fn, init)
        if vb and nx[0] == "addr" and nx[1] == P and not nx[3]:
            es = elem_size(fn, vb[1])
            want = "end" if vb[0] == "begin" else "begin"
            if es and abs(nx[2]) == es and (nx[2] > 0) == (vb[0] == "begin"):
                for a, o in ((x, y), (y, x)):
                    ob = vec_bounds(fn, o)
                    if not ob or ob[0] != want or ob[1] != vb[1]:
                        continue
                    if a not in (P, nx):
                        continue
                    stay = (pred == "ne" and truth_in) or (pred == "eq" and not truth_in)
                    if pred in ("ult", "slt") and a is x and vb[0] == "begin" and truth_in:
                        stay = True
                    if not stay:
                        continue
                    elem = P if nx[2] > 0 else fn._addr(P, -es, ())
                    if container_stable(fn, L, vb[1]):
                        return Trav(fn, L, "vec", vb[1], elem, b, a == nx, phi)
        # ---- vector, index form
        if init == ("const", 0) and nx[0] == "bin" and nx[1] == "add" and nx[2] == P and nx[3] == ("const", 1):
            for a, o, p in ((x, y, pred), (y, x, SWAP.get(pred, pred))):
                cont = vec_size(fn, o)
                if cont is None or a not in (P, nx):
                    continue
                stay = (p in ("ult", "slt", "ne") and truth_in) or (p in ("uge", "sge", "eq") and not truth_in)
                if stay and container_stable(fn, L, cont):
                    es = elem_size(fn, cont)
                    return Trav(fn, L, "vec", cont, ("addr", ("load", cont), 0, ((P, es),)), b, a == nx, phi)
        # ---- counting loops
        if init == ("const", 0) and nx[0] == "bin" and nx[1] == "add" and nx[2] == P and nx[3] == ("const", 1):
            for a, o, p in ((x, y, pred), (y, x, SWAP.get(pred, pred))):
                if a not in (P, nx) or not loop_invariant(fn, L, o):
                    continue
                stay = (p in ("ult", "slt", "ne") and truth_in) or (p in ("uge", "sge", "eq") and not truth_in)
                if stay:
                    return Trav(fn, L, "count", o, ("index", P), b, a == nx, phi)
        if nx[0] == "bin" and nx[1] == "add" and nx[2] == P and nx[3] == ("const", -1) and loop_invariant(fn, L, init):
            for a, o, p in ((x, y, pred), (y, x, SWAP.get(pred, pred))):
                if o == ("const", 0) and a in (P, nx):
                    stay = (p in ("ugt", "sgt", "ne") and truth_in) or (p in ("eq", "ule") and not truth_in)
                    if stay:
                        return Trav(fn, L, "count", init, ("index", P), b, a == nx, phi)
        # ---- hash map, node form
        hb = hash_begin(fn, init)
        if hb is not None and nx == ("load", P):
            for a, o in ((x, y), (y, x)):
                if (o == ("null",) or hash_call(fn, o, "end") == hb) and a in (P, nx):
                    stay = (pred == "ne" and truth_in) or (pred == "eq" and not truth_in)
                    if stay and container_stable(fn, L, hb):
                        return Trav(fn, L, "map", hb, fn._addr(P, 8, ()), b, a == nx, phi)
    return None


def nonempty(fn, t, ok=None):
    """value of a comparison that tests a container for emptiness, assuming it has at least one element; else None"""
    if t[0] != "icmp":
        return None
    p, x, y = t[1], _strip(t[2]), _strip(t[3])
    for a, o, q in ((x, y, p), (y, x, SWAP.get(p, p))):
        va, vo = vec_bounds(fn, a), vec_bounds(fn, o)
        if va and vo and va[1] == vo[1] and {va[0], vo[0]} == {"begin", "end"} and (ok is None or ok(fn, va[1])):
            if q in ("eq", "ne"):
                return int(q == "ne")
            if va[0] == "begin":
                return {"ult": 1, "ule": 1, "uge": 0, "ugt": 0}.get(q)
        if a == ("const", 0) and o[0] == "load" and ok is not None and ok(fn, o):        # a count
            return {"eq": 0, "ne": 1, "ult": 1, "ule": 1, "ugt": 0, "uge": 0}.get(q)
        c = vec_size(fn, o)
        if c is not None and a == ("const", 0) and (ok is None or ok(fn, c)):
            return {"eq": 0, "ne": 1, "ult": 1, "ule": 1, "ugt": 0, "uge": 0}.get(q)
    return None


def loop_invariant(fn, L, t):
    """constants, parameters, values computed before the loop, and members no store in the loop touches"""
    if t[0] in ("const", "arg", "null"):
        return True
    if t[0] == "cast":
        return loop_invariant(fn, L, t[4])
    if t[0] == "bin":
        return all(loop_invariant(fn, L, x) for x in t[2:] if isinstance(x, tuple))
    if t[0] in ("phi", "call", "rmw", "cmpxchg"):
        i = fn.instr_of(t)
        return i is not None and i.blk not in L["blocks"]
    if t[0] == "load":
        for b in L["blocks"]:
            for i in fn.blocks[b]:
                if i.op == "store" and fn.term(i.d["p"]) == t[1]:
                    return False
        return root_of(t[1])[0] in ("arg", "alloca", "global") or loop_invariant(fn, L, root_of(t[1]))
    return False


SWAP = {"ult": "ugt", "ugt": "ult", "slt": "sgt", "sgt": "slt", "ule": "uge", "uge": "ule", "sle": "sge", "sge": "sle"}

def merged(fn, L, t, depth=0):
    """values that may arrive through phis inside the loop"""
    i = fn.instr_of(t) if t[0] == "phi" else None
    if i is None or depth > 4 or i.blk not in L["blocks"] or i.blk == L["header"]:
        return {t}
    out = set()
    for o, p in i.d["in"]:
        out |= merged(fn, L, fn.term(o), depth + 1)
    return out


def erase_loop(fn, L, P, init, nexts, pred, x, y, truth_in, b, phi):
    """for (it = begin(); it != end();) it = drop(*it) ? erase(it) : next(it)"""
    hb = hash_begin(fn, _strip(init))
    if hb is None or P not in (x, y):
        return None
    o = y if x == P else x
    if not (o == ("null",) or hash_call(fn, o, "end") == hb) or not ((pred == "ne") == bool(truth_in)):
        return None
    erases = set()
    for t in nexts:
        t = _strip(t)
        i = fn.instr_of(t) if t[0] == "call" else None
        if t == ("load", P):
            continue
        if i is not None and i.callee and fn.m.nbase(i.callee) == "std::unordered_map::erase" and fn.term(i.args[0]) == hb and \
                _strip(fn.term(i.args[1])) == P:
            erases.add(i)
            continue
        return None
    if not erases or not container_stable(fn, L, hb, erases):
        return None
    return Trav(fn, L, "map", hb, fn._addr(P, 8, ()), b, False, phi)


_MUT = re.compile(r"^std::(vector|unordered_map|_Hashtable|map|list|deque)::(push_back|emplace_back|insert|emplace|erase|clear|resize|"
                  r"operator=|swap|pop_back|operator\[\]|_M_.*|assign|reserve)$")


def container_stable(fn, L, cont, but=()):
    for b in L["blocks"]:
        for i in fn.blocks[b]:
            if i in but:
                continue
            if i.is_call and i.callee and i.args and _MUT.match(fn.m.nbase(i.callee)) and fn.term(i.args[0]) == cont:
                return False
            if i.op == "store":
                a = fn.term(i.d["p"])
                if a == cont or a == fn._addr(cont, 8, ()):
                    return False
    return True


def in_trav(travs, blk):
    """innermost recognised traversal containing the block"""
    best = None
    for t in travs:
        if blk in t.loop["blocks"] and (best is None or len(t.loop["blocks"]) < len(best.loop["blocks"])):
            best = t
    return best


def is_elem(fn, trav, t):
    """the value t is (a pointer held in) the current element of the traversal: elements that are shared_ptr/pointers"""
    t = origin(fn, t)
    if trav.kind == "vec":
        return t == ("load", trav.elem) or t == trav.elem
    return False


# ------------------------------------------------------------------------------------------------ std::function / throw model
NOTHROW_STD = re.compile(
    r"^(std::(mutex|__mutex_base|condition_variable|this_thread|allocator|__new_allocator|lock_guard|unique_lock)::|operator (new|delete)|"
    r"llvm\.|__cxa_(allocate_exception|free_exception|begin_catch|end_catch|get_exception_ptr|guard_acquire|guard_release|guard_abort|atexit)|"
    r"learnlog::handle_excpt$|learnlog::base::registry::instance$)")

MAY_STD = re.compile(
    r"^(fmt::|std::(basic_future|__basic_future|future|promise|thread|unordered_map::at|vector::at|function::operator\(\)|__throw_.*|"
    r"basic_ostream|ostream|enable_shared_from_this::shared_from_this|__cxx11::basic_string::(at|substr)|array::at))")


def start(f):
    """place of a function: its first instruction in the repository"""
    for i in f.instrs():
        w = i.where()
        if w != "?":
            return w
    return f.where()
