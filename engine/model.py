"""In-memory form of the normalised IR: functions, CFG, SSA terms, typed access paths, traversal loops, EH."""
import json, os, re, sys
from collections import defaultdict

sys.setrecursionlimit(6000)


ROOTS = (os.environ.get("LEARNLOG_REPO", "/repo").rstrip("/") + "/", os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + "/")


class AnalysisBroken(Exception):
    pass


def strip_targs(n):
    """removes template arguments:  a::b<c<d>>::e(f<g>) -> a::b::e(f)"""
    n = n.replace("operator<<", "operator\x01\x01").replace("operator>>", "operator\x02\x02")
    n = n.replace("operator->", "operator-\x02").replace("operator<=", "operator\x01=").replace("operator>=", "operator\x02=")
    n = re.sub(r"operator<(?=[(<])", "operator\x01", n)
    n = re.sub(r"operator>(?=[(<])", "operator\x02", n)
    out, d = [], 0
    for ch in n:
        if ch == "<":
            d += 1
        elif ch == ">":
            d -= 1
        elif d == 0:
            out.append(ch)
    return "".join(out).replace("\x01", "<").replace("\x02", ">")


def strip_params(n):
    """name without its parameter list"""
    d = 0
    if n.startswith("operator") or "::operator()" in n or n.endswith(")"):
        pass
    for i in range(len(n)):
        ch = n[i]
        if ch == "<":
            d += 1
        elif ch == ">":
            d -= 1
        elif ch == "(" and d == 0:
            if n[:i].endswith("operator"):
                continue
            if n.startswith("(anonymous namespace)", i) or n.startswith("(lambda", i) or n.startswith("{", i):
                continue
            return n[:i]
    return n


class Instr:
    __slots__ = ("id", "op", "ty", "loc", "d", "fn", "blk", "idx")

    def __init__(self, d, fn, blk, idx):
        self.id = d["i"]
        self.op = d["op"]
        self.ty = d["ty"]
        self.loc = d.get("l", -1)
        self.d = d
        if "ind" in d and d["ind"] and d["ind"][0] == "f":
            d["callee"] = d["ind"][1]
        self.fn = fn
        self.blk = blk
        self.idx = idx

    def get(self, k, default=None):
        return self.d.get(k, default)

    @property
    def callee(self):
        return self.d.get("callee")

    @property
    def args(self):
        return self.d.get("args", [])

    @property
    def is_call(self):
        return self.op in ("call", "invoke")

    def where(self):
        return self.fn.m.where(self.loc)

    def __repr__(self):
        return "<%s %%%d %s %s>" % (self.op, self.id, self.fn.name, self.where())


class Fn:
    def __init__(self, m, d):
        self.m = m
        self.d = d
        self.mangled = d["m"]
        self.name = d["d"]
        self.base = strip_params(self.name)
        self.nbase = m.nb.get(self.mangled) or strip_targs(self.base)
        self.nounwind = d.get("nounwind", False)
        self.args = d["args"]
        self.vars = d["vars"]
        self.sp = m.sps[d["sp"]] if d.get("sp", -1) >= 0 else None
        self.blocks = []
        self.by_id = {}
        for bi, b in enumerate(d["b"]):
            ins = [Instr(x, self, bi, k) for k, x in enumerate(b)]
            self.blocks.append(ins)
            for i in ins:
                self.by_id[i.id] = i
        self.succ = [self._succ(b) for b in self.blocks]
        self.pred = [[] for _ in self.blocks]
        for b, ss in enumerate(self.succ):
            for s in ss:
                self.pred[s].append(b)
        self._terms = {}
        self._dom = None
        self._pdom = None
        self._loops = None
        self._users = None

    def _succ(self, b):
        t = b[-1]
        if t.op == "br":
            return list(dict.fromkeys(t.d["s"]))
        if t.op == "invoke":
            return list(t.d["s"])
        if t.op == "switch":
            return list(dict.fromkeys([t.d["def"]] + [c[1] for c in t.d["cases"]]))
        return []

    def __repr__(self):
        return "<fn %s>" % self.name

    def where(self):
        return "%s:%d" % (short(self.sp["f"]), self.sp["l"]) if self.sp else "?"

    def instrs(self):
        for b in self.blocks:
            yield from b

    def calls(self):
        for i in self.instrs():
            if i.is_call:
                yield i

    # ---------------------------------------------------------------- operands -> terms
    def term(self, o):
        k = o[0]
        if k == "v":
            t = self._terms.get(o[1])
            if t is None:
                self._terms[o[1]] = ("phi", self.mangled, o[1])     # cycle guard
                t = self._term_i(self.by_id[o[1]])
                self._terms[o[1]] = t
            return t
        if k == "a":
            return ("arg", o[1])
        if k == "c":
            return ("const", o[1])
        if k == "n":
            return ("null",)
        if k == "u":
            return ("undef",)
        if k == "g":
            return ("global", o[1]) if o[2] == 0 else ("addr", ("global", o[1]), o[2], ())
        if k == "f":
            return ("fn", o[1])
        if k == "z":
            return ("zero",)
        if k == "x":
            return ("constexpr", o[1])
        return ("?", str(o[1:]) if len(o) > 1 else k)

    def _addr(self, base, off, var):
        if base[0] == "addr":
            if not var and not base[3]:
                off += base[2]
                base = base[1]
                return base if off == 0 else ("addr", base, off, ())
            return ("addr", base[1], base[2] + off, tuple(base[3]) + tuple(var))
        if off == 0 and not var:
            return base
        return ("addr", base, off, tuple(var))

    def _term_i(self, i):
        op = i.op
        T = self.term
        if op == "gep":
            if "base" not in i.d:
                return ("opaque", self.mangled, i.id)
            return self._addr(T(i.d["base"]), i.d["off"], tuple((T(v), s) for v, s in i.d["var"]))
        if op == "load":
            return ("load", T(i.d["p"]))
        if op == "alloca":
            return ("alloca", self.mangled, i.id)
        if op == "icmp":
            return ("icmp", i.d["pred"], T(i.d["x"]), T(i.d["y"]))
        if op == "phi":
            return ("phi", self.mangled, i.id)
        if op == "select":
            a = [T(x) for x in i.d["ops"]]
            return ("select",) + tuple(a)
        if op in ("call", "invoke"):
            if i.callee and i.callee.startswith("_ZTW"):
                return ("global", i.callee)         # address of a thread-local variable: the same one for every access
            return ("call", self.mangled, i.id, i.callee or "?")
        if op == "ev":
            return ("ev", T(i.d["x"]), tuple(i.d["ix"]))
        if op == "iv":
            return ("iv", T(i.d["x"]), T(i.d["y"]), tuple(i.d["ix"]))
        if op in ("zext", "sext", "trunc", "ptrtoint", "inttoptr", "bitcast", "freeze"):
            x = T(i.d["ops"][0])
            if op in ("ptrtoint", "inttoptr", "bitcast", "freeze"):
                return x
            return ("cast", op, i.d["from"], i.ty, x)
        if op in ("rmw", "cmpxchg", "lpad"):
            return (op, self.mangled, i.id)
        if "ops" in i.d:
            return ("bin", op) + tuple(T(x) for x in i.d["ops"])
        return ("opaque", self.mangled, i.id)

    def instr_of(self, term):
        if term[0] in ("phi", "call", "alloca", "rmw", "cmpxchg", "lpad", "opaque") and term[1] == self.mangled:
            return self.by_id.get(term[2])
        return None

    def val(self, i):
        return self.term(["v", i.id])

    def arg_terms(self, i):
        return [self.term(a) for a in i.args]

    def users(self, iid):
        if self._users is None:
            u = defaultdict(list)

            def rec(o, ins):
                if isinstance(o, list):
                    if len(o) >= 2 and o[0] == "v" and isinstance(o[1], int):
                        u[o[1]].append(ins)
                    else:
                        for x in o:
                            rec(x, ins)
            for ins in self.instrs():
                for k, v in ins.d.items():
                    if k in ("p", "v", "x", "y", "c", "base", "ind", "args", "ops", "in", "var"):
                        rec(v, ins)
            self._users = u
        return self._users[iid]

    # ---------------------------------------------------------------- typing
    def ptype(self, term):
        """debug-info type of what the pointer-valued term points to (type id) or None"""
        return self.m.pointee(self, term)

    def chain(self, term):
        """typed access path of an address term: list of (class, field, remaining offset, type id)"""
        return self.m.chain(self, term)

    def fields(self, term):
        """set of 'Class::field' the address lies in (exactly at its start or inside)"""
        return [c + "::" + f for c, f, r, t in self.chain(term)]

    # ---------------------------------------------------------------- dominance & loops
    def dom(self):
        if self._dom is None:
            self._dom = dominators(len(self.blocks), 0, self.succ, self.pred)
        return self._dom

    def dominates(self, a, b):
        """block a dominates block b"""
        return a in self.dom()[b] if b in self.dom() else False

    def idominates(self, i, j):
        """instruction i dominates instruction j"""
        if i.blk == j.blk:
            return i.idx < j.idx
        if i.op == "invoke":            # value/effect of an invoke holds on its normal edge
            n = i.d["s"][0]
            return self.dominates(n, j.blk) and len(self.pred[n]) == 1
        return self.dominates(i.blk, j.blk)

    def reachable(self, start, avoid=frozenset()):
        seen, st = set(), [start]
        while st:
            b = st.pop()
            if b in seen or b in avoid:
                continue
            seen.add(b)
            st += self.succ[b]
        return seen

    def loops(self):
        """natural loops: list of dict(header, latches, blocks)"""
        if self._loops is None:
            res = {}
            dom = self.dom()
            for b in dom:
                for s in self.succ[b]:
                    if s in dom[b]:
                        L = res.setdefault(s, {"header": s, "latches": set(), "blocks": {s}})
                        L["latches"].add(b)
                        st = [b]
                        while st:
                            x = st.pop()
                            if x in L["blocks"]:
                                continue
                            L["blocks"].add(x)
                            st += [p for p in self.pred[x] if p in dom]
            self._loops = list(res.values())
        return self._loops

    def innermost_loop(self, blk):
        best = None
        for L in self.loops():
            if blk in L["blocks"] and (best is None or len(L["blocks"]) < len(best["blocks"])):
                best = L
        return best


def dominators(n, entry, succ, pred):
    order, seen = [], set()
    st = [(entry, iter(succ[entry]))]
    seen.add(entry)
    while st:
        b, it = st[-1]
        nx = next((s for s in it if s not in seen), None)
        if nx is None:
            order.append(b)
            st.pop()
        else:
            seen.add(nx)
            st.append((nx, iter(succ[nx])))
    order.reverse()
    dom = {b: None for b in order}
    dom[entry] = {entry}
    changed = True
    while changed:
        changed = False
        for b in order:
            if b == entry:
                continue
            ps = [dom[p] for p in pred[b] if p in dom and dom[p] is not None]
            if not ps:
                continue
            nd = set.intersection(*ps) | {b}
            if nd != dom[b]:
                dom[b] = nd
                changed = True
    return dom


def short(f):
    for p in ROOTS:
        if f.startswith(p):
            return f[len(p):]
    return f[3:] if f.startswith("../") else f


_LAMBDA = re.compile(r"\)(?: const)?::(?:\$_|'lambda|\{lambda)")


class Model:
    def __init__(self, path):
        j = json.load(open(path))
        self.j = j
        self.types = j["types"]
        self.globals = j["globals"]
        self.locs = j["locs"]
        self.sps = j["sps"]
        self.decls = j["decls"]
        self._fn_raw = {f["m"]: f for f in j["fns"]}
        self._fns = {}
        self._ptypes = {}
        self._lay = {}
        self.cls_by_name = defaultdict(list)
        for i, t in enumerate(self.types):
            if t["k"] in ("class", "union"):
                self.cls_by_name[t["n"]].append(i)
        self.sp_by_link = {}
        for s in self.sps:
            if s["ln"]:
                self.sp_by_link.setdefault(s["ln"], s)
        self.pretty = {k: v["d"] for k, v in self.decls.items()}
        self.pbase = {k: strip_params(v) for k, v in self.pretty.items()}
        self.nb = {k: strip_targs(v) for k, v in self.pbase.items()}
        for k, v in self.pretty.items():
            if v.startswith("learnlog::") and v.endswith((")", "const")) and "operator()" in v and _LAMBDA.search(v):
                self.nb[k] += "::'lambda'::operator()"       # not the function it is written in

    # ---------------------------------------------------------------- functions
    def fn(self, mangled):
        f = self._fns.get(mangled)
        if f is None:
            if mangled not in self._fn_raw:
                return None
            f = self._fns[mangled] = Fn(self, self._fn_raw[mangled])
        return f

    def all(self):
        for k in self._fn_raw:
            yield self.fn(k)

    def find(self, regex):
        r = re.compile(regex)
        lam = "lambda" in regex or "$_" in regex or "\\$_" in regex
        return [self.fn(k) for k, f in self._fn_raw.items() if r.search(f["d"]) and (lam or f["d"].startswith("std::") or not _LAMBDA.search(f["d"]))]

    def one(self, regex):
        fs = self.find(regex)
        if len(fs) != 1:
            raise AnalysisBroken("anchor /%s/ matches %d functions" % (regex, len(fs)))
        return fs[0]

    def some(self, regex, at_least=1):
        fs = self.find(regex)
        if len(fs) < at_least:
            raise AnalysisBroken("anchor /%s/ matches %d functions, expected at least %d" % (regex, len(fs), at_least))
        return fs

    def name(self, mangled):
        return self.pretty.get(mangled, mangled)

    def nbase(self, mangled):
        """qualified name without template arguments and parameters"""
        if mangled is None:
            return ""
        r = self.nb.get(mangled)
        if r is None:
            return mangled
        return r

    def where(self, loc):
        """innermost location inside the repository (walks the inlining chain outwards)"""
        best = None
        while loc is not None and loc >= 0:
            f, l, sp, inl = self.locs[loc]
            if best is None and l:
                best = "%s:%d" % (short(f), l)
            if l and is_repo_file(f):
                return "%s:%d" % (short(f), l)
            loc = inl
        return best or "?"

    def inline_chain(self, loc):
        out = []
        while loc is not None and loc >= 0:
            f, l, sp, inl = self.locs[loc]
            out.append((self.sps[sp]["scope"] + "::" + self.sps[sp]["n"] if sp >= 0 else "?", short(f), l))
            loc = inl
        return out

    # ---------------------------------------------------------------- types
    def strip(self, t):
        while t is not None and t >= 0 and self.types[t]["k"] in ("typedef", "const", "volatile"):
            t = self.types[t].get("b", -1)
        return None if t is None or t < 0 else t

    def deref(self, t):
        t = self.strip(t)
        if t is None:
            return None
        if self.types[t]["k"] in ("ptr", "ref", "rref"):
            return self.complete(self.strip(self.types[t].get("b", -1)))
        return None

    def complete(self, t):
        if t is None:
            return None
        ty = self.types[t]
        if ty["k"] in ("class", "union") and (ty.get("decl") or not ty.get("m")):
            for c in self.cls_by_name.get(ty["n"], ()):
                if not self.types[c].get("decl") and self.types[c].get("m"):
                    return c
        return t

    def tname(self, t):
        t = self.strip(t)
        if t is None:
            return "void"
        ty = self.types[t]
        if ty["k"] in ("ptr", "ref", "rref"):
            return self.tname(ty.get("b", -1)) + {"ptr": "*", "ref": "&", "rref": "&&"}[ty["k"]]
        return ty.get("n", ty["k"])

    def cls(self, name):
        """id of the complete class type with this exact name"""
        c = [i for i in self.cls_by_name.get(name, ()) if not self.types[i].get("decl") and self.types[i].get("sz")]
        if not c:
            raise AnalysisBroken("class %s not found" % name)
        return c[0]

    def fields_of(self, t, inherited=True):
        """[(class, field, offset, type id)] of non-static data members"""
        out = []
        t = self.complete(self.strip(t))
        ty = self.types[t]
        for m in ty.get("m", ()):
            if m["k"] == "field":
                out.append((ty["n"], m["n"], m["o"], m["t"]))
            elif m["k"] == "base" and inherited:
                for c, n, o, tt in self.fields_of(m["t"]):
                    out.append((c, n, o + m["o"], tt))
        return out

    def bases_of(self, t):
        t = self.complete(self.strip(t))
        out = [self.types[t]["n"]]
        for m in self.types[t].get("m", ()):
            if m["k"] == "base":
                out += self.bases_of(m["t"])
        return out

    def tsize(self, t):
        t = self.strip(t)
        if t is None:
            return 0
        t = self.complete(t)
        return self.types[t].get("sz", 0)

    def walk(self, t, off):
        """typed path of the byte offset inside type t"""
        out = []
        t = self.complete(self.strip(t))
        guard = 0
        while t is not None and guard < 40:
            guard += 1
            ty = self.types[t]
            if ty["k"] == "array":
                es = self.tsize(ty.get("b", -1)) or 1
                t = self.complete(self.strip(ty.get("b", -1)))
                off %= es
                continue
            if ty["k"] not in ("class", "union"):
                break
            nxt = None
            cand = []
            for m in ty.get("m", ()):
                if m["k"] in ("field", "base"):
                    sz = self.tsize(m["t"])
                    if m["k"] == "base" and self.is_empty(m["t"]):
                        continue
                    if m["o"] <= off < m["o"] + max(sz, 1):
                        cand.append(m)
            if not cand:
                break
            # an empty field may share the offset of a non-empty one: prefer the larger
            nxt = max(cand, key=lambda m: (0 if m["k"] == "field" and self.is_empty(m["t"]) else 1, m["o"]))
            off -= nxt["o"]
            if nxt["k"] == "field":
                out.append((ty["n"], nxt["n"], off, nxt["t"]))
            t = self.complete(self.strip(nxt["t"]))
        return out

    def is_empty(self, t):
        t = self.complete(self.strip(t))
        if t is None:
            return False
        ty = self.types[t]
        if ty["k"] != "class" or ty.get("decl"):
            return False
        for m in ty.get("m", ()):
            if m["k"] in ("field", "base") and not self.is_empty(m["t"]):
                return False
            if m["k"] == "method" and m.get("virt"):
                return False
        return True

    # ---------------------------------------------------------------- typing of terms
    def pointee(self, fn, term):
        key = (fn.mangled, term)
        if key in self._ptypes:
            return self._ptypes[key]
        self._ptypes[key] = None
        r = self._pointee(fn, term)
        self._ptypes[key] = r
        return r

    def _from_vars(self, fn, key):
        best = None
        for n, t in fn.vars.get(key, ()):
            if n.startswith("D:"):
                # dbg.declare: the value is the address of a variable of this type
                return self.complete(self.strip(t))
            if n.startswith("V:"):
                # several variables may hold the same pointer (this of a base class, of the class itself): the largest
                # object type says most about what is there
                d = self.deref(t)
                if d is not None and (best is None or self.tsize(d) > self.tsize(best)):
                    best = d
        return best

    def _pointee(self, fn, term):
        k = term[0]
        if k == "arg":
            t = self._from_vars(fn, "a%d" % term[1])
            if t is not None:
                return t
            if fn.sp:
                ts = fn.sp["t"]
                # [ret, (this), params]; argument 0 may be a hidden return slot
                sret = bool(fn.args and fn.args[0].get("sret"))
                i = term[1] - (1 if sret else 0)
                if i < 0:
                    return self.complete(self.strip(ts[0])) if ts else None
                nm = fn.args[term[1]]["n"]
                if 0 <= i + 1 < len(ts):
                    st = self.strip(ts[i + 1])
                    if st is not None and self.types[st]["k"] in ("ptr", "ref", "rref"):
                        return self.deref(st)
                    if "coerce" not in nm:
                        return self.complete(st)
            return None
        if k == "alloca":
            for n, t in fn.vars.get("v%d" % term[2], ()):
                if n.startswith("D:"):
                    return self.complete(self.strip(t))
            best = self._from_vars(fn, "v%d" % term[2])
            # class of a method called on it, or what a call returns into it
            for u in fn.users(term[2]):
                if u.is_call and u.args and u.args[0] == ["v", term[2]] and u.callee:
                    sp = self.sp_by_link.get(u.callee)
                    c = None
                    if u.d.get("sret"):
                        c = self.complete(self.strip(sp["t"][0])) if sp and sp["t"] else None
                    elif sp and sp.get("cls", -1) >= 0:
                        c = self.complete(sp["cls"])
                    if c is not None and (best is None or self.tsize(c) > self.tsize(best)):
                        best = c
            if best is not None:
                return best
            aty = fn.by_id[term[2]].d.get("aty", "")
            nm = re.sub(r"^(class|struct|union)\.", "", aty)
            nm = re.sub(r"\.\d+$", "", nm)
            for c in self.cls_by_name.get(nm, ()):
                if not self.types[c].get("decl"):
                    return c
            return None
        if k == "global":
            g = self.globals.get(term[1], {})
            if "t" in g and g["t"] >= 0:
                return self.complete(self.strip(g["t"]))
            return None
        if k == "call":
            i = fn.instr_of(term)
            if i is None:
                return None
            t = self._from_vars(fn, "v%d" % term[2])
            if t is not None:
                return t
            sp = self.sp_by_link.get(i.callee or "")
            if sp and sp["t"]:
                return self.deref(sp["t"][0])
            return None
        if k == "load":
            ch = self.chain(fn, term[1])
            if ch:
                d = None
                for c, f, rem, t in reversed(ch):
                    if rem == 0:
                        d = self.deref(t)
                        if d is not None:
                            return d
                        st = self.strip(t)
                        if st is not None and self.types[st]["k"] not in ("class", "union", "array"):
                            break
            else:
                p = self.pointee(fn, term[1])
                if p is not None:
                    st = self.strip(p)
                    if self.types[st]["k"] in ("ptr", "ref", "rref"):
                        return self.deref(st)
        if k in ("addr",):
            ch = self.chain(fn, term)
            for c, f, rem, t in reversed(ch):
                if rem == 0:
                    return self.complete(self.strip(t))
        if k == "phi":
            i = fn.instr_of(term)
            if i is not None:
                t = self._from_vars(fn, "v%d" % term[2])
                if t is not None:
                    return t
                for o, b in i.d["in"]:
                    tt = fn.term(o)
                    if tt[0] not in ("null", "undef") and tt != term:
                        p = self.pointee(fn, tt)
                        if p is not None:
                            return p
        # any SSA value with this term that carries a debug variable
        return None

    def chain(self, fn, term):
        if term[0] == "addr":
            base, off = term[1], term[2]
            bt = self.pointee(fn, base)
            if bt is None:
                return []
            if term[3]:
                # variable index: element of an array reached through a pointer of element type, or an array member
                es = self.tsize(bt)
                if es and all(s % es == 0 for _, s in term[3]):
                    return self.walk(bt, off % es if es else off)
                return self.walk(bt, off)
            return self.walk(bt, off)
        bt = self.pointee(fn, term)
        if bt is None:
            return []
        return self.walk(bt, 0)

    def is_field(self, fn, addr, cls, field):
        """addr is exactly the address of cls::field (or of its first sub-object)"""
        return any(c == cls and f == field and r == 0 for c, f, r, t in self.chain(fn, addr))

    def in_field(self, fn, addr, cls, field):
        return any(c == cls and f == field for c, f, r, t in self.chain(fn, addr))

    def show(self, fn, term, depth=0):
        """readable rendering of a term"""
        if depth > 6:
            return "..."
        k = term[0]
        S = lambda x: self.show(fn, x, depth + 1)
        if k == "arg":
            return fn.args[term[1]]["n"] or "arg%d" % term[1]
        if k == "const":
            return str(term[1])
        if k == "null":
            return "nullptr"
        if k == "addr":
            ch = self.chain(fn, term)
            fs = [f for c, f, r, t in ch if is_repo_cls(c)] or [f for c, f, r, t in ch]
            if fs:
                return S(term[1]) + "->" + ".".join(fs) + ("[i]" if term[3] else "")
            return "%s+%d%s" % (S(term[1]), term[2], "[i]" if term[3] else "")
        if k == "load":
            return "*" + S(term[1]) if term[1][0] != "addr" else S(term[1])
        if k == "call":
            i = fn.instr_of(term)
            return (self.nbase(term[3]).split("::")[-1] if term[3] != "?" else "indirect") + "()"
        if k == "icmp":
            return "(%s %s %s)" % (S(term[2]), term[1], S(term[3]))
        if k == "bin":
            return "%s(%s)" % (term[1], ", ".join(S(x) for x in term[2:]))
        if k == "cast":
            return S(term[4])
        if k == "global":
            return self.globals.get(term[1], {}).get("n") or self.globals.get(term[1], {}).get("d", term[1])
        if k == "alloca":
            for n, t in fn.vars.get("v%d" % term[2], ()):
                return n[2:]
            return "local%d" % term[2]
        return k + (str(term[2]) if len(term) > 2 and isinstance(term[2], int) else "")

    # ---------------------------------------------------------------- virtual calls
    def vcall(self, fn, i):
        """(object term, slot) of an indirect call through a vtable, or None"""
        ind = i.d.get("ind")
        if not ind:
            return None
        t = fn.term(ind)
        if t[0] != "load":
            return None
        p = t[1]
        off = 0
        if p[0] == "addr" and not p[3]:
            off = p[2]
            p = p[1]
        if p[0] != "load" or off % 8:
            return None
        return (p[1], off // 8)

    def vmethod(self, fn, i):
        """(class name of the static type, method name) of a virtual call, or None"""
        v = self.vcall(fn, i)
        if not v:
            return None
        obj, slot = v
        t = self.pointee(fn, obj)
        if t is None:
            return ("?", "slot%d" % slot)
        n = self.slot_name(t, slot)
        return (self.types[t].get("n", "?"), n or "slot%d" % slot)

    def slot_name(self, t, slot):
        t = self.complete(self.strip(t))
        if t is None:
            return None
        # destructors occupy two slots, so use a vtable that has this class as a base
        for vt, members in self.vtables().items():
            cname = vt
            if self.types[t].get("n") in members["bases"]:
                f = members["slots"].get(slot)
                if f and f != "__cxa_pure_virtual":
                    nm = self.nbase(f).split("::")[-1]
                    return "~" if nm.startswith("~") else nm
        return None

    def access(self, mangled):
        """'public' | 'protected' | 'private' of a member function, None when it is not a declared member"""
        if not hasattr(self, "_acc"):
            self._acc = {}
            for t in self.types:
                for x in t.get("m", ()):
                    if x["k"] == "method" and x.get("ln"):
                        self._acc.setdefault(x["ln"], x.get("acc"))
        return self._acc.get(mangled)

    def vtables(self):
        """class name -> {slots: {n: mangled}, bases: [...], symbol}"""
        if not hasattr(self, "_vts"):
            r = {}
            for g, d in self.globals.items():
                if g.startswith("_ZTV") and d.get("init"):
                    cn = d["d"][len("vtable for "):]
                    slots = {}
                    for off, o in d["init"]:
                        if off >= 16:
                            slots[(off - 16) // 8] = o[1] if o[0] == "f" else None
                    b = [cn]
                    for cand in self.cls_by_name.get(norm_cls(cn), []) or self._cls_fuzzy(cn):
                        if not self.types[cand].get("decl"):
                            b = self.bases_of(cand)
                            break
                    r[cn] = {"slots": slots, "bases": b, "symbol": g}
            self._vts = r
        return self._vts

    def _cls_fuzzy(self, cn):
        if not hasattr(self, "_cfz"):
            self._cfz = defaultdict(list)
            for n, ids in self.cls_by_name.items():
                self._cfz[squash(n)] += ids
        return self._cfz.get(squash(cn), [])

    def string_at(self, term):
        """constant string a term points to"""
        off = 0
        if term[0] == "addr" and term[1][0] == "global" and not term[3]:
            off = term[2]
            term = term[1]
        if term[0] == "global":
            g = self.globals.get(term[1], {})
            if "str" in g:
                return bytes.fromhex(g["str"])[off:].split(b"\0")[0].decode("latin1")
            if g.get("zero") and g.get("const"):
                return ""
        return None


def norm_cls(n):
    return n


def squash(n):
    return re.sub(r"\s+", "", n).replace("ul>", ">").replace("ul,", ",")


def is_repo_file(f):
    s = short(f)
    if "/base/fmt/" in f or "/concurrentqueue/" in f:
        return False
    return f.startswith(ROOTS[0]) or s.split("/")[0] in ("src", "base", "sinks", "include") or f.startswith("driver")


def is_repo_cls(c):
    return c.startswith("learnlog::") or c.startswith("vdrv::")
