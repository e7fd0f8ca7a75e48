"""Locking: exclusion of sink operations (P06), guarded state (P07), freedom from deadlock (P08)."""
from lib import *
from model import AnalysisBroken
from rules._locks import *

SINK = "learnlog::sinks::sink"
IO = re.compile(r"^(fwrite(_unlocked)?|fflush(_unlocked)?|fputs(_unlocked)?|fputc(_unlocked)?|putc|putchar|puts|f?printf|vfprintf|write|fclose|fopen|fsync|"
                r"std::(basic_)?ostream::(write|put|flush|operator<<)|std::operator<<|learnlog::base::file_base::(open|close|flush|sync|write|size)|"
                r"learnlog::base::os::(fsync|filesize|open_file))$")
SAFE_TYPE = re.compile(r"^(std::(__)?atomic|std::(condition_variable|(recursive_|timed_|shared_)?mutex)|moodycamel::)")


def is_io(fn, i):
    if not i.is_call:
        return False
    if i.callee:
        return bool(IO.match(fn.m.nbase(i.callee)))
    c = describe(fn, i)
    return c.kind == "v" and c.name in ("format", "output_") and not c.cls.startswith("std::")


def sn(K):
    return strip_targs(K).split("::")[-1]


def own_class(f):
    nb = f.nbase
    return nb.rsplit("::", 1)[0] if "::" in nb else ""


def cls_of(m, f):
    """class a member function belongs to, with its template arguments"""
    n = m.name(f.mangled)
    depth = 0
    end = None
    for k, ch in enumerate(n):
        if ch in "<":
            depth += 1
        elif ch in ">" and n[k - 1] != "-":
            depth -= 1
        elif ch == "(" and depth == 0:
            end = k
            break
    n = n[:end] if end is not None else n
    depth = 0
    cut = None
    for k in range(len(n) - 1, 0, -1):
        if n[k] == ">":
            depth += 1
        elif n[k] == "<":
            depth -= 1
        elif n[k] == ":" and n[k - 1] == ":" and depth == 0:
            cut = k - 1
            break
    return n[:cut] if cut else ""


def is_special(m, f):
    """constructor or destructor"""
    a = f.nbase.split("::")
    return len(a) > 1 and (a[-1] == a[-2] or a[-1].startswith("~"))


def methods_of(m, cls):
    out = []
    for f in m.some(r"^%s::" % re.escape(cls), 0):
        if cls_of(m, f) == cls and "'lambda" not in f.name:
            out.append(f)
    return out


def accesses(fn, classes):
    """[(instr, class, field, type, address term, 'r'|'w')] of members of the classes"""
    m = fn.m
    out = []

    def hit(i, t, rw):
        if not isinstance(t, tuple) or t[0] not in ("addr", "arg", "load"):
            return
        best = None
        for c, f, r, ty in fn.chain(t):
            if c in classes:
                best = (c, f, ty)
                break
        if best is not None:
            out.append((i, best[0], best[1], best[2], t, rw))
    for i in fn.instrs():
        if i.op == "load":
            hit(i, fn.term(i.d["p"]), "r")
        elif i.op in ("store", "rmw", "cmpxchg", "xchg"):
            hit(i, fn.term(i.d["p"]), "w")
        elif i.is_call:
            if i.callee and (i.callee.startswith("llvm.dbg") or i.callee.startswith("llvm.lifetime")):
                continue
            for k, a in enumerate(i.args):
                t = fn.term(a)
                if t[0] == "addr":
                    hit(i, t, "r" if reads_only(m, i, k) else "w")
    return out


def reads_only(m, i, k):
    if not i.callee:
        return False
    nb = m.nbase(i.callee)
    if nb.startswith("llvm.memcpy") or nb.startswith("llvm.memmove"):
        return k == 1
    method = "::" in nb and not re.match(r"(std|learnlog|fmt::v\d+)::[a-z_]+$", nb)
    if k == (1 if i.d.get("sret") else 0) and i.callee.startswith("_ZNK"):
        return True
    n = m.name(i.callee)
    params = split_params(n)
    if params is None:
        return False
    kk = k - (1 if len(i.args) == len(params) + 1 else 0) - (1 if i.d.get("sret") and len(i.args) == len(params) + 1 else 0)
    if i.d.get("sret"):
        kk = k - 1 if len(i.args) == len(params) + 1 else k - 2
    if 0 <= kk < len(params):
        p = params[kk].strip()
        return p.endswith("const&") or p.endswith("const*") or not p[-1:] in "&*"
    if kk < 0 and k == 0 and re.search(r"::(find|count|size|empty|begin|end|at|get|c_str|data|length|compare|get_deleter|use_count)$", nb):
        return False if nb.endswith("::at") else True
    return False


def split_params(n):
    depth = 0
    start = None
    if not n.rstrip().endswith(")") and not n.rstrip().endswith("const"):
        return None
    e = n.rstrip()
    e = e[:-5].rstrip() if e.endswith("const") else e
    k = len(e) - 1
    d = 0
    while k >= 0:
        if e[k] == ")":
            d += 1
        elif e[k] == "(":
            d -= 1
            if d == 0:
                break
        k -= 1
    if k < 0:
        return None
    body = e[k + 1:-1]
    out, cur, d = [], "", 0
    for ch in body:
        if ch in "<([":
            d += 1
        elif ch in ">)]":
            d -= 1
        if ch == "," and d == 0:
            out.append(cur)
            cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur)
    return out


# ------------------------------------------------------------------------------------------------ P06
def p06(rep):
    rep.explanation = ("For each sink type behind a *_mt name: the lockset of every access to its mutable state and of every output "
                       "operation, in every operation, with the operations behind virtual dispatch entered with what their callers hold.")
    m = get_model("tls")
    names = LockNames(m)
    kinds = {}
    for f in m.some(r"^vdrv::mk_.*_mt"):
        for i in f.calls():
            if i.callee and re.match(r"learnlog::sinks::([a-z_]+)::\1$", m.nbase(i.callee)):
                kinds.setdefault(cls_of(m, m.fn(i.callee) or f), f.name.split("(")[0]) if m.fn(i.callee) else None
    rep.check(len(kinds) >= 7, "coverage", "driver", "%d thread-safe sink types: %s" % (len(kinds), ", ".join(sn(k) for k in sorted(kinds))),
              "only %d thread-safe sink types found" % len(kinds))
    static = {}
    for K in sorted(kinds):
        static[K] = sink_class(rep, m, names, K)
    std = {K: v for K, v in static.items() if re.search(r"std(out|err)", K)}
    rep.check(len(std) >= 4, "coverage", "sinks", "standard-stream sinks", "only %d standard-stream sinks" % len(std))
    keys = set(std.values())
    rep.check(len(keys) == 1 and all(k is not None and k[0] == "static" for k in keys), "shared-lock", "sinks/std_sinks.h",
              "all standard-stream sinks use one process-wide mutex (%s)" % ", ".join(show(k) if k else "none" for k in keys),
              "the sinks that write to stdout and stderr do not share one process-wide mutex: %s"
              % ", ".join("%s uses %s" % (sn(K), show(v) if v else "none") for K, v in sorted(std.items())))


def sink_class(rep, m, names, K):
    vt = m.vtables().get(K)
    if vt is None:
        raise AnalysisBroken("no vtable of " + K)
    classes = [b for b in vt["bases"] if b.startswith("learnlog::")]
    abstract = [d for n, d in m.vtables().items() if n == SINK]
    impl = {}                   # slot functions that are not the interface of sink: entered only through the sink's own operations
    # slots of the interface: those that exist in every sink; the rest belongs to the implementation
    iface = {s for s in range(6)}
    for s, g in vt["slots"].items():
        if s not in iface and g:
            impl[s] = g
    meths = []
    seen = set()
    for c in classes:
        for f in methods_of(m, c):
            if f.mangled not in seen and not is_special(m, f):
                seen.add(f.mangled)
                meths.append(f)
    # overridden virtual functions of base classes are not run on objects of this class
    live = {g for g in vt["slots"].values() if g}
    allslots = {g for d in m.vtables().values() for g in d["slots"].values() if g}
    meths = [f for f in meths if f.mangled in live or f.mangled not in allslots]
    held = {}
    entry = {}
    for f in meths:
        rep.fn(f)
        if f.mangled in impl.values() or m.access(f.mangled) in ("private", "protected"):
            continue                    # helpers are part of the operations that use them
        h = Held(names, f, io=is_io)
        held[f.mangled] = h
        rep.sim(h.sim, "discipline", "%s of %s" % (f.nbase.split("::")[-1], sn(K)))
    # what the implementation functions are entered with
    for rnd in range(3):
        for f in meths:
            h = held.get(f.mangled)
            if h is None:
                continue
            for i in f.calls():
                tgt = None
                if i.callee in impl.values():
                    tgt = i.callee
                elif not i.callee:
                    v = m.vcall(f, i)
                    if v and v[1] in impl and root_of(v[0]) == ("arg", 0):
                        tgt = impl[v[1]]
                if tgt:
                    k = h.keys(i)
                    if k is not None:
                        old = entry.get(tgt)
                        entry[tgt] = k if old is None else old & k
                    if not k:
                        rep.viol("exclusion", i.where(), "%s of %s is run without the sink's mutex" % (m.nbase(tgt).split("::")[-1], sn(K)),
                                 key="excl|%s|%s|%s" % (K, m.nbase(tgt), f.nbase))
        for f in meths:
            if f.mangled in impl.values() and f.mangled in entry and f.mangled not in held:
                held[f.mangled] = Held(names, f, entry=entry[f.mangled], io=is_io)
    # mutable state
    acc = []
    written = set()
    for f in meths:
        for a in accesses(f, classes):
            if SAFE_TYPE.match(m.tname(a[3])) or m.tname(a[3]).endswith("mutex&"):
                continue
            acc.append((f,) + a)
            if a[6 - 1] == "w":
                written.add((a[1], a[2]))
    common = None
    n = 0
    for f in meths:
        h = held.get(f.mangled)
        if h is None:
            continue
        sites = {}
        for g, i, c, fld, ty, t, rw in acc:
            if g is f and (c, fld) in written:
                sites[i.id] = (i, "%s of %s" % ("write" if rw == "w" else "read", fld))
        for i in f.calls():
            if is_io(f, i):
                sites.setdefault(i.id, (i, "output operation"))
        for i, what in sites.values():
            ks = h.keys(i)
            if ks is None:
                continue
            n += 1
            kk = {k for k, a in ks if k[0] != "?"}
            if not kk:
                rep.viol("exclusion", i.where(), "%s: %s in %s without the sink's mutex" % (sn(K), what, f.nbase.split("::")[-1]),
                         key="excl|%s|%s|%s" % (K, f.nbase, what))
                continue
            common = kk if common is None else common & kk
            if not common:
                rep.viol("exclusion", i.where(), "%s: %s in %s is guarded by another mutex than the other operations" % (sn(K), what, f.nbase.split("::")[-1]),
                         key="excl2|%s|%s|%s" % (K, f.nbase, what))
    # the four operations of the interface take the lock at all
    for s in sorted(iface):
        g = m.fn(vt["slots"].get(s) or "")
        if g is None or is_special(m, g):
            continue
        h = held.get(g.mangled)
        got = {k for k, i, b in h.acquired} if h else set()
        n += 1
        trivial = all(not i.is_call for i in g.instrs())
        rep.check(bool(got) or trivial, "exclusion", g.where(), "%s of %s takes the mutex" % (g.nbase.split("::")[-1], sn(K)),
                  "%s of %s does not take the sink's mutex" % (g.nbase.split("::")[-1], sn(K)))
        common = got if common is None else (common & got if got else common)
    rep.check(n >= 6, "coverage", K, "%d guarded sites in %s, guarded fields: %s" % (n, sn(K), ", ".join(sorted(f for c, f in written))),
              "only %d guarded sites found in %s" % (n, K))
    return sorted(common)[0] if common else None



# ------------------------------------------------------------------------------------------------ P07
GUARDED = ["learnlog::base::registry", "learnlog::base::backtracer", "learnlog::base::block_queue<", "learnlog::base::block_queue_mingw<",
           "learnlog::base::periodic_function", "learnlog::base::lockfree_concurrent_thread_pool", "learnlog::base::lockfree_thread_pool"]
VIEW = re.compile(r"::(find|begin|end|cbegin|cend|operator\[\]|at|front|back|data|get|equal_range|lower_bound|emplace|insert|operator->|operator\*)$")


def depth0(n):
    """where the template arguments of the last component end"""
    d = 0
    for k, ch in enumerate(n):
        d += (ch == "<") - (ch == ">")
        if d == 0 and ch == ">":
            return k
    return 0


def field_offset(m, C, field):
    for c, f, o, t in m.fields_of(m.cls(C)):
        if f == field and c == C:
            return o
    for c, f, o, t in m.fields_of(m.cls(C)):
        if f == field:
            return o
    return None


def object_of(fn, t, C, fld):
    """the object of class C a member address lies in: (root, offset)"""
    off_ = 0
    base = t
    if t[0] == "addr":
        base, off_ = t[1], t[2]
    fo = field_offset(fn.m, C, fld)
    for c, f, r, ty in fn.chain(t):
        if c == C and f == fld:
            return (base, off_ - r - (fo or 0)) if not (t[0] == "addr" and t[3]) else (base, None)
    return (base, None)


def derived(fn, t, classes, depth=0):
    """the guarded member an iterator or element address comes from"""
    while t[0] in ("addr", "cast"):
        t = t[1] if t[0] == "addr" else t[4]
    if t[0] == "call":
        i = fn.instr_of(t)
        if i is None or not i.callee:
            return None
        nb = fn.m.nbase(i.callee)
        if not VIEW.search(nb):
            return None
        for a in i.args:
            a = fn.term(a)
            if a[0] != "addr" and a[0] != "arg":
                continue
            for c, f, r, ty in fn.chain(a):
                if c in classes:
                    return c, f, a
    if t[0] == "phi" and depth < 4:
        for o in fn.by_id[t[2]].d["in"] if t[2] in fn.by_id else ():
            d = derived(fn, fn.term(o[0]), classes, depth + 1)
            if d:
                return d
    return None


def starts_threads(m):
    """functions that start a thread, directly or through a call (not the thread bodies)"""
    res = {}

    def go(f):
        if f.mangled in res:
            return res[f.mangled]
        res[f.mangled] = False
        for i in f.calls():
            if i.callee:
                nb = m.nbase(i.callee)
                g = m.fn(i.callee)
                if nb == "std::thread::_M_start_thread" or re.match(r"std::thread::thread$", nb) and len(i.args) > 1 and "thread(std::thread&&)" not in m.name(i.callee) or \
                        re.match(r"std::vector::(emplace_back|push_back)$", nb) and "std::thread" in m.name(i.callee) or \
                        g is not None and go(g):
                    res[f.mangled] = True
                    break
        return res[f.mangled]
    return go


def p07(rep):
    rep.explanation = ("Every access to the state guarded by a mutex is enumerated and the locks held there on every path computed; all accesses to "
                       "a field must have one mutex of the same object in common. Operations take each mutex once, threads start last.")
    for cfg in ("tls", "notls"):
        m = get_model(cfg)
        names = LockNames(m)
        classes = []
        for g in GUARDED:
            got = [n for n in m.cls_by_name if (n == g or g.endswith("<") and n.startswith(g) and n.endswith(">") and "::" not in n[depth0(n):]) and any(not m.types[c].get("decl") for c in m.cls_by_name[n])]
            if not got:
                raise AnalysisBroken("%s: class %s not found" % (cfg, g))
            classes += got
        guarded_state(rep, m, cfg, names, classes)
        start_order(rep, m, cfg)
    m = get_model("tls")
    names = LockNames(m)
    once_per_operation(rep, m, names)
    factories(rep, m, names)
    atomics(rep, m)


def guarded_state(rep, m, cfg, names, classes):
    CS = set(classes)
    sites = []              # (fn, instr, C, field, object, rw)
    for f in m.all():
        if f.name.startswith("vdrv::"):
            continue
        own = cls_of(m, f) if is_special(m, f) else None
        for i, C, fld, ty, t, rw in accesses(f, CS):
            tn = m.tname(ty)
            if SAFE_TYPE.match(tn):
                continue
            ob = object_of(f, t, C, fld)
            if root_of(t)[0] == "alloca":
                continue
            exempt = own is not None and root_of(t) == ("arg", 0)
            sites.append((f, i, C, fld, ob, rw, exempt, t))
        for i in f.instrs():
            ts = []
            if i.op in ("load", "store"):
                ts = [f.term(i.d["p"])]
            elif i.is_call and not (i.callee and i.callee.startswith("llvm.dbg")):
                ts = [t for t in map(f.term, i.args) if t[0] == "addr"]
            for t in ts:
                d = derived(f, t, CS)
                if d:
                    ob = object_of(f, d[2], d[0], d[1])
                    if root_of(d[2])[0] == "alloca":
                        continue
                    sites.append((f, i, d[0], d[1], ob, "r", own is not None and root_of(d[2]) == ("arg", 0), d[2]))
        if f.d.get("ret") != "void" if "ret" in f.d else True:
            for b in f.blocks:
                i = b[-1]
                if i.op == "ret" and i.d.get("ops"):
                    t = f.term(i.d["ops"][0])
                    if t[0] in ("addr", "call"):
                        hit = [(c, fl) for c, fl, r, ty in f.chain(t) if c in CS and not SAFE_TYPE.match(m.tname(ty))] if t[0] == "addr" else []
                        d = derived(f, t, CS)
                        if (hit or d) and m.access(f.mangled) == "public" and cls_of(m, f) in CS:
                            rep.viol("escape", f.where(), "%s hands out a reference to guarded state" % f.nbase, key="esc|%s" % f.nbase)
    mutable = {(C, fld) for f, i, C, fld, ob, rw, ex, t in sites if rw == "w" and not ex}
    # entry locks of private helpers that are not part of their callers
    held = {}

    def H(f, entry=frozenset()):
        if f.mangled not in held:
            held[f.mangled] = Held(names, f, entry=entry)
        return held[f.mangled]
    need = {}
    for f, i, C, fld, ob, rw, ex, t in sites:
        if (C, fld) in mutable and not ex:
            need.setdefault(f.mangled, f)
    unused = set()
    slots = {g for d in m.vtables().values() for g in d["slots"].values() if g}
    helpers = {mg: f for mg, f in need.items() if "'lambda" in f.name and not re.search(r"::_M_(run|invoke)$", f.nbase) or mg not in slots and m.access(mg) in ("private", "protected") and cls_of(m, f) in CS}
    for mg, h in helpers.items():
        entry = None
        ncall = 0
        for f in m.all():
            for i in f.calls():
                if i.callee == mg:
                    ncall += 1
                    ks = H(f).keys(i)
                    if ks is None:
                        continue
                    me = f.term(i.args[1] if i.d.get("sret") else i.args[0])
                    tr = set()
                    for k, a in ks:
                        if root_of(a) == root_of(me):
                            tr.add((k, rebase(a, root_of(a), ("arg", 1 if i.d.get("sret") else 0))))
                    entry = tr if entry is None else entry & tr
        if ncall:
            H(h, frozenset(entry or ()))
        else:
            unused.add(mg)              # part of its callers everywhere
    common = {}
    n = 0
    done = set()
    for f, i, C, fld, ob, rw, ex, t in sites:
        if ex or (C, fld) not in mutable or f.mangled in unused:
            continue
        if (f.mangled, i.id, C, fld) in done:
            continue
        done.add((f.mangled, i.id, C, fld))
        rep.fn(f)
        h = H(f)
        ks = h.keys(i)
        if ks is None:
            continue
        n += 1
        mine = set()
        for k, a in ks:
            if k[0] == "member" and k[1] == C:
                lo = object_of(f, a, k[1], k[2])
                if lo == ob or lo[1] is None and lo[0] == ob[0]:
                    mine.add(k)
            elif k[0] == "static":
                mine.add(k)
        what = "%s of %s::%s" % ("write" if rw == "w" else "read", sn(C), fld)
        if not mine:
            rep.viol("guarded-state", i.where(), "[%s] %s in %s without the object's mutex" % (cfg, what, f.nbase.replace("learnlog::", "")),
                     key="gs|%s|%s|%s" % (C, fld, f.nbase))
            continue
        old = common.get((C, fld))
        if old is not None and not old & mine:
            rep.viol("guarded-state", i.where(), "[%s] %s in %s is under another mutex than elsewhere" % (cfg, what, f.nbase.replace("learnlog::", "")),
                     key="gs2|%s|%s|%s" % (C, fld, f.nbase))
        else:
            common[C, fld] = mine if old is None else old & mine
            rep.ok("guarded-state", i.where(), "[%s] %s under %s" % (cfg, what, ", ".join(sorted(show(k) for k in common[C, fld]))))
    for h in held.values():
        rep.sim(h.sim, "discipline", "locks balanced")
    for C in classes:
        got = sorted({fld for (c, fld) in common if c == C})
        if cfg == "tls" and C == "learnlog::base::lockfree_thread_pool":
            continue                    # its token table exists without thread-local storage only
        rep.check(bool(got) or sn(C) == "periodic_function", "coverage", C, "[%s] guarded members of %s: %s" % (cfg, sn(C), ", ".join(got)),
                  "[%s] no guarded member of %s is accessed under its mutex" % (cfg, sn(C)))
    rep.check(n >= 40, "coverage", "guarded accesses", "[%s] %d accesses" % (cfg, n), "[%s] only %d guarded accesses found" % (cfg, n))


def rebase(a, frm, to):
    if a == frm:
        return to
    if a[0] == "addr":
        return ("addr", rebase(a[1], frm, to), a[2], a[3])
    return a


def start_order(rep, m, cfg):
    go = starts_threads(m)
    n = 0
    for f in m.all():
        if f.name.startswith("vdrv::") or not is_special(m, f) or f.nbase.split("::")[-1].startswith("~"):
            continue
        C = cls_of(m, f)
        if not C.startswith("learnlog::") or not go(f):
            continue
        n += 1
        rep.fn(f)
        cs = set(m.bases_of(m.cls(C)))
        starts = []
        for i in f.calls():
            if i.callee:
                nb = m.nbase(i.callee)
                g = m.fn(i.callee)
                if nb == "std::thread::_M_start_thread" or re.match(r"std::thread::thread$", nb) and "thread(std::thread&&)" not in m.name(i.callee) and len(i.args) > 1 or \
                        re.match(r"std::vector::(emplace_back|push_back)$", nb) and "std::thread" in m.name(i.callee) or g is not None and go(g):
                    starts.append(i)
        after = set()
        for st in starts:
            seen = set()
            work = list(f.succ[st.blk])
            while work:
                b = work.pop()
                if b in seen or b in getattr(f, "cleanup", ()):
                    continue
                seen.add(b)
                work += f.succ[b]
            for i in f.instrs():
                if i.blk in seen or i.blk == st.blk and f.idominates(st, i) and i.id != st.id:
                    after.add(i.id)
        bad = 0
        for i, c, fld, ty, t, rw in accesses(f, cs):
            tn = m.tname(ty)
            if rw == "w" and i.id in after and not tn.startswith("std::thread") and not ("vector" in tn and "std::thread" in tn) and not SAFE_TYPE.match(tn) \
                    and not destroys(f, i) and i not in starts:
                bad += 1
                rep.viol("start-order", i.where(), "[%s] %s is written by the constructor of %s after a thread that may use it has been started" % (cfg, fld, sn(C)),
                         key="so|%s|%s" % (C, fld))
        if not bad:
            rep.ok("start-order", f.where(), "[%s] %s: nothing is set up after the first thread has been started" % (cfg, sn(C)))
    rep.check(n >= 4, "coverage", "constructors that start threads", "[%s] %d" % (cfg, n), "[%s] only %d constructors that start threads" % (cfg, n))
    # destructors: nothing shared is written before the threads are joined
    for f in m.all():
        if not f.nbase.split("::")[-1].startswith("~") or f.name.startswith("vdrv::"):
            continue
        C = cls_of(m, f)
        if not C.startswith("learnlog::"):
            continue
        joins = [i for i in f.calls() if i.callee and m.nbase(i.callee) == "std::thread::join"]
        if not joins:
            continue
        rep.fn(f)
        cs = set(m.bases_of(m.cls(C)))
        h = Held(LockNames(m), f)
        for i, c, fld, ty, t, rw in accesses(f, cs):
            tn = m.tname(ty)
            if rw != "w" or SAFE_TYPE.match(tn) or "std::thread" in tn:
                continue
            before = any(j.blk in f.reachable(i.blk) and (j.blk != i.blk or f.idominates(i, j)) for j in joins)
            if before and not (h.keys(i) or ()) and (i.op == "store" and not vptr_store(f, i) or
                                                      i.is_call and not destroys(f, i) and not strip_targs(tn).startswith(tuple(g.rstrip("<") for g in GUARDED))):
                rep.viol("stop-order", i.where(), "[%s] the destructor of %s writes %s while the threads may still use it" % (cfg, sn(C), fld),
                         key="do|%s|%s" % (C, fld))
        rep.ok("stop-order", f.where(), "[%s] %s: nothing shared is written before the join" % (cfg, sn(C)))


def vptr_store(f, i):
    v = f.term(i.d["v"])
    return root_of(v)[0] == "global"


def destroys(f, i):
    """destruction on the exceptional path"""
    return bool(i.is_call and i.callee and ("::~" in f.m.nbase(i.callee) or re.search(r"::operator (delete|new)", f.m.nbase(i.callee))))


def once_per_operation(rep, m, names):
    """public operations are one critical section: each mutex is entered at most once"""
    n = 0
    for C in ("learnlog::base::registry", "learnlog::base::backtracer", "learnlog::base::block_queue<learnlog::base::async_msg>"):
        acq = {}
        meths = [f for f in methods_of(m, C) if not is_special(m, f) and m.access(f.mangled) == "public"]
        pub = {f.mangled for f in meths}
        heldof = {}
        for f in meths:
            heldof[f.mangled] = h = Held(names, f)
            acq[f.mangled] = {k for k, i, b in h.acquired if k[0] in ("member", "static")}
        for f in meths:
            rep.fn(f)
            n += 1

            def ev(sim, i, env, f=f):
                if not (i.is_call and i.callee):
                    return ()
                nb = m.nbase(i.callee)
                if nb == "std::mutex::lock":
                    a = addr(sim, i.args[0], env)
                    return [("acq", (names.key(f, a) if not is_sym(a) else None, a))]
                if i.callee in pub:
                    me = sim.resolve(i.args[1] if i.d.get("sret") else i.args[0], env)
                    if me == ("arg", 1 if f.d.get("sret") or sret(f) else 0):
                        return [("acq", (k, "self")) for k in acq[i.callee]]
                return ()

            def step(au, e, i):
                if e[0] != "acq":
                    return au
                k = e[1][0]
                root = "self" if e[1][1] == "self" or root_of(e[1][1])[0] == "arg" and root_of(e[1][1])[1] == (1 if sret(f) else 0) else e[1][1]
                if (k, root) in au:
                    raise Bad("%s is not one critical section: %s is taken a second time" % (f.nbase.split("::")[-1], show(k) if k else "a mutex"))
                return au | {(k, root)}
            s = Sim(f, lambda sim, t, env: None, ev, step, frozenset(), lambda sim, i, env: names.throws.of_call(f, i)).run()
            rep.sim(s, "one-section", "%s of %s" % (f.nbase.split("::")[-1], sn(C)))
    rep.check(n >= 25, "coverage", "public operations", "%d" % n, "only %d public operations found" % n)


def sret(f):
    return bool(f.d.get("sret"))


def factories(rep, m, names):
    """deciding on a thread pool and registering it is one critical section common to all factories"""
    GET, REG_ = "learnlog::base::registry::get_thread_pool", "learnlog::base::registry::register_thread_pool"
    keys = None
    n = 0
    for f in m.all():
        cs = [i for i in f.calls() if i.callee and m.nbase(i.callee) in (GET, REG_)]
        if len({m.nbase(i.callee) for i in cs}) < 2:
            continue
        n += 1
        rep.fn(f)
        h = Held(names, f, io=lambda fn, i: i.is_call and i.callee and m.nbase(i.callee) in (GET, REG_))
        rep.sim(h.sim, "factory-lock", "one critical section")
        for i in cs:
            ks = {k for k, a in (h.keys(i) or ()) if k[0] == "static"}
            if not ks:
                rep.viol("factory-lock", i.where(), "the decision about the thread pool is not under a lock shared by all factories", key="fl|%s" % f.nbase)
            else:
                keys = ks if keys is None else keys & ks
                if not keys:
                    rep.viol("factory-lock", i.where(), "factories of different types use different locks to decide about the thread pool", key="fl2")
    rep.check(n >= 3, "coverage", "factories", "%d factory instantiations under one lock" % n, "only %d asynchronous factory instantiations found" % n)


def atomics(rep, m):
    """state of a sink that changes outside its mutex is atomic"""
    S_ = "learnlog::sinks::sink"
    n = 0
    for f in m.all():
        if is_special(m, f) or f.name.startswith("vdrv::"):
            continue
        for i, C, fld, ty, t, rw in accesses(f, {S_}):
            n += 1
            if rw == "w" and not SAFE_TYPE.match(m.tname(ty)):
                rep.viol("atomic", i.where(), "%s of sink is written without synchronisation and is not atomic" % fld, key="at|%s" % fld)
            else:
                rep.ok("atomic", i.where(), "%s is atomic" % fld)
    rep.check(n >= 2, "coverage", "sink state", "%d accesses" % n, "sink's level is not accessed anywhere")



# ------------------------------------------------------------------------------------------------ P08
WORKER, TIMER = ("thread", "worker threads"), ("thread", "timer thread")
SMART = re.compile(r"std::(?:shared_ptr|unique_ptr|__shared_ptr)<\s*(learnlog::[\w:]+(?:<[^<>]*(?:<[^<>]*>)?[^<>]*>)?)")
DROPS = re.compile(r"^std::[\w:]*::(~\w+|operator=|reset|clear|erase|pop_back|resize|assign|swap|_M_dispose|_M_release|_M_destroy)$")
BODY = re.compile(r"std::thread::_State_impl<.*>::_M_run\(\)$")
POOL = "learnlog::base::thread_pool"


class Effects:
    """what executing a function may do to other threads: locks it takes, threads it waits for, user callbacks it runs"""

    def __init__(self, m, names):
        self.m, self.names = m, names
        self.own = {}               # mangled -> [(instr, effect)] locks and waits in the function itself
        self.out = {}               # mangled -> [(instr, callee mangled)]
        self.held = {}
        self.destroyed = {}
        self.handlers = {}
        self.unresolved = []
        for f in m.all():
            if re.search(r"std::_Function_handler<.*>::_M_invoke\(", f.name):
                mm = re.match(r"std::_Function_handler<(.*?\)), (.*)>::_M_invoke\(", f.name)
                if mm:
                    self.handlers.setdefault(squash_sig(mm.group(1)), []).append((mm.group(2), f))
        for f in m.all():
            if not f.name.startswith("vdrv::"):
                self.scan(f)
        self.closure = {}

    def H(self, f):
        if f.mangled not in self.held:
            self.held[f.mangled] = Held(self.names, f, own=True)
        return self.held[f.mangled]

    def scan(self, f):
        m = self.m
        own, out = [], []
        std = f.nbase.startswith("std::") and not f.nbase.endswith(("_M_run", "_M_invoke"))
        for i in f.calls():
            if i.callee:
                nb = m.nbase(i.callee)
                k = LOCK.match(nb)
                if k:
                    if "unlock" not in k.group(2) and not std and not k.group(2).startswith("try"):
                        own.append((i, ("lock?", None)))
                    continue
                if nb == "std::thread::join":
                    own.append((i, ("wait", thread_of(m, f))))
                elif re.match(r"std::(__basic_future|future|shared_future|__future_base::.*)::(get|wait|_M_get_result)$", nb):
                    own.append((i, ("wait", WORKER)))
                elif WAIT.match(nb):
                    own.append((i, ("cv", None)))
                    if re.search(r"block_queue", f.nbase):
                        own.append((i, ("msg", None) if f.nbase.split("::")[-1].startswith("dequeue") else ("wait", WORKER)))
                elif nb.startswith("moodycamel::") and not f.nbase.startswith("moodycamel::"):
                    what = nb.split("::")[-1]
                    if what in ("wait_dequeue", "wait_dequeue_timed", "wait_dequeue_bulk") or "dequeue" in what and f.innermost_loop(i.blk):
                        own.append((i, ("msg", None)))
                    elif (what.startswith("try_enqueue") or what == "size_approx") and f.innermost_loop(i.blk):
                        own.append((i, ("wait", WORKER)))
                elif nb == "std::function::operator()":
                    own.append((i, ("user", None)))
                    for h in self.handlers_for(f, i):
                        out.append((i, h.mangled))
                elif nb == "__cxa_guard_acquire":
                    own.append((i, ("lock", ("guard", str(root_of(f.term(i.args[0]))[1])))))
                if nb.startswith("std::") and DROPS.match(nb):
                    for T in SMART.findall(m.name(i.callee)):
                        for g in self.dtors(T):
                            out.append((i, g))
                if not nb.startswith("moodycamel::"):
                    out.append((i, i.callee))
            elif not std:
                c = describe(f, i)
                if c.kind == "v":
                    _, slot = m.vcall(f, i)
                    for vt, d in m.vtables().items():
                        if c.cls in [strip_targs(b) for b in d["bases"]] and d["slots"].get(slot):
                            out.append((i, d["slots"][slot]))
        self.own[f.mangled] = own
        self.out[f.mangled] = out

    def dtors(self, T):
        if T not in self.destroyed:
            m = self.m
            r = []
            for f in m.some(r"^%s::~" % re.escape(T), 0):
                r.append(f.mangled)
            for vt, d in m.vtables().items():
                if T in d["bases"] or strip_targs(T) in [strip_targs(b) for b in d["bases"]]:
                    for s in (0, 1):
                        g = d["slots"].get(s)
                        if g and "::~" in m.nbase(g):
                            r.append(g)
            self.destroyed[T] = sorted(set(r))
        return self.destroyed[T]

    def handlers_for(self, f, i):
        """callbacks made by the library that can be the one invoked here"""
        m = self.m
        mm = re.match(r"std::function<(.*)>::operator\(\)", m.name(i.callee))
        cand = self.handlers.get(squash_sig(mm.group(1)) if mm else "", [])
        C = enclosing_class(m, f)
        out = []
        for lam, h in cand:
            lam = re.sub(r"^(?:const )?[\w:]+(?:<[^()]*?>)?[&* ]* (?=learnlog::)", "", lam)
            maker = re.split(r"::\{lambda|::'lambda|::\$_", lam)[0]
            mc = re.sub(r"\(.*$", "", strip_targs(strip_calls(maker)))
            cls_ = mc.rsplit("::", 1)[0] if "::" in mc else ""
            if cls_ == C or C in [strip_targs(b) for b in self.bases(cls_)] or any(C in made for made in self.makes(mc)):
                out.append(h)
        return out

    def bases(self, c):
        try:
            return self.m.bases_of(self.m.cls(c))
        except AnalysisBroken:
            return ()

    def makes(self, fnname):
        """classes whose members or constructors a function (by unqualified pattern) calls"""
        m = self.m
        r = set()
        for f in m.all():
            if f.nbase == fnname:
                for i in f.calls():
                    if i.callee:
                        nb = m.nbase(i.callee)
                        r.add(strip_targs(nb.rsplit("::", 1)[0]) if "::" in nb else "")
                        if "make_" in nb:
                            r |= {strip_targs(x) for x in re.findall(r"learnlog::[\w:]+", m.name(i.callee))}
        return [r]

    def of(self, mangled):
        """effects of executing a function, in itself or below"""
        if mangled in self.closure:
            return self.closure[mangled]
        # strongly connected parts: iterate to a fixed point over the reachable set
        seen, work = [], [mangled]
        sset = set()
        while work:
            x = work.pop()
            if x in sset:
                continue
            sset.add(x)
            seen.append(x)
            for i, c in self.out.get(x, ()):
                if not self.skip(x, i, c):
                    work.append(c)
        r = {}
        for x in seen:
            for i, e in self.effects_here(x):
                r.setdefault(e, (x, i))
        self.closure[mangled] = r
        return r

    def skip(self, mangled, i, c):
        """destruction through a smart pointer that is known to be empty"""
        f = self.m.fn(mangled)
        if "::~" not in self.m.nbase(c) or not i.callee or not re.match(r"^std::", self.m.nbase(i.callee)):
            return False
        e = self.H(f).empty_at.get(i.id) if f is not None else None
        return bool(e) and e == {True}

    def effects_here(self, mangled):
        f = self.m.fn(mangled)
        own = self.own.get(mangled, ())
        if not own:
            return
        h = None
        for i, e in own:
            if e[0] == "lock?":
                h = h or self.H(f)
                ks = {k for k, j, b in h.acquired if j.id == i.id}
                for k in ks:
                    yield i, ("lock", k)
            elif e[0] != "cv":
                yield i, e


def squash_sig(x):
    return re.sub(r"std::shared_ptr<learnlog::logger>", "logger_shr_ptr", re.sub(r"\s+", "", x))


def strip_calls(x):
    """name without parameter lists"""
    out, d = "", 0
    for ch in x:
        if ch == "(":
            d += 1
        elif ch == ")":
            d -= 1
        elif d == 0:
            out += ch
    return out


def enclosing_class(m, f):
    nb = f.nbase
    if nb.endswith("::_M_run"):
        x = re.findall(r"learnlog::[\w:]+", f.name)
        n = strip_targs(x[0]) if x else ""
        return n.rsplit("::", 1)[0] if "::" in n else n
    return strip_targs(cls_of(m, f))


def thread_of(m, f):
    c = enclosing_class(m, f)
    return TIMER if "periodic" in c else WORKER


NOCB = re.compile(r"^learnlog::base::(registry|block_queue|block_queue_mingw|lockfree_concurrent_thread_pool|lockfree_thread_pool|lock_thread_pool|thread_pool)$")

USERTAKES = re.compile(r"^learnlog::base::(registry|lockfree_concurrent_thread_pool|lockfree_thread_pool|lock_thread_pool)::(?!flusher)")


def p08(rep):
    rep.explanation = ("Who may wait for whom: every lock taken, thread joined, answer or free queue slot awaited while a lock is held becomes an edge, "
                       "through calls, virtual calls, destructors run by smart pointers and library callbacks; the graph must have no cycle.")
    for cfg in ("tls", "notls"):
        m = get_model(cfg)
        names = LockNames(m)
        E = Effects(m, names)
        waiting(rep, m, names, E, cfg)


def waiting(rep, m, names, E, cfg):
    edges = {}
    nsites = 0
    bodies = {WORKER: [], TIMER: []}
    for f in m.all():
        if BODY.search(f.name) and "learnlog::" in f.name:
            bodies[TIMER if "periodic_function" in f.name else WORKER].append(f)
    rep.check(len(bodies[WORKER]) >= 7 and len(bodies[TIMER]) >= 1, "coverage", "threads", "[%s] %d worker bodies, %d timer bodies" % (cfg, len(bodies[WORKER]), len(bodies[TIMER])),
              "[%s] thread bodies not found: %d workers, %d timers" % (cfg, len(bodies[WORKER]), len(bodies[TIMER])))
    if not bodies[WORKER] or not bodies[TIMER]:
        return

    def edge(a, b, f, i, via):
        if a != b or a[0] == "thread" or True:
            edges.setdefault((a, b), (f, i, via))
    for T, fs in bodies.items():
        for f in fs:
            for e, (x, i) in E.of(f.mangled).items():
                if e[0] in ("lock", "wait"):
                    edge(T, e[1], f, i, m.fn(x))
    # what a worker runs includes user code (sinks, start and stop callbacks), which may use the registry and log
    for k in sorted({k for f in m.all() if not f.name.startswith("vdrv::") and any(e[0] == "lock?" for i, e in E.own.get(f.mangled, ()))
                     for k, i, b in E.H(f).acquired if k[0] == "member" and USERTAKES.match(strip_targs(str(k[1])) + "::" + str(k[-1]))}, key=str):
        edge(WORKER, k, bodies[WORKER][0], next(bodies[WORKER][0].instrs()), None)
    interesting = [f for f in m.all() if not f.name.startswith("vdrv::") and
                   any(e[0] in ("lock?",) for i, e in E.own.get(f.mangled, ()))]
    # helpers that run with their callers' locks are covered through their callers' closure
    called = {i.callee for f in m.all() for i in f.calls() if i.callee}
    for f in interesting:
        if re.search(r"'lambda|\$_", f.name) and f.mangled not in called and not re.search(r"::_M_(run|invoke)$", f.nbase):
            continue                    # part of the functions that use it
        if f.nbase.startswith("std::") and not f.nbase.endswith(("_M_run", "_M_invoke")):
            continue
        rep.fn(f)
        h = E.H(f)
        rep.sim(h.sim, "discipline", "locks balanced")
        for k, i, before in h.acquired:
            nsites += 1
            for k2, a2 in before:
                edge(k2, k, f, i, None)
        for i, before in h.waits:
            nsites += 1
            rep.check(len(before) <= 1, "held-while-waiting", i.where(), "[%s] waits holding its own mutex only" % cfg,
                      "[%s] waits for a condition while holding another lock" % cfg)
        for i, c in E.out.get(f.mangled, ()):
            hs = h.at.get(i.id)
            if not hs or not any(hs) or E.skip(f.mangled, i, c):
                continue
            eff = E.of(c)
            if not eff:
                continue
            nsites += 1
            for ls in hs:
                for k, a in ls:
                    for e, (x, j) in eff.items():
                        if e[0] in ("lock", "wait"):
                            edge(k, e[1], f, i, m.fn(x))
                        elif e[0] == "msg":
                            rep.viol("held-while-waiting", i.where(), "[%s] waits for a message in the queue (%s) while holding %s" % (cfg, m.nbase(x), show(k)),
                                     key="msg|%s|%s" % (f.nbase, show(k)))
                        elif e[0] == "user" and k[0] == "member" and NOCB.match(strip_targs(k[1])) and user_callback(m, E, x, j):
                            rep.viol("callback-under-lock", i.where(), "[%s] runs a user callback (%s) while holding %s" % (cfg, m.nbase(x), show(k)),
                                     key="cb|%s|%s" % (f.nbase, show(k)))
        for i, e in E.own.get(f.mangled, ()):
            hs = h.at.get(i.id) or ()
            for ls in hs:
                for k, a in ls:
                    if e[0] == "wait":
                        if E.own and any(x == "cv" for j, (x, _) in E.own[f.mangled] if j.id == i.id):
                            continue            # releases that mutex while it waits
                        edge(k, e[1], f, i, None)
                    elif e[0] == "msg" and not any(x == "cv" for j, (x, _) in E.own[f.mangled] if j.id == i.id):
                        rep.viol("held-while-waiting", i.where(), "[%s] waits for a message in the queue while holding %s" % (cfg, show(k)), key="msg|%s|%s" % (f.nbase, show(k)))
                    elif e[0] == "user" and k[0] == "member" and NOCB.match(strip_targs(k[1])):
                        rep.viol("callback-under-lock", i.where(), "[%s] runs a callback while holding %s" % (cfg, show(k)), key="cb|%s|%s" % (f.nbase, show(k)))
    # static initialisers must not come back to themselves
    for f in m.all():
        for i, e in E.own.get(f.mangled, ()):
            if e[0] == "lock" and e[1][0] == "guard":
                nsites += 1
                for j, c in E.out.get(f.mangled, ()):
                    if j.blk in f.reachable(i.blk) and ("lock", e[1]) in E.of(c):
                        rep.viol("static-init", j.where(), "[%s] the initialiser of %s uses the object itself" % (cfg, e[1][1]), key="si|%s" % f.nbase)
    # cycles
    adj = defaultdict(set)
    for (a, b) in edges:
        adj[a].add(b)
    for (a, b), (f, i, via) in sorted(edges.items(), key=lambda x: str(x[0])):
        path = find_path(adj, b, a)
        if path is None:
            rep.ok("order", i.where(), "[%s] %s before %s%s" % (cfg, show(a), show(b), " (through %s)" % via.nbase if via is not None else ""))
        else:
            w = " -> ".join(show(x) for x in [a] + path)
            rep.viol("cycle", i.where(), "[%s] %s may wait for each other: %s%s" % (cfg, " and ".join(sorted({show(x) for x in [a] + path})), w,
                     " (through %s)" % via.nbase if via is not None else ""), key="cyc|%s" % "|".join(sorted({show(x) for x in [a] + path})))
    rep.check(nsites >= 60 and len(edges) >= 15, "coverage", "waits-for graph", "[%s] %d acquisitions, waits and calls with locks held, %d edges" % (cfg, nsites, len(edges)),
              "[%s] only %d sites and %d edges in the waits-for graph" % (cfg, nsites, len(edges)))


def user_callback(m, E, x, j):
    return True


def find_path(adj, a, b):
    if a == b:
        return [a]
    prev = {a: None}
    work = [a]
    while work:
        x = work.pop(0)
        for y in sorted(adj.get(x, ()), key=str):
            if y not in prev:
                prev[y] = x
                if y == b:
                    r = [y]
                    while prev[r[-1]] is not None:
                        r.append(prev[r[-1]])
                    return list(reversed(r))
                work.append(y)
    return None


PROPERTIES = {"P06": p06, "P07": p07, "P08": p08}
