"""The bounded queue: ring buffer and blocking queue; backtrace ring."""
from lib import *
from model import AnalysisBroken
from rules._world import *

CQ = "learnlog::base::circular_queue"
A, B, ITEM = ("s", "A", 0), ("s", "B", 0), ("s", "ITEM", 0)


class Ring:
    """circular_queue<T> of one element type: operations as transfer functions"""

    def __init__(self, rep, m, T, esz):
        self.rep, self.m, self.T = rep, m, T
        self.fns = {}
        for f in m.all():
            if f.name.startswith("%s<%s>::" % (CQ, T)):
                self.fns.setdefault(f.nbase.split("::")[-1], []).append(f)
        self.ap = Apply(m, esz, lambda g: g.nbase.startswith(CQ + "::"))
        self.bad = set()

    def get(self, what, pick=None):
        fs = [f for f in self.fns.get(what, ()) if pick is None or pick(f)]
        return fs[0] if fs else None

    def do(self, f, args, w, rule, what):
        """one determined outcome or None (reported)"""
        self.rep.fn(f)
        out = self.ap(f, args, w)
        for o in out:
            if o[0] == "bad":
                self.fail(f, rule, o[1][1], "%s: %s" % (what, o[1][0]))
                return None
        rets = [o for o in out if o[0] == "ret"]
        if len(rets) != 1:
            self.fail(f, rule, None, "%s: the outcome is not determined by the queue's state and arguments" % what)
            return None
        return rets[0]

    def fail(self, f, rule, i, msg):
        key = (f.nbase, rule, msg[:60])
        if key not in self.bad:
            self.bad.add(key)
            self.rep.viol(rule, (i or next(f.instrs())).where(), "circular_queue<%s>: %s" % (self.T.split("::")[-1], msg), key="%s|%s|%s" % (f.nbase, rule, re.sub(r"\d+", "n", msg)))


def rename(w, order):
    """normal form: tokens of the model by age, all others junk"""
    mp = {t: ("tok", n) for n, t in enumerate(order)}

    def r(x):
        return mp.get(x, JUNK) if isinstance(x, tuple) and x[:1] == ("tok",) else x
    return (frozenset((k, r(v)) for k, v in w[0] if k[1] == "A"), frozenset((k, tuple(r(x) for x in v)) for k, v in w[1] if k[1] == "A"))


def with_item(w, tok):
    return (w[0] | {(ITEM, tok)}, w[1])


def observe(ring, w, model, cap, over, valid, rule, obj=A):
    """every query agrees with the list model"""
    rep = ring.rep
    n = 0

    def q(name, args, want, pick=None, text=None):
        nonlocal n
        f = ring.get(name, pick)
        if f is None:
            return
        o = ring.do(f, [obj] + args, w, rule, name)
        n += 1
        if o is None:
            return
        if isinstance(o[1], int) and isinstance(want, int) and not isinstance(want, bool):
            good = o[1] == want
        else:
            good = o[1] == want
        if not good:
            ring.fail(f, rule, None, "%s() is %s where the history leaves %d of at most %s elements%s (expected %s)" %
                      (name, show_val(ring, w, o[1]), len(model), cap if valid else 0, "" if valid else ", queue not in use", want))
        if o[2] != w:
            ring.fail(f, rule, None, "%s() changes the queue" % name)
    q("size", [], len(model))
    q("empty", [], int(not model))
    q("full", [], int(valid and len(model) == cap))
    q("override_count", [], over)
    for name, args, k in [("front", [], 0)] + [("at", [k], k) for k in range(len(model))]:
        if not model:
            continue
        for f in ring.fns.get(name, ()):
            o = ring.do(f, [obj] + args, w, rule, name)
            n += 1
            if o is None:
                continue
            c = ring.ap.content(thaw(w), o[1]) if is_sym(o[1]) else None
            if c != model[k]:
                ring.fail(f, rule, None, "%s(%s) is not the element of age %d of %d" % (name, ", ".join(map(str, args)), k, len(model)))
            if o[2] != w:
                ring.fail(f, rule, None, "%s() changes the queue" % name)
    return n


def show_val(ring, w, v):
    return str(v) if isinstance(v, int) else "?"


def p10(rep):
    rep.explanation = ("Ring buffer: the member functions are applied as transfer functions to a finite abstract store (small capacity, indices, slots holding "
                       "elements by age) until no new state appears; in every state every query and change is compared with a list that drops its oldest element when full.")
    m = get_model("tls")
    caps = (0, 1, 2, 3) if rep.tier == "quick" else (0, 1, 2, 3, 4, 5, 6)
    seen_T = set()
    for f in m.all():
        mm = re.match(r"^%s<(.*?)>::push_back\(" % re.escape(CQ), f.name)
        if mm:
            seen_T.add(mm.group(1))
    if not {"learnlog::base::async_msg", "learnlog::base::log_msg_buf"} <= seen_T:
        raise AnalysisBroken("circular_queue is not instantiated for messages")
    for T in sorted(seen_T):
        t = m.cls(T)
        ring = Ring(rep, m, T, m.types[t]["sz"])
        nobs = nstates = 0
        for cap in caps:
            a, b = explore(rep, ring, cap)
            nstates += a
            nobs += b
        rep.check(nstates >= sum((c + 1) for c in caps) and nobs >= 20, "coverage", "circular_queue<%s>" % T, "%d states, %d applications compared with the list" % (nstates, nobs),
                  "circular_queue<%s>: only %d states and %d applications" % (T, nstates, nobs))
        if not ring.bad:
            rep.ok("ring", "circular_queue<%s>" % T, "agrees with the list model in %d states" % nstates)


def explore(rep, ring, cap):
    ctor = ring.get("circular_queue", lambda f: re.search(r"\(unsigned (long|int)", f.name) is not None)
    push, pop = ring.get("push_back"), ring.get("pop_front")
    if ctor is None or push is None or pop is None:
        raise AnalysisBroken("circular_queue<%s> lacks a constructor, push_back or pop_front" % ring.T)
    o = ring.do(ctor, [A, cap, 0], (frozenset(), frozenset()), "construction", "constructor")
    if o is None:
        return 0, 0
    start = (rename(o[2], []), 0, 0)            # world, number of elements, overrides
    seen, work, nobs = {start}, [start], 0
    while work and not ring.bad:
        w, n, over = work.pop()
        model = [("tok", k) for k in range(n)]
        nobs += observe(ring, w, model, cap, over, True, "query")
        if not ring.bad:
            rep.ok("state", "circular_queue<%s>" % ring.T, "capacity %d, %d elements, %d overwritten: all operations agree with the list" % (cap, n, over))
        # insertion
        o = ring.do(push, [A, ITEM], with_item(w, ("tok", 99)), "insertion", "push_back")
        if o is None:
            break
        nobs += 1
        m2, ov2 = model + [("tok", 99)], over
        if len(m2) > cap:
            m2, ov2 = m2[1:], over + 1
        if ov2 <= 2 * cap + 3:
            nxt(seen, work, (rename(o[2], m2), len(m2), ov2))
        elif observe(ring, rename(o[2], m2), [("tok", k) for k in range(len(m2))], cap, ov2, True, "query"):
            pass
        # removal
        if n:
            o = ring.do(pop, [A], w, "removal", "pop_front")
            if o is None:
                break
            nobs += 1
            nxt(seen, work, (rename(o[2], model[1:]), n - 1, over))
        reset = ring.get("reset_override_count")
        if reset is not None:
            o = ring.do(reset, [A], w, "override count", "reset_override_count")
            if o is not None:
                nobs += observe(ring, o[2], model, cap, 0, True, "override count")
        whole(ring, w, model, cap, over, push)
    return len(seen), nobs


def nxt(seen, work, st):
    if st not in seen:
        seen.add(st)
        work.append(st)


def dead(ring, w, push, obj, rule):
    """a cleared or moved-from queue holds nothing and takes nothing"""
    observe(ring, w, [], 0, 0, False, rule, obj)
    o = ring.do(push, [obj, ITEM], with_item(w, ("tok", 98)), rule, "push_back on a queue not in use")
    if o is not None:
        observe(ring, o[2], [], 0, 0, False, rule, obj)


def whole(ring, w, model, cap, over, push):
    f = ring.get("clear")
    if f is not None:
        o = ring.do(f, [A], w, "clear", "clear")
        if o is not None:
            dead(ring, o[2], push, A, "clear")
    f = ring.get("circular_queue", lambda f: f.name.endswith("::circular_queue()"))
    if f is not None:
        o = ring.do(f, [B], (frozenset(), frozenset()), "construction", "default constructor")
        if o is not None:
            dead(ring, o[2], push, B, "construction")
    # another queue of capacity 1 with one element as the target of assignments
    ctor = ring.get("circular_queue", lambda f: re.search(r"\(unsigned (long|int)", f.name) is not None)
    for name in ("circular_queue", "operator="):
        for f in ring.fns.get(name, ()):
            mm = re.search(r"\(%s<.*>( const&|&&)\)$" % re.escape(CQ), f.name)
            if not mm:
                continue
            move = mm.group(1) == "&&"
            base = w
            if name == "operator=":
                o = ring.do(ctor, [B, 1, 0], w, "assignment", "constructor")
                o = o and ring.do(push, [B, ITEM], with_item(o[2], ("tok", 97)), "assignment", "push_back")
                if o is None:
                    return
                base = (frozenset((k, v) for k, v in o[2][0] if k != ITEM), o[2][1])
            o = ring.do(f, [B, A], base, "copy and move", "%s of a whole queue" % ("move" if move else "copy"))
            if o is None:
                continue
            observe(ring, o[2], model, cap, over, True, "copy and move", B)
            if move:
                dead(ring, o[2], push, A, "copy and move")
            else:
                observe(ring, o[2], model, cap, over, True, "copy and move", A)



# ------------------------------------------------------------------------------------------------ blocking queue
Q, ARG = ("s", "Q", 0), ("s", "ITEM", 0)
CAP = 2
NOW, DUR = 1000, 7
RING = re.compile(r"^learnlog::base::circular_queue::(size|vec_size|empty|full|at|push_back|pop_front|clear|front|override_count|reset_override_count|circular_queue|~circular_queue|operator=)$")
DISCARDS, OVERRIDES = 41, 43


class BQ:
    """one operation of the blocking queue, from one fill level, with given fill levels after each wait"""

    def __init__(self, m, f, n0, sched):
        self.m, self.f = m, f
        self.waits, self.notes, self.rings, self.adds, self.loads, self.stores = set(), {}, set(), set(), set(), set()

        def oracle(sim, t, env):
            if t[0] == "arg":
                return {0: Q, 1: ARG, 2: DUR}.get(t[1])
            if t[0] == "call":
                for k, v in sim.auto[6]:
                    if k == t[2]:
                        return v
                return None
            if t[0] == "load":
                a = t[1]
                off = 0
                while isinstance(a, tuple) and a[0] == "addr" and not a[3]:
                    off += a[2]
                    a = a[1]
                if a == ("arg", 0) or is_sym(a) and a[1] == "Q":
                    c = off + (a[2] if is_sym(a) else 0)
                    self.loads.add(c)
                    return DISCARDS
            return None

        def event(sim, i, env):
            if i.op == "rmw":
                a = sim.val(i.d["p"], env)
                if is_sym(a) and a[1] == "Q":
                    v = sim.val(i.d["v"], env)
                    return [("add", a[2], v if i.d["k"] == "add" else -v if i.d["k"] == "sub" and isinstance(v, int) else None)]
            if i.op == "store":
                a = sim.val(i.d["p"], env)
                if is_sym(a) and a[1] == "Q":
                    return [("put", a[2], sim.val(i.d["v"], env))]
                a, v = sim.resolve(i.d["p"], env), sim.val(i.d["v"], env)
                return [("local", a, v)] if a[0] == "alloca" and isinstance(v, int) and v > 16 else ()
            if not i.is_call or not i.callee:
                return ()
            nb = m.nbase(i.callee)
            last = nb.split("::")[-1]
            vals = [sim.val(a, env) for a in i.args]
            key = [v if is_sym(v) else sim.resolve(a, env) for a, v in zip(i.args, vals)]
            if nb == "std::mutex::lock":
                return [("lock",)]
            if nb == "std::mutex::unlock":
                return [("unlock",)]
            if re.match(r"^std::condition_variable(_any)?::notify_(one|all)$", nb):
                return [("notify", vals[0][2] if is_sym(vals[0]) else None, last)]
            if re.match(r"^std::condition_variable(_any)?::", nb) and "wait" in last:
                d = None
                if len(i.args) > 2:
                    a = sim.resolve(i.args[2], env)
                    d = next((v[1] for k, v in sim.auto[5] if k == a and v[0] == "int"), None)
                    if d is None:
                        d = vals[2] if isinstance(vals[2], int) else None
                return [("wait", vals[0][2] if is_sym(vals[0]) else None, len(i.args) > 2, d, i.id)]
            if RING.match(nb):
                return [("ring", last, tuple(key), i.id)]
            if nb.startswith(("llvm.memcpy", "llvm.memmove")) or len(i.args) == 2 and m.fn(i.callee) is not None and re.search(r"::(operator=|(\w+)::\2)$", nb) or last == "operator=":
                return [("assign", key[0], key[1])]
            if "now" == last and "clock" in nb:
                return [("now", i.id)]
            return ()

        def get(au, a):
            for k, v in au[5]:
                if k == a:
                    return v
            return ("item",) if a == ARG else None

        def step(au, e, i):
            n, k, locked, pushed, popped, toks, rets, noted, disc = au
            if e[0] == "threw":
                return au
            if e[0] == "lock":
                locked = True
            elif e[0] == "unlock":
                locked = False
            elif e[0] == "local":
                toks = put(toks, e[1], ("int", e[2]))
            elif e[0] == "now":
                rets = put(rets, e[1], NOW)
            elif e[0] == "wait":
                self.waits.add((e[1], e[2], e[3], n, pushed, popped, i))
                if k >= len(sched):
                    raise Prune()
                n, k, noted = sched[k], k + 1, frozenset()
                toks = frozenset(x for x in toks if x[1] != ("front",))
                rets = frozenset()
            elif e[0] == "notify":
                if locked or pushed or popped or disc:
                    noted = noted | {(e[1], e[2])}
            elif e[0] == "ring":
                what, key, cid = e[1], e[2], e[3]
                self.rings.add(key[0] if is_sym(key[0]) else None)
                if what in ("full", "empty", "size", "override_count"):
                    rets = put(rets, cid, {"full": int(n == CAP), "empty": int(n == 0), "size": n, "override_count": OVERRIDES}[what])
                elif what == "vec_size":
                    rets = put(rets, cid, CAP + 1)
                elif what == "front" or what == "at":
                    if n == 0:
                        raise Bad("takes the first element of an empty queue")
                    toks = put(toks, ("call", f.mangled, cid), ("front",))
                elif what == "push_back":
                    x = get((0, 0, 0, 0, 0, toks), key[1])
                    if x != ("item",):
                        raise Bad("inserts something other than the item it was given")
                    pushed += 1
                    n = min(n + 1, CAP)
                    toks = put(toks, key[1], None)
                elif what == "pop_front":
                    if n == 0:
                        raise Bad("removes an element from an empty queue")
                    if not any(v == ("taken",) for k2, v in toks):
                        raise Bad("removes the first element without handing it out")
                    popped += 1
                    n -= 1
                elif what == "reset_override_count":
                    disc = disc + (("ovreset",),)
                elif what in ("clear", "operator="):
                    raise Bad("replaces the whole content of the queue")
            elif e[0] == "assign":
                d, s = e[1], e[2]
                x = None
                for k2, v in toks:
                    if k2 == s or isinstance(k2, tuple) and isinstance(s, tuple) and k2[:3] == s[:3] and k2[0] == "call":
                        x = v
                if x is None and s == ARG:
                    x = get((0, 0, 0, 0, 0, toks), s)
                if x in (("front",), ("held",)):
                    toks = put(toks, d, ("taken",) if d == ARG else ("held",))
                    if d != ARG:
                        toks = put(toks, ("any",), ("taken",)) if False else toks
                elif x == ("item",):
                    toks = put(toks, d, ("item",))
                    if s != d:
                        toks = put(toks, s, None)
            elif e[0] == "add":
                disc = disc + (("add", e[1], e[2]),)
            elif e[0] == "put":
                disc = disc + (("put", e[1], e[2]),)
            return (n, k, locked, pushed, popped, toks, rets, noted, disc)
        init = (n0, 0, False, 0, 0, frozenset(), frozenset(), frozenset(), ())
        self.sim = Sim(f, oracle, event, step, init, lambda sim, i, env: (), max_states=6000).run()


def put(s, k, v):
    return frozenset([x for x in s if x[0] != k] + ([(k, v)] if v is not None else []))


def p09(rep):
    rep.explanation = ("Blocking queue: each operation is analysed from an empty, a partly filled and a full queue, with every fill level found after each wait; "
                       "insertions, removals, waits and notifications on every path are compared with the operation's contract, and the condition variables across operations.")
    m = get_model("tls")
    for name in ("block_queue", "block_queue_mingw"):
        cls = "learnlog::base::" + name
        ops = {}
        for f in m.all():
            if f.nbase.startswith(cls + "::") and re.match(r"^%s<[^()]*>::\w+\([^']*$" % re.escape(cls), f.name):
                ops.setdefault(f.nbase.split("::")[-1], f)
        for want in ("enqueue", "enqueue_nowait", "enqueue_if_have_room", "dequeue", "dequeue_for", "block_queue" if name == "block_queue" else name, "size",
                     "get_override_count", "reset_override_count", "get_discard_count", "reset_discard_count"):
            if want not in ops:
                raise AnalysisBroken("%s has no %s" % (cls, want))
        protocol(rep, m, name, ops)


def levels():
    return (0, 1, CAP)


def protocol(rep, m, name, ops):
    import itertools
    cvs = {"push": set(), "pop": set()}         # cv waited on by removers / inserters
    notes = []
    rings, discard = set(), set()
    depth = 2 if rep.tier == "quick" else 3
    bad = set()

    def fail(f, rule, i, msg):
        if (f.nbase, rule, msg) not in bad:
            bad.add((f.nbase, rule, msg))
            rep.viol(rule, (i or next(f.instrs())).where(), "%s: %s" % (f.nbase.split("::", 2)[-1], msg), key="%s|%s|%s" % (f.nbase, rule, msg))
    for op in ("enqueue", "enqueue_nowait", "enqueue_if_have_room", "dequeue", "dequeue_for"):
        f = ops[op]
        rep.fn(f)
        ins = op.startswith("enqueue")
        nret = 0
        for n0 in levels():
            for sched in itertools.product(levels(), repeat=depth):
                b = BQ(m, f, n0, sched)
                for msg, i, path in b.sim.violations:
                    fail(f, "queue", i, msg)
                rings |= b.rings
                for cv, timed, d, n, pu, po, i in b.waits:
                    if op in ("enqueue_nowait", "enqueue_if_have_room"):
                        fail(f, "never blocks", i, "waits")
                        continue
                    if pu or po:
                        fail(f, "wait", i, "waits after it has changed the queue")
                    if n != (CAP if ins else 0):
                        fail(f, "wait", i, "waits although the queue is not %s" % ("full" if ins else "empty"))
                    cvs["pop" if ins else "push"].add(cv)
                    if timed != (op == "dequeue_for"):
                        fail(f, "wait", i, "waits %s a time limit" % ("with" if timed else "without"))
                    elif timed and d != NOW + DUR * 1000000:
                        fail(f, "wait", i, "the time limit is not the requested number of milliseconds from now")
                outs = set()
                for kind, au, i, exc, val, st in b.sim.exits:
                    if kind in ("noreturn", "terminate"):
                        continue
                    if kind != "ret":
                        continue
                    nret += 1
                    n, k, locked, pu, po, toks, rets, noted, disc = au
                    levels_seen = [n0] + list(sched[:k])
                    adds = [x for x in disc if x[0] == "add"]
                    puts = [x for x in disc if x[0] == "put"]
                    if puts:
                        fail(f, "state", i, "changes other state of the queue")
                    v = val[0] if val else None
                    if op in ("enqueue", "enqueue_nowait"):
                        if pu != 1 or po:
                            fail(f, "insert", i, "returns after inserting %d elements and removing %d" % (pu, po))
                        if op == "enqueue" and levels_seen[-1] == CAP:
                            fail(f, "insert", i, "inserts into a full queue (after %s)" % ("waiting" if k else "no wait"))
                        if adds:
                            fail(f, "count", i, "counts a discarded element")
                    elif op == "enqueue_if_have_room":
                        if (pu, po) != (0 if n0 == CAP else 1, 0):
                            fail(f, "insert", i, "with %s queue inserts %d elements" % ("a full" if n0 == CAP else "room in the", pu))
                        if [x[2] for x in adds] != ([1] if n0 == CAP else []):
                            fail(f, "count", i, "with %s queue counts %s discarded elements" % ("a full" if n0 == CAP else "room in the", sum(x[2] or 0 for x in adds)))
                        discard |= {x[1] for x in adds}
                    elif op == "dequeue":
                        if (pu, po) != (0, 1):
                            fail(f, "remove", i, "returns after removing %d elements" % po)
                    else:
                        if v not in (0, 1):
                            fail(f, "remove", i, "the result does not tell whether an element was removed")
                        elif (pu, po) != (0, v):
                            fail(f, "remove", i, "returns %s after removing %d elements" % ("true" if v else "false", po))
                        elif not v and levels_seen[-1] != 0:
                            fail(f, "remove", i, "gives up although the queue has an element")
                        elif not v and not k:
                            fail(f, "remove", i, "gives up without waiting")
                    if pu or po:
                        notes.append((ins, frozenset(noted), f, i))
                    if locked and not any(x.is_call and x.callee and "unlock" in m.nbase(x.callee) for x in f.calls()):
                        pass
                    outs.add((k, v))
                if op in ("enqueue", "dequeue", "dequeue_for"):
                    if n0 != (CAP if ins else 0) and not outs:
                        fail(f, "wait", None, "does not return although it need not wait")
        rep.check(nret >= 9, "coverage", f.where() if hasattr(f, "where") else f.nbase, "%s: %d outcomes from %d fill histories" % (f.nbase, nret, 3 * 3 ** depth),
                  "%s: only %d outcomes" % (f.nbase, nret))
        if not any(x[0] == f.nbase for x in bad):
            rep.ok("contract", f.nbase, "%d outcomes agree with the contract" % nret)
    # wake-ups
    for kind, other in (("push", True), ("pop", False)):
        who = "removers" if kind == "push" else "inserters"
        cv = cvs[kind]
        if len(cv) != 1 or None in cv:
            fail(ops["dequeue" if kind == "push" else "enqueue"], "wake-up", None, "%s wait on %d condition variables" % (who, len(cv)))
            continue
        c = next(iter(cv))
        shared = cvs["push"] & cvs["pop"]
        for ins, noted, f, i in notes:
            if ins != other:
                continue
            mine = {w for x, w in noted if x == c}
            if not mine:
                fail(f, "wake-up", i, "on some path the waiting %s are not notified of the change" % who)
            elif shared and "notify_all" not in mine:
                fail(f, "wake-up", i, "notifies one of several kinds of waiters on a shared condition variable")
    rep.check(len(rings) == 1 and None not in rings, "state", name, "one ring buffer behind all operations", "%s: operations work on %d ring buffers" % (name, len(rings)))
    # counters, size, construction
    fwd = {"size": "size", "get_override_count": "override_count"}
    for op in ("size", "get_override_count", "reset_override_count", "get_discard_count", "reset_discard_count"):
        f = ops[op]
        rep.fn(f)
        for n0 in levels():
            b = BQ(m, f, n0, ())
            for msg, i, path in b.sim.violations:
                fail(f, "queue", i, msg)
            rets = [x for x in b.sim.exits if x[0] == "ret"]
            if len(rets) != 1:
                fail(f, "query", None, "has %d outcomes" % len(rets))
            for kind, au, i, exc, val, st in rets:
                v = val[0] if val else None
                eff = [x for x in au[8]]
                if op == "size" and v != n0 or op == "get_override_count" and v != OVERRIDES:
                    fail(f, "query", i, "does not return the ring buffer's %s" % fwd[op])
                if op == "get_discard_count" and (v != DISCARDS or b.loads != discard):
                    fail(f, "query", i, "does not return the counter that enqueue_if_have_room increments")
                if op.startswith("get") or op == "size":
                    if eff or au[3] or au[4]:
                        fail(f, "query", i, "changes the queue")
                if op == "reset_override_count" and eff != [("ovreset",)]:
                    fail(f, "query", i, "does not reset exactly the overwritten count")
                if op == "reset_discard_count" and eff != [("put", x, 0) for x in discard]:
                    fail(f, "query", i, "does not set exactly the discard counter to zero")
        if not any(x[0] == f.nbase for x in bad):
            rep.ok("contract", f.nbase, "returns or resets what its name says, for every fill level")
    f = ops["block_queue" if name == "block_queue" else name]
    rep.fn(f)
    b = BQ(m, f, 0, ())
    made = [i for i in f.calls() if i.callee and m.nbase(i.callee) == CQ + "::circular_queue"]
    rep.check(len(made) == 1 and len(made[0].args) == 2 and f.term(made[0].args[1]) == ("arg", 1), "construction", f.nbase, "the ring buffer has the requested capacity",
              "%s: the ring buffer is not made with the requested capacity" % name)
    zero = {x[1]: x[2] for k in b.sim.exits if k[0] == "ret" for x in k[1][8] if x[0] == "put"}
    rep.check(all(zero.get(d) == 0 for d in discard) and len(discard) == 1, "construction", f.nbase, "the discard counter starts at zero",
              "%s: the discard counter does not start at zero" % name)


PROPERTIES = {"P09": p09, "P10": p10}
