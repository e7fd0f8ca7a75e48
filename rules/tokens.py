"""P14: the tokens of the lock-free queues.

The real constructor, worker start-up, hand-over, removal and destructor of the lock-free pools are stepped through over an abstract
memory (thread-local variables kept per thread, the maps and the token list by their contents), and the states that calls of several
threads on two pools can reach are enumerated to a fixpoint."""
from rules._machine import *
from rules.dispatch import thread_bodies, pool_slots, pool_virtual
from rules.asyncq import QOPS, POOLS, B, pool_ctors
from rules.files import fail_once

ACQ, REL = (4, 6, 7), (5, 6, 7)
INS = ("ins", "lossy")


class World:
    def __init__(self, m, cls):
        self.m, self.cls = m, cls
        slots = {v: k for k, v in pool_slots(m).items()}
        vt = m.vtables().get(B + cls)
        self.enq, self.deq = (vt and m.fn(vt["slots"].get(slots[w]) or "") for w in ("enqueue", "dequeue"))
        if self.enq is None or self.deq is None:
            raise AnalysisBroken("%s has no queue operations" % cls)
        ds = [f for f in m.all() if f.nbase == B + cls + "::~" + cls and ("D2" in f.mangled or "D1" in f.mangled)]
        if not ds:
            raise AnalysisBroken("%s has no destructor" % cls)
        self.dtor = ds[0]
        self.ctors = [f for f in pool_ctors(m, cls)]
        self.bodies = thread_bodies(m, cls)
        self.caught = []
        self.kw = dict(call=self.call, load=self.load, store=self.store, term=self.term, throws=lambda st, c: (), counting=30, cas=self.cas, mutexes=True, strong=True)

    # ---- memory
    def load(self, st, a):
        o = a[1]
        if isinstance(o, tuple) and o[0] in ("TLS", "G", "NODE"):
            return 0
        return None

    def get(self, st, a):
        v = st.get(a)
        return v if v is not None else self.load(st, a)

    def term(self, st, t):
        if t[0] == "global":
            return ("s", ("TLS" if t[1].startswith("_ZTW") else "G", t[1].replace("_ZTW", "_Z", 1)), 0)
        if t[0] == "fn":
            return ("fnp", t[1])
        return None

    # ---- the locks of the tokens
    def held(self, st):
        return st.get("held", ())

    def take(self, st, a, order):
        if order not in ACQ:
            raise Bad("takes the lock of a token without acquire ordering")
        st["held"] = self.held(st) + (a,)

    def cas(self, st, a, want, new, i):
        old = st.get(a)
        o = i.d.get("ord")
        if isinstance(old, tuple) and old[0] == "o" and old[1].startswith("busy"):
            if want == 1:
                raise Bad("takes the lock of a token that another thread holds")
            n = int(old[1][4:])
            st[a] = ("o", "busy%d" % (n - 1)) if n > 1 else 0
            return (1, 0)
        if old is None or want is None:
            st.pop(a, None)
            return None
        if old == want:
            if old == 0 and new:
                self.take(st, a, o)
            st[a] = new
            return (old, 1)
        return (old, 0)

    def store(self, st, a, v, i):
        if i.op == "rmw":
            if i.d["k"] != "xchg":
                return False
            old = st.get(a)
            if isinstance(old, tuple) and old[0] == "o" and old[1].startswith("busy"):
                n = int(old[1][4:])
                st[a] = ("o", "busy%d" % (n - 1)) if n > 1 else 0
                st[("r", i.id)] = 1
                return True
            if v == 0 and a in self.held(st):
                self.give(st, a, i.d.get("ord"))
            elif v and old == 0 and isinstance(a[1], tuple) and a[1][0] == "N":
                self.take(st, a, i.d.get("ord"))
            return False
        if a in self.held(st) and v == 0:
            self.give(st, a, i.d.get("ord", 0))
        elif st.get(a) not in (None, 0) and v == 0 and isinstance(st.get(a), tuple) and st.get(a)[0] == "o" and st[a][1].startswith("busy"):
            raise Bad("gives back a token's lock that another thread holds")
        return False

    def give(self, st, a, order):
        if order not in REL:
            raise Bad("gives back the lock of a token without release ordering")
        h = list(self.held(st))
        h.remove(a)
        st["held"] = tuple(h)

    def release(self, st, a, kind):
        if st.get(("tok", a)) == "gone":
            raise Bad("a token is released twice")
        if ("tok", a) in st:
            if kind == "P" and st.get("joined", 0) < st.get("started", 0):
                raise Bad("a token is released while a worker may still use it")
            st[("tok", a)] = "gone"

    # ---- calls
    def key(self, st, a):
        return self.get(st, a) if is_sym(a) else None

    def call(self, st, c):
        nb, last, v = c.nb, c.last, c.vals
        if nb.startswith("llvm.threadlocal.address"):
            a = c.keys[0]
            return ("s", ("TLS",) + a[1][1:], 0) if is_sym(a) and isinstance(a[1], tuple) else None
        if nb == "operator new":
            st["made"] = st.get("made", 0) + 1
            return obj(("N", st["made"]))
        if nb in ("operator delete", "operator delete[]"):
            return "done"
        if "mutex::" in nb and is_sym(v[0]):
            a = v[0]
            if isinstance(a[1], tuple) and a[1][0] == "N":          # a mutex in the token
                if last == "lock":
                    self.take(st, a, 7)
                elif last == "unlock" and a in self.held(st):
                    self.give(st, a, 7)
            return "done"
        if nb in ("moodycamel::ProducerToken::ProducerToken", "moodycamel::ConsumerToken::ConsumerToken"):
            if len(v) == 2 and is_sym(v[0]) and is_sym(v[1]) and "Token" not in c.name.rsplit("(", 1)[-1]:
                st[("tok", v[0])] = (nb.split("::")[1][0], v[1], st.get("me"))
                return "done"
            if len(v) == 2 and is_sym(v[0]) and is_sym(v[1]) and ("tok", v[1]) in st:      # moved
                st[("tok", v[0])] = st.pop(("tok", v[1]))
                return "done"
            return None
        if nb in ("moodycamel::ProducerToken::~ProducerToken", "moodycamel::ConsumerToken::~ConsumerToken") and is_sym(v[0]):
            self.release(st, v[0], nb.split("~")[1][0])
            return "done"
        if nb == "moodycamel::LightweightSemaphore::signal" and is_sym(v[0]):
            k = ("sema", v[0])
            st[k] = min(9, st.get(k, 0) + (v[1] if isinstance(v[1], int) else 1))
            return "done"
        if nb.startswith("moodycamel::LightweightSemaphore::") and "ait" in last and is_sym(v[0]):
            st["waits"] = v[0]
            return 1
        if nb in (B + "os::thread_id", B + "os::_thread_id", "pthread_self", "std::this_thread::get_id", "gettid", "syscall") and st.get("me") is not None:
            return st["me"]
        for rx, kind, tok, tells in QOPS:
            if re.match(rx, nb):
                return self.queue(st, c, kind, tok)
        if nb.startswith("std::unordered_map::") or nb.startswith("std::map::"):
            return self.map(st, c)
        if nb.startswith("std::vector::"):
            return self.vector(st, c)
        if nb == "std::thread::join":
            st["joined"] = st.get("joined", 0) + 1
            return "done"
        if st.get("body") and (nb.startswith("virtual:") or nb == "indirect") and pool_virtual(c.i.fn, c.i) == "dequeue" or st.get("body") and c.fn is self.deq:
            self.caught.append((St(st), v[0]))
            raise Prune()
        if nb.startswith("virtual:") and pool_virtual(c.i.fn, c.i) == "enqueue" and is_sym(v[0]):
            c.fn = self.enq
            return nested(self.m, st, c, **self.kw)
        if nb in (B + "thread_pool::~thread_pool",) or nb.startswith(("std::function::", "std::_Function_base::", B + "async_msg::")):
            return "done"
        if c.fn is not None and nb.startswith("learnlog::base::") and (nb.startswith((B + "thread_pool::", B + self.cls + "::")) or c.fn is self.enq):
            r = nested(self.m, st, c, **self.kw)
            return r
        return None

    def queue(self, st, c, kind, tok):
        q = c.vals[0]
        t = c.vals[1] if len(c.vals) == 3 else None
        if kind == "size":
            return 0
        if st.get("quiet"):         # (the destructor: P12)
            return 1
        if kind in INS or kind == "rem":
            use = ("ins" if kind in INS else "rem", q, t)
            was = st.get("use")
            if was is not None and was != use:
                raise Bad("uses more than one token for a message")
            st["use"] = use
            if not is_sym(q):
                raise Bad("the queue used is not known")
            if len(c.vals) == 3:
                x = st.get(("tok", t)) if is_sym(t) else None
                if x == "gone":
                    raise Bad("uses a token that was already released")
                if x is None:
                    raise Bad("uses a token that does not exist (%s)" % ("null" if t == 0 else "unknown"))
                if x[1] != q:
                    raise Bad("uses a token that belongs to another queue")
                if x[0] == "P" and kind in INS and not any(a[1] == t[1] for a in self.held(st)):
                    raise Bad("inserts with a producer token whose lock it does not hold")
        return None

    def map(self, st, c):
        v, last = c.vals, c.last
        mp = v[0]
        if not is_sym(mp):
            return None
        node = lambda k: ("s", ("NODE", mp, k), 0)
        has = lambda k: ("in", mp, k) in st
        if last.startswith("~") or last in ("unordered_map", "reserve", "rehash"):
            return "done"
        k = self.key(st, v[1]) if len(v) > 1 and is_sym(v[1]) else None
        if last in ("end", "cend"):
            return 0
        if last == "size":
            return len([x for x in st if isinstance(x, tuple) and x[0] == "in" and x[1] == mp])
        if last == "empty":
            return int(not [x for x in st if isinstance(x, tuple) and x[0] == "in" and x[1] == mp])
        if not isinstance(k, int):
            raise Bad("the key of a token table is not known") if last in ("find", "operator[]", "at", "count", "erase") else AnalysisBroken("the operation %s on a token table cannot be followed" % c.name)
        if last == "find":
            return node(k) if has(k) else 0
        if last in ("count", "contains"):
            return int(has(k))
        if last in ("operator[]", "at"):
            st[("in", mp, k)] = 1
            return ("s", ("NODE", mp, k), 16)
        if last in ("emplace", "try_emplace", "insert_or_assign", "insert"):
            fresh = not has(k)
            val = self.key(st, v[2]) if len(v) > 2 and is_sym(v[2]) else self.key(st, ("s", v[1][1], v[1][2] + 8)) if len(v) == 2 else 0
            if fresh or last == "insert_or_assign":
                st[("in", mp, k)] = 1
                st[("s", ("NODE", mp, k), 16)] = val
                if len(v) > 2 and is_sym(v[2]) and "unique_ptr" in c.name:
                    st[v[2]] = 0
            return (node(k), int(fresh))
        if last == "erase":
            st.pop(("in", mp, k), None)
            st.drop(("NODE", mp, k))
            return "done"
        raise AnalysisBroken("the operation %s on a token table cannot be followed" % c.name)

    def vector(self, st, c):
        v, last = c.vals, c.last
        a = v[0]
        if not is_sym(a):
            return None
        E, end = ("ELEMS",) + a[1:], ("s", a[1], a[2] + 8)
        if last == "vector" and len(v) == 1:
            st[a], st[end] = ("s", E, 0), ("s", E, 0)
            return "done"
        if last.startswith("~") or last == "clear":
            if "unique_ptr" in c.name and is_sym(st.get(end)):
                for off in range(0, st[end][2], 8):
                    e = st.pop(("s", E, off), None)
                    for k in [k for k in st if is_sym(e) and isinstance(k, tuple) and k[0] == "tok" and k[1][1] == e[1]]:
                        self.release(st, k[1], "P")
            if last == "clear":
                st[end] = ("s", E, 0)
            return "done"
        if last in ("reserve", "shrink_to_fit"):
            return "done"
        if last in ("emplace_back", "push_back") and st.get(end) is None:
            st[a], st[end] = ("s", E, 0), ("s", E, 0)
        if last in ("emplace_back", "push_back") and is_sym(st.get(end)):
            at = st[end]
            if "std::thread" in c.name.split("::emplace_back")[0].split("::push_back")[0]:
                n = st.get("started", 0)
                st["started"] = n + 1
                for x in v[1:]:
                    if is_sym(x):
                        for k, y in [(k, y) for k, y in st.items() if isinstance(k, tuple) and len(k) == 3 and k[0] == "s" and k[1] == x[1] and k[2] >= x[2]]:
                            st[("closure", n, k[2] - x[2])] = y
                st[("tokens at start", n)] = len([1 for k, y in st.items() if isinstance(k, tuple) and k[0] == "tok" and y != "gone" and y[1][1] == a[1]])
            elif len(v) > 1 and is_sym(v[1]):
                x = v[1]
                st[at] = x if "*&&" not in c.name and "ptr" not in c.name and "*const" not in c.name and self.key(st, x) is None else self.key(st, x)
                if "unique_ptr" in c.name:
                    st[x] = 0
            st[end] = ("s", at[1], at[2] + 8)
            return at if last == "emplace_back" else "done"
        raise AnalysisBroken("the operation %s on a list of tokens cannot be followed" % c.name)

    # ---- whole operations on frozen states: (new state, complaint)
    def run(self, f, args, st, me, fail, rule, what, body=False, quiet=False):
        """[resulting states]"""
        st = St(st)
        for k in [k for k in st if isinstance(k, tuple) and k[0] == "s" and isinstance(k[1], tuple) and k[1][0] == "TLSof" and k[1][1] == me]:
            st[("s", ("TLS",) + k[1][2:], k[2])] = st.pop(k)
        st["me"] = me
        if body:
            st["body"] = 1
        if quiet:
            st["quiet"] = 1
        self.caught = []
        M = Machine(self.m, f, args, st, **self.kw)
        bad = False
        for msg, i, path in M.bad():
            fail(f, rule, i, "%s: %s" % (what, msg))
            bad = True
        outs = [c[0] for c in self.caught] if body else [x[2] for x in M.exits("ret")]
        if not outs and not bad:
            fail(f, rule, None, "%s: does not come back" % what if not body else "%s: takes no message" % what)
            return []
        res = {}
        for s in outs:
            use = s.pop("use", None)
            h = s.pop("held", ())
            if h and not bad:
                fail(f, rule, None, "%s: the lock of a token stays held" % what)
                bad = True
            for k in ("me", "body", "quiet", "trace"):
                s.pop(k, None)
            t = St()
            for k, y in s.items():
                if isinstance(k, tuple) and k[0] in ("r", "closure", "calls") or isinstance(k, tuple) and k[0] == "s" and isinstance(k[1], tuple) and k[1][0] in ("L", "G") and (k[1][0] == "L" or k[1][1].startswith("_ZTV")):
                    if k[0] != "closure":
                        continue
                if isinstance(k, tuple) and k[0] == "s" and isinstance(k[1], tuple) and k[1][0] == "TLS":
                    k = ("s", ("TLSof", me) + k[1][1:], k[2])
                t[k] = y
            res[(t.freeze(), use)] = 1
        return [] if bad else list(res)


def fresh(W, name, n, st, fail, ctor, k=0):
    """a new pool constructed at the object, by its own constructor"""
    f = ctor
    st = St(st)
    for x in ("started", "joined"):
        st.pop(x, None)
    for x in [x for x in st if isinstance(x, tuple) and x[0] in ("closure", "tokens at start")]:
        del st[x]
    args = [obj(name), 64, n] + [obj(("CB", j)) for j in range(len(f.args) - 3)]
    r = W.run(f, args, st, 1, fail, "construct", "constructing a pool of %d workers" % n)
    return r[0][0] if len(r) == 1 else None


def start_worker(W, st, pool, k, body, fail, me):
    s = St(st)
    cells = s[("cl", pool)][k] if ("cl", pool) in s else ()
    for off, y in cells:
        s[("s", "BODY", 8 + off)] = y
    args = [obj("BODY")]
    if "_M_run" not in body.name:
        args = [obj(pool)] + [y for off, y in sorted(cells)][1:]
    out = W.run(body, args, s, me, fail, "worker", "a worker starts", body=True)
    res = []
    for fr, use in out:
        t = St(fr)
        t.drop("BODY")
        res.append(t)
    return res


def p14(rep):
    fail = fail_once(rep)
    total = 0
    full = rep.tier == "thorough"
    for cfg in ("tls", "notls"):
        m = get_model(cfg)
        for cls in POOLS[1:]:
            W = World(m, cls)
            for f in [W.enq, W.deq, W.dtor] + W.ctors + W.bodies:
                rep.fn(f)
            idle = [b for b in m.find(r"^std::thread::_State_impl<.*learnlog::base::%s(::|\*).*::_M_run" % cls) if b not in W.bodies]
            for b in idle:
                fail(b, "workers", next((i for i in b.instrs() if not i.where().startswith(("/", "?"))), None), "[%s] the thread that this constructor starts never takes a message from the queue" % cfg)
            if idle:
                continue
            if len(W.bodies) != len(W.ctors) and len(W.bodies) != 1:
                raise AnalysisBroken("%d thread bodies for %d constructors of %s" % (len(W.bodies), len(W.ctors), cls))
            for j, ctor in enumerate(W.ctors):
                if any(i.callee and m.nbase(i.callee) == B + cls + "::" + cls for i in ctor.calls()):
                    body = W.bodies[0] if len(W.bodies) == 1 else None       # delegates to another constructor
                    continue
                sig = ctor.name.split("(", 1)[1]
                body = W.bodies[0] if len(W.bodies) == 1 else [b for b in W.bodies if cls + "(" + sig.rstrip(")") in b.name and b.name.split(cls + "(", 1)[1].startswith(sig)]
                if isinstance(body, list):
                    if len(body) != 1:
                        raise AnalysisBroken("the thread body of %s was not found" % ctor.name)
                    body = body[0]
                sizes = ((1, 1), (2, 2), (3, 2)) if full else ((2, 2), (1, 1)) if j == 0 else ((2, 1),)
                for n, k in sizes:
                    total += explore(rep, W, ctor, body, n, k, fail, cfg, full)
    if total < 60 and not fail.seen:
        raise AnalysisBroken("only %d states of the pools" % total)
    rep.explanation = ("The code of both lock-free pools stepped through over an abstract memory: constructor, start of the workers, insertions, removals and the "
                       "destructor; %d states that calls of several threads on two pools can reach, with and without thread-local storage." % total)


def explore(rep, W, ctor, body, nP, nQ, fail, cfg, full):
    size = {"P": nP, "Q": nQ}
    st = St()
    errs = []

    def f2(f, rule, i, msg):
        errs.append(msg)
        fail(f, rule, i, "[%s] %s" % (cfg, msg))

    for pool in "PQ":
        fr = fresh(W, pool, size[pool], st, f2, ctor)
        if fr is None:
            if not errs:
                f2(ctor, "construct", None, "a pool of %d workers cannot be constructed" % size[pool])
            return 1
        st = settle(W, fr, pool, size[pool], ctor, f2)
        if st is None:
            return 1
    count = 0
    if W.cls == POOLS[2]:
        # threads that hand over to both pools; a pool is destroyed and another one made in its place
        count += reach(W, st, size, ctor, body, f2, errs, (21, 22, 23) if full else (21, 22), False, True)
        # workers, the first of which hands over as well
        count += 0 if errs else reach(W, st, size, ctor, body, f2, errs, (31,), True, False)
        if not errs:
            serve_all(W, st, size, body, f2)
        if not errs:
            busy(W, st, f2)
    else:
        count += reach(W, st, size, ctor, body, f2, errs, (), True, False)
    if not errs:
        rep.ok("states", W.enq.where(), "[%s] two pools of %s by %s, %d and %d workers: %d states" % (cfg, W.cls, ctor.name[-60:], nP, nQ, count))
    return count


def reach(W, st, size, ctor, body, f2, errs, producers, workers, renew):
    seen = {st.freeze()}
    work = [st.freeze()]
    count = 0
    while work and not errs:
        s = St(work.pop())
        count += 1
        if count > 6000:
            raise AnalysisBroken("too many states of %s" % W.cls)
        outs = []
        for pool in "PQ":
            started = s.get(("up", pool), 0)
            for me in producers:
                for r, use in W.run(W.enq, [obj(pool), obj("MSG")], s, me, f2, "insert", "a thread hands a message over"):
                    r = St(r)
                    judge_insert(W, r, use, pool, me, f2)
                    outs.append(r)
            if not workers:
                continue
            if started < size[pool]:
                me = (31 if pool == "P" else 41) + started
                for r in start_worker(W, s, pool, started, body, f2, me):
                    r[("up", pool)] = started + 1
                    r.pop("waits", None)
                    outs.append(r)
            for j in range(started):
                me = (31 if pool == "P" else 41) + j
                for r, use in W.run(W.deq, [obj(pool), obj("MSG")], s, me, f2, "remove", "a worker takes a message"):
                    r = St(r)
                    judge_remove(W, s, r, use, pool, me, f2)
                    outs.append(r)
        if renew and not s.get("renewed"):
            d = St(s)
            d["started"], d["joined"] = size["P"], 0
            for r, use in W.run(W.dtor, [obj("P")], d, 1, f2, "destroy", "a pool is destroyed", quiet=True):
                r = reborn(W, St(r), "P", size["P"], ctor, f2)
                if r is not None:
                    outs.append(r)
        for r in outs:
            g = r.freeze()
            if g not in seen:
                seen.add(g)
                work.append(g)
    return count


def judge_remove(W, s, r, use, pool, me, f2):
    def no(x):
        f2(W.deq, "remove", None, "a worker takes messages: " + x)
    if use is None:
        return no("it takes none")
    t = use[2]
    if not is_sym(t):
        return no("without a token of its own")
    if use[1][1] != pool:
        return no("from another pool's queue")
    k = ("served", pool, t)
    if s.get(k, me) != me:
        return no("two workers use the same token")
    if s.get(("serves", me), t) != t:
        return no("a worker changes its token")
    x = r.get(("tok", t))
    if x[0] == "C" and x[2] != me:
        return no("with a token that another thread made")
    r[k], r[("serves", me)] = me, t


def settle(W, fr, pool, n, ctor, f2):
    st = St(fr)
    k = st.pop("started", 0)
    if k != n:
        f2(ctor, "construct", None, "%d workers started instead of %d" % (k, n))
        return None
    if W.cls == POOLS[2]:
        for j in range(n):
            if st.get(("tokens at start", j), 0) < n:
                f2(ctor, "construct", None, "a worker is started before all tokens exist")
                return None
    for j in range(n):
        st.pop(("tokens at start", j), None)
    cl = []
    for j in range(n):
        cl.append(tuple(sorted(((x[2], y) for x, y in st.items() if isinstance(x, tuple) and x[0] == "closure" and x[1] == j), key=repr)))
    for x in [x for x in st if isinstance(x, tuple) and x[0] == "closure"]:
        del st[x]
    st[("cl", pool)] = tuple(cl)
    return st


def reborn(W, st, pool, n, ctor, f2):
    alive = [k for k, v in st.items() if isinstance(k, tuple) and k[0] == "tok" and v != "gone" and v[0] == "P" and v[1][1] == pool]
    if alive:
        f2(W.dtor, "destroy", None, "a pool is destroyed: %d of its tokens are never released" % len(alive))
        return None
    gate = st.get(("gate", pool))
    for k in [k for k in st if isinstance(k, tuple) and (k[0] in ("served", "serves", "uses", "sema", "in", "up", "gate", "cl") and pool in repr(k))]:
        del st[k]
    for k in [k for k in st if isinstance(k, tuple) and k[0] == "s" and (k[1] == pool or isinstance(k[1], tuple) and k[1][0] in ("NODE", "ELEMS") and "'%s'" % pool in repr(k[1]))]:
        del st[k]
    for x in ("started", "joined"):
        st.pop(x, None)
    fr = fresh(W, pool, n, st, f2, ctor)
    if fr is None:
        return None
    r = settle(W, fr, pool, n, ctor, f2)
    if r is not None:
        r["renewed"] = 1
    return r


def judge_insert(W, r, use, pool, me, f2):
    if use is None:
        f2(W.enq, "insert", None, "a thread hands a message over: nothing is inserted")
        return
    if use[1][1] != pool:
        f2(W.enq, "insert", None, "a thread hands a message over: it goes to another pool's queue")
        return
    t = use[2]
    if not is_sym(t):
        f2(W.enq, "insert", None, "a thread hands a message over: it is inserted without a token, where no worker looks for it")
        return
    k = ("uses", pool, me)
    if r.get(k, t) != t:
        f2(W.enq, "insert", None, "a thread hands a message over: with another token than its message before, so that they can overtake each other")
    r[k] = t


def serve_all(W, st, size, body, f2):
    """a token that has been used is served by a worker that has been woken: the k-th worker woken serves the k-th token handed out"""
    pool, n = "P", size["P"]
    # which token each worker takes, in the order in which they wake up
    order, s, gate = [], st, None
    for j in range(n):
        rs = start_worker(W, s, pool, j, body, f2, 31 + j)
        if len(rs) != 1:
            if rs:
                f2(body, "worker", None, "a worker starts: in more than one way")
            return
        s = rs[0]
        gate = s.pop("waits", None) or gate
        us = {use[2] for r, use in W.run(W.deq, [obj(pool), obj("MSG")], s, 31 + j, f2, "remove", "a worker takes a message") if use}
        if len(us) != 1:
            return
        order.append(us.pop())
    if len(set(order)) != len(order):
        f2(body, "worker", None, "two workers share one token")
        return
    if gate is not None:
        d = St(st)
        d["started"], d["joined"] = n, 0
        for r, use in W.run(W.dtor, [obj(pool)], d, 1, f2, "destroy", "a pool is destroyed", quiet=True):
            if St(r).get(("sema", gate), 0) < n:
                f2(W.dtor, "destroy", None, "a pool is destroyed: workers that still wait for a producer are not all woken")
    s = st
    for j in range(2 * n + 1):
        rs = W.run(W.enq, [obj(pool), obj("MSG")], s, 51 + j, f2, "insert", "a thread hands a message over")
        if not rs:
            return
        if len(rs) != 1:
            f2(W.enq, "insert", None, "a thread hands a message over: with different tokens")
            return
        s, use = St(rs[0][0]), rs[0][1]
        if use is None or not is_sym(use[2]):
            return
        if use[2] not in order:
            f2(W.enq, "insert", None, "a thread hands a message over: with a token that no worker serves")
            return
        woken = n if gate is None else s.get(("sema", gate), 0)
        if order.index(use[2]) >= woken:
            f2(W.enq, "insert", None, "a thread hands a message over: with a token whose worker has not been woken")
            return


def busy(W, st, f2):
    """the same with a token whose lock another thread holds for a while"""
    if W.cls != POOLS[2]:
        return
    for pool in "P":
        rs = W.run(W.enq, [obj(pool), obj("MSG")], st, 21, f2, "insert", "a thread hands a message over")
        if len(rs) != 1 or not is_sym(rs[0][1][2]):
            return
        s, t = St(rs[0][0]), rs[0][1][2]
        locks = [k for k, v in s.items() if isinstance(k, tuple) and k[0] == "s" and k[1] == t[1] and v == 0]
        for a in locks:
            s2 = St(s)
            s2[a] = ("o", "busy2")
            W.run(W.enq, [obj(pool), obj("MSG")], s2, 21, f2, "insert", "a thread hands a message over while another one uses its token")


PROPERTIES = {"P14": p14}
