"""Asynchronous path: hand-over to the pool, queue insertion and removal, start-up and shutdown of the workers, tokens."""
from lib import *
from model import AnalysisBroken
from rules._fanout import *
from rules.dispatch import slot_fn, msg_types, thread_bodies, pool_slots, pool_virtual, call_object

POOLS = ("lock_thread_pool", "lockfree_thread_pool", "lockfree_concurrent_thread_pool")
B = "learnlog::base::"

# queue operations: name -> (kind, queue argument, token argument or None, message argument or None, result tells success)
QOPS = [
    (r"^learnlog::base::block_queue(_mingw)?::enqueue$", "ins", None, False),
    (r"^learnlog::base::block_queue(_mingw)?::enqueue_nowait$", "lossy", None, False),
    (r"^learnlog::base::block_queue(_mingw)?::enqueue_if_have_room$", "lossy", None, False),
    (r"^learnlog::base::block_queue(_mingw)?::dequeue$", "rem", None, False),
    (r"^learnlog::base::block_queue(_mingw)?::dequeue_for$", "rem", None, True),
    (r"^moodycamel::(Blocking)?ConcurrentQueue::(try_)?enqueue$", "ins", "tok", True),
    (r"^moodycamel::(Blocking)?ConcurrentQueue::(try_|wait_)enqueue_bulk$", "lossy", "tok", False),
    (r"^moodycamel::BlockingConcurrentQueue::wait_dequeue$", "rem", "tok", False),
    (r"^moodycamel::(Blocking)?ConcurrentQueue::(try_dequeue|wait_dequeue_timed)$", "rem", "tok", True),
    (r"^moodycamel::(Blocking)?ConcurrentQueue::try_dequeue_from_producer$", "rem", "tok", True),
    (r"^moodycamel::(Blocking)?ConcurrentQueue::size_approx$", "size", None, False),
]


class QOp:
    def __init__(self, fn, i, kind, tokened, tells):
        self.kind, self.tells = kind, tells
        a = i.args
        self.q = fn.term(a[0])
        self.tok = fn.term(a[1]) if tokened and len(a) == 3 else None
        self.msg = fn.term(a[-1]) if len(a) > 1 else None
        self.name = fn.m.nbase(i.callee)
        if "try_" not in self.name and kind == "ins":
            self.must = True
        else:
            self.must = False


def qop(fn, i):
    if not i.is_call or not i.callee:
        return None
    nb = fn.m.nbase(i.callee)
    for rx, k, t, r in QOPS:
        if re.match(rx, nb):
            return QOp(fn, i, k, t == "tok", r)
    return None


# ------------------------------------------------------------------------------------------------ queue insertion / removal
def queue_once(rep, rule, cls, which, cfg):
    """the pool's enqueue (dequeue) operation inserts (removes) exactly one message: it returns only after one success"""
    m = get_model(cfg)
    slot = {v: k for k, v in pool_slots(m).items()}[which]
    vt = m.vtables().get(B + cls)
    f = vt and m.fn(vt["slots"].get(slot) or "")
    if f is None:
        raise AnalysisBroken("%s has no %s operation" % (cls, which))
    rep.fn(f)
    want = "ins" if which == "enqueue" else "rem"

    def ev(sim, i, env):
        o = qop(f, i)
        if o is None:
            return ()
        if o.kind == "size":
            return ()
        if o.kind == "lossy":
            raise Bad("a message can be dropped or overwrite another one (%s)" % o.name.split("::")[-1])
        if o.kind != want:
            raise Bad("%s performs %s" % (which, o.name))
        if root_of(o.q) != ("arg", 0):
            raise Bad("the queue of another object is used")
        if origin(f, o.msg) != ("arg", 1):
            raise Bad("something other than the given message is used")
        return [("op", i.id, o.tells, o.must)]

    def step(a, e, i):
        n, pend = a
        if pend and pend[1]:
            n += 1
        if n:
            raise Bad("a second message is %s" % ("inserted" if want == "ins" else "removed"))
        if not e[2]:
            return (1, None)
        return (n, (e[1], e[3]))

    def edge(sim, b, s, a, env):
        n, pend = a
        if pend:
            v = env.get(pend[0])
            if v == 1:
                return (n + 1, None)
            if v == 0:
                return (n, None)
        return a
    s = Sim(f, None, ev, step, (0, None), None, edge=edge).run()
    for k, a, i, exc, val, st in s.exits:
        if k == "ret":
            n = a[0] + (1 if a[1] and a[1][1] else 0)
            if n != 1:
                s.bad("returns without having %s the message" % ("inserted" if want == "ins" else "removed"), i, st)
    rep.sim(s, rule, "[%s] exactly one message per call" % cfg)
    return f


# ------------------------------------------------------------------------------------------------ P13
def handover(rep, which):
    m = get_model()
    f = rep.fn(slot_fn(m, "learnlog::async_logger", which))
    target = B + "thread_pool::" + ("enqueue_log" if which == "deliver" else "enqueue_flush")
    rule = "handover-" + which

    def lock_of(t):
        return t[0] == "call"

    def run(alive):
        def orc(sim, t, env):
            if t[0] == "load" and root_of(t[1])[0] == "alloca":
                cls = f.m.pointee(f, root_of(t[1]))
                n = f.m.types[cls].get("n", "") if cls is not None else ""
                if re.match(r"std::(__)?shared_ptr<learnlog::base::thread_pool", n):
                    return NN if alive else 0
            return None

        def ev(sim, i, env):
            if not i.is_call:
                return ()
            if i.callee:
                nb = m.nbase(i.callee)
                if nb == target:
                    sret = 1 if i.d.get("sret") else 0
                    obj = f.term(i.args[sret])
                    msg = f.term(i.args[-1]) if which == "deliver" else None
                    if which == "deliver" and origin(f, msg) != ("arg", 1):
                        raise Bad("another message is queued")
                    lg = f.term(i.args[sret + 1])
                    if not from_this(f, lg):
                        raise Bad("the queued message does not name this logger")
                    return [("enq", f.term(i.args[0]) if sret else None)]
                if nb.startswith(B + "thread_pool::enqueue"):
                    raise Bad("%s is used instead of %s" % (nb.split("::")[-1], target.split("::")[-1]))
                if nb in ("std::future::get", "std::__basic_future::wait", "std::__basic_future::get", "std::future::wait"):
                    return [("wait", f.term(i.args[0]))]
                if nb.startswith("std::__basic_future::wait_for") or nb.startswith("std::__basic_future::wait_until"):
                    return [("timedwait", f.term(i.args[0]))]
            if is_report(f, i):
                return [("report",)]
            return ()

        def step(a, e, i):
            enq, wait, rep_, fut = a
            if e[0] == "enq":
                if enq:
                    raise Bad("the request is queued twice")
                return (1, wait, rep_, e[1])
            if e[0] == "wait":
                if fut is not None and root_of(e[1]) != root_of(fut):
                    raise Bad("another future is waited for")
                return (enq, wait + 1 if enq else wait, rep_, fut)
            if e[0] == "report":
                return (enq, wait, 1, fut)
            return a
        s = Sim(f, orc, ev, step, (0, 0, 0, None)).run()
        for k, a, i, exc, val, st in s.exits:
            if k == "ret":
                if alive:
                    if a[0] != 1:
                        s.bad("nothing is handed to the live pool", i, st)
                    elif which == "flush" and a[1] != 1:
                        s.bad("flush returns without waiting for the queued flush request", i, st)
                elif a[0]:
                    s.bad("a pool that no longer exists is used", i, st)
                elif not a[2]:
                    s.bad("the lost request is not reported although the pool no longer exists", i, st)
            elif k == "escape" and not alive:
                s.bad("the missing pool's exception reaches the caller", i, st)
        rep.sim(s, rule, "pool %s" % ("alive" if alive else "gone"))
    run(True)
    run(False)
    # the pool used is the one this logger was created with
    ok = False
    for i in f.calls():
        if i.callee and m.nbase(i.callee).endswith("shared_ptr::__shared_ptr") and len(i.args) >= 2 or \
                i.callee and m.nbase(i.callee).endswith("shared_ptr::shared_ptr") and len(i.args) >= 2 or i.callee and "weak_ptr" in m.name(i.callee):
            for a in i.args[1:] + i.args[:1]:
                if any("weak_ptr<learnlog::base::thread_pool" in m.tname(t) for c, fd, r, t in f.chain(f.term(a))) and root_of(f.term(a)) == ("arg", 0):
                    ok = True
    rep.check(ok, rule, f.where(), "the pool is obtained by locking this logger's own weak reference")


def from_this(f, t):
    """a shared_ptr made by shared_from_this()"""
    r = root_of(t)
    if r[0] != "alloca":
        return False
    ok = False
    for k, off, src, i in writers(f, r):
        if k == "call" and i.callee:
            n = f.m.name(i.callee)
            nb = f.m.nbase(i.callee)
            if nb.endswith("shared_from_this") or ("shared_ptr::" in nb and "weak_ptr" in n) or nb.endswith("__shared_ptr::__shared_ptr") or \
                    nb.endswith("shared_ptr::shared_ptr"):
                for a in i.args:
                    if root_of(f.term(a)) == ("arg", 0):
                        ok = True
                continue
            if is_direct(f, i, B + "thread_pool::enqueue_log", B + "thread_pool::enqueue_flush"):
                continue
        if k == "copy" and root_of(src) == ("arg", 0):
            ok = True
    return ok


def pool_entry(rep, name):
    """enqueue_log / enqueue_flush put exactly one message of the right kind, made of their parameters, into the queue"""
    m = get_model()
    f = rep.fn(m.one(r"^learnlog::base::thread_pool::%s\(" % name))
    sret = 1 if name == "enqueue_flush" else 0
    T = msg_types(m)

    def ev(sim, i, env):
        if not i.is_call:
            return ()
        if pool_virtual(f, i) == "enqueue":
            return [("ins", root_of(f.term(i.args[1])))]
        if pool_virtual(f, i) == "dequeue":
            raise Bad("a message is taken out of the queue")
        if i.callee and m.nbase(i.callee) == B + "async_msg::async_msg" and len(i.args) > 2:
            return [("make", i)]
        if i.callee and m.nbase(i.callee) == "std::promise::get_future":
            return [("future", root_of(f.term(i.args[1])), f.term(i.args[0]))]
        return ()

    def step(a, e, i):
        made, ins, fut = a
        if e[0] == "make":
            j = e[1]
            want = T["log" if name == "enqueue_log" else "flush"]
            consts = [x for x in j.args[1:] if x[0] == "c"]
            if not consts or int(consts[0][1]) != want:
                raise Bad("a message of the wrong kind is queued")
            if origin(f, f.term(j.args[1])) != ("arg", sret + 1):
                raise Bad("the queued message names another logger")
            last = f.term(j.args[-1])
            if name == "enqueue_log" and origin(f, last) != ("arg", 2):
                raise Bad("the queued message is not the logged one")
            if name == "enqueue_flush":
                if fut is None or root_of(last) != fut:
                    raise Bad("the queued promise is not the one whose future is returned")
            return (root_of(f.term(j.args[0])), ins, fut)
        if e[0] == "ins":
            if e[1] != made:
                raise Bad("something other than the new message is queued")
            if ins:
                raise Bad("the message is queued twice")
            return (made, 1, fut)
        if e[0] == "future":
            if e[2] != ("arg", 0):
                raise Bad("the future of the queued promise is not returned")
            return (made, ins, e[1])
        return a
    s = Sim(f, None, ev, step, (None, 0, None)).run()
    for k, a, i, exc, val, st in s.exits:
        if k == "ret" and a[1] != 1:
            s.bad("the message is not queued", i, st)
    rep.sim(s, "pool-entry", "one message of the right kind built from the parameters")


def p13(rep):
    rep.explanation = ("asynchronous hand-over: the logger's queueing operations, the pool's entry points and each pool's queue operations are "
                       "simulated on every path (pool alive / gone, insertion succeeding / failing): one queue insertion per accepted request, by a "
                       "non-lossy operation, and one removal per worker step; both thread-local and map-based builds are analysed")
    handover(rep, "deliver")
    handover(rep, "flush")
    pool_entry(rep, "enqueue_log")
    pool_entry(rep, "enqueue_flush")
    for cfg in ("tls", "notls"):
        for c in POOLS:
            queue_once(rep, "insert-once", c, "enqueue", cfg)
            queue_once(rep, "remove-once", c, "dequeue", cfg)


# ------------------------------------------------------------------------------------------------ P12
def size_role(m):
    return Roles(m).getter(r"^learnlog::base::thread_pool::threads_size\(")


def threads_role(m):
    return Roles(m).by_type("learnlog::base::thread_pool", r"vector<std::thread")


def func_roles(m):
    """members the base constructor copies its two callbacks into: (start, stop)"""
    f = m.one(r"^learnlog::base::thread_pool::thread_pool\(")
    fn_args = [n for n, a in enumerate(f.args) if a["n"] not in ("this",)]
    out = []
    for i in f.calls():
        if i.callee and m.nbase(i.callee) == "std::function::function":
            src = origin(f, f.term(i.args[1]))
            ch = [c for c in f.chain(f.term(i.args[0])) if c[0].startswith("learnlog::")]
            if src[0] == "arg" and ch:
                out.append((src[1], ch[-1][:2]))
    out.sort()
    if len(out) != 2:
        raise AnalysisBroken("the pool's start/stop callbacks were not found")
    return out[0][1], out[1][1]


def is_thread_count(m, fn, t, base=("arg", 0)):
    t = t[4] if t[0] == "cast" else t
    return t[0] == "load" and root_of(t[1]) == base and role_name(size_role(m)) in fn.fields(t[1])


def threads_like(m, fn, cont):
    """containers with one element per worker: the threads, and per-worker token tables"""
    if root_of(cont) != ("arg", 0):
        return None
    if role_name(threads_role(m)) in fn.fields(cont):
        return "threads"
    if any("vector<learnlog::base::atomic_token" in m.tname(t) or "vector<std::unique_ptr<learnlog::base::atomic_token" in m.tname(t)
           for c, f, r, t in fn.chain(cont)):
        return "tokens"
    return None


def pool_ctors(m, cls):
    fs = [f for f in m.some(r"^learnlog::base::%s::%s\(" % (cls, cls)) if "lambda" not in f.name]
    return fs


def started(rep, cls):
    """every constructor starts exactly the configured number of threads, and passes the callbacks through"""
    m = get_model()
    start, stop = func_roles(m)
    base_ctor = m.one(r"^learnlog::base::thread_pool::thread_pool\(")
    for f in pool_ctors(m, cls):
        rep.fn(f)
        fan = per_worker(f, m, lambda sim, i, env: [("elem", "start", None)] if i.is_call and i.callee and re.match(
            r"std::vector::(emplace_back|push_back)$", m.nbase(i.callee)) and threads_like(m, f, f.term(i.args[0])) == "threads" else
            [("elem", "token", None)] if i.is_call and i.callee and re.match(
            r"std::vector::(emplace_back|push_back)$", m.nbase(i.callee)) and threads_like(m, f, f.term(i.args[0])) == "tokens" else ())
        s = fan.run()
        for k, a, i, exc, val, st in s.exits:
            if k == "ret":
                try:
                    ops = [t for n, t in per_loop(a[4])]
                except Bad as b:
                    s.bad(str(b), i, st)
                    continue
                n = sum(t.count("start") for t in ops)
                if n != 1:
                    s.bad("starts %d thread(s) per configured worker" % n, i, st)
                if cls == POOLS[2]:
                    if sum(t.count("token") for t in ops) != 1:
                        s.bad("creates other than one token per worker", i, st)
                    elif n and [x for t in ops for x in t].index("token") > [x for t in ops for x in t].index("start"):
                        s.bad("starts workers before their tokens exist", i, st)
        rep.sim(s, "start", "one thread per configured worker")
        # callbacks
        calls = [i for i in f.calls() if i.callee == base_ctor.mangled or i.callee and m.nbase(i.callee) == B + "thread_pool::thread_pool"]
        dele = [i for i in f.calls() if i.callee and m.nbase(i.callee) == B + cls + "::" + cls]
        if dele:
            continue
        rep.check(len(calls) == 1, "start", f.where(), "the base class is initialised once")
        for i in calls:
            given = [n for n, a in enumerate(f.args) if n > 2]
            for k, n in enumerate(given):
                t = origin(f, f.term(i.args[4 + k]))
                rep.check(t == ("arg", n), "callbacks", i.where(),
                          "%s passes its %s callback through" % (f.nbase, ("start", "stop")[k]),
                          "%s: the %s callback of the pool is not the caller's" % (f.nbase, ("start", "stop")[k]))
            rep.check(f.term(i.args[1]) == ("arg", 1) and f.term(i.args[3]) == ("arg", 2), "callbacks", i.where(),
                      "%s passes queue size and thread count through" % f.nbase)


def per_worker(f, m, classify, other=None, oracle=None):
    ok = lambda fn, cont: is_thread_count(m, fn, cont) or threads_like(m, fn, cont) is not None
    fan = Fan(f, ok, classify, oracle or (lambda s, t, e: None), None, other)

    def event(sim, i, env):
        out = []
        for e in classify(sim, i, env):
            if e[0] == "elem":
                t = in_trav(fan.trav, i.blk)
                if t is None:
                    raise Bad("%s happens outside a loop over all workers" % e[1])
                if e[2] is not None and t.kind == "vec" and not (is_elem(f, t, e[2]) or root_of(e[2]) == t.phi_term() or
                                                                 origin(f, root_of(e[2])) in (t.elem, ("load", t.elem))):
                    raise Bad("%s is not done to the current element" % e[1])
                e = ("elem", e[1])
            out.append(e)
        return out
    fan._event = event
    return fan


def per_loop(done):
    out = []
    for n, its in done:
        if its == "abandoned":
            raise Bad("a loop over the workers is given up early")
        if len(its) > 1:
            raise Bad("workers are treated differently: %s" % " / ".join(sorted("+".join(e) or "nothing" for e in its)))
        if its:
            out.append((n, next(iter(its))))
    return out


def shutdown(rep, cls, cfg):
    m = get_model(cfg)
    f = rep.fn([x for x in m.some(r"^learnlog::base::%s::~%s\(" % (cls, cls)) if "D2" in x.mangled or "D1" in x.mangled][0])
    T = msg_types(m)

    def term_msg(t):
        """local that was built as a terminate message"""
        r = root_of(t)
        for k, off, src, i in writers(f, r) if r[0] == "alloca" else ():
            if k == "call" and i.callee and m.nbase(i.callee) == B + "async_msg::async_msg":
                c = [x for x in i.args if x[0] == "c"]
                return bool(c) and int(c[0][1]) == T["terminate"]
        return False

    def elem_of(t):
        return t

    def classify(sim, i, env):
        if not i.is_call:
            return ()
        if i.callee:
            nb = m.nbase(i.callee)
            if nb == "std::thread::join":
                return [("elem", "join", f.term(i.args[0]))]
            if nb == "std::thread::detach":
                raise Bad("a worker is detached instead of joined")
            o = qop(f, i)
            if o and o.kind == "size" or nb.endswith("::current_msg_count"):
                return [("size", i.id)]
            if o and o.kind in ("ins", "lossy"):
                if not term_msg(o.msg):
                    raise Bad("something other than a terminate message is queued at shutdown")
                if o.kind == "lossy":
                    raise Bad("a terminate message can be dropped or overwrite a log message")
                if cls == POOLS[2]:
                    if o.tok is None:
                        raise Bad("a terminate message is queued without the worker's token")
                    return [("try", i.id, o.tells, o.must, ("elem", "term", root_of(o.tok)))]
                return [("try", i.id, o.tells, o.must, ("elem", "term", None))]
            if o and o.kind == "rem":
                raise Bad("messages are taken out of the queue at shutdown")
        elif pool_virtual(f, i) == "enqueue":
            if not term_msg(f.term(i.args[1])):
                raise Bad("something other than a terminate message is queued at shutdown")
            return [("try", i.id, False, True, ("elem", "term", None))]
        return ()

    fan = per_worker(f, m, classify, None)
    ev0 = fan._event

    def event(sim, i, env):
        out = []
        for e in ev0(sim, i, env):
            if e[0] == "try":
                t = in_trav(fan.trav, i.blk)
                if t is None:
                    raise Bad("a terminate message is queued outside a loop over all workers")
                if e[4][2] is not None and t.kind == "vec" and threads_like(m, f, t.container) == "tokens":
                    if not is_elem(f, t, e[4][2]):
                        raise Bad("the terminate message does not use the current worker's token")
                elif e[4][2] is not None and t.kind == "count":
                    pass
                elif cls == POOLS[2]:
                    raise Bad("terminate messages are not queued per token")
            out.append(e)
        return out
    fan._event = event
    # extra state: (pending op id, must, kind) , drained flag
    base_step, base_edge, base_fin = fan._step, fan._edge, fan.finish_iter

    def settle(a, truth):
        pend, drained = a[5]
        kind = pend[2]
        a = a[:5] + ((None, drained),)
        if kind == "size":
            return a[:5] + ((None, drained or truth == 0),)
        if truth:
            if cls == POOLS[1] and not drained:
                raise Bad("a worker may be told to stop while messages of other threads are still queued")
            return base_step(a, ("elem", "term"), None)
        return a

    def other(a, e, i):
        if a[5][0] and e[0] in ("try", "size"):
            if a[5][0][1]:
                a = settle(a, 1)
            elif a[5][0][2] == "ins":
                raise Bad("the result of inserting a terminate message is ignored")
        if e[0] == "try":
            a = a[:5] + (((e[1], e[3], "ins"), a[5][1]),)
            if not e[2]:
                a = settle(a, 1)
            return a
        if e[0] == "size":
            return a[:5] + (((e[1], False, "size"), False),)
        return a
    fan.other = other

    def edge(sim, b, s, a, env):
        pend = a[5][0]
        if pend:
            v = env.get(pend[0])
            if pend[2] == "size":
                v = size_known(f, b, s, pend[0], env)
            if v is not None and v != NN and isinstance(v, int):
                a = settle(a, v)
            elif v == NN:
                a = settle(a, 1)
            else:
                t = in_trav(fan.trav, b)
                if pend[1] and t is not None and s == t.loop["header"]:
                    a = settle(a, 1)
        return base_edge(sim, b, s, a, env)
    fan._edge = edge
    s = fan.run(init=(None, False))
    for k, a, i, exc, val, st in s.exits:
        if k != "ret":
            continue
        try:
            loops = per_loop(a[4])
            seq = [x for n, t in loops for x in t]
        except Bad as b:
            s.bad(str(b), i, st)
            continue
        if seq.count("join") != 1:
            s.bad("workers are joined %d time(s)" % seq.count("join"), i, st)
        elif seq.count("term") != 1:
            s.bad("%d terminate message(s) per worker are queued" % seq.count("term"), i, st)
        elif seq.index("join") < seq.index("term") or any("join" in t and "term" in t for n, t in loops):
            s.bad("workers are joined before they are told to stop", i, st)
    rep.sim(s, "shutdown", "[%s] every worker is told to stop once and joined once, after everything queued before" % cfg)


def size_known(f, b, s, cid, env):
    """after the branch b->s: 0 when the size call's result was found to be zero, 1 when not, None when not tested"""
    br = f.blocks[b][-1]
    if br.op != "br" or not br.d.get("c"):
        return None
    c = f.term(br.d["c"])
    truth = 1 if br.d["s"][0] == s else 0
    while c[0] == "bin" and c[1] == "xor" and c[3] == ("const", 1):
        c, truth = c[2], 1 - truth
    if c[0] == "icmp":
        x, y = c[2], c[3]
        sw = False
        if y[0] == "call":
            x, y, sw = y, x, True
        if x[0] == "call" and x[2] == cid and y in (("const", 0), ("const", 1)):
            p = SWAP_(c[1]) if sw else c[1]
            if y == ("const", 0):
                r = {"ne": truth, "eq": 1 - truth, "ugt": truth, "ule": 1 - truth}.get(p)
            else:
                r = {"uge": truth, "ult": 1 - truth}.get(p)
            return r
    return None


def SWAP_(p):
    return {"ult": "ugt", "ugt": "ult", "ule": "uge", "uge": "ule"}.get(p, p)


def bodies(rep, cls, cfg):
    """thread body: start callback, (own token registered), messages, stop callback; each callback once"""
    m = get_model(cfg)
    start, stop = func_roles(m)
    bs = thread_bodies(m, cls)
    n_ctor = len([f for f in pool_ctors(m, cls)])
    vt = m.vtables()[B + cls]
    slot = {v: k for k, v in pool_slots(m).items()}["dequeue"]
    deq = m.fn(vt["slots"][slot])
    tokloc = token_source(m, deq)
    for f in bs:
        rep.fn(f)

        def ev(sim, i, env):
            if i.is_call and i.callee and m.nbase(i.callee) == "std::function::operator()":
                fs = f.fields(f.term(i.args[0]))
                if role_name(start) in fs:
                    return ["start"]
                if role_name(stop) in fs:
                    return ["stop"]
            if pool_virtual(f, i) == "dequeue":
                return ["deq"]
            if i.is_call and i.callee and qop(f, i) and qop(f, i).kind == "rem":
                return ["deq"]
            if tokloc and stores_token(m, f, i, tokloc):
                return ["tok"]
            return ()

        def step(a, e, i):
            st, tok = a
            if e == "start":
                if st != 0:
                    raise Bad("the start callback runs %s" % ("twice" if st == 1 else "after messages were processed"))
                return (1, tok)
            if e == "tok":
                return (st, 1)
            if e == "deq":
                if st == 0:
                    raise Bad("messages are processed before the start callback has run")
                if st == 3:
                    raise Bad("messages are processed after the stop callback")
                if tokloc and not tok:
                    raise Bad("messages are taken before the worker has its own token")
                return (2, tok)
            if e == "stop":
                if st != 2:
                    raise Bad("the stop callback runs %s" % ("twice" if st == 3 else "before the worker has finished"))
                return (3, tok)
            return a
        own = [i.id for i in f.instrs() if tokloc and tokloc[0] == "tls" and i.op == "load" and root_of(f.term(i.d["p"])) == ("global", tokloc[1])]

        def edge(sim, b, nxt, a, env):
            if not a[1] and any(env.get(k) == NN for k in own):
                raise Prune()           # a new thread's own variable is empty until the thread fills it
            return a
        s = Sim(f, None, ev, step, (0, 0), edge=edge).run()
        for k, a, i, exc, val, st in s.exits:
            if k == "ret" and a[0] != 3:
                s.bad("the worker ends %s" % ("without the stop callback" if a[0] == 2 else "without processing messages"), i, st)
        rep.sim(s, "worker-life", "[%s] start callback, token, messages, stop callback" % cfg)
    return len(bs)


def token_source(m, deq):
    """where the pool's dequeue operation takes the worker's token from: a thread-local, or a member map"""
    for i in deq.calls():
        o = qop(deq, i)
        if o and o.kind == "rem" and o.tok is not None:
            t = origin(deq, o.tok)
            r = root_of(t)
            while r[0] == "load":
                a = r[1]
                if root_of(a)[0] == "global":
                    return ("tls", root_of(a)[1])
                if root_of(a)[0] == "call":
                    j = deq.instr_of(root_of(a))
                    if j.callee and m.nbase(j.callee).startswith("std::unordered_map::"):
                        ch = [c for c in deq.chain(deq.term(j.args[0])) if c[0].startswith("learnlog::")]
                        if ch:
                            return ("map", ch[-1][:2])
                r = root_of(a)
            if r[0] == "call":
                j = deq.instr_of(r)
                if j.callee and m.nbase(j.callee).startswith("std::unordered_map::"):
                    ch = [c for c in deq.chain(deq.term(j.args[0])) if c[0].startswith("learnlog::")]
                    if ch:
                        return ("map", ch[-1][:2])
            raise AnalysisBroken("the token of %s comes from an unknown place: %s" % (deq.name, m.show(deq, t)))
    return None


def stores_token(m, f, i, loc):
    if loc[0] == "tls":
        if i.op == "store" and root_of(f.term(i.d["p"])) == ("global", loc[1]):
            return True
        if i.is_call and i.callee and i.args and f.term(i.args[0]) == ("global", loc[1]):
            return True
        return False
    if i.op == "store":
        r = root_of(f.term(i.d["p"]))
        while r[0] == "load":
            r = root_of(r[1])
        if r[0] == "call":
            j = f.instr_of(r)
            return bool(j and j.callee and m.nbase(j.callee).startswith("std::unordered_map::") and
                        any(c[:2] == loc[1] for c in f.chain(f.term(j.args[0]))))
    return False


def p12(rep):
    rep.explanation = ("life cycle of each pool type: constructors (thread count, callbacks), thread bodies (order of start callback, token, messages, "
                       "stop callback) and destructors (drain, one terminate message per worker, one join per worker, in that order) as automata over "
                       "every path, loops over workers recognised as full traversals")
    for c in POOLS:
        started(rep, c)
        for cfg in ("tls", "notls"):
            bodies(rep, c, cfg)
            shutdown(rep, c, cfg)


PROPERTIES = {"P12": p12, "P13": p13}
