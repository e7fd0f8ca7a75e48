"""Per-element automaton over the traversals of a logger's sinks."""
from lib import *
from model import AnalysisBroken

# automaton state: (current traversal | -1, events of the current iteration, pending report, iteration summaries of the
# current traversal, finished traversals, extra)
START = (-1, (), 0, frozenset(), (), None)


class Fan:
    """events: a function (sim, i, env) -> list of events; an event ("elem", kind, pointer term) is an operation on a
    traversed element, anything else goes to `other(auto, event, instr)`"""

    def __init__(self, fn, container_ok, classify, oracle, throws=None, other=None, maxev=3):
        self.fn = fn
        self.trav = [t for t in traversals(fn) if container_ok(fn, t.container)]
        def orc(sim, t, env):
            # an empty container needs nothing; every path is followed for a container with elements
            if t[0] == "icmp":
                r = nonempty(fn, t, container_ok)
                if r is not None:
                    return r
            return oracle(sim, t, env)
        self.classify, self.oracle, self.throws, self.other = classify, orc, throws or (lambda s, i, e: ()), other
        self.maxev = maxev
        self.opaque = frozenset()

    def run(self, init=None):
        s = Sim(self.fn, self.oracle, self._event, self._step, START[:5] + (init,), self.throws, edge=self._edge)
        s.opaque = self.opaque
        return s.run()

    def _event(self, sim, i, env):
        out = []
        for e in self.classify(sim, i, env):
            if e[0] == "elem":
                t = in_trav(self.trav, i.blk)
                if t is None or not is_elem(self.fn, t, e[2]):
                    raise Bad("%s is called on a sink that is not the element of a loop over all sinks" % e[1])
                e = ("elem", e[1])
            out.append(e)
        return out

    def _step(self, a, e, i):
        cur, evs, pend, its, done, x = a
        threw = None
        if e[0] == "threw":
            threw, e = e[2], e[1]
        if e[0] == "elem":
            if evs.count(e[1]) >= 2:
                raise Bad("%s is called more than twice on the same sink" % e[1])
            evs = evs + (e[1],)
            if threw:
                pend = threw
        elif e[0] == "report":
            if pend:
                pend = "reported-" + pend if not pend.startswith("reported") else pend
        else:
            if self.other is None:
                raise Bad("unexpected operation %s" % (e,))
            return self.other((cur, evs, pend, its, done, x), e if not threw else ("threw", e, threw), i)
        return (cur, evs, pend, its, done, x)

    def finish_iter(self, a):
        cur, evs, pend, its, done, x = a
        if pend and not pend.startswith("reported"):
            raise Bad("an exception thrown for one sink is dropped without a report")
        return (cur, (), 0, its | {evs}, done, x)

    def _edge(self, sim, b, s, a, env):
        for n, t in enumerate(self.trav):
            L = t.loop["blocks"]
            h = t.loop["header"]
            if s == h and b not in L:
                a = (n, (), 0, frozenset(), a[4], a[5])
            elif s == h and b in L:
                if a[0] == n:
                    a = self.finish_iter(a)
            elif b in L and s not in L and a[0] == n:
                if b == t.test_blk:
                    if t.kind == "grow" and not a[3] and not a[1]:
                        raise Prune()           # starts out empty
                    if t.post:
                        a = self.finish_iter(a)
                    elif a[1]:
                        raise Bad("the loop is left before an iteration is complete")
                    a = (-1, (), 0, frozenset(), a[4] + ((n, a[3]),), a[5])
                else:
                    a = (-1, a[1], a[2], frozenset(), a[4] + ((n, "abandoned"),), a[5])
        return a


def totals(done):
    """sequence of event tuples applied to every element, or None when the path says nothing (an empty container);
    raises Bad when elements are treated differently or a traversal is given up"""
    seq = []
    for n, its in done:
        if its == "abandoned":
            raise Bad("the loop over the sinks is given up before the last sink")
        if not its:
            return None
        if len(its) != 1:
            raise Bad("sinks are treated differently: %s" % " / ".join(sorted("+".join(e) or "nothing" for e in its)))
        seq += list(next(iter(its)))
    return seq


def sinks_of(R, base_ok=None):
    role = R.sinks

    def ok(fn, cont):
        return any((c, f) == role and r == 0 for c, f, r, t in fn.chain(cont)) and (base_ok is None or base_ok(fn, cont))
    return ok


def level_oracle(fn, R, msg_level, sink_level, flush_level, msg_type=None):
    ml, sl, fl, mt = (role_name(r) for r in (R.msg_level, R.sink_level, R.flush_level, R.msg_type))

    def orc(sim, t, env):
        if t[0] == "load":
            fs = fn.fields(t[1])
            if sl in fs:
                return sink_level
            if ml in fs and msg_level is not None:
                return msg_level
            if fl in fs:
                return flush_level
            if mt in fs and msg_type is not None:
                return msg_type
        return None
    return orc
