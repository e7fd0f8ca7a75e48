"""Which kinds of exception a call may throw: std::exception-derived ones (STD) and foreign ones (OTHER)."""
from lib import *
from model import AnalysisBroken

BOTH = (STD, OTHER)
REPORTED = "other-reported"       # a foreign exception that has been reported already
KINDS = (STD, OTHER, REPORTED)
NONE = ()

# user-supplied code behind an interface of the library
USER_VIRTUAL = re.compile(r"^learnlog::sinks::")


class Throws:
    """interprocedural summaries, computed bottom-up by property simulation of each function (exception edges, handlers)"""

    def __init__(self, m, quiet=None, nounwind_ok=True):
        self.m = m
        self.memo = {}
        self.active = set()
        self.quiet = quiet or (lambda fn, i: False)

    def of_call(self, fn, i):
        if i.d.get("nt") or self.quiet(fn, i):
            return NONE
        if i.callee:
            return self.of_direct(i.callee)
        c = describe(fn, i)
        if c.kind == "v":
            if c.name == "~" or c.cls.startswith("std::exception"):
                return NONE
            if USER_VIRTUAL.match(c.cls):
                return BOTH
            return self.of_virtual(fn, i, c)
        return BOTH

    def of_direct(self, mangled):
        m = self.m
        nb = m.nbase(mangled)
        if nb == "std::function::operator()":
            return BOTH
        if nb.startswith("fmt::") and re.search(r"vformat|format_to|format_error|to_string$|format_system_error", nb):
            return BOTH if "vformat" in nb else (STD,)
        if NOTHROW_STD.match(nb):
            return NONE
        if nb == "learnlog::throw_learnlog_excpt" or MAY_STD.match(nb) or nb.startswith("std::__throw_"):
            return (STD,)
        if m.decls.get(mangled, {}).get("nt"):
            return NONE
        f = m.fn(mangled)
        if f is None:
            return NONE
        return self.of_fn(f)

    def of_virtual(self, fn, i, c):
        m = self.m
        _, slot = m.vcall(fn, i)
        out = set()
        for vt, d in m.vtables().items():
            if c.cls in [strip_targs(b) for b in d["bases"]]:
                f = m.fn(d["slots"].get(slot) or "")
                if f is not None:
                    out |= set(self.of_fn(f))
        return tuple(k for k in KINDS if k in out)

    def of_fn(self, f):
        if f.mangled in self.memo:
            return self.memo[f.mangled]
        if f.nounwind or f.mangled in self.active:
            return NONE
        self.active.add(f.mangled)
        try:
            # the outcome does not depend on anything but control flow
            if not any(i.is_call and self.of_call(f, i) for i in f.instrs()) and not any(
                    i.is_call and i.callee in ("__cxa_throw", "__cxa_rethrow") for i in f.instrs()):
                r = NONE
            else:
                s = Sim(f, None, lambda sim, i, env: ["report" if is_report(f, i) else "call"] if i.is_call else (),
                        lambda a, e, i: 0 if e[0] == "threw" else 1 if e == "report" else a, 0,
                        lambda sim, i, env: self.of_call(f, i), max_states=200000).run()
                ks = {REPORTED if x[3] == OTHER and x[1] else x[3] for x in s.exits if x[0] == "escape"}
                r = tuple(k for k in KINDS if k in ks)
        finally:
            self.active.discard(f.mangled)
        if not self.active or True:
            self.memo[f.mangled] = r
        return r
