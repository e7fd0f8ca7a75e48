"""P11: messages kept for later own the text they refer to."""
from rules._machine import *
from rules._strings import SBUF
from rules.files import fail_once

LM, LMB, AM = "learnlog::base::log_msg", "learnlog::base::log_msg_buf", "learnlog::base::async_msg"
T, SRC = obj("T"), obj("SRC")
CAP = 4             # inline capacity of the modelled buffer; longer text moves to the heap


def field(m, cls, name):
    t = next((k for k, x in enumerate(m.types) if x and x.get("n") == cls and x.get("m")), None)
    if t is None:
        raise AnalysisBroken("no type " + cls)
    for c, n, o, tt in m.fields_of(t):
        if n == name:
            return o
    raise AnalysisBroken("%s has no field %s" % (cls, name))


def scalars(m, cls):
    """[(name, offset)] of the scalar cells of a class"""
    t = next(k for k, x in enumerate(m.types) if x and x.get("n") == cls and x.get("m"))
    out = []

    def walk(t, name, off):
        fs = m.fields_of(t)
        if not fs:
            out.append((name, off))
        for c, n, o, tt in fs:
            sub = m.complete(m.strip(tt))
            if m.types[sub].get("m"):
                walk(sub, name + "." + n if name else n, off + o)
            else:
                out.append((name + "." + n if name else n, off + o))
    walk(t, "", 0)
    return out


class Text:
    """memory buffers with their storage.  ("sto", B): storage of the buffer at B; ("txt", s): its text; ("dead",): freed storages; ("size", B)"""

    def __init__(self, m):
        self.m = m
        self.scalar = {}
        self.kw = dict(call=lambda st, c: (self.after_copy(st, c), self.call(st, c))[1], load=self.load, store=self.store, throws=lambda st, c: (), counting=30)

    # ---- storages
    def make(self, st, b, text):
        s = ("in", b) if len(text) <= CAP else ("heap", b, 0)
        st[("sto", b)] = s
        st[("txt", s)] = text
        st[("n", b)] = len(text)

    def kill(self, st, s):
        st[("dead",)] = tuple(sorted(set(st.get(("dead",), ())) | {s}, key=repr))

    def text_at(self, st, p, n, what):
        """the n characters at p"""
        if n == 0:
            return ""
        if not (is_sym(p) and isinstance(p[1], tuple) and p[1][0] == "mem"):
            raise Bad("%s does not point to any text" % what)
        s = p[1][1]
        if s in st.get(("dead",), ()):
            raise Bad("%s points to text whose storage has been given up" % what)
        t = st.get(("txt", s), "")
        if not isinstance(n, int) or p[2] < 0 or p[2] + n > len(t):
            raise Bad("%s reaches past the end of the text it points to" % what)
        return t[p[2]:p[2] + n]

    def grow(self, st, b, text):
        """the buffer at b now holds text: it stays where it is or gets new storage"""
        s = st[("sto", b)]
        if len(text) > CAP:
            if s[0] == "in":
                new = ("heap", b, 0)
            else:
                new = ("heap", b, s[2] + 1 if len(s) > 2 else 1)
            self.kill(st, s)
            st[("dead",)] = tuple(x for x in st.get(("dead",), ()) if x != new)
            st[("sto", b)] = s = new
        st[("txt", s)] = text
        st[("n", b)] = len(text)

    def now(self, st, b):
        return st[("txt", st[("sto", b)])][:st[("n", b)]].ljust(st[("n", b)], "?")

    def take(self, st, b, o, fresh):
        """b takes over o's contents: heap storage changes hands, inline text is copied"""
        if ("sto", o) not in st:
            raise Bad("takes over a buffer that does not exist")
        if not fresh:
            if o == b:
                raise Bad("moves a buffer into itself")
            if st[("sto", b)][0] == "heap":
                self.kill(st, st[("sto", b)])
        s = st[("sto", o)]
        n = st[("n", o)]
        if s[0] == "heap":
            st[("sto", b)] = s
        else:
            st[("sto", b)] = ("in", b)
            st[("txt", ("in", b))] = st[("txt", s)]
        st[("n", b)] = n
        if not (o == b):
            st[("sto", o)] = ("in", o)
            st[("n", o)] = 0
            st[("txt", ("in", o))] = "?" * CAP if s[0] == "heap" else st[("txt", s)]

    # ---- calls
    def call(self, st, c):
        if c.nb.startswith("learnlog::base::fmt_base::append_string_view") and len(c.vals) == 3 and ("sto", c.vals[2]) in st:
            self.grow(st, c.vals[2], self.now(st, c.vals[2]) + self.text_at(st, c.vals[0], c.vals[1], "the text appended"))
            return "done"
        if c.nb.startswith((LM + "::", LMB + "::")) and c.fn is not None:
            if len(c.vals) == 2 and c.vals[0] == c.vals[1] and c.last == "log_msg":
                raise Bad("builds a message from itself")
            return nested(self.m, st, c, **self.kw)
        if c.nb == LM + "::log_msg" and len(c.vals) == 2 and is_sym(c.vals[0]) and is_sym(c.vals[1]) or c.nb == LM + "::operator=" and is_sym(c.vals[0]) and is_sym(c.vals[1]):
            st.copy_obj(c.vals[0], c.vals[1], self.size)
            return c.vals[0] if c.last == "operator=" else "done"
        k = SBUF.match(c.nb)
        if not k or not c.vals or not is_sym(c.vals[0]):
            return None
        b, what = c.vals[0], k.group(3)
        if what == "basic_memory_buffer":
            if len(c.vals) == 2 and is_sym(c.vals[1]) and "&&" in c.name.rsplit("(", 1)[-1]:
                self.take(st, b, c.vals[1], True)
            else:
                self.make(st, b, "")
            return "done"
        if ("sto", b) not in st:
            raise Bad("uses a buffer before it exists or after it is gone")
        if what == "operator=":
            self.take(st, b, c.vals[1], False)
            return b
        if what == "clear":
            st[("n", b)] = 0
            return "done"
        if what == "append":
            if len(c.vals) == 3:
                p, q = c.vals[1], c.vals[2]
                if p == q:
                    t = ""
                elif is_sym(p) and is_sym(q) and p[1] == q[1]:
                    t = self.text_at(st, p, q[2] - p[2], "the text appended")
                else:
                    raise Bad("appends something that is not the message's text")
            elif len(c.vals) == 2 and ("sto", c.vals[1]) in st:
                t = self.now(st, c.vals[1])
            elif len(c.vals) == 2 and is_sym(c.vals[1]) and isinstance(st.get(("s", c.vals[1][1], c.vals[1][2] + 8)), int):
                t = self.text_at(st, st.get(c.vals[1]), st[("s", c.vals[1][1], c.vals[1][2] + 8)], "the text appended")
            else:
                raise Bad("appends something that is not the message's text")
            if t:
                self.grow(st, b, self.now(st, b) + t)
            return "done"
        if what == "push_back":
            ch = st.get(c.vals[1]) if is_sym(c.vals[1]) else c.vals[1]
            if is_sym(c.vals[1]) and c.vals[1][1][0] == "mem":
                ch = self.text_at(st, c.vals[1], 1, "the character appended")
            self.grow(st, b, self.now(st, b) + (ch if isinstance(ch, str) else chr(ch) if isinstance(ch, int) else "?"))
            return "done"
        if what in ("resize", "try_resize"):
            n = c.vals[1]
            if isinstance(n, int):
                t = self.now(st, b)
                if n > len(t) and n > CAP:
                    self.grow(st, b, t.ljust(n, "?"))
                else:
                    st[("n", b)] = n
            return "done"
        if what in ("reserve", "try_reserve"):
            n = c.vals[1]
            if isinstance(n, int) and n > CAP and st[("sto", b)][0] == "in":
                t = self.now(st, b)
                self.grow(st, b, t.ljust(n, "?"))
                st[("n", b)] = len(t)
            return "done"
        if what == "size":
            return st[("n", b)]
        if what in ("data", "begin"):
            return ("s", ("mem", st[("sto", b)]), 0)
        if what == "end":
            return ("s", ("mem", st[("sto", b)]), st[("n", b)])
        if what == "~basic_memory_buffer":
            if st[("sto", b)][0] == "heap":
                self.kill(st, st[("sto", b)])
            del st[("sto", b)]
            return "done"
        return None

    def load(self, st, a):
        if ("sto", a) in st:
            return ("s", ("mem", st[("sto", a)]), 0)
        b = ("s", a[1], a[2] - 8)
        if ("sto", b) in st:
            return st[("n", b)]
        if isinstance(a[1], tuple) and a[1][0] == "mem":
            return ord(self.text_at(st, a, 1, "the character read"))
        return None

    def store(self, st, a, v, i):
        if isinstance(a[1], tuple) and a[1][0] == "mem":
            s = a[1][1]
            t = st.get(("txt", s), "")
            ch = chr(v) if isinstance(v, int) and 0 <= v < 256 else "?"
            st[("txt", s)] = t[:a[2]].ljust(a[2], "?") + ch + t[a[2] + 1:]
            return True
        return False

    def after_copy(self, st, c):
        """memcpy into or out of text"""
        if not c.nb.startswith(("llvm.memcpy", "llvm.memmove")) or not is_sym(c.vals[0]):
            return
        d, s, n = c.vals[:3]
        if isinstance(d[1], tuple) and d[1][0] == "mem" and isinstance(n, int):
            x = self.text_at(st, s, n, "the text copied")
            t = st.get(("txt", d[1][1]), "")
            st[("txt", d[1][1])] = t[:d[2]].ljust(d[2], "?") + x + t[d[2] + n:]


def p11(rep):
    rep.explanation = ("Kept messages: every constructor and assignment of log_msg_buf is run as a machine over a model of text storage (inline and heap, moved, "
                       "reallocated and freed) from every combination of short, long and empty name and text on both sides, including assignment to itself; afterwards "
                       "the views must show the source's text inside the object's own storage. async_msg's members are then judged over log_msg_buf as a unit.")
    m = get_model("tls")
    fail = fail_once(rep)
    tx = Text(m)
    tx.scalar = {LM: scalars(m, LM)}
    tx.size = max(o for n, o in tx.scalar[LM]) + 8
    payload(rep, m, fail, tx)
    whole(rep, m, fail)


TEXTS = (("", ""), ("a", ""), ("", "b"), ("ab", "cd"), ("abcdef", "g"), ("a", "bcdefg"), ("abcdef", "ghijkl"))


def fields(m, tx, st, base, tag, views):
    for n, o in tx.scalar[LM]:
        st[("s", base[1], base[2] + o)] = ("o", (tag, n))
    for n in ("logger_name", "msg"):
        o = field(m, LM, n)
        p, size = views[n]
        st[("s", base[1], base[2] + o)] = p
        st[("s", base[1], base[2] + o + 8)] = size


def plain(m, tx, st, base, name, text, tag="src"):
    """a log_msg whose text lies in the caller's memory"""
    st[("txt", ("ext", tag, 0))] = name + "."
    st[("txt", ("ext", tag, 1))] = text + "."
    fields(m, tx, st, base, tag, {"logger_name": (("s", ("mem", ("ext", tag, 0)), 0), len(name)), "msg": (("s", ("mem", ("ext", tag, 1)), 0), len(text))})


def kept(m, tx, st, base, name, text, tag):
    """a log_msg_buf that owns its text"""
    b = ("s", base[1], base[2] + field(m, LMB, "buf_"))
    tx.make(st, b, name + text)
    p = ("s", ("mem", st[("sto", b)]), 0)
    fields(m, tx, st, base, tag, {"logger_name": (p, len(name)), "msg": (("s", p[1], len(name)), len(text))})


def judge(m, tx, st, base, name, text, tag, who):
    """what is wrong with the kept message at base"""
    b = ("s", base[1], base[2] + field(m, LMB, "buf_"))
    if ("sto", b) not in st:
        return "%s has no buffer" % who
    for n, want in (("logger_name", name), ("msg", text)):
        o = field(m, LM, n)
        p, size = st.get(("s", base[1], base[2] + o)), st.get(("s", base[1], base[2] + o + 8))
        if size != len(want):
            return "%s: the length of %s is not that of the source" % (who, n)
        if not want:
            continue
        try:
            t = tx.text_at(st, p, size, "%s of %s" % (n, who))
        except Bad as e:
            return str(e)
        if t != want:
            return "%s: %s shows other text than the source's" % (who, n)
        if p[1][1] != st[("sto", b)]:
            return "%s: %s points to text the object does not own" % (who, n)
        if p[2] + size > st[("n", b)]:
            return "%s: %s shows text that its buffer no longer counts as its own" % (who, n)
    if st[("n", b)] != len(name) + len(text):
        return "%s keeps text that belongs to no message" % who
    for n, o in tx.scalar[LM]:
        if n.startswith(("logger_name", "msg")) or tag is None:
            continue
        if st.get(("s", base[1], base[2] + o)) != ("o", (tag, n)):
            return "%s: %s is not the source's" % (who, n)
    return None


def payload(rep, m, fail, tx):
    fs = [f for f in m.all() if f.nbase in (LMB + "::log_msg_buf", LMB + "::operator=")]
    kinds = {}
    for f in fs:
        sig = f.name[f.name.rindex("("):]
        if "::operator=" in f.name:
            kinds["move assignment" if "&&" in sig else "copy assignment"] = f
        elif sig == "()":
            kinds["default constructor"] = f
        elif "&&" in sig:
            kinds["move constructor"] = f
        elif "log_msg_buf const&" in sig:
            kinds["copy constructor"] = f
        elif "log_msg const&" in sig:
            kinds["constructor from log_msg"] = f
    for k in ("constructor from log_msg", "copy constructor", "move constructor", "copy assignment", "move assignment"):
        if k not in kinds:
            raise AnalysisBroken("log_msg_buf has no %s" % k)
    for k, f in sorted(kinds.items()):
        rep.fn(f)
        n = 0
        if k == "default constructor":
            cases = [(None, None)]
        else:
            cases = [(None if "constructor" in k else d, s) for d in (TEXTS if "assignment" in k else TEXTS[:1]) for s in TEXTS]
            if k == "copy assignment":
                cases += [("self", s) for s in TEXTS]
        for d, s in cases:
            st = St()
            me = k == "copy assignment" and d == "self"
            if s is not None:
                if k == "constructor from log_msg":
                    plain(m, tx, st, SRC, s[0], s[1])
                else:
                    kept(m, tx, st, T if me else SRC, s[0], s[1], "src")
            if d is not None and not me:
                kept(m, tx, st, T, d[0].upper(), d[1].upper(), "old")
            M = Machine(m, f, [T, T if me else SRC], st, **tx.kw)
            rep.paths += M.sim.states
            n += 1
            for msg, i, path in M.bad():
                fail(f, "text", i, "%s: %s" % (k, msg))
            ex = M.exits("ret")
            if not ex and not M.bad():
                fail(f, "text", None, "%s does not come back" % k)
            for kind, v, st1, i in ex:
                if k == "default constructor":
                    w = judge(m, tx, st1, T, "", "", None, "the new message")
                else:
                    w = judge(m, tx, st1, T, s[0], s[1], "src", "a message assigned to itself" if me else "the new message" if "constructor" in k else "the message assigned to")
                    if not w and k.startswith("copy") and not me:
                        w = judge(m, tx, st1, SRC, s[0], s[1], "src", "the source of a copy")
                if w:
                    fail(f, "text", i, "%s: %s" % (k, w))
        if not any(x[0] == f.nbase and x[2].startswith(k) for x in fail.seen):
            rep.ok("text", f.where(), "%s: %d combinations of text lengths and storage" % (k, n))
    d = [x for x in m.all() if x.nbase == LMB + "::~log_msg_buf"]
    rep.check(len(kinds) >= 5, "coverage", LMB, "%d members" % len(kinds))


# ------------------------------------------------------------------------------------------------ async_msg

def whole(rep, m, fail):
    """async_msg: every member takes along every part"""
    lo, to, po = field(m, AM, "logger"), field(m, AM, "msg_type"), field(m, AM, "flush_promise")
    at = lambda o, k: ("s", o[1], o[2] + k)

    def call(st, c):
        if not c.vals or not is_sym(c.vals[0]):
            return None
        a = c.vals[0]
        b = c.vals[1] if len(c.vals) > 1 else None
        sig = c.name[c.name.rindex("("):] if "(" in c.name else ""
        if c.nb in (LMB + "::log_msg_buf", LMB + "::operator="):
            if b is None:
                st[("pay", a)] = "empty"
            elif b == obj("MSG"):
                st[("pay", a)] = "msg"
            else:
                st[("pay", a)] = st.get(("pay", b), "?")
                if "&&" in sig:
                    st[("pay", b)] = "moved"
            return a if c.last == "operator=" else "done"
        mv = "&&" in sig
        if re.match(r"^std::(__)?shared_ptr::((__)?shared_ptr|operator=|swap)$", c.nb) and "async_logger" in c.name or re.match(r"^std::promise::(promise|operator=|swap)$", c.nb):
            key = "ptr" if "shared_ptr" in c.nb else "prom"
            if c.last == "swap":
                st[(key, a)], st[(key, b)] = st.get((key, b), "?"), st.get((key, a), "?")
                return "done"
            if b is None or b == 0:
                st[(key, a)] = "fresh" if key == "prom" else "null"
            else:
                st[(key, a)] = st.get((key, b), "null" if "nullptr_t" in sig else "?")
                if mv:
                    st[(key, b)] = "moved"
            return a if c.last == "operator=" else "done"
        if c.nb == AM + "::async_msg":
            x = next((y for y in m.all() if y.mangled == c.i.callee or y.name == c.name), None)
            if x is None or x.mangled == st.get(("in",)):
                return None
            sub = St({k: v for k, v in st.items() if not (isinstance(k, tuple) and k[0] == "r")})
            sub[("in",)] = x.mangled
            M = Machine(m, x, c.vals, sub, call, throws=lambda st, c: ())
            ex = M.exits("ret")
            if len(ex) != 1 or M.bad():
                return None
            for k in [k for k in st if isinstance(k, tuple) and k[0] in ("pay", "ptr", "prom", "s")]:
                if k not in ex[0][2] and not (k[0] == "s" and isinstance(k[1], tuple) and k[1][0] == "L"):
                    del st[k]
            for k, v in ex[0][2].items():
                if isinstance(k, tuple) and (k[0] in ("pay", "ptr", "prom") or k[0] == "s" and not (isinstance(k[1], tuple) and k[1][0] == "L")):
                    st[k] = v
            return "done"
        return None

    done = 0
    for f in m.all():
        if f.nbase not in (AM + "::async_msg", AM + "::operator="):
            continue
        sig = f.name[f.name.rindex("("):]
        args, st, want = [T], St(), {"pay": "empty", "ptr": "null", "type": 0, "prom": "fresh"}
        if "async_msg&&" in sig:
            args.append(SRC)
            st[("pay", SRC)], st[("ptr", at(SRC, lo))], st[at(SRC, to)], st[("prom", at(SRC, po))] = "src", "src", 77, "src"
            want = {"pay": "src", "ptr": "src", "type": 77, "prom": "src"}
            if "operator=" in f.name:
                st[("pay", T)], st[("ptr", at(T, lo))], st[at(T, to)], st[("prom", at(T, po))] = "old", "old", 5, "old"
        else:
            for x in split_args(sig):
                if "shared_ptr" in x:
                    o = obj("LG")
                    st[("ptr", o)] = want["ptr"] = "given"
                elif "async_msg_type" in x:
                    o = want["type"] = 77
                elif "log_msg const&" in x:
                    o = obj("MSG")
                    want["pay"] = "msg"
                elif "promise" in x:
                    o = obj("PR")
                    st[("prom", o)] = want["prom"] = "given"
                elif x:
                    raise AnalysisBroken("async_msg: parameter %s" % x)
                else:
                    continue
                args.append(o)
        rep.fn(f)
        done += 1
        M = Machine(m, f, args, st, call, throws=lambda st, c: ())
        rep.paths += M.sim.states
        for msg, i, path in M.bad():
            fail(f, "parts", i, msg)
        ex = M.exits("ret")
        if not ex:
            fail(f, "parts", None, "does not come back")
        for kind, v, s1, i in ex:
            got = {"pay": s1.get(("pay", T)), "ptr": s1.get(("ptr", at(T, lo)), "null" if want["ptr"] == "null" and cells_null(s1, at(T, lo)) else None), "type": s1.get(at(T, to)), "prom": s1.get(("prom", at(T, po)))}
            for k, what in (("pay", "the message"), ("ptr", "the logger"), ("type", "the kind"), ("prom", "the promise")):
                if len(args) == 1 and k == "type":
                    continue
                if got[k] != want[k]:
                    fail(f, "parts", i, "%s: %s is not the one given" % (short(sig), what))
        if not any(x[0] == f.nbase and x[1] == "parts" for x in fail.seen):
            rep.ok("parts", f.where(), "%s%s keeps all its parts" % (f.nbase.split("::")[-1], short(sig)))
    rep.check(done >= 6, "coverage", AM, "%d members of async_msg" % done, "only %d members of async_msg are left" % done)


def cells_null(st, a):
    return st.get(a) == 0


def short(sig):
    return re.sub(r"learnlog::(base::)?|std::", "", strip_targs(sig))


def split_args(sig):
    out, depth, cur = [], 0, ""
    for ch in sig[1:-1]:
        if ch in "<(":
            depth += 1
        elif ch in ">)":
            depth -= 1
        if ch == "," and depth == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    return out + [cur.strip()] if cur.strip() else out


PROPERTIES = {"P11": p11}
