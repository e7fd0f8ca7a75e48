"""std::string and fmt::memory_buffer values in a Machine: tuples of segments."""
from lib import *
from sim import is_sym, Bad

SB = re.compile(r"^std::(__cxx11::)?basic_string::(\w+|operator=|operator\+=|operator\[\]|~basic_string)$")
SBUF = re.compile(r"^fmt::(v\d+::)?(basic_memory_buffer|detail::buffer)::(\w+|~basic_memory_buffer|operator=)$")
UNKNOWN = (("?",),)


def lit(s):
    return (("lit", s),) if s else ()


def norm(v):
    """adjacent literals joined, empty ones dropped"""
    out = []
    for x in v:
        if x[0] == "lit":
            if not x[1]:
                continue
            if out and out[-1][0] == "lit":
                out[-1] = ("lit", out[-1][1] + x[1])
                continue
        out.append(x)
    return tuple(out)


def length(v):
    if all(x[0] in ("lit", "msg") for x in v):
        return sum(len(x[1]) if x[0] == "lit" else x[1] for x in v)
    return ("o", ("len", v))


def get(st, a):
    return st.get(("str", a), UNKNOWN)


def put(st, a, v):
    st[("str", a)] = norm(v)


def literal(v):
    """the text when it is all known"""
    return "".join(x[1] for x in v) if all(x[0] == "lit" for x in v) else None


def sub(v, lo, hi):
    """substr(lo, hi) of a value"""
    s = literal(v)
    if lo == 0 and hi in (-1, None):
        return v
    if s is not None and isinstance(lo, int) and (hi is None or isinstance(hi, int)):
        return lit(s[lo:] if hi is None or hi < 0 else s[lo:lo + hi])
    return (("sub", v, lo, hi),)


def charload(a):
    """the character at an address inside a known text"""
    if isinstance(a[1], tuple) and a[1][0] == "chars":
        s = literal(a[1][1])
        if s is not None and 0 <= a[2] <= len(s):
            return ord(s[a[2]]) if a[2] < len(s) else 0
    return None


def chars(m, v, key):
    """value of a char pointer argument"""
    if is_sym(v) and isinstance(v[1], tuple) and v[1][0] == "chars":
        if v[2] == 0:
            return v[1][1]
        s = literal(v[1][1])
        return lit(s[v[2]:]) if s is not None and 0 <= v[2] <= len(s) else UNKNOWN
    s = m.string_at(key) if not is_sym(key) else None
    return lit(s) if s is not None else None


def piece(m, v, key, n):
    """pointer and length as a string value"""
    x = chars(m, v, key)
    if x is None:
        return UNKNOWN
    L = length(x)
    if n == L:
        return x
    if isinstance(n, int) and isinstance(L, int) and n <= L:
        return lit("".join(s[1] for s in x)[:n])
    if isinstance(v, tuple) and n is not None:
        return (("cut", x, n),)
    return UNKNOWN


def strings(m, st, c):
    """models the call when it is one on strings: return value, "done", or None when it is something else"""
    if c.nb == "strlen":
        x = chars(m, c.vals[0], c.keys[0])
        return length(x) if x is not None else None
    if c.nb in ("memcmp", "strcmp", "strncmp", "std::char_traits::compare"):
        x, y = (chars(m, c.vals[k], c.keys[k]) for k in (0, 1))
        if x is None or y is None:
            return None
        if x == y:
            return 0
        if all(s[0] == "lit" for s in x + y):
            return 1
        return None
    if re.match(r"^std::operator==$|^std::operator!=$", c.nb) and len(c.vals) == 2:
        x, y = (get(st, c.vals[k]) if is_sym(c.vals[k]) and ("str", c.vals[k]) in st else chars(m, c.vals[k], c.keys[k]) for k in (0, 1))
        if x is None or y is None:
            return None
        if x == y:
            return int(c.nb.endswith("==="[:2]))
        if all(s[0] == "lit" for s in x + y):
            return int(c.nb.endswith("!="))
        return None
    if c.nb == "std::operator+" and len(c.vals) == 3 and is_sym(c.vals[0]):
        v = ()
        for k in (1, 2):
            x = get(st, c.vals[k]) if is_sym(c.vals[k]) and ("str", c.vals[k]) in st else lit(chr(c.vals[k])) if isinstance(c.vals[k], int) else chars(m, c.vals[k], c.keys[k])
            v += x if x is not None else UNKNOWN
        put(st, c.vals[0], v)
        return "done"
    k = SB.match(c.nb)
    if not k or not c.vals:
        return None
    what = k.group(2)
    a = c.vals[0]
    pretty = c.name
    params = pretty[pretty.rindex("("):] if "(" in pretty else ""
    if what == "substr":
        # returns through its first argument
        src = get(st, c.vals[1])
        lo, hi = c.vals[2], c.vals[3] if len(c.vals) > 3 else -1
        v = sub(src, lo, hi)
        put(st, a, v)
        return "done"
    if not is_sym(a):
        return None
    if what == "basic_string" or what in ("operator=", "assign"):
        if len(c.vals) == 1 or what == "basic_string" and len(c.vals) == 2 and "allocator" in params and "char" not in params.split("allocator")[0]:
            put(st, a, ())
        elif is_sym(c.vals[1]) and ("str", c.vals[1]) in st:
            v = get(st, c.vals[1])
            if len(c.vals) >= 3 and isinstance(c.vals[2], int) and "unsigned long" in params:
                v = sub(v, c.vals[2], c.vals[3] if len(c.vals) > 3 and isinstance(c.vals[3], int) else -1)
            put(st, a, v)
        else:
            if what == "basic_string" and len(c.vals) >= 3 and re.search(r"__normal_iterator|\bchar\*, *char\*|char const\*, char const\*", params):
                x = chars(m, c.vals[1], c.keys[1])
                put(st, a, x if x is not None else UNKNOWN)
            elif len(c.vals) >= 3 and "unsigned long" in params:
                put(st, a, piece(m, c.vals[1], c.keys[1], c.vals[2]))
            else:
                x = chars(m, c.vals[1], c.keys[1])
                put(st, a, x if x is not None else UNKNOWN)
        return "done" if what == "basic_string" else a
    if what in ("operator+=", "append", "push_back"):
        if is_sym(c.vals[1]) and ("str", c.vals[1]) in st:
            x = get(st, c.vals[1])
        elif isinstance(c.vals[1], int) and len(c.vals) == 2:
            x = lit(chr(c.vals[1]))
        elif len(c.vals) == 3:
            x = piece(m, c.vals[1], c.keys[1], c.vals[2])
        else:
            x = chars(m, c.vals[1], c.keys[1]) or UNKNOWN
        put(st, a, get(st, a) + x)
        return a
    if what in ("size", "length"):
        return length(get(st, a)) if ("str", a) in st else None
    if what == "empty":
        if ("str", a) not in st:
            return None
        L = length(get(st, a))
        return int(L == 0) if isinstance(L, int) else None
    if what in ("operator[]", "at") and ("str", a) in st and isinstance(c.vals[1], int):
        return ("s", ("chars", get(st, a)), c.vals[1])
    if what in ("front", "back") and ("str", a) in st:
        L = length(get(st, a))
        return ("s", ("chars", get(st, a)), 0 if what == "front" else L - 1) if isinstance(L, int) and L else None
    if what in ("c_str", "data", "begin", "cbegin"):
        return ("s", ("chars", get(st, a)), 0) if ("str", a) in st else None
    if what == "clear":
        put(st, a, ())
        return "done"
    if what == "swap":
        x, y = get(st, a), get(st, c.vals[1])
        put(st, a, y)
        put(st, c.vals[1], x)
        return "done"
    if what == "compare":
        x = get(st, a)
        y = get(st, c.vals[1]) if is_sym(c.vals[1]) and ("str", c.vals[1]) in st else chars(m, c.vals[1], c.keys[1])
        if y is not None and (x == y or all(s[0] == "lit" for s in x + y)):
            return int(x != y)
        return None
    if what in ("find_first_of", "find_last_of", "find", "rfind", "find_first_not_of", "find_last_not_of"):
        s = get(st, a)
        y = chr(c.vals[1]) if isinstance(c.vals[1], int) else None
        if y is None:
            x = get(st, c.vals[1]) if is_sym(c.vals[1]) and ("str", c.vals[1]) in st else chars(m, c.vals[1], c.keys[1])
            y = "".join(t[1] for t in x) if x is not None and all(t[0] == "lit" for t in x) else None
        start = c.vals[2] if len(c.vals) > 2 else (0 if what in ("find_first_of", "find", "find_first_not_of") else -1)
        if y is None or not all(t[0] == "lit" for t in s) or not isinstance(start, int):
            return None
        z = "".join(t[1] for t in s)
        return find(z, what, y, start)
    return None


def find(z, what, y, start):
    if what == "find":
        return z.find(y, start)
    if what == "rfind":
        return z.rfind(y) if start < 0 else z.rfind(y, 0, start + len(y))
    hit = (lambda ch: ch in y) if "not" not in what else (lambda ch: ch not in y)
    if "first" in what:
        return next((k for k in range(start, len(z)) if hit(z[k])), -1)
    top = len(z) - 1 if start < 0 else min(start, len(z) - 1)
    return next((k for k in range(top, -1, -1) if hit(z[k])), -1)


def buffers(m, st, c):
    """fmt::memory_buffer: data pointer at 0, size at 8; contents as segments"""
    if c.nb == "learnlog::base::fmt_base::count_unsigned_digits":
        return len(str(c.vals[0])) if isinstance(c.vals[0], int) and c.vals[0] >= 0 else None
    if c.nb == "learnlog::base::fmt_base::fill_uint" and len(c.vals) == 3:
        b = c.vals[2]
        if is_sym(b):
            ok = isinstance(c.vals[0], int) and isinstance(c.vals[1], int) and c.vals[0] >= 0
            st[("buf", b)] = norm(st.get(("buf", b), UNKNOWN) + (lit(str(c.vals[0]).rjust(c.vals[1], "0")) if ok else UNKNOWN))
        return "done"
    if re.match(r"^learnlog::base::fmt_base::append_string_view$", c.nb):
        b = c.vals[2]
        if is_sym(b):
            st[("buf", b)] = norm(st.get(("buf", b), UNKNOWN) + piece(m, c.vals[0], c.keys[0], c.vals[1]))
        return "done"
    if re.match(r"^fmt::(v\d+::)?to_string$", c.nb) and len(c.vals) == 2 and is_sym(c.vals[1]) and ("buf", c.vals[1]) in st:
        put(st, c.vals[0], st[("buf", c.vals[1])])
        return "done"
    k = SBUF.match(c.nb)
    if not k or not c.vals or not is_sym(c.vals[0]):
        return None
    a, what = c.vals[0], k.group(3)
    if what == "basic_memory_buffer" and (len(c.vals) == 1 or "allocator" in c.name.rsplit("(", 1)[-1]):
        st[("buf", a)] = ()
        return "done"
    if what == "clear":
        st[("buf", a)] = ()
        return "done"
    if what == "push_back":
        ch = c.vals[1]
        if is_sym(ch):
            ch = st.get(ch)
        st[("buf", a)] = norm(st.get(("buf", a), UNKNOWN) + (lit(chr(ch)) if isinstance(ch, int) else UNKNOWN))
        return "done"
    if what == "append" and len(c.vals) == 3:
        p, q = c.vals[1], c.vals[2]
        x = (("bytes", p, q),)
        if is_sym(p) and isinstance(p[1], tuple) and p[1][0] == "chars":
            if q == ("o", ("end", p[1][1])) and p[2] == 0:
                x = p[1][1]
            elif is_sym(q) and q[1] == p[1] and literal(p[1][1]) is not None and 0 <= p[2] <= q[2] <= len(literal(p[1][1])):
                x = lit(literal(p[1][1])[p[2]:q[2]])
            elif is_sym(q) and q[1] == p[1] and p[2] == 0 and q[2] == length(p[1][1]):
                x = p[1][1]
        st[("buf", a)] = norm(st.get(("buf", a), UNKNOWN) + x)
        return "done"
    if what in ("size",):
        return ("o", ("len", st.get(("buf", a), UNKNOWN)))
    if what in ("data", "begin"):
        return ("s", ("chars", st.get(("buf", a), UNKNOWN)), 0)
    return None


def bufload(st, a):
    """inlined accessors of a buffer"""
    if ("buf", a) in st:
        return ("s", ("chars", st[("buf", a)]), 0)
    if is_sym(a) and ("buf", ("s", a[1], a[2] - 8)) in st:
        return length(st[("buf", ("s", a[1], a[2] - 8))])
    return None
