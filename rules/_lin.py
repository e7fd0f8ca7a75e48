"""Affine values with division by constants, and interval bounds, as opaque values of a Machine.

A value is an int, ("o", symbol) or ("o", ("lin", c, ((symbol, k), ...))).  Division rounds down, operands are non-negative by the rules' bounds.
"""

INF = float("inf")


def parts(v):
    """value -> (constant, {symbol: coefficient}); None when it is not one"""
    if isinstance(v, bool):
        return int(v), {}
    if isinstance(v, int):
        return v, {}
    if isinstance(v, tuple) and len(v) == 2 and v[0] == "o":
        s = v[1]
        if isinstance(s, tuple) and s and s[0] == "lin":
            return s[1], dict(s[2])
        if isinstance(s, tuple) and s and s[0] == "len" and isinstance(s[1], tuple):
            return textlen(s[1])
        return 0, {s: 1}
    return None


def textlen(segs):
    """length of a text given as segments"""
    c, d = 0, {}
    for x in segs:
        if x[0] == "lit":
            k, e = len(x[1]), {}
        elif x[0] == "sp":
            k, e = parts(x[1])
        elif x[0] == "upto":
            k, e = parts(x[2])
        elif x[0] == "pad0":
            k, e = parts(x[2])
        elif x[0] == "int":
            k, e = 0, {("digits", x[1]): 1}
        else:
            k, e = 0, {("len", (x,)): 1}
        c += k
        for s, n in e.items():
            d[s] = d.get(s, 0) + n
    return c, d


def mk(c, d):
    d = {s: k for s, k in d.items() if k}
    if not d:
        return c
    if c == 0 and len(d) == 1:
        (s, k), = d.items()
        if k == 1:
            return ("o", s)
    return ("o", ("lin", c, tuple(sorted(d.items(), key=repr))))


def norm(v):
    p = parts(v)
    return v if p is None else mk(*p)


def add(x, y, sign=1):
    p, q = parts(x), parts(y)
    if p is None or q is None:
        return None
    d = dict(p[1])
    for s, k in q[1].items():
        d[s] = d.get(s, 0) + sign * k
    return mk(p[0] + sign * q[0], d)


def scale(x, k):
    p = parts(x)
    return None if p is None else mk(p[0] * k, {s: n * k for s, n in p[1].items()})


class Lin:
    def __init__(self, bounds):
        """bounds: {symbol or first element of it: (lo, hi)}"""
        self.b = bounds
        self.nonneg = set()         # values known not to be negative

    def sym(self, s):
        if s in self.b:
            return self.b[s]
        if isinstance(s, tuple) and s:
            if s[0] == "div":
                lo, hi = self.range(s[1])
                return lo // s[2] if lo != -INF else -INF, hi // s[2] if hi != INF else INF
            if s[0] in self.b:
                return self.b[s[0]]
            if s[0] == "len":
                return 0, INF
            if s[0] == "digits":
                return 1, 20
        return -INF, INF

    def range(self, v):
        lo, hi = self.range1(v)
        p = parts(v)
        if p is not None and lo < 0:
            for s, n in p[1].items():       # y - k * (y / k) is a remainder
                if n < 0 and isinstance(s, tuple) and s and s[0] == "div" and s[2] % -n == 0:
                    y = self.div(s[1], s[2] // -n) if s[2] != -n else s[1]
                    rest = add(v, add(y, scale(("o", s), -n), -1), -1) if y is not None else None
                    if rest is not None and len(parts(rest)[1]) < len(p[1]):
                        a, b = self.range(rest)
                        lo, hi = max(lo, a), min(hi, b - n - 1)
        return lo, hi

    def range1(self, v):
        p = parts(v)
        if p is None:
            return -INF, INF
        lo = hi = p[0]
        for s, k in p[1].items():
            a, b = self.sym(s)
            a, b = (k * a, k * b) if k > 0 else (k * b, k * a)
            lo, hi = lo + a, hi + b
        if lo < 0 and self.nonneg and norm(v) in self.nonneg:
            lo = 0
        return lo, hi

    def cmp(self, pred, x, y):
        """truth of a comparison, None when not decided"""
        d = add(x, y, -1)
        if d is None:
            return None
        lo, hi = self.range(d)
        if pred in ("eq", "ne"):
            r = 1 if lo == hi == 0 else 0 if lo > 0 or hi < 0 else None
            return r if r is None else r if pred == "eq" else 1 - r
        if pred[0] == "u" and (self.range(x)[0] < 0 or self.range(y)[0] < 0):
            return None
        p = pred[1:]
        if p in ("gt", "le"):
            r = 1 if lo > 0 else 0 if hi <= 0 else None
        else:
            r = 1 if hi < 0 else 0 if lo >= 0 else None     # lt
        return r if r is None else r if p in ("gt", "lt") else 1 - r

    def div(self, x, k):
        p = parts(x)
        if p is None or k <= 0:
            return None
        if self.range(x)[0] < 0:
            return None
        # multiples of k come out of the division
        c, rest = 0, {}
        out = {}
        c, rc = divmod(p[0], k)
        for s, n in p[1].items():
            q, r = divmod(n, k)
            if q:
                out[s] = out.get(s, 0) + q
            if r:
                rest[s] = r
        r = mk(rc, rest)
        lo, hi = self.range(r)
        if hi != INF and lo != -INF and lo // k == hi // k:
            c += lo // k
        elif isinstance(r, tuple):
            s = r[1]
            if isinstance(s, tuple) and s[0] == "div":
                s = ("div", s[1], s[2] * k)
                if self.sym(s)[1] == 0:
                    s = None
            else:
                s = ("div", r, k)
            if s is not None:
                out[s] = out.get(s, 0) + 1
        return mk(c, out)

    def arith(self, op, x, y, ty=None):
        """for Sim.arith: values that are not both integers"""
        if parts(x) is None or parts(y) is None:
            return None
        if op == "trunc":
            lo, hi = self.range(x)
            return x if lo >= -2 ** (y - 1) and hi < 2 ** y else ("o", ("trunc", y, x))
        if op in ("add", "sub"):
            return add(x, y, 1 if op == "add" else -1)
        if op == "mul":
            if isinstance(y, int):
                return scale(x, y)
            return scale(y, x) if isinstance(x, int) else None
        if op == "shl" and isinstance(y, int):
            return scale(x, 1 << y)
        if op in ("lshr", "ashr") and isinstance(y, int):
            return self.div(x, 1 << y)
        if op in ("udiv", "sdiv") and isinstance(y, int):
            return self.div(x, y)
        if op in ("urem", "srem") and isinstance(y, int):
            q = self.div(x, y)
            return None if q is None else add(x, scale(q, y), -1)
        if op == "and" and isinstance(y, int) and y >= 0 and (y & (y + 1)) == 0:
            q = self.div(x, y + 1)
            return None if q is None else add(x, scale(q, y + 1), -1)
        return None
