"""Value domain: linear forms over hash-consed atoms, interval-set facts, pointers.

Integers are mathematical integers in the signed reading of their width.  A
linear form is a sum of coef*atom plus a constant.  Derived atoms (bit slices,
opaque operators) are hash-consed, so equal computations give equal values.
Facts are kept per direction (primitive linear form without constant) as a set
of intervals.  There is no solver: a comparison is decided when the interval
reasoning decides it, and otherwise both outcomes are analysed.
"""
from math import gcd

INF = 1 << 80

class Atom:
    __slots__ = ("id", "key", "lo", "hi", "name")
    def __repr__(self): return self.name

ATOMS = []
_intern = {}

def atom(key, lo, hi, name=None):
    a = _intern.get(key)
    if a is None:
        a = Atom(); a.id = len(ATOMS); a.key = key; a.lo = lo; a.hi = hi
        a.name = name or str(key)
        if len(a.name) > 160: a.name = "%s...[%d]" % (a.name[:120], a.id)
        ATOMS.append(a); _intern[key] = a
    return a

_fresh = [0]
def fresh_atom(name, lo, hi):
    _fresh[0] += 1
    return atom(("fresh", name, _fresh[0]), lo, hi, "%s#%d" % (name, _fresh[0]))

class Lin:
    __slots__ = ("t", "k", "_h")
    def __init__(self, t, k):
        self.t = t; self.k = k; self._h = hash((t, k))
    def __eq__(self, o): return isinstance(o, Lin) and self._h == o._h and self.t == o.t and self.k == o.k
    def __ne__(self, o): return not self == o
    def __hash__(self): return self._h
    def __repr__(self):
        s = []
        for a, c in self.t:
            n = ATOMS[a].name
            s.append(n if c == 1 else "-" + n if c == -1 else "%d*%s" % (c, n))
        if self.k or not s: s.append(str(self.k))
        return "(" + " + ".join(s) + ")"

def lin_atom(a): return Lin(((a.id, 1),), 0)

def fresh(name, bits=32, lo=None, hi=None):
    if lo is None: lo = -(1 << (bits - 1))
    if hi is None: hi = (1 << (bits - 1)) - 1
    return lin_atom(fresh_atom(name, lo, hi))

def named(name, bits=32, lo=None, hi=None):
    if lo is None: lo = -(1 << (bits - 1))
    if hi is None: hi = (1 << (bits - 1)) - 1
    return lin_atom(atom(("named", name, bits, lo, hi), lo, hi, name))

def terms(v):
    return ((), v) if isinstance(v, int) else (v.t, v.k)

def mk(d, k):
    t = tuple(sorted((a, c) for a, c in d.items() if c))
    return Lin(t, k) if t else k

def add(a, b):
    if isinstance(a, int) and isinstance(b, int): return a + b
    if isinstance(a, int): return Lin(b.t, b.k + a)
    if isinstance(b, int): return Lin(a.t, a.k + b)
    d = dict(a.t)
    for x, c in b.t: d[x] = d.get(x, 0) + c
    return mk(d, a.k + b.k)

def scale(a, c):
    if isinstance(a, int): return a * c
    if c == 0: return 0
    if c == 1: return a
    return Lin(tuple((x, y * c) for x, y in a.t), a.k * c)

def neg(a): return scale(a, -1)
def sub(a, b):
    if isinstance(b, int): return add(a, -b)
    return add(a, neg(b))

def direction(t):
    """-> (primitive direction tuple, factor) with t == factor*dir"""
    g = 0
    for _, c in t: g = gcd(g, c)
    if t[0][1] < 0: g = -g
    if g == 1: return t, 1
    return tuple((a, c // g) for a, c in t), g

# ---------------------------------------------------------------- interval sets
FULL = ((-INF, INF),)
def iset(lo, hi): return ((lo, hi),) if lo <= hi else ()
def inter(a, b):
    r = []
    i = j = 0
    while i < len(a) and j < len(b):
        lo = max(a[i][0], b[j][0]); hi = min(a[i][1], b[j][1])
        if lo <= hi: r.append((lo, hi))
        if a[i][1] < b[j][1]: i += 1
        else: j += 1
    return tuple(r)
def union(a, b):
    l = sorted(a + b)
    r = []
    for lo, hi in l:
        if r and lo <= r[-1][1] + 1:
            if hi > r[-1][1]: r[-1] = (r[-1][0], hi)
        else: r.append((lo, hi))
    return tuple(r)
def compl(a):
    r = []; p = -INF
    for lo, hi in a:
        if p <= lo - 1: r.append((p, lo - 1))
        p = hi + 1
    if p <= INF: r.append((p, INF))
    return tuple(r)
def subset(a, b): return inter(a, b) == a
def shift(a, k): return tuple((max(lo + k, -INF) if lo > -INF else lo, min(hi + k, INF) if hi < INF else hi) for lo, hi in a)
def mulset(a, c):
    """image of set under *c (as hull per interval; exact enough for bounds)"""
    r = []
    for lo, hi in a:
        x = -INF if lo <= -INF else lo * c if c > 0 else None
        if c > 0:
            r.append((lo * c if lo > -INF else -INF, hi * c if hi < INF else INF))
        else:
            r.append((hi * c if hi < INF else -INF, lo * c if lo > -INF else INF))
    return tuple(sorted(r))
def divset(a, c):
    """{x : c*x in a} for c>0 or c<0"""
    r = []
    for lo, hi in a:
        if c > 0:
            l = -INF if lo <= -INF else -((-lo) // c)
            h = INF if hi >= INF else hi // c
        else:
            l = -INF if hi >= INF else -((-hi) // c) if False else _ceil(hi, c)
            h = INF if lo <= -INF else lo // c
        if l <= h: r.append((l, h))
    return tuple(sorted(r))
def _ceil(n, d): return -((-n) // d)

# ---------------------------------------------------------------- pointers etc
class Ptr:
    __slots__ = ("o", "off", "_h")
    def __init__(self, o, off):
        self.o = o; self.off = off; self._h = hash((o, off))
    def __eq__(self, x): return isinstance(x, Ptr) and self.o == x.o and self.off == x.off
    def __ne__(self, x): return not self == x
    def __hash__(self): return self._h
    def __repr__(self):
        if self.o is None: return "null" if self.off == 0 else "ptr(%r)" % (self.off,)
        return "&%s%s" % (OBJS[self.o].name, "" if self.off == 0 else "+%r" % (self.off,))

NULL = Ptr(None, 0)

class _U:
    def __repr__(self): return "undef"
UNDEF = _U()

class AggV:
    __slots__ = ("d",)
    def __init__(self, d): self.d = d
    def __eq__(self, o): return isinstance(o, AggV) and self.d == o.d
    def __hash__(self): return hash(tuple(sorted(self.d.items(), key=lambda x: x[0])))

class Flt:
    """floating value: opaque term"""
    __slots__ = ("t",)
    def __init__(self, t): self.t = t
    def __eq__(self, o): return isinstance(o, Flt) and self.t == o.t
    def __hash__(self): return hash(("flt", self.t))
    def __repr__(self): return "flt%r" % (self.t,)

class Obj:
    __slots__ = ("id", "name", "kind", "size", "init", "ref", "info")
    def __repr__(self): return "<obj %s>" % self.name

OBJS = []
_objkey = {}
def new_obj(name, kind, size=None, init="havoc", ref=None, key=None):
    """init: zero | undef | havoc | const(global cells)"""
    if key is not None and key in _objkey: return _objkey[key]
    o = Obj(); o.id = len(OBJS); o.name = name; o.kind = kind; o.size = size; o.init = init; o.ref = ref; o.info = None
    OBJS.append(o)
    if key is not None: _objkey[key] = o
    return o
