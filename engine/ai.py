"""Path-partitioned abstract interpreter over LLVM IR.

Each abstract state carries symbolic constants (linear forms over atoms),
interval facts, an object memory and a log of the effects of interest.  A
branch that the facts do not decide is analysed both ways; loops are unrolled
while their exit is decided and are otherwise generalised (affine induction,
then widening) until the generalised state is inductive.  Calls into the
repository are followed context-sensitively; the C library is modelled.
"""
import sys
from .dom import *
from . import dom
from .llvm import Reg, GlobalRef, FuncRef, CExpr, Undef, Null, Zero, Agg, FloatC, Function

sys.setrecursionlimit(20000)

class AnalysisError(Exception):
    pass

class State:
    __slots__ = ("mem", "own", "cons", "freed", "nonnull", "isnull", "slen", "ev", "forks", "tags")
    def __init__(self):
        self.mem = {}; self.own = set(); self.cons = {}; self.freed = frozenset()
        self.nonnull = frozenset(); self.isnull = frozenset(); self.slen = {}
        self.ev = None; self.forks = 0; self.tags = {}
    def fork(self):
        s = State.__new__(State)
        s.mem = dict(self.mem); self.own = set(); s.own = set()
        s.cons = dict(self.cons); s.freed = self.freed; s.nonnull = self.nonnull; s.isnull = self.isnull
        s.slen = dict(self.slen); s.ev = self.ev; s.forks = self.forks; s.tags = dict(self.tags)
        return s
    def cells(self, o):
        c = self.mem.get(o)
        return c if c is not None else {}
    def wcells(self, o):
        c = self.mem.get(o)
        if c is None:
            c = {}; self.mem[o] = c; self.own.add(o)
        elif o not in self.own:
            c = dict(c); self.mem[o] = c; self.own.add(o)
        return c
    def event(self, *e):
        self.ev = (self.ev, e)
    def events(self):
        l = []; e = self.ev
        while e is not None:
            l.append(e[1]); e = e[0]
        l.reverse()
        return unfold(l)
    # ------------------------------------------------------------ facts
    def atom_set(self, aid):
        a = ATOMS[aid]
        s = ((a.lo, a.hi),)
        k = a.key
        if k[0] == 'bits':
            L, lo, ln = k[1], k[2], k[3]
            l, h = self.rng(L)
            if l >= 0 and h < (1 << (lo + ln)):
                s = inter(s, ((l >> lo, h >> lo),))
        c = self.cons.get(((aid, 1),))
        return inter(s, c) if c is not None else s
    def rset(self, v, deep=True):
        if isinstance(v, int): return ((v, v),)
        t = v.t
        if len(t) == 1:
            s = self.atom_set(t[0][0])
            return shift(mulset(s, t[0][1]) if t[0][1] != 1 else s, v.k)
        lo = hi = 0
        for a, c in t:
            s = self.atom_set(a)
            if not s: return ()
            l, h = s[0][0], s[-1][1]
            if c > 0: lo += l * c; hi += h * c
            else: lo += h * c; hi += l * c
        s = ((max(lo, -INF), min(hi, INF)),)
        d, f = direction(t)
        c = self.cons.get(d)
        if c is not None: s = inter(s, mulset(c, f) if f != 1 else c)
        if deep and self.cons:
            for d2, c2 in self.cons.items():
                if len(d2) < 2 or d2 == d: continue
                # eliminate the first common atom
                dd = dict(t)
                com = [(a, c) for a, c in d2 if a in dd]
                if not com: continue
                for a, c in com[:2]:
                    if dd[a] % c: continue
                    q = dd[a] // c
                    r = sub(Lin(t, 0), scale(Lin(d2, 0), q))
                    if not isinstance(r, int) and len(r.t) > len(t): continue
                    rs = self.rset(r, False)
                    if not rs: return ()
                    cs = mulset(c2, q)
                    s = inter(s, ((max(-INF, rs[0][0] + cs[0][0]), min(INF, rs[-1][1] + cs[-1][1])),))
                    break
        return shift(s, v.k)
    def rng(self, v):
        s = self.rset(v)
        if not s: return (0, 0)
        return s[0][0], s[-1][1]
    def assume(self, v, S):
        """restrict v to S; False if infeasible"""
        if isinstance(v, int):
            return any(lo <= v <= hi for lo, hi in S)
        d, f = direction(v.t)
        s = divset(shift(S, -v.k), f)
        c = self.cons.get(d)
        if c is not None: s = inter(s, c)
        if len(d) == 1:
            s = inter(s, self.atom_set(d[0][0]))
        else:
            s = inter(s, self.rset(Lin(d, 0)))
        if not s: return False
        self.cons[d] = s
        if len(d) == 1:
            k = ATOMS[d[0][0]].key
            if k[0] == 'bits' and len(s) == 1:
                L, lo, ln = k[1], k[2], k[3]
                l, h = self.rng(L)
                if l >= 0 and h < (1 << (lo + ln)):
                    return self.assume(L, ((s[0][0] << lo, ((s[0][1] + 1) << lo) - 1),))
            if k[0] == 'sx' and k[2] >= 8:
                pass
        elif len(d) == 2 and all(abs(c) == 1 for _, c in d):
            # propagate bounds to each atom (x - y in s)
            for (a, c), (b, e) in ((d[0], d[1]), (d[1], d[0])):
                bs = self.atom_set(b)
                if not bs: return False
                bl, bh = bs[0][0] * e, bs[-1][1] * e
                if bl > bh: bl, bh = bh, bl
                lo, hi = s[0][0] - bh, s[-1][1] - bl
                if c < 0: lo, hi = -hi, -lo
                at = ((a, 1),)
                old = self.atom_set(a)
                new = inter(old, ((lo, hi),)) if lo <= hi else ()
                if not new: return False
                if new != old: self.cons[at] = new
        return True

# ------------------------------------------------------------------ bit slices
def pow2(n): return n > 0 and n & (n - 1) == 0

def bits(st, v, lo, ln):
    """unsigned value of bits lo..lo+ln-1 of the two's complement of v"""
    if isinstance(v, int):
        return (v >> lo) & ((1 << ln) - 1)
    M = 1 << (lo + ln)
    l, h = st.rng(v)
    if l >= 0 and h < M:
        if lo == 0: return v
        if h < (1 << lo): return 0
    # simplify modulo 2^(lo+ln)
    k = v.k % M
    d = {}
    extra = 0
    for a, c in v.t:
        c2 = c % M
        if c2 == 0: continue
        if c2 > M // 2: c2 -= M
        key = ATOMS[a].key
        if key[0] == 'sx' and c2 == 1 and key[2] >= lo + ln:
            # congruent to its argument modulo 2^w
            arg = key[1]
            if isinstance(arg, int): extra += arg
            else:
                for b, e in arg.t: d[b] = d.get(b, 0) + e
                extra += arg.k
            continue
        if key[0] == 'bits' and key[2] == 0 and key[3] >= lo + ln and c2 % M in (1, M - 1):
            arg = scale(key[1], c2)
            if isinstance(arg, int): extra += arg
            else:
                for b, e in arg.t: d[b] = d.get(b, 0) + e
                extra += arg.k
            continue
        d[a] = d.get(a, 0) + c2
    k = (k + extra) % M
    for a in list(d):
        d[a] %= M
        if d[a] > M // 2: d[a] -= M
    w = mk(d, k)
    if isinstance(w, int): return (w >> lo) & ((1 << ln) - 1)
    if w != v:
        l, h = st.rng(w)
        if l >= 0 and h < M and lo == 0: return w
        l2, h2 = st.rng(add(w, -M)) if w.k else (0, 0)
    if len(w.t) == 1 and w.k == 0 and w.t[0][1] == 1:
        key = ATOMS[w.t[0][0]].key
        if key[0] == 'bits':
            L, l0, n0 = key[1], key[2], key[3]
            if lo >= n0: return 0
            return bits(st, L, l0 + lo, min(ln, n0 - lo))
        if key[0] == 'ashr' and isinstance(key[2], int): return bits(st, key[1], lo + key[2], ln)
    if lo > 0:
        B = 1 << lo
        hi_t = {}; lo_t = {}
        for a, c in w.t:
            if c // B: hi_t[a] = c // B
            if c % B: lo_t[a] = c % B
        low = mk(lo_t, w.k % B)
        l, h = st.rng(low)
        if l >= 0 and h < B and (hi_t or w.k // B):
            return bits(st, mk(hi_t, w.k // B), 0, ln)
    # small symmetric form of constant for canonical naming
    kk = terms(w)[1]
    if kk > M // 2: w = add(w, -M)
    # bits the value can never have (by its terms' own ranges, not by path facts)
    il = ih = w.k
    for x, c in w.t:
        al, ah = ATOMS[x].lo, ATOMS[x].hi
        il += c * (al if c > 0 else ah); ih += c * (ah if c > 0 else al)
    if il >= 0 and ih < INF and ih.bit_length() < lo + ln:
        ln = ih.bit_length() - lo
        if ln <= 0: return 0
    a = atom(('bits', w, lo, ln), 0, (1 << ln) - 1, "bits(%r,%d,%d)" % (w, lo, ln))
    return lin_atom(a)

def signed_view(st, u, w):
    """signed reading of an unsigned w-bit value u (0..2^w-1)"""
    if isinstance(u, int):
        return u - (1 << w) if u >= 1 << (w - 1) else u
    l, h = st.rng(u)
    if h < 1 << (w - 1): return u
    if l >= 1 << (w - 1): return add(u, -(1 << w))
    # congruent argument
    arg = u
    if len(u.t) == 1 and u.k == 0 and u.t[0][1] == 1:
        key = ATOMS[u.t[0][0]].key
        if key[0] == 'bits' and key[2] == 0 and key[3] == w: arg = key[1]
        if not isinstance(arg, int):
            l, h = st.rng(arg)
            if -(1 << (w - 1)) <= l and h < 1 << (w - 1): return arg
    a = atom(('sx', arg, w), -(1 << (w - 1)), (1 << (w - 1)) - 1, "sx%d(%r)" % (w, arg))
    return lin_atom(a)

def wrap(st, v, w):
    """canonical signed value of v modulo 2^w"""
    if isinstance(v, int):
        v &= (1 << w) - 1
        return v - (1 << w) if v >= 1 << (w - 1) else v
    l, h = st.rng(v)
    if l >= -(1 << (w - 1)) and h < 1 << (w - 1): return v
    return signed_view(st, bits(st, v, 0, w), w)

def unsigned_view(st, v, w):
    if isinstance(v, int): return v & ((1 << w) - 1)
    l, h = st.rng(v)
    if l >= 0: return v
    if h < 0 and l >= -(1 << w): return add(v, 1 << w)
    return bits(st, v, 0, w)

def opaque(name, args, lo, hi):
    return lin_atom(atom((name,) + tuple(args), lo, hi, "%s(%s)" % (name, ",".join(map(repr, args)))))

def srange(w): return -(1 << (w - 1)), (1 << (w - 1)) - 1

def and_mask(st, v, m, w):
    m &= (1 << w) - 1
    if m == 0: return 0
    l, h = st.rng(v)
    if l >= 0 and h >= 0:
        n = h.bit_length()
        m2 = m & ((1 << n) - 1)
        if m2 == (1 << n) - 1: return v
        neg = False
    else:
        m2 = m
        neg = bool(m >> (w - 1) & 1)
    if neg:
        # v minus the removed slices
        r = v
        for lo, ln in runs(~m & ((1 << w) - 1)):
            r = sub(r, scale(bits(st, v, lo, ln), 1 << lo))
        return r
    r = 0
    for lo, ln in runs(m2):
        r = add(r, scale(bits(st, v, lo, ln), 1 << lo))
    return r

def runs(m):
    i = 0; out = []
    while m >> i:
        if m >> i & 1:
            j = i
            while m >> j & 1: j += 1
            out.append((i, j - i)); i = j
        else: i += 1
    return out

class Path:
    __slots__ = ("st", "regs", "bb", "prev")
    def __init__(self, st, regs, bb, prev):
        self.st, self.regs, self.bb, self.prev = st, regs, bb, prev

class Frame:
    __slots__ = ("fn", "rets", "depth", "allocas", "site", "vargs")

_alloc_n = [0]

class LoopEv:
    """events of one generalised loop"""
    def __init__(self): self.bodies = []

def unfold(l):
    """what happens in some round of a generalised loop counts as happening"""
    if not any(e[0] == 'loop' and e[1].bodies for e in l): return l
    out = []
    for e in l:
        out.append(e)
        if e[0] == 'loop':
            for b in e[1].bodies: out += unfold(b)
    return out

class Interp:
    MAXSTEPS = 4000000
    def __init__(self, mod, cfg=None):
        self.mod = mod
        self.models = {}
        self.hooks = {}
        self.globmode = 'havoc'         # mutable globals: 'havoc' or 'init'
        self.exits = []
        self.steps = 0
        self.maxdepth = 60
        self.maxrec = 6
        self.stack = []
        self.analysed = set()
        self.callsites = set()
        self.branches = set()
        self.loops_done = set()
        self.unroll = 2
        self.unroll_decided_for = None
        self.unroll_decided = 2   # iterations with forks inside while the loop condition itself is decided
        self.unroll_max = 5000
        self.max_parts = 24
        self.lazy_null = True
        self.unknown_calls = {}
        self.partition = True   # follow what moves differently on its own first
        self.thresholds = False # try the constants a loop compares with as bounds of what it changes
        self.forget = None      # objects whose contents are not tracked
        self.on_load = None; self.on_store = None; self.on_div = None; self.on_shift = None
        self.track_deref = True
        from . import libc
        libc.install(self)
    # -------------------------------------------------------------- objects
    def gobj(self, g):
        return dom.new_obj(g.base, 'global', g.size, 'const' if (g.const or self.globmode == 'init') else 'havoc', g, key=('g', id(self.mod), g.name))
    def fobj(self, f):
        return dom.new_obj(f.base, 'func', 0, 'undef', f, key=('f', id(self.mod), f.name))
    def gptr(self, base):
        g = self.mod.gv(base)
        if g is None: raise AnalysisError("global not found: " + base)
        return Ptr(self.gobj(g).id, 0)
    def alloc(self, name, kind, size, init):
        _alloc_n[0] += 1
        return dom.new_obj(name, kind, size, init)
    # -------------------------------------------------------------- constants
    def conv(self, st, c):
        if isinstance(c, int): return c
        if isinstance(c, Null): return NULL
        if isinstance(c, Undef): return UNDEF
        if isinstance(c, GlobalRef): return Ptr(self.gobj(c.g).id, 0)
        if isinstance(c, FuncRef): return Ptr(self.fobj(c.f).id, 0)
        if isinstance(c, FloatC): return Flt(('c', c.v))
        if isinstance(c, CExpr):
            if c.op == 'gep':
                ops, (off, scales) = c.args
                b = self.conv(st, ops[0])
                o = add(b.off, off)
                for v, s in zip(ops[1:], scales): o = add(o, scale(self.conv(st, v), s))
                return Ptr(b.o, o)
            if c.op in ('inttoptr', 'bitcast'):
                v = self.conv(st, c.args[0])
                return v if isinstance(v, Ptr) else Ptr(None, v)
            if c.op == 'ptrtoint':
                v = self.conv(st, c.args[0])
                return self.p2i(v)
            return UNDEF
        if isinstance(c, Zero): return AggV({})
        if isinstance(c, Agg): return AggV({})
        return UNDEF
    def p2i(self, v):
        if isinstance(v, Ptr):
            if v.o is None: return v.off
            a = atom(('addr', v.o), 1, (1 << 47), "addr(%s)" % OBJS[v.o].name)
            return add(lin_atom(a), v.off)
        return v
    def i2p(self, v):
        if isinstance(v, Ptr): return v
        if isinstance(v, int): return Ptr(None, v)
        if isinstance(v, Lin):
            base = None
            for a, c in v.t:
                if c == 1 and ATOMS[a].key[0] == 'addr':
                    base = a; break
            if base is not None:
                return Ptr(ATOMS[base].key[1], sub(v, lin_atom(ATOMS[base])))
            return Ptr(None, v)
        return Ptr(None, 0) if v is UNDEF else v
    # -------------------------------------------------------------- memory
    def fits(self, size, ty):
        return True
    def default_value(self, st, obj, off, ty, what="init"):
        size = ty.size
        c = st.cells(obj.id)
        D = c.get('D')
        if D is not None:
            for lo, hi, b in reversed(D):
                if isinstance(off, int) and lo <= off and (hi is None or off + size <= hi):
                    if b is None: return self.havoc(ty, obj.name)
                    if b == 0: return NULL if ty.kind == 'p' else 0
                    return wrap(st, int.from_bytes(bytes([b & 255]) * size, 'little'), size * 8)
        ini = obj.init
        if ini == 'zero':
            return NULL if ty.kind == 'p' else (Flt(('c', 0.0)) if ty.kind == 'f' else 0)
        if ini == 'const' and isinstance(off, int):
            g = obj.ref
            if g is not None and not g.decl:
                cells = g.cells()
                e = cells.get(off)
                if e is not None and e[0] == size:
                    return self.conv(st, e[1])
                if e is None and not any((off + j) in cells for j in range(-7, size)):
                    return NULL if ty.kind == 'p' else 0
                # piecewise
                val = 0
                ok = True
                for j in range(size):
                    b = None
                    for k in range(0, 8):
                        e = cells.get(off + j - k)
                        if e is not None and e[0] > k:
                            if isinstance(e[1], int): b = (e[1] >> (8 * k)) & 255
                            else: ok = False
                            break
                    val |= (b or 0) << (8 * j)
                if ok: return wrap(st, val, size * 8)
        if ini == 'undef': return UNDEF
        return self.lazy(st, obj, off, ty)
    def lazy(self, st, obj, off, ty):
        if ty.kind == 'p':
            o = dom.new_obj("%s.%s" % (obj.name, off), 'lazy', None, 'havoc', None, key=('lazy', obj.id, off))
            if not self.lazy_null: st.nonnull = st.nonnull | {o.id}
            return Ptr(o.id, 0)
        if ty.kind == 'f': return Flt(('init', obj.id, off))
        if ty.kind == 's': return AggV({})
        lo, hi = srange(ty.size * 8)
        if ty.bits == 1: lo, hi = 0, 1
        return lin_atom(atom(('init', obj.id, off, ty.size), lo, hi, "%s[%s]" % (obj.name, off)))
    def load(self, st, p, ty, inst=None):
        if not isinstance(p, Ptr):
            st.event('wild-load', self.where(inst)); return self.havoc(ty, "wild")
        if p.o is None:
            st.event('nullderef', self.where(inst), 'load'); return self.havoc(ty, "nullread")
        obj = OBJS[p.o]
        self.check_access(st, p, ty.size, inst, 'load')
        cells = st.mem.get(p.o)
        off = p.off
        size = ty.size
        if ty.kind == 's':
            return AggV({'agg': (p.o, off)})
        if self.forget and self.forget(obj): return self.havoc(ty, obj.name)
        if cells:
            e = cells.get(off)
            if e is not None and e[0] == size:
                return self.cast(st, e[1], ty)
            v = self.partial(st, cells, off, size, ty)
            if v is not None: return v
        if isinstance(off, int) or obj.init in ('zero',) and not cells:
            v = self.default_value(st, obj, off, ty)
            if isinstance(v, (Lin, Ptr)) and obj.init == 'havoc':
                st.wcells(p.o)[off] = (size, v)
            return self.cast(st, v, ty)
        # symbolic offset, nothing known: memoise an opaque value
        if obj.init == 'const' and obj.ref is not None and obj.ref.const:
            v = opaque('tbl', (obj.name, off, size), *srange(size * 8)) if ty.kind != 'p' else self.lazy(st, obj, off, ty)
            return v
        D = cells.get('D') if cells else None
        if D and len(D) == 1 and D[0][0] == 0 and D[0][1] is None and D[0][2] is not None and D[0][2] == 0:
            # the whole object was filled and no other cell can overlap
            def apart(k):
                return not inter(st.rset(sub(k, off)), ((1 - cells[k][0], size - 1),))
            if all(k == 'D' or apart(k) for k in cells): return NULL if ty.kind == 'p' else 0
        v = self.lazy(st, obj, off, ty) if ty.kind != 'i' else fresh("%s[%r]" % (obj.name, off), size * 8)
        st.wcells(p.o)[off] = (size, v)
        return v
    def partial(self, st, cells, off, size, ty):
        """value assembled from overlapping cells, a fresh one if unclear, None if untouched"""
        if not isinstance(off, int):
            return None
        for k in cells:
            if isinstance(k, Lin):
                if inter(st.rset(sub(k, off)), ((1 - cells[k][0], size - 1),)):
                    v = self.havoc(ty, "alias")
                    return v
        hit = False
        for b in range(off - 15, off + size):
            e = cells.get(b)
            if e is not None and b + e[0] > off and isinstance(b, int):
                hit = True
                if b <= off and b + e[0] >= off + size and ty.kind == 'i' and isinstance(e[1], (int, Lin)):
                    return signed_view(st, bits(st, e[1], 8 * (off - b), 8 * size), 8 * size)
        if not hit: return None
        # assemble from whole sub-cells and defaults
        val = 0; b = off
        while b < off + size:
            e = cells.get(b)
            if e is None or not isinstance(e[1], (int, Lin)) or b + e[0] > off + size:
                return self.havoc(ty, "overlap")
            val = add(val, scale(unsigned_view(st, e[1], e[0] * 8), 1 << (8 * (b - off))))
            b += e[0]
        if ty.kind != 'i': return self.havoc(ty, "overlap")
        return wrap(st, val, size * 8)
    def cast(self, st, v, ty):
        if ty.kind == 'p' and not isinstance(v, Ptr):
            return self.i2p(v) if v is not UNDEF else v
        if ty.kind == 'i' and isinstance(v, Ptr):
            return self.p2i(v)
        return v
    def havoc(self, ty, name):
        if ty.kind == 'p':
            o = dom.new_obj("?" + name, 'lazy', None, 'havoc')
            return Ptr(o.id, 0)
        if ty.kind == 'f': return Flt(('fresh', id(object())))
        if ty.kind == 'v': return None
        if ty.kind == 's': return AggV({})
        if ty.bits == 1: return fresh(name, 32, 0, 1)
        return fresh(name, ty.size * 8)
    def store(self, st, p, v, ty, inst=None):
        if not isinstance(p, Ptr):
            st.event('wild-store', self.where(inst)); return
        if p.o is None:
            st.event('nullderef', self.where(inst), 'store'); return
        self.check_access(st, p, ty.size, inst, 'store')
        if self.on_store: self.on_store(self, st, p, v, ty, inst)
        if ty.kind == 's': 
            self.clear(st, p, ty.size)
            if isinstance(v, AggV):
                off = 0
                for k in sorted(x for x in v.d if isinstance(x, int)):
                    pass
            return
        cut = [k for k, n in st.slen.items() if k[0] == p.o and st.rng(sub(p.off, k[1]))[0] >= 0 and st.rng(sub(add(k[1], n), p.off))[0] >= 0] if v == 0 and ty.size == 1 and isinstance(v, int) else ()
        self.kill(st, p, ty.size)
        c = st.wcells(p.o)
        if self.forget and self.forget(OBJS[p.o]):
            c['D'] = ((0, None, None),); return
        c[p.off] = (ty.size, v)
        for k in cut:
            # the text ends here now
            st.slen[k] = sub(p.off, k[1]); st.tags.pop(('txt',) + k, None)
        if ty.size == 1 and isinstance(v, int): self.extend_open(st, p, v)
    def extend_open(self, st, p, v):
        """the byte v is written at the end of a text without terminator"""
        for k in [k for k in st.tags if k[0] == 'open' and k[1] == p.o]:
            n, segs = st.tags[k]
            if add(k[2], n) != p.off: continue
            if v == 0: st.slen[k[1:]] = n; st.tags[('txt',) + k[1:]] = segs
            else: st.tags[k] = (add(n, 1), segs + (('lit', chr(v & 255)),))
    def kill(self, st, p, size, keep_len=False):
        """forget cells overlapping [off, off+size)"""
        c = st.wcells(p.o)
        off = p.off
        if isinstance(off, int) and isinstance(size, int):
            if size <= 16:
                for b in range(off - 15, off + size):
                    e = c.get(b)
                    if e is not None and b + e[0] > off and b != 'D':
                        if b != off or e[0] != size: del c[b]
            else:
                for b in [b for b in c if isinstance(b, int) and b + c[b][0] > off and b < off + size]: del c[b]
            for b in [b for b in c if isinstance(b, Lin)]:
                if inter(st.rset(sub(b, off)), ((1 - c[b][0], size - 1),)):
                    del c[b]; self.unsure(p.o, c)
        else:
            smax = size if isinstance(size, int) else st.rng(size)[1]
            dead = []
            for b in c:
                if b == 'D': continue
                if b != off and inter(st.rset(sub(b, off)), ((1 - c[b][0], smax - 1),)): dead.append(b)
            for b in dead: del c[b]
            if dead: self.unsure(p.o, c)
            # unknown position: defaults are no longer known either
            if OBJS[p.o].init != 'havoc' or 'D' in c:
                c['D'] = c.get('D', ()) + ((0, None, None),) if False else c.get('D', ())
        for k in [k for k in st.slen if k[0] == p.o]:
            # texts behind the bytes written, or with their end in front of them, stay
            if st.rng(sub(k[1], add(p.off, size)))[0] >= 0: continue
            if st.rng(sub(p.off, add(k[1], st.slen[k])))[0] >= 1: continue
            del st.slen[k]
        for k in [k for k in st.tags if k[0] == 'open' and k[1] == p.o]:
            # bytes in front of the ones written stay
            if st.rng(sub(p.off, add(k[2], st.tags[k][0])))[0] < 0: del st.tags[k]
    def unsure(self, o, c):
        """something at an unknown position was overwritten: contents not tracked by a cell are unknown"""
        if OBJS[o].init != 'havoc' or 'D' in c: c['D'] = ((0, None, None),)
    def clear(self, st, p, size):
        self.kill(st, p, size)
        c = st.wcells(p.o)
        if isinstance(p.off, int) and isinstance(size, int) and p.off in c: del c[p.off]
    def fill(self, st, p, byte, size):
        """memset"""
        c = st.wcells(p.o)
        self.kill(st, p, size)
        if isinstance(p.off, int) and p.off in c: del c[p.off]
        obj = OBJS[p.o]
        b = byte & 255 if isinstance(byte, int) else None
        D = c.get('D', ())
        if isinstance(p.off, int):
            hi = add(size, p.off)
            whole = (size == obj.size and p.off == 0)
            if whole: c['D'] = ((0, None, b),)
            elif isinstance(hi, int): c['D'] = D + ((p.off, hi, b),)
            if b == 0 and isinstance(p.off, int): st.slen[(p.o, p.off)] = 0
    def check_access(self, st, p, size, inst, what):
        o = p.o
        if o in st.freed:
            st.event('uaf', self.where(inst), what, OBJS[o].name)
        if o in st.isnull:
            st.event('nullderef', self.where(inst), what)
        if self.on_load and what == 'load': self.on_load(self, st, p, size, inst)
        if self.on_access: self.on_access(self, st, p, size, inst, what)
    on_access = None
    def where(self, inst):
        if inst is None: return "?"
        return "%s:%s (%s)" % (inst.file, inst.line, inst.fnc.base)
    # -------------------------------------------------------------- comparisons
    def cmp(self, st, pred, a, b, ty):
        """-> list of (state, 0/1)"""
        if a is UNDEF or b is UNDEF or a is None or b is None:
            return self.both(st)
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            return self.cmp_ptr(st, pred, a, b)
        w = ty.bits
        if pred in ('eq', 'ne', 'slt', 'sle', 'sgt', 'sge') :
            if w == 1 and pred not in ('eq', 'ne'): return self.both(st)
            d = sub(a, b)
        else:
            ra, rb = st.rng(a), st.rng(b)
            if ra[0] >= 0 and rb[0] >= 0:
                pred = 's' + pred[1:]
                d = sub(a, b)
            elif isinstance(b, int):
                return self.cmp_uconst(st, pred, a, b, w)
            elif isinstance(a, int):
                sw = {'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule'}[pred]
                return self.cmp_uconst(st, sw, b, a, w)
            else:
                return self.both(st)
        S = {'eq': ((0, 0),), 'ne': ((-INF, -1), (1, INF)), 'slt': ((-INF, -1),), 'sle': ((-INF, 0),),
             'sgt': ((1, INF),), 'sge': ((0, INF),)}[pred]
        if isinstance(d, int):
            return [(st, 1 if any(l <= d <= h for l, h in S) else 0)]
        # recognise  c*(L - bits(L,0,k)) (==|!=) 0
        if pred in ('eq', 'ne') and d.k == 0 or pred in ('eq', 'ne'):
            r = self.mask_test(st, d)
            if r is not None:
                L, T = r
                if pred == 'ne': T = compl(T)
                return self.split(st, L, T)
        return self.split(st, d, S)
    def mask_test(self, st, d):
        for a, c in d.t:
            key = ATOMS[a].key
            if key[0] == 'bits' and key[2] == 0 and abs(c) == 1:
                L, _, ln = key[1], key[2], key[3]
                rest = sub(d, Lin(((a, c),), 0))
                if rest == scale(L, -c):
                    return L, ((0, (1 << ln) - 1),)
            elif key[0] == 'sx' and abs(c) == 1:
                # v against v cut to w bits
                L = scale(sub(d, Lin(((a, c),), 0)), -c)
                k = sub(L, key[1])
                if isinstance(k, int) and k % (1 << key[2]) == 0 and not isinstance(L, int): return L, (srange(key[2]),)
        return None
    def cmp_uconst(self, st, pred, a, C, w):
        C &= (1 << w) - 1
        M = (1 << w) - 1
        if pred == 'ult': lo, hi = 0, C - 1
        elif pred == 'ule': lo, hi = 0, C
        elif pred == 'ugt': lo, hi = C + 1, M
        else: lo, hi = C, M
        S = []
        half = 1 << (w - 1)
        if lo <= min(hi, half - 1): S.append((lo, min(hi, half - 1)))
        if max(lo, half) <= hi: S.append((max(lo, half) - (1 << w), hi - (1 << w)))
        return self.split(st, a, tuple(sorted(S)))
    def split(self, st, v, S):
        R = st.rset(v)
        if not R: return []
        I = inter(R, S)
        if not I: return [(st, 0)]
        if I == R: return [(st, 1)]
        s2 = st.fork()
        out = []
        st.forks += 1; s2.forks += 1
        if st.assume(v, S): out.append((st, 1))
        if s2.assume(v, compl(S)): out.append((s2, 0))
        return out
    def both(self, st):
        s2 = st.fork()
        st.forks += 1; s2.forks += 1
        return [(st, 1), (s2, 0)]
    def nullness(self, st, p):
        """True null / False nonnull / None unknown"""
        if not isinstance(p, Ptr): return None
        if p.o is None:
            if p.off == 0: return True
            if isinstance(p.off, int): return False
            l, h = st.rng(p.off)
            if l > 0 or h < 0: return False
            return None
        if p.o in st.isnull: return True
        if p.o in st.nonnull or p.off != 0: return False
        o = OBJS[p.o]
        if o.kind in ('lazy', 'maybe'): return None
        return False
    def cmp_ptr(self, st, pred, a, b):
        a, b = self.i2p(a), self.i2p(b)
        if not isinstance(a, Ptr) or not isinstance(b, Ptr): return self.both(st)
        na, nb = self.nullness(st, a), self.nullness(st, b)
        if pred in ('eq', 'ne'):
            eq = 1 if pred == 'eq' else 0
            if a == b: return [(st, eq)]
            if na is True and nb is True: return [(st, eq)]
            if a.o is None and b.o is None:
                d = sub(a.off, b.off)
                r = self.split(st, d, ((0, 0),))
                return [(s, eq if v else 1 - eq) for s, v in r]
            if na is True or nb is True:
                x, nx = (b, nb) if na is True else (a, na)
                if nx is False: return [(st, 1 - eq)]
                if x.o is None: return self.both(st)
                s2 = st.fork(); st.forks += 1; s2.forks += 1
                st.isnull = st.isnull | {x.o}
                s2.nonnull = s2.nonnull | {x.o}
                return [(st, eq), (s2, 1 - eq)]
            if a.o == b.o:
                d = sub(a.off, b.off)
                r = self.split(st, d, ((0, 0),))
                return [(s, eq if v else 1 - eq) for s, v in r]
            if a.o is None or b.o is None:
                x = a if a.o is None else b
                if isinstance(x.off, int): return [(st, 1 - eq)] if OBJS[(b if a.o is None else a).o].kind != 'lazy' else self.both(st)
                return self.both(st)
            ka, kb = OBJS[a.o].kind, OBJS[b.o].kind
            if ka in ('lazy',) and kb in ('lazy',): return self.both(st)
            return [(st, 1 - eq)]
        if a.o == b.o and a.o is not None:
            d = sub(a.off, b.off)
            m = {'ult': ((-INF, -1),), 'ule': ((-INF, 0),), 'ugt': ((1, INF),), 'uge': ((0, INF),)}
            return self.split(st, d, m.get(pred, ((0, 0),)))
        return self.both(st)
    # -------------------------------------------------------------- arithmetic
    def binop(self, st, inst, a, b):
        op = inst.op; w = inst.ty.bits
        if inst.ty.kind == 'f' and isinstance(a, Flt) and isinstance(b, Flt) and a.t[0] == 'c' and b.t[0] == 'c':
            x, y = a.t[1], b.t[1]
            if op == 'fadd': return Flt(('c', x + y))
            if op == 'fsub': return Flt(('c', x - y))
            if op == 'fmul': return Flt(('c', x * y))
            if op == 'fdiv' and y != 0: return Flt(('c', x / y))
        if inst.ty.kind == 'f' : return Flt((op, a if not isinstance(a, Flt) else a.t, b if not isinstance(b, Flt) else b.t))
        if a is UNDEF or b is UNDEF: return UNDEF if op in ('add', 'sub') else fresh("u", max(w, 8)) 
        if isinstance(a, Ptr): a = self.p2i(a)
        if isinstance(b, Ptr): b = self.p2i(b)
        if op == 'add' or op == 'sub':
            r = add(a, b) if op == 'add' else sub(a, b)
            if w == 1: return wrap(st, r, 1) & 1 if isinstance(r, int) else bits(st, r, 0, 1)
            if inst.x[0]:
                if isinstance(r, int): return wrap(st, r, w)
                return r
            return wrap(st, r, w)
        if op == 'mul':
            if isinstance(a, int) or isinstance(b, int):
                r = scale(b, a) if isinstance(a, int) else scale(a, b)
                return r if inst.x[0] and not isinstance(r, int) else wrap(st, r, w)
            (la, ha), (lb, hb) = st.rng(a), st.rng(b)
            c = [la * lb, la * hb, ha * lb, ha * hb]
            lo, hi = min(c), max(c)
            s = srange(w)
            if lo < s[0] or hi > s[1]:
                lo, hi = (max(lo, s[0]), min(hi, s[1])) if inst.x[0] else s
            x, y = sorted((a, b), key=repr)
            return opaque('mul', (x, y), lo, hi)
        if op in ('sdiv', 'srem', 'udiv', 'urem'):
            if self.on_div: self.on_div(self, st, a, b, inst)
            if isinstance(a, int) and isinstance(b, int) and b != 0:
                if op[0] == 'u':
                    a &= (1 << w) - 1; b &= (1 << w) - 1
                    return wrap(st, a // b if op == 'udiv' else a % b, w)
                q = abs(a) // abs(b)
                if (a < 0) != (b < 0): q = -q
                return wrap(st, q if op == 'sdiv' else a - b * q, w)
            la, ha = st.rng(a)
            if isinstance(b, int) and pow2(b) and (la >= 0 or op[0] == 'u'):
                ua = unsigned_view(st, a, w)
                k = b.bit_length() - 1
                if op in ('srem', 'urem'): return bits(st, ua, 0, k) if k else 0
                return bits(st, ua, k, w - k) if k else a
            lo, hi = srange(w)
            if op in ('srem', 'urem'):
                lb, hb = st.rng(b)
                if op == 'urem' or la >= 0: lo = 0
                if op == 'urem' and la < 0: pass
                m = max(abs(lb), abs(hb)) - 1
                if op == 'srem' or lb > 0: hi = min(hi, m); lo = max(lo, -m if la < 0 and op == 'srem' else 0)
            elif la >= 0:
                lb, hb = st.rng(b)
                if lb >= 1: lo, hi = 0, ha
            return opaque(op, (a, b, w), lo, hi)
        if op == 'shl':
            if self.on_shift: self.on_shift(self, st, a, b, inst)
            if isinstance(b, int):
                # an excessive constant shift is reported through on_shift; the value is that of the hardware
                return wrap(st, scale(a, 1 << (b & (w - 1))), w)
            return opaque('shl', (a, b, w), *srange(w))
        if op in ('lshr', 'ashr'):
            if self.on_shift: self.on_shift(self, st, a, b, inst)
            if isinstance(b, int) and 0 <= b < w:
                if b == 0: return a
                la, ha = st.rng(a)
                if op == 'lshr' or la >= 0:
                    return bits(st, unsigned_view(st, a, w), b, w - b)
                if isinstance(a, int): return a >> b
                return opaque('ashr', (a, b), la >> b, ha >> b)
            if isinstance(b, int) and isinstance(a, int):
                return wrap(st, (a if op == 'ashr' else a & ((1 << w) - 1)) >> (b & (w - 1)), w)
            if isinstance(b, int): return fresh("poison", w)
            lo, hi = srange(w)
            la, ha = st.rng(a)
            if la >= 0: lo, hi = 0, ha
            return opaque(op, (a, b, w), lo, hi)
        if op == 'and':
            if isinstance(a, int) and isinstance(b, int): return a & b
            if isinstance(a, int): a, b = b, a
            if isinstance(b, int): return and_mask(st, a, b, w) if w > 1 else (a if b & 1 else 0)
            if a == b: return a
            la, ha = st.rng(a); lb, hb = st.rng(b)
            lo, hi = srange(w) if w > 1 else (0, 1)
            if la >= 0 or lb >= 0:
                lo = 0; hi = min(x for x in (ha if la >= 0 else None, hb if lb >= 0 else None) if x is not None)
            x, y = sorted((a, b), key=repr)
            return opaque('and', (x, y), lo, hi)
        if op == 'or':
            if isinstance(a, int) and isinstance(b, int): return a | b
            if a == 0: return b
            if b == 0: return a
            if a == b: return a
            for x, y in ((a, b), (b, a)):
                lx, hx = st.rng(x); ly, hy = st.rng(y)
                if lx >= 0 and ly >= 0:
                    # y a multiple of 2^n with x < 2^n
                    tz = 60
                    t, k = terms(y)
                    for _, c in t: tz = min(tz, (c & -c).bit_length() - 1)
                    if k: tz = min(tz, (k & -k).bit_length() - 1)
                    if hx < (1 << tz): return add(a, b)
            la, ha = st.rng(a); lb, hb = st.rng(b)
            lo, hi = srange(w) if w > 1 else (0, 1)
            if la >= 0 and lb >= 0:
                lo, hi = max(la, lb), (1 << max(ha.bit_length(), hb.bit_length())) - 1
            x, y = sorted((a, b), key=repr)
            return opaque('or', (x, y), lo, hi)
        if op == 'xor':
            if isinstance(a, int) and isinstance(b, int): return (a ^ b) if w > 1 else (a ^ b) & 1
            if isinstance(a, int): a, b = b, a
            if w == 1 and b == 1: return sub(1, a)
            if b == -1: return sub(-1, a)
            if b == 0: return a
            if a == b: return 0
            la, ha = st.rng(a); lb, hb = st.rng(b)
            lo, hi = srange(w) if w > 1 else (0, 1)
            if la >= 0 and lb >= 0: lo, hi = 0, (1 << max(ha.bit_length(), hb.bit_length())) - 1
            x, y = sorted((a, b), key=repr)
            return opaque('xor', (x, y), lo, hi)
        return fresh(op, w)
    # -------------------------------------------------------------- functions
    def call(self, fn, args, st, inst=None):
        """analyse a call of fn; -> list of (state, return value)"""
        base = fn.base
        self.callsites.add((inst.file, inst.line, base) if inst is not None else ("entry", 0, base))
        h = self.hooks.get(base)
        if h is not None: h(self, st, args, inst)
        m = self.models.get(base) or self.models.get(fn.name)
        if m is not None:
            r = m(self, st, args, inst)
            if isinstance(r, list): return r
            return [(st, r)]
        if fn.decl:
            return self.unknown(fn, args, st, inst)
        return self.exec(fn, args, st, inst)
    def unknown(self, fn, args, st, inst):
        self.unknown_calls[fn.name] = self.unknown_calls.get(fn.name, 0) + 1
        st.event('extern', fn.base, self.where(inst))
        return [(st, self.havoc(inst.ty, "ret_" + fn.base) if inst is not None else None)]
    def exec(self, fn, args, st, inst=None):
        if len(self.stack) > self.maxdepth:
            raise AnalysisError("call depth exceeded in " + fn.base + " stack " + ">".join(f.base for f in self.stack[-8:]))
        if self.stack.count(fn) >= self.maxrec:
            raise AnalysisError("unbounded recursion in %s (%s)" % (fn.base, ">".join(f.base for f in self.stack[-8:])))
        self.analysed.add(fn.name)
        self.stack.append(fn)
        fr = Frame(); fr.fn = fn; fr.rets = []; fr.allocas = []
        fr.vargs = args[fn.nparams:]
        blocks = fn.blocks
        regs = {}
        for i, a in zip(fn.argids, args): regs[i] = a
        leave, arr = self.run(fr, [Path(st, regs, blocks[0], None)], None, None)
        self.stack.pop()
        outs = fr.rets
        for s, r in outs:
            for o in fr.allocas:
                if o in s.mem:
                    del s.mem[o]; s.own.discard(o)
                if s.slen:
                    for k in [k for k in s.slen if k[0] == o]: del s.slen[k]
        if len(outs) > 6: outs = self.dedupe(outs)
        return outs
    def dedupe(self, outs):
        seen = {}
        for s, r in outs:
            k = (repr(r), self.skey(s))
            if k not in seen: seen[k] = (s, r)
        return list(seen.values())
    def skey(self, s):
        m = []
        for o in sorted(s.mem):
            c = s.mem[o]
            m.append((o, frozenset((k, v) for k, v in c.items())))
        return (tuple(m), frozenset(s.cons.items()), s.freed, s.nonnull, s.isnull, frozenset(s.slen.items()), self.evkey(s), frozenset(s.tags.items()))
    def evkey(self, s):
        return tuple(repr(e) for e in s.events())
    def val(self, p, v):
        if isinstance(v, Reg): return p.regs.get(v.id, UNDEF)
        return self.conv(p.st, v)
    # run paths of a frame.  region: set of block idx or None; header: loop header idx
    def run(self, fr, work, region, header):
        leaving = []; arrivals = []
        loops = fr.fn.loops
        first = True
        entering = set(id(p) for p in work) if header is not None else ()
        while work:
            p = work.pop()
            # p.bb is about to be executed; phis are resolved on edges
            bi = p.bb.idx
            if bi in loops and not (header == bi):
                # inner (or outermost) loop entered from outside
                for q in self.do_loop(fr, p, bi):
                    if region is not None and q.bb.idx not in region: leaving.append(q)
                    elif header is not None and q.bb.idx == header: arrivals.append(q)
                    else: work.append(q)
                continue
            for q in self.block(fr, p):
                if header is not None and q.bb.idx == header: arrivals.append(q)
                elif region is not None and q.bb.idx not in region: leaving.append(q)
                else: work.append(q)
        return leaving, arrivals
    def goto(self, p, src, dst):
        """take the edge: evaluate phis of dst"""
        if dst.phis:
            new = []
            for x in dst.phis:
                new.append((x.id, self.val(p, x.x[src.idx])))
            for i, v in new: p.regs[i] = v
        p.prev = src.idx
        p.bb = dst
        return p
    def block(self, fr, p0):
        """execute p0.bb; -> paths positioned at successor blocks"""
        bb = p0.bb
        cur = [(p0, len(bb.phis))]
        out = []
        insts = bb.insts
        n = len(insts)
        while cur:
            p, i = cur.pop()
            while i < n:
                x = insts[i]
                self.steps += 1
                if self.steps > self.MAXSTEPS:
                    raise AnalysisError("step budget exceeded in " + fr.fn.base)
                op = x.op
                if op == 'load':
                    p.regs[x.id] = self.load(p.st, self.val(p, x.ops[0]), x.ty, x)
                elif op == 'store':
                    self.store(p.st, self.val(p, x.ops[1]), self.val(p, x.ops[0]), x.x, x)
                elif op == 'gep':
                    b = self.val(p, x.ops[0])
                    off, scales = x.x
                    if isinstance(b, Ptr):
                        o = add(b.off, off)
                        for v, s in zip(x.ops[1:], scales):
                            iv = self.val(p, v)
                            if iv is UNDEF: iv = fresh("undefidx", 64)
                            if isinstance(iv, Ptr): iv = self.p2i(iv)
                            o = add(o, scale(iv, s))
                        p.regs[x.id] = Ptr(b.o, o)
                    else:
                        p.regs[x.id] = UNDEF
                elif op == 'icmp':
                    r = self.cmp(p.st, x.x[0], self.val(p, x.ops[0]), self.val(p, x.ops[1]), x.x[1])
                    if len(r) == 1 and r[0][0] is p.st:
                        p.regs[x.id] = r[0][1]
                    else:
                        for s, v in r[1:]:
                            rg = dict(p.regs); rg[x.id] = v
                            cur.append((Path(s, rg, bb, p.prev), i + 1))
                        if not r: break
                        p.st = r[0][0]; p.regs[x.id] = r[0][1]
                elif op == 'br':
                    if len(x.x) == 1:
                        out.append(self.goto(p, bb, x.x[0]))
                    else:
                        self.branches.add((fr.fn.name, x.id))
                        c = self.val(p, x.ops[0])
                        for s, v in self.truth(p.st, c):
                            q = p if s is p.st else Path(s, dict(p.regs), bb, p.prev)
                            out.append(self.goto(q, bb, x.x[0] if v else x.x[1]))
                    break
                elif op == 'call':
                    r = self.do_call(fr, p, x)
                    if not r: break
                    for s, v in r[1:]:
                        rg = dict(p.regs)
                        if x.ty.kind != 'v': rg[x.id] = v
                        cur.append((Path(s, rg, bb, p.prev), i + 1))
                    p.st = r[0][0]
                    if x.ty.kind != 'v': p.regs[x.id] = r[0][1]
                elif op in ('sext', 'zext', 'trunc'):
                    v = self.val(p, x.ops[0])
                    if v is UNDEF: r = UNDEF
                    elif isinstance(v, Ptr): r = v
                    elif op == 'trunc':
                        r = bits(p.st, v, 0, 1) if x.ty.bits == 1 else wrap(p.st, v, x.ty.bits)
                    elif op == 'zext':
                        r = v if x.x.bits == 1 else unsigned_view(p.st, v, x.x.bits)
                    else:
                        r = neg(v) if x.x.bits == 1 else v
                    p.regs[x.id] = r
                elif op == 'alloca':
                    o = self.alloc("%s.%s" % (fr.fn.base, "local"), 'alloca', x.x, 'undef')
                    o.ref = x
                    fr.allocas.append(o.id)
                    p.regs[x.id] = Ptr(o.id, 0)
                elif op == 'ret':
                    fr.rets.append((p.st, self.val(p, x.ops[0]) if x.ops else None))
                    break
                elif op == 'switch':
                    self.branches.add((fr.fn.name, x.id))
                    out.extend(self.switch(p, bb, x))
                    break
                elif op == 'unreachable':
                    break
                elif op in ('add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor',
                            'fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
                    p.regs[x.id] = self.binop(p.st, x, self.val(p, x.ops[0]), self.val(p, x.ops[1]))
                elif op == 'select':
                    c = self.val(p, x.ops[0])
                    rs = self.truth(p.st, c)
                    for s, v in rs[1:]:
                        q = Path(s, dict(p.regs), bb, p.prev)
                        q.regs[x.id] = self.val(q, x.ops[1] if v else x.ops[2])
                        cur.append((q, i + 1))
                    if not rs: break
                    p.st = rs[0][0]
                    p.regs[x.id] = self.val(p, x.ops[1] if rs[0][1] else x.ops[2])
                elif op == 'ptrtoint':
                    p.regs[x.id] = self.p2i(self.val(p, x.ops[0]))
                elif op == 'inttoptr':
                    p.regs[x.id] = self.i2p(self.val(p, x.ops[0]))
                elif op in ('bitcast', 'freeze'):
                    p.regs[x.id] = self.val(p, x.ops[0])
                elif op == 'fcmp':
                    a, b = self.val(p, x.ops[0]), self.val(p, x.ops[1])
                    r = self.fcmp(p.st, x, a, b)
                    for s, v in r[1:]:
                        rg = dict(p.regs); rg[x.id] = v
                        cur.append((Path(s, rg, bb, p.prev), i + 1))
                    p.st = r[0][0]; p.regs[x.id] = r[0][1]
                elif op in ('sitofp', 'uitofp', 'fpext', 'fptrunc', 'fneg'):
                    v = self.val(p, x.ops[0])
                    p.regs[x.id] = self.tofp(op, v)
                elif op in ('fptosi', 'fptoui'):
                    v = self.val(p, x.ops[0])
                    p.regs[x.id] = self.fpto(p.st, v, x.ty)
                elif op == 'extractvalue':
                    v = self.val(p, x.ops[0])
                    p.regs[x.id] = v.d.get(x.x[0], UNDEF) if isinstance(v, AggV) else UNDEF
                    if p.regs[x.id] is UNDEF: p.regs[x.id] = self.havoc(x.ty, "xv")
                elif op == 'insertvalue':
                    v = self.val(p, x.ops[0])
                    d = dict(v.d) if isinstance(v, AggV) else {}
                    d[x.x[0]] = self.val(p, x.ops[1])
                    p.regs[x.id] = AggV(d)
                else:
                    raise AnalysisError("unsupported instruction %s at %s" % (op, self.where(x)))
                i += 1
        return out
    def tofp(self, op, v):
        if isinstance(v, int): return Flt(('c', float(v)))
        if isinstance(v, Flt):
            if op == 'fneg': return Flt(('neg', v.t))
            return v
        return Flt((op, v))
    def fpto(self, st, v, ty):
        if isinstance(v, Flt):
            if v.t[0] == 'c': return int(v.t[1])
            if v.t[0] in ('sitofp', 'uitofp'): return v.t[1]
            return opaque('fpto', (v.t,), *srange(ty.bits))
        return fresh("fp", ty.bits)
    def fcmp(self, st, x, a, b):
        if isinstance(a, Flt) and isinstance(b, Flt) and a.t[0] == 'c' and b.t[0] == 'c':
            A, B = a.t[1], b.t[1]
            k = x.x
            r = {1: A == B, 2: A > B, 3: A >= B, 4: A < B, 5: A <= B, 6: A != B, 9: A == B, 10: A > B, 11: A >= B, 12: A < B, 13: A <= B, 14: A != B}.get(k)
            if r is not None: return [(st, int(r))]
        return self.both(st)
    def truth(self, st, c):
        if isinstance(c, int): return [(st, 1 if c else 0)]
        if isinstance(c, Lin):
            r = self.split(st, c, ((0, 0),))
            return [(s, 1 - v) for s, v in r]
        return self.both(st)
    def switch(self, p, bb, x):
        v = self.val(p, x.ops[0])
        dflt, cases = x.x
        if isinstance(v, Ptr): v = self.p2i(v)
        if isinstance(v, int):
            for c, t in cases:
                if c == v: return [self.goto(p, bb, t)]
            return [self.goto(p, bb, dflt)]
        out = []
        if v is UNDEF:
            tg = {dflt.idx: dflt}
            for c, t in cases: tg[t.idx] = t
            for t in tg.values():
                s = p.st.fork(); s.forks += 1
                out.append(self.goto(Path(s, dict(p.regs), bb, p.prev), bb, t))
            return out
        # group the cases by target
        groups = {}
        S = ()
        for c, t in cases:
            groups.setdefault(t.idx, (t, []))[1].append((c, c))
            S = union(S, ((c, c),))
        R = p.st.rset(v)
        for t, l in groups.values():
            I = inter(R, union(tuple(sorted(l)), ()))
            if not I: continue
            # one path per constant so that the value is known inside the case
            for c in ([(a, a) for lo, hi in I for a in range(lo, hi + 1)] if sum(h - l_ + 1 for l_, h in I) <= 64 else [None]):
                s = p.st.fork(); s.forks += 1
                if s.assume(v, I if c is None else (c,)):
                    out.append(self.goto(Path(s, dict(p.regs), bb, p.prev), bb, t))
        rest = inter(R, compl(S))
        if rest:
            s = p.st
            if out: s.forks += 1
            if s.assume(v, compl(S)):
                out.append(self.goto(p, bb, dflt))
        return out
    def do_call(self, fr, p, x):
        c = x.x
        if isinstance(c, FuncRef):
            f = c.f
        else:
            v = self.val(p, c)
            if isinstance(v, Ptr) and v.o is not None and OBJS[v.o].kind == 'func':
                f = OBJS[v.o].ref
            elif isinstance(v, Ptr) and self.nullness(p.st, v) is True:
                p.st.event('nullderef', self.where(x), 'call')
                return []
            else:
                h = self.models.get('*indirect')
                args = [self.val(p, a) for a in x.ops]
                if h: 
                    r = h(self, p.st, [v] + args, x)
                    return r if isinstance(r, list) else [(p.st, r)]
                p.st.event('indirect', self.where(x), repr(v))
                return [(p.st, self.havoc(x.ty, "icall"))]
        n = f.name
        if n.startswith("llvm."):
            return self.intrinsic(fr, p, x, n)
        args = [self.val(p, a) for a in x.ops]
        return self.call(f, args, p.st, x)
    def intrinsic(self, fr, p, x, n):
        st = p.st
        if n.startswith(("llvm.dbg", "llvm.lifetime", "llvm.assume", "llvm.experimental", "llvm.va_end", "llvm.prefetch", "llvm.stackrestore", "llvm.donothing")):
            return [(st, None)]
        a = [self.val(p, v) for v in x.ops]
        if n.startswith("llvm.memset"):
            if isinstance(a[0], Ptr) and a[0].o is not None:
                self.check_access(st, a[0], a[2], x, 'store')
                self.fill(st, a[0], a[1], a[2])
            else: st.event('nullderef', self.where(x), 'memset')
            return [(st, None)]
        if n.startswith(("llvm.memcpy", "llvm.memmove")):
            self.memcpy(st, a[0], a[1], a[2], x)
            return [(st, None)]
        if n.startswith("llvm.va_start"):
            ap = a[0]
            reg = self.alloc("regsave", 'alloca', 48, 'undef'); ovf = self.alloc("vaovf", 'alloca', 256, 'undef')
            fr.allocas += [reg.id, ovf.id]
            np = fr.fn.nparams
            gp = 8 * np
            rc = st.wcells(reg.id); oc = st.wcells(ovf.id)
            oo = 0
            i = np
            for v in fr.vargs:
                if i < 6:
                    rc[8 * i] = (8, v)
                else:
                    oc[oo] = (8, v); oo += 8
                i += 1
            c = st.wcells(ap.o)
            c[ap.off] = (4, gp); c[add(ap.off, 4)] = (4, 48)
            c[add(ap.off, 8)] = (8, Ptr(ovf.id, 0)); c[add(ap.off, 16)] = (8, Ptr(reg.id, 0))
            return [(st, None)]
        if n.startswith("llvm.va_copy"):
            self.memcpy(st, a[0], a[1], 24, x); return [(st, None)]
        if n.startswith(("llvm.umax", "llvm.smax", "llvm.umin", "llvm.smin")):
            r = self.cmp(st, 'sgt', a[0], a[1], x.ty)
            mx = 'max' in n
            return [(s, (a[0] if v else a[1]) if mx else (a[1] if v else a[0])) for s, v in r]
        if n.startswith("llvm.abs"):
            r = self.cmp(st, 'slt', a[0], 0, x.ty)
            return [(s, neg(a[0]) if v else a[0]) for s, v in r]
        if n.startswith("llvm.trap"): return []
        return [(st, self.havoc(x.ty, n))]
    def memcpy(self, st, d, s, n, inst):
        if not (isinstance(d, Ptr) and isinstance(s, Ptr)) : return
        if d.o is None or s.o is None:
            st.event('nullderef', self.where(inst), 'memcpy'); return
        self.check_access(st, s, n, inst, 'load'); self.check_access(st, d, n, inst, 'store')
        so = OBJS[s.o]
        src = dict(st.cells(s.o))
        slen = st.slen.get((s.o, s.off))
        self.kill(st, d, n)
        c = st.wcells(d.o)
        if isinstance(n, int) and isinstance(s.off, int):
            if d.off in c: del c[d.off]
            if so.init == 'const' and so.ref is not None and not so.ref.decl:
                for o, (sz, v) in so.ref.cells().items():
                    if s.off <= o and o + sz <= s.off + n and o not in src:
                        src[o] = (sz, self.conv(st, v))
                self.fill_default(st, d, n, 0)
            elif so.init == 'zero' and 'D' not in src:
                self.fill_default(st, d, n, 0)
            elif 'D' in src:
                for lo, hi, b in src['D']:
                    if lo <= s.off and (hi is None or hi >= s.off + n): self.fill_default(st, d, n, b)
            elif so.init == 'havoc':
                # materialise lazily: word-sized havoc cells named by the source
                st.tags[('copy', d.o, d.off)] = (s.o, s.off, n)
                self.copies(st, d, s, n)
            c = st.wcells(d.o)
            for o, e in src.items():
                if o == 'D': continue
                if isinstance(o, int) and s.off <= o and o + e[0] <= s.off + n:
                    c[add(d.off, o - s.off)] = e
        else:
            if d.off in c: del c[d.off]
            for o, e in src.items():
                if o == 'D': continue
                if o == s.off: c[d.off] = e
        if slen is not None and self.read_text:
            left = sub(n, slen)
            if st.rng(left)[0] >= 1:
                st.slen[(d.o, d.off)] = slen
                t = st.tags.get(('txt', s.o, s.off))
                if t is not None: st.tags[('txt', d.o, d.off)] = t
                else: st.tags.pop(('txt', d.o, d.off), None)
            elif left == 0: self.open_text(st, d, n, self.read_text(self, st, s))
        elif isinstance(n, int) and self.read_text and 0 < n < 4096:
            # a piece of a literal
            t = self.read_const(self, st, s)
            if t is not None and len(t) == n: self.open_text(st, d, n, (('lit', t),))
    read_text = None
    def open_text(self, st, d, n, segs):
        for k in [k for k in st.tags if k[0] == 'open' and k[1] == d.o]:
            m, before = st.tags[k]
            if add(k[2], m) == d.off:
                st.tags[k] = (add(m, n), before + segs); return
        st.tags[('open', d.o, d.off)] = (n, segs)
    def copies(self, st, d, s, n):
        pass
    def fill_default(self, st, d, n, b):
        c = st.wcells(d.o)
        if isinstance(d.off, int): c['D'] = c.get('D', ()) + ((d.off, d.off + n, b),)
    # -------------------------------------------------------------- loops
    def do_loop(self, fr, p, header):
        body = fr.fn.loops[header]
        self.loops_done.add((fr.fn.name, header))
        leaving = []
        work = [(p, 0, (0, 0), None)]       # path, iterations, undecided iterations, snapshot of previous header state
        parts = 0
        while work:
            q, it, und, prev = work.pop()
            if und[0] >= self.unroll or und[1] >= (self.unroll_decided_for(fr.fn) if self.unroll_decided_for else self.unroll_decided) or it > self.unroll_max:
                lv, extra = self.widen(fr, q, prev, header, body)
                leaving.extend(lv)
                for e in extra:
                    parts += 1
                    if parts > self.max_parts:
                        raise AnalysisError("loop in %s does not stabilise (block %s)" % (fr.fn.base, fr.fn.blocks[header].name))
                    work.append((e, 0, (0, 0), None))
                continue
            snap = Path(q.st.fork(), dict(q.regs), q.bb, q.prev)
            f0 = q.st.forks
            lv, arr = self.run(fr, [q], body, header)
            leaving.extend(lv)
            if len(arr) > 1: arr = self.dedupe_paths(arr)
            for a in arr:
                u = und
                if a.st.forks > f0: u = (und[0] + (1 if any(x.bb.insts[-1].op != 'unreachable' for x in lv) else 0), und[1] + 1)
                work.append((a, it + 1, u, snap))
        if len(leaving) > 8: leaving = self.dedupe_paths(leaving)
        return leaving
    def dedupe_paths(self, ps):
        seen = {}
        for p in ps:
            k = (p.bb.idx, self.skey(p.st), tuple(sorted((i, repr(v)) for i, v in p.regs.items())))
            if k not in seen: seen[k] = p
        return list(seen.values())
    def live_regs(self, fr, header, body):
        fn = fr.fn
        key = (fn.name, header)
        c = self._live.get(key)
        if c is None:
            # registers defined in the loop that matter at the header: its phis only (SSA dominance)
            c = [x.id for x in fn.blocks[header].phis]
            self._live[key] = c
        return c
    _live = {}
    def widen(self, fr, q, prev, header, body):
        """q: state at header; prev: an earlier header state of the same partition.
        -> (leaving paths, paths to continue as separate partitions)"""
        phis = self.live_regs(fr, header, body)
        level = 0
        dropped = set()     # cells forced to be arbitrary
        loose = set()       # facts given up
        while True:
            level += 1
            if level > 12:
                raise AnalysisError("no inductive loop state found in %s block %s" % (fr.fn.base, fr.fn.blocks[header].name))
            self.frame_fn = fr.fn
            G, plan = self.generalise(fr, prev, q, phis, dropped, loose)
            lev = LoopEv()
            G.st.event('loop', lev, fr.fn.base)
            base_ev = G.st.ev
            k0 = len(self.exits)
            r0 = len(fr.rets)
            gs = Path(G.st.fork(), dict(G.regs), G.bb, G.prev)
            lv, arr = self.run(fr, [gs], body, header)
            bad = []
            extra = []
            redo = False
            for b in arr:
                ok, why = self.subsumed(b, G, plan, phis)
                if ok:
                    evs = []
                    e = b.st.ev
                    while e is not None and e is not base_ev:
                        evs.append(e[1]); e = e[0]
                    evs.reverse()
                    if evs: lev.bodies.append(evs)
                else:
                    bad.append((b, why))
            if not bad:
                return lv, []
            # a cell that moves differently: first treat it as a partition of its own
            for b, why in bad:
                if why[0] == 'fact':
                    loose.add(why[1]); redo = True
            if not redo:
                if self.partition and level <= 1 and any(self.subsumed(b, G, plan, phis)[0] for b in arr):
                    return lv, [b for b, _ in bad]
                n0 = len(dropped)
                for b, why in bad:
                    dropped.update(why[1])
                if len(dropped) == n0:
                    raise AnalysisError("loop generalisation stuck in %s: %r" % (fr.fn.base, [w for _, w in bad][:3]))
            # retry with the weaker state; forget what the failed attempt produced
            del self.exits[k0:]
            del fr.rets[r0:]
    def generalise(self, fr, a, b, phis, dropped, loose):
        """state covering the iterates a, b, ... ; plan describes the substitution check"""
        st = a.st.fork()
        regs = dict(a.regs)
        G = Path(st, regs, a.bb, a.prev)
        k = fresh("iter", 32, 0, INF)
        plan = {'k': k, 'cells': {}, 'facts': [], 'dead': set()}
        def one(key, va, vb):
            if va == vb and key not in dropped: return va
            if key not in dropped:
                if isinstance(va, (int, Lin)) and isinstance(vb, (int, Lin)):
                    d = sub(vb, va)
                    if isinstance(d, int):
                        plan['cells'][key] = 'affine'
                        g = add(va, scale(k, d))
                        self.bound(plan, st, a, b, key, va, vb, g, loose)
                        return g
                if isinstance(va, Ptr) and isinstance(vb, Ptr) and va.o == vb.o and va.o is not None:
                    d = sub(vb.off, va.off)
                    if isinstance(d, int):
                        plan['cells'][key] = 'affine'
                        g = add(va.off, scale(k, d))
                        self.bound(plan, st, a, b, key, va.off, vb.off, g, loose)
                        return Ptr(va.o, g)
            plan['cells'][key] = 'any'
            if isinstance(va, Ptr) or isinstance(vb, Ptr):
                if isinstance(va, Ptr) and isinstance(vb, Ptr) and va.o == vb.o and va.o is not None:
                    f = fresh("off", 64)
                    self.bound(plan, st, a, b, key, va.off, vb.off, f, loose)
                    return Ptr(va.o, f)
                o = dom.new_obj("*loop", 'lazy', None, 'havoc')
                na, nb = self.nullness(a.st, va), self.nullness(b.st, vb)
                if na is False and nb is False and ('null', key) not in loose:
                    st.nonnull = st.nonnull | {o.id}
                    plan['facts'].append((('null', key), key, 'nonnull'))
                return Ptr(o.id, 0)
            if isinstance(va, Flt) or isinstance(vb, Flt): return Flt(('fresh', key, len(plan['cells']), id(plan)))
            if isinstance(va, AggV) or va is UNDEF or vb is UNDEF: return UNDEF
            f = fresh("v", 64)
            self.bound(plan, st, a, b, key, va, vb, f, loose)
            return f
        for r in phis:
            regs[r] = one(('reg', r), a.regs.get(r, UNDEF), b.regs.get(r, UNDEF))
        for o in set(a.st.mem) | set(b.st.mem):
            ca, cb = a.st.mem.get(o), b.st.mem.get(o)
            if ca is cb: 
                if not any(k2[0] == 'mem' and k2[1] == o for k2 in dropped): continue
            if o not in a.st.mem:
                ob = OBJS[o]
                if ob.kind in ('alloca', 'heap', 'maybe') or ob.kind == 'lazy' and ob.init == 'havoc':
                    # object first touched in the loop: its content at the header is what default says, or changed
                    pass
            ca = ca or {}; cb = cb or {}
            if OBJS[o].kind in ('heap', 'maybe') and o not in a.st.mem: continue   # allocated in the iteration
            for off in set(ca) | set(cb):
                key = ('mem', o, off)
                if off == 'D':
                    if ca.get('D') != cb.get('D'):
                        w = st.wcells(o); w['D'] = ((0, None, None),)
                        plan['dead'].add(key)
                    continue
                ea, eb = ca.get(off), cb.get(off)
                if ea is None:
                    ea = (eb[0], self.peek(a.st, o, off, eb))
                    if ea[1] == eb[1] and key not in dropped: continue
                if eb is None:
                    eb = (ea[0], None)
                    w = st.wcells(o)
                    nv = one(key, ea[1], self.unlike(ea[1]))
                    w[off] = (ea[0], nv)
                    continue
                if ea == eb and key not in dropped: continue
                sz = eb[0]
                if ea[0] != eb[0]:
                    w = st.wcells(o); w.pop(off, None); plan['dead'].add(key)
                    w['D'] = ((0, None, None),)
                    continue
                w = st.wcells(o)
                w[off] = (sz, one(key, ea[1], eb[1]))
        for key in [x for x in st.slen if b.st.slen.get(x) != st.slen[x] or ('slen',) + x in dropped]: del st.slen[key]
        # length facts may only survive when b has the same
        st.freed = a.st.freed
        return G, plan
    def unlike(self, v):
        if isinstance(v, Ptr): return Ptr(dom.new_obj("?", 'lazy', None, 'havoc').id, 0)
        return fresh("u", 64)
    def peek(self, st, o, off, like):
        """what a load of like's size would have given in st"""
        from .llvm import Ty
        v = like[1]
        ty = Ty('p', 64, 8, None) if isinstance(v, Ptr) else Ty('i', like[0] * 8, like[0], None)
        if not isinstance(off, int): return self.unlike(v)
        p = self.partial(st, st.cells(o), off, like[0], ty)
        if p is not None: return p
        return self.default_value(st, OBJS[o], off, ty)
    def bound(self, plan, st, a, b, key, va, vb, g, loose):
        (la, ha), (lb, hb) = a.st.rng(va), b.st.rng(vb)
        lo = min(la, lb); hi = max(ha, hb)
        fl = ('lo', key); fh = ('hi', key)
        # widening thresholds: keep a bound that did not move; otherwise try a stable one
        if fl not in loose:
            if lb < la:
                lo = max([t for t in (-1, 0, 1) if t <= lb], default=None) if lb >= -1 else None
            if lo is not None and lo > -INF and st.assume(g, ((lo, INF),)):
                plan['facts'].append((fl, key, lo, INF))
        if fh not in loose:
            if hb > ha:
                hi = min([t for t in self.hints(a.bb) if t >= hb and ('hi', key, t) not in loose], default=None) if self.thresholds else None
                if hi is not None: fh = ('hi', key, hi)
            if hi is not None and hi < INF and st.assume(g, ((-INF, hi),)):
                plan['facts'].append((fh, key, -INF, hi))
    def hints(self, header):
        """constants the loop compares with"""
        out = set()
        fn = self.frame_fn
        for i in fn.loops[header.idx]:
            for x in fn.blocks[i].insts:
                if x.op == 'icmp':
                    for v in x.ops:
                        if isinstance(v, int) and v > 1: out.add(v)
        return out
    def cellval(self, p, key):
        if key[0] == 'reg': return p.regs.get(key[1], UNDEF)
        e = p.st.cells(key[1]).get(key[2])
        return e[1] if e is not None else None
    def subsumed(self, b, G, plan, phis):
        k = plan['k']; k1 = add(k, 1)
        ka = k.t[0][0]
        def step(v):
            if isinstance(v, Lin):
                for a_, c in v.t:
                    if a_ == ka: return add(v, c)
                return v
            if isinstance(v, Ptr): return Ptr(v.o, step(v.off))
            return v
        diffs = set()
        keys = [('reg', r) for r in phis]
        for o in set(b.st.mem) | set(G.st.mem):
            cg, cb = G.st.mem.get(o), b.st.mem.get(o)
            if cg is cb: continue
            if OBJS[o].kind in ('heap', 'maybe') and o not in G.st.mem: continue
            for off in set(cg or ()) | set(cb or ()):
                if off == 'D': 
                    if (cg or {}).get('D') != (cb or {}).get('D') and ('mem', o, 'D') not in plan['dead']:
                        if (cg or {}).get('D') is None or True:
                            # G's defaults must cover b's
                            if (cg or {}).get('D') != ((0, None, None),): diffs.add(('mem', o, 'D'))
                    continue
                keys.append(('mem', o, off))
        for key in keys:
            how = plan['cells'].get(key)
            vg = self.cellval(G, key); vb = self.cellval(b, key)
            if vg is None and key[0] == 'mem':
                if ('mem', key[1], 'D') in plan['dead']: continue
                e = b.st.cells(key[1])[key[2]]
                vg = self.peek(G.st, key[1], key[2], e)
            if vb is None and key[0] == 'mem':
                # b forgot the cell: only fine if G has it arbitrary
                if how == 'any': continue
                diffs.add(key); continue
            if how == 'any': continue
            want = step(vg) if how == 'affine' else vg
            if vb != want:
                diffs.add(key)
        if diffs:
            return False, ('cells', diffs)
        for f in plan['facts']:
            v = self.cellval(b, f[1])
            if f[2] == 'nonnull':
                if self.nullness(b.st, v) is not False: return False, ('fact', f[0])
                continue
            if isinstance(v, Ptr): v = v.off
            if not isinstance(v, (int, Lin)): return False, ('fact', f[0])
            l, h = b.st.rng(v)
            if l < f[2] or h > f[3]: return False, ('fact', f[0])
        if not b.st.freed <= G.st.freed:
            # releases of objects allocated inside the iteration are local to it
            if any(o in G.st.mem for o in b.st.freed - G.st.freed):
                pass
        for key in list(G.st.slen):
            if b.st.slen.get(key) != G.st.slen[key]:
                return False, ('cells', {('slen',) + key})
        return True, None
