"""Exact text: the formatting and string functions modelled character by character, so
that text made of symbolic digits can be read back from memory."""
from .common import *
from .common import _ai
from engine import libc, dom
from engine.libc import cstr, FMT
from engine.dom import atom, lin_atom
from engine.ai import bits
HEX = {}            # atom char -> (value, digit)

def hexdig(v, k, upper=True):
    a = lin_atom(atom(('hexdigit', v, k), 48, 102, "hex%d(%r)" % (k, v)))
    HEX[a] = (v, k)
    return a

def chars(I, st, p, limit=12000):
    """the characters of the text at p (ints and terms)"""
    out = []
    for j in range(limit):
        v = I.load(st, Ptr(p.o, add(p.off, j)), libc.I8)
        if isinstance(v, int):
            if v == 0: return out
        elif isinstance(v, Lin):
            if inter(st.rset(v), ((0, 0),)):
                if st.rset(v) == ((0, 0),): return out
                raise _ai.AnalysisError("text with a character that may be zero")
        else: raise _ai.AnalysisError("text is not initialised at offset %d of %s" % (j, dom.OBJS[p.o].name))
        out.append(v)
    raise _ai.AnalysisError("text does not end")

def put(I, st, p, cs, inst):
    I.check_access(st, p, len(cs) + 1, inst, 'store')
    for j, c in enumerate(list(cs) + [0]):
        if isinstance(c, int) and c > 127: c -= 256
        I.store(st, Ptr(p.o, add(p.off, j)), c, libc.I8, inst)
    for k in [k for k in st.slen if k[0] == p.o]: del st.slen[k]

def lit(s): return [ord(c) for c in s]

def pad(cs, width, flags):
    n = len(cs)
    if width and n < width:
        if '-' in flags: return cs + [32] * (width - n)
        return ([48] if '0' in flags else [32]) * (width - n) + cs
    return cs

def fmt(I, st, f, args, inst):
    """list of alternatives (state, chars)"""
    out = []; pos = 0; ai = 0
    for m in FMT.finditer(f):
        out += lit(f[pos:m.start()]); pos = m.end()
        flags, width, prec, lenm, conv = m.groups()
        if conv == '%': out.append(37); continue
        if width == '*': width = args[ai]; ai += 1
        width = int(width) if width else 0
        if prec == '*': prec = args[ai]; ai += 1
        prec = int(prec) if prec is not None else None
        a = args[ai]; ai += 1
        if conv == 's':
            cs = chars(I, st, a)
            if prec is not None: cs = cs[:prec]
        elif conv == 'c': cs = [a if isinstance(a, int) else bits(st, a, 0, 8)]
        elif isinstance(a, int):
            if conv in 'xX': cs = lit(("%X" if conv == 'X' else "%x") % (a & 0xFFFFFFFF))
            else: cs = lit("%d" % a)
            if prec: cs = [48] * (prec - len(cs)) + cs
        else:
            lo, hi = st.rng(a)
            w = max(width, prec or 0)
            if conv in 'xX' and lo >= 0 and hi < 16 ** w and ('0' in flags or prec):
                cs = [hexdig(a, k) for k in range(w - 1, -1, -1)]
            else: cs = [lin_atom(atom(('txt', conv, a, k), 33, 126, "char")) for k in range(max(1, w))]
        out += pad(cs, width, flags)
    return out + lit(f[pos:])

def install(I):
    M = I.models
    M['strlen'] = lambda I, st, a, inst: len(chars(I, st, a[0]))
    def sprintf(I, st, a, inst):
        f = cstr(I, st, a[1])
        cs = fmt(I, st, f, a[2:], inst)
        put(I, st, a[0], cs, inst)
        return len(cs)
    def snprintf(I, st, a, inst):
        f = cstr(I, st, a[2])
        cs = fmt(I, st, f, a[3:], inst)
        if not isinstance(a[1], int): raise _ai.AnalysisError("snprintf with unknown size")
        if a[1] > 0: put(I, st, a[0], cs[:a[1] - 1], inst)
        return len(cs)
    def strcpy(I, st, a, inst): put(I, st, a[0], chars(I, st, a[1]), inst); return a[0]
    def strcat(I, st, a, inst):
        put(I, st, a[0], chars(I, st, a[0]) + chars(I, st, a[1]), inst); return a[0]
    old = M['malloc']
    def strdup(I, st, a, inst):
        if isinstance(a[0], Ptr) and I.nullness(st, a[0]) is True: raise _ai.AnalysisError("strdup of a null pointer")
        cs = chars(I, st, a[0])
        r = old(I, st, [len(cs) + 1], inst)
        for s, q in r:
            if q is not NULL: put(I, s, q, cs, inst)
        return r
    M.update({'sprintf': sprintf, 'snprintf': snprintf, 'strcpy': strcpy, 'strcat': strcat, 'strdup': strdup})

def listing(S, st):
    """texts of the listing nodes recorded so far"""
    out = []
    p = S.get(st, "list_head")
    while isinstance(p, Ptr) and p.o is not None and S.I.nullness(st, p) is not True:
        o = S.rd(st, p, "list_table", "output", libc.PT)
        out.append(chars(S.I, st, o))
        p = S.rd(st, p, "list_table", "next", libc.PT)
        if len(out) > 2000: raise _ai.AnalysisError("listing does not end")
    return out
PROBES = ["O(list_table,output)", "O(list_table,next)"]

def shown(cs):
    """(address, bytes) shown in a listing row, None if it has no address"""
    if 58 not in cs: return None
    k = cs.index(58)
    def val(ds):
        if all(isinstance(c, int) for c in ds):
            try: return int("".join(chr(c) for c in ds), 16)
            except ValueError: return None
        n = len(ds)
        v = HEX.get(ds[0], (None, 0))[0]
        if all(HEX.get(c) == (v, n - 1 - j) for j, c in enumerate(ds)): return v
        return None
    adr = None
    if k == 5 and cs[0] == 36: adr = (val(cs[1:3]), val(cs[3:5]))
    bs = []; k += 1
    while cs[k:k + 2] == [32, 36] and len(cs) >= k + 4:
        v = val(cs[k + 2:k + 4])
        if v is None: break
        bs.append(v); k += 4
    return adr, bs
