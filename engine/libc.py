"""Models of the C library functions the program uses (and of likely substitutes)."""
import re
from .dom import *
from . import dom
from .llvm import Ty

I8 = Ty('i', 8, 1, None); I32 = Ty('i', 32, 4, None); I64 = Ty('i', 64, 8, None); PT = Ty('p', 64, 8, None)
STRMAX = 1 << 24

def cstr(I, st, p, limit=4096):
    """the constant string at p, or None"""
    if not isinstance(p, Ptr) or p.o is None or not isinstance(p.off, int): return None
    out = []
    obj = OBJS[p.o]
    cells = st.cells(p.o)
    g = obj.ref.cells() if obj.init == 'const' and obj.ref is not None and not obj.ref.decl else None
    for j in range(limit):
        off = p.off + j
        e = cells.get(off)
        if e is not None and e[0] == 1: v = e[1]
        elif g is not None and off not in cells and 'D' not in cells:
            if obj.size and off >= obj.size: return None
            e = g.get(off)
            if e is None: v = 0
            elif e[0] == 1: v = e[1]
            else: return None
        elif e is None and ('D' in cells or obj.init == 'zero'):
            v = I.default_value(st, obj, off, I8)
        else: return None
        if not isinstance(v, int): return None
        if v == 0: return bytes(out).decode('latin1')
        out.append(v & 255)
    return None

def str_len(I, st, p, inst=None):
    if not isinstance(p, Ptr) or p.o is None:
        st.event('nullderef', I.where(inst), 'string'); return fresh("strlen?", 64, 0, STRMAX)
    I.check_access(st, p, 1, inst, 'load')
    s = cstr(I, st, p)
    if s is not None: return len(s)
    k = (p.o, p.off)
    v = st.slen.get(k)
    if v is None:
        hi = STRMAX
        o = OBJS[p.o]
        if isinstance(o.size, int) and isinstance(p.off, int) and o.size > 0 and o.kind in ('global', 'alloca', 'heap'): hi = max(0, o.size - p.off - 1)
        v = fresh("strlen(%s%s)" % (o.name, "" if p.off == 0 else "+%r" % (p.off,)), 64, 0, hi)
        st.slen[k] = v
        st.tags.pop(('txt',) + k, None)
    return v

def get_txt(I, st, p):
    """segments of the text at p"""
    s = cstr(I, st, p)
    if s is not None: return (('lit', s),) if s else ()
    if isinstance(p, Ptr) and p.o is not None:
        k = (p.o, p.off)
        if k in st.slen and ('txt',) + k in st.tags: return st.tags[('txt',) + k]
    n = str_len(I, st, p)
    return (('str', p, n),)

def set_txt(I, st, p, n, segs):
    st.slen[(p.o, p.off)] = n
    st.tags[('txt', p.o, p.off)] = norm(segs)

def norm(segs):
    out = []
    for s in segs:
        if s[0] == 'lit':
            if not s[1]: continue
            if out and out[-1][0] == 'lit':
                out[-1] = ('lit', out[-1][1] + s[1]); continue
        out.append(s)
    return tuple(out)

def text_write(I, st, p, need, inst, what):
    """need bytes (with terminator) are written at p"""
    if not isinstance(p, Ptr) or p.o is None:
        st.event('nullderef', I.where(inst), 'string store'); return False
    I.check_access(st, p, need, inst, 'store')
    if I.on_text: I.on_text(I, st, p, need, inst, what)
    I.kill(st, p, need)
    c = st.wcells(p.o)
    e = c.get(p.off)
    if e is not None: del c[p.off]
    c.pop('D', None) if False else None
    # bytes up to need are unknown now
    if OBJS[p.o].init in ('zero', 'const') or 'D' in c:
        if isinstance(p.off, int):
            c['D'] = c.get('D', ()) + ((p.off, None if not isinstance(need, int) else p.off + need, None),)
    return True

def put_const(I, st, p, s):
    if isinstance(p.off, int):
        c = st.wcells(p.o)
        for j, ch in enumerate(s + "\0"):
            b = ord(ch); c[p.off + j] = (1, b - 256 if b > 127 else b)

def put_text(I, st, p, n, segs, inst, what):
    if not text_write(I, st, p, add(n, 1), inst, what): return
    segs = norm(segs)
    if all(s[0] == 'lit' for s in segs):
        put_const(I, st, p, "".join(s[1] for s in segs))
    set_txt(I, st, p, n, segs)
    for k in [k for k in st.tags if k[0] == 'open' and k[1] == p.o]:
        m, before = st.tags[k]
        if add(k[2], m) == p.off: set_txt(I, st, Ptr(k[1], k[2]), add(m, n), before + segs)

FMT = re.compile(r'%([-+ 0#]*)(\d+|\*)?(?:\.(\d+|\*))?(hh|h|ll|l|z|j)?([diouxXcspfegn%])')

def format_segs(I, st, fmt, args, inst):
    segs = []; pos = 0; ai = 0
    for m in FMT.finditer(fmt):
        segs.append(('lit', fmt[pos:m.start()])); pos = m.end()
        flags, width, prec, lenm, conv = m.groups()
        if conv == '%': segs.append(('lit', '%')); continue
        if width == '*':
            w = args[ai] if ai < len(args) else 0; ai += 1
            width = w if isinstance(w, int) else None
            if width is None: segs.append(('pad', w))
        else: width = int(width) if width else 0
        if prec == '*':
            pv = args[ai] if ai < len(args) else 0; ai += 1
            prec = pv if isinstance(pv, int) else None
        else: prec = int(prec) if prec is not None else None
        a = args[ai] if ai < len(args) else UNDEF
        ai += 1
        if conv == 's':
            if isinstance(a, Ptr) and I.nullness(st, a) is not True: sub_ = get_txt(I, st, a)
            else:
                sub_ = (('lit', '(null)'),)
                if isinstance(a, Ptr): st.event('nullstr', I.where(inst))
            if width or prec is not None: segs.append(('fld', width, prec, '-' in flags, sub_))
            else: segs.extend(sub_)
        elif conv == 'c':
            if isinstance(a, int) and not width: segs.append(('lit', chr(a & 255)))
            else: segs.append(('chr', a))
        elif isinstance(a, int) and conv in 'dixXuo':
            v = a
            if conv in 'xXuo': v &= (1 << (64 if lenm in ('l', 'll', 'z', 'j') else 32)) - 1
            segs.append(('lit', ("%" + flags + (str(width) if width else "") + ("" if prec is None else ".%d" % prec) + ('d' if conv == 'u' else conv)) % v))
        else:
            segs.append(('num', conv, flags, width, prec, a))
    segs.append(('lit', fmt[pos:]))
    return norm(segs)

def seg_len(I, st, s):
    k = s[0]
    if k == 'lit': return len(s[1])
    if k == 'chr': return 1
    if k == 'str': return s[2]
    if k == 'pad': return fresh("pad", 32, 0, 1 << 20)
    if k == 'fld':
        n = segs_len(I, st, s[4])
        if s[2] is not None:
            lo, hi = st.rng(n)
            if hi > s[2]: n = s[2] if lo >= s[2] else fresh("prec", 32, lo, s[2])
        w = s[1] or 0
        lo, hi = st.rng(n)
        if lo >= w: return n
        if hi <= w: return w
        # max(n, w) <= n + (w - lo)
        return opaque_max(st, n, w)
    if k == 'num':
        _, conv, flags, width, prec, a = s
        if conv in 'xX':
            if isinstance(a, int): n = len("%x" % (a & 0xFFFFFFFF))
            elif isinstance(a, Lin):
                lo, hi = st.rng(a)
                n = (1, len("%x" % hi)) if lo >= 0 else (1, 8)
            else: n = (1, 16)
        elif conv in 'di':
            if isinstance(a, int): n = len("%d" % a)
            elif isinstance(a, Lin):
                lo, hi = st.rng(a); n = (1, max(len("%d" % lo), len("%d" % hi)))
            else: n = (1, 20)
        else: n = (1, 24)
        lo, hi = (n, n) if isinstance(n, int) else n
        m = max(width or 0, prec or 0)
        lo = max(lo, m); hi = max(hi, m)
        return lo if lo == hi else lin_atom(atom(('numlen', conv, m, a if isinstance(a, Lin) else id(s)), lo, hi, "digits"))
    return fresh("seg", 32, 0, 1 << 20)

def opaque_max(st, n, w):
    lo, hi = st.rng(n)
    return lin_atom(atom(('max', n, w), max(lo, w), max(hi, w), "max(%r,%d)" % (n, w)))

def segs_len(I, st, segs):
    n = 0
    for s in segs: n = add(n, seg_len(I, st, s))
    return n

def install(I):
    M = I.models
    I.on_text = None
    I.read_text = get_txt
    I.read_const = cstr
    I.malloc_null = False
    I.io_fail = False
    I.fopen_null = True
    def model(*names):
        def d(f):
            for n in names: M[n] = f
            return f
        return d

    @model('strlen')
    def strlen(I, st, a, inst): return str_len(I, st, a[0], inst)

    def alloc(I, st, size, inst, init='undef', name="heap"):
        o = I.alloc("%s@%s" % (name, I.where(inst).split(' ')[0]), 'heap', size, init)
        o.info = I.where(inst)
        st.event('alloc', o.id, size, I.where(inst))
        p = Ptr(o.id, 0)
        if I.malloc_null:
            s2 = st.fork()
            st.forks += 1; s2.forks += 1
            return [(st, p), (s2, NULL)]
        return [(st, p)]

    @model('malloc')
    def malloc(I, st, a, inst): return alloc(I, st, a[0], inst)
    @model('calloc')
    def calloc(I, st, a, inst):
        s = scale(a[0], a[1]) if isinstance(a[1], int) else scale(a[1], a[0]) if isinstance(a[0], int) else fresh("sz", 64, 0)
        return alloc(I, st, s, inst, 'zero')
    @model('realloc')
    def realloc(I, st, a, inst):
        p = a[0]
        r = alloc(I, st, a[1], inst)
        for s, q in r:
            if q is not NULL and isinstance(p, Ptr) and p.o is not None and I.nullness(s, p) is not True:
                release(I, s, p, inst, 'realloc')
                old = s.cells(p.o)
                if OBJS[p.o].init == 'havoc': OBJS[q.o].init = 'havoc'
                c = s.wcells(q.o)
                for k, e in old.items(): c[k] = e
        return r
    def release(I, st, p, inst, how):
        if not isinstance(p, Ptr):
            st.event('wild-free', I.where(inst)); return
        n = I.nullness(st, p)
        if n is True: return
        if p.o is None:
            st.event('wild-free', I.where(inst)); return
        o = OBJS[p.o]
        if p.o in st.freed: st.event('doublefree', I.where(inst), o.name)
        if o.kind in ('global', 'alloca', 'func') or p.off != 0:
            st.event('badfree', I.where(inst), o.name, repr(p.off))
        st.event('free', p.o, I.where(inst))
        st.freed = st.freed | {p.o}
    I.release = release
    @model('free')
    def free(I, st, a, inst):
        release(I, st, a[0], inst, 'free')

    @model('strdup')
    def strdup(I, st, a, inst):
        n = str_len(I, st, a[0], inst)
        segs = get_txt(I, st, a[0])
        r = alloc(I, st, add(n, 1), inst, name="strdup")
        for s, q in r:
            if q is not NULL: put_text(I, s, q, n, segs, inst, 'strdup')
        return r
    @model('strcpy')
    def strcpy(I, st, a, inst):
        n = str_len(I, st, a[1], inst)
        put_text(I, st, a[0], n, get_txt(I, st, a[1]), inst, 'strcpy')
        return a[0]
    @model('strncpy')
    def strncpy(I, st, a, inst):
        n = str_len(I, st, a[1], inst); segs = get_txt(I, st, a[1])
        if not text_write(I, st, a[0], a[2], inst, 'strncpy'): return a[0]
        left = sub(a[2], n)
        if st.rng(left)[0] >= 1: set_txt(I, st, a[0], n, segs)
        elif left == 0: I.open_text(st, a[0], n, norm(segs))
        return a[0]
    @model('strcat')
    def strcat(I, st, a, inst):
        n0 = str_len(I, st, a[0], inst); n1 = str_len(I, st, a[1], inst)
        segs = get_txt(I, st, a[0]) + get_txt(I, st, a[1])
        put_text(I, st, a[0], add(n0, n1), segs, inst, 'strcat')
        return a[0]
    @model('strncat')
    def strncat(I, st, a, inst):
        n0 = str_len(I, st, a[0], inst); n1 = str_len(I, st, a[1], inst)
        lo, hi = st.rng(n1)
        m = n1 if isinstance(a[2], int) and hi <= a[2] else fresh("ncat", 64, 0, st.rng(a[2])[1])
        put_text(I, st, a[0], add(n0, m), get_txt(I, st, a[0]) + (('pad', m),), inst, 'strncat')
        return a[0]
    @model('strchr', 'strrchr', 'strstr')
    def strstr(I, st, a, inst):
        n = str_len(I, st, a[0], inst)
        s1, s2 = cstr(I, st, a[0]), (cstr(I, st, a[1]) if isinstance(a[1], Ptr) else None)
        if s1 is not None and (s2 is not None or isinstance(a[1], int)):
            nd = s2 if s2 is not None else chr(a[1] & 255)
            k = s1.rfind(nd) if inst is not None and inst.x.f.base == 'strrchr' else s1.find(nd)
            if nd == '\0': k = len(s1)
            return NULL if k < 0 else Ptr(a[0].o, add(a[0].off, k))
        nd = s2 if s2 is not None else chr(a[1] & 255) if isinstance(a[1], int) else None
        if nd is not None and len(nd) == 1 and nd not in "-+0123456789abcdefABCDEF":
            sg = get_txt(I, st, a[0])
            if all(x[0] == 'num' and x[1] in 'dixXu' or x[0] == 'lit' and nd not in x[1] for x in sg): return NULL
        s = st.fork(); s.forks += 1; st.forks += 1
        off = fresh("strpos", 64, 0, st.rng(n)[1])
        if nd is not None and nd.strip('\0'):
            left = sub(n, off)
            if not st.assume(left, ((len(nd), INF),)): return [(s, NULL)]
            st.slen[(a[0].o, add(a[0].off, off))] = left
            st.tags.pop(('txt', a[0].o, add(a[0].off, off)), None)
            after = add(a[0].off, add(off, 1))
            st.slen[(a[0].o, after)] = sub(left, 1)
            st.tags.pop(('txt', a[0].o, after), None)
        return [(st, Ptr(a[0].o, add(a[0].off, off))), (s, NULL)]
    @model('strcspn', 'strspn', 'strpbrk')
    def strspn(I, st, a, inst):
        nm = inst.x.f.base if inst is not None else 'strspn'
        n = str_len(I, st, a[0], inst)
        s1, s2 = cstr(I, st, a[0]), cstr(I, st, a[1])
        if s1 is not None and s2 is not None:
            k = 0
            while k < len(s1) and (s1[k] in s2) == (nm == 'strspn'): k += 1
            if nm == 'strpbrk': return NULL if k == len(s1) else Ptr(a[0].o, add(a[0].off, k))
            return k
        s = st.fork(); s.forks += 1; st.forks += 1
        whole = NULL if nm == 'strpbrk' else n
        off = fresh("spn", 64, 0, st.rng(n)[1])
        left = sub(n, off)
        if not st.assume(left, ((1, INF),)): return [(s, whole)]
        st.slen[(a[0].o, add(a[0].off, off))] = left
        st.tags.pop(('txt', a[0].o, add(a[0].off, off)), None)
        return [(st, Ptr(a[0].o, add(a[0].off, off)) if nm == 'strpbrk' else off), (s, whole)]
    @model('strcmp', 'strcasecmp', 'strncmp', 'strncasecmp', 'memcmp')
    def strcmp(I, st, a, inst):
        x, y = cstr(I, st, a[0]), cstr(I, st, a[1])
        n = inst.x.f.base if inst is not None else 'strcmp'
        if x is not None and y is not None and n in ('strcmp', 'strcasecmp'):
            if n == 'strcasecmp': x, y = x.lower(), y.lower()
            return 0 if x == y else (-1 if x < y else 1)
        if x is not None and y is not None and n in ('strncmp', 'strncasecmp') and len(a) > 2 and isinstance(a[2], int):
            if n == 'strncasecmp': x, y = x.lower(), y.lower()
            x, y = x[:a[2]], y[:a[2]]
            return 0 if x == y else (-1 if x < y else 1)
        return fresh("strcmp", 32)
    @model('strnlen')
    def strnlen(I, st, a, inst):
        n = str_len(I, st, a[0], inst)
        lo, hi = st.rng(sub(a[1], n))
        if lo >= 0: return n
        if hi <= 0: return a[1]
        return fresh("strnlen", 64, 0, min(st.rng(n)[1], st.rng(a[1])[1]))
    @model('stpcpy')
    def stpcpy(I, st, a, inst):
        n = str_len(I, st, a[1], inst)
        put_text(I, st, a[0], n, get_txt(I, st, a[1]), inst, 'stpcpy')
        return Ptr(a[0].o, add(a[0].off, n))
    @model('sprintf')
    def sprintf(I, st, a, inst):
        f = cstr(I, st, a[1])
        if f is None:
            st.event('badformat', I.where(inst))
            text_write(I, st, a[0], fresh("fmt", 64, 1, STRMAX), inst, 'sprintf'); return fresh("n", 32, 0)
        segs = format_segs(I, st, f, a[2:], inst)
        n = segs_len(I, st, segs)
        put_text(I, st, a[0], n, segs, inst, 'sprintf')
        return n
    @model('snprintf')
    def snprintf(I, st, a, inst):
        f = cstr(I, st, a[2])
        segs = format_segs(I, st, f, a[3:], inst) if f is not None else (('pad', 0),)
        n = segs_len(I, st, segs)
        lo, hi = st.rng(sub(n, a[1]))
        if hi < 0: put_text(I, st, a[0], n, segs, inst, 'snprintf')
        else:
            text_write(I, st, a[0], a[1], inst, 'snprintf')
            m = fresh("snlen", 64, 0, max(0, min(st.rng(n)[1], st.rng(a[1])[1] - 1)))
            st.slen[(a[0].o, a[0].off)] = m
        return n
    @model('fprintf')
    def fprintf(I, st, a, inst):
        f = cstr(I, st, a[1])
        if I.printer: I.printer(I, st, a[0], f, a[2:], inst)
        return fresh("n", 32, 0)
    @model('printf')
    def printf(I, st, a, inst):
        if I.printer: I.printer(I, st, None, cstr(I, st, a[0]), a[1:], inst)
        return fresh("n", 32, 0)
    @model('fputs')
    def fputs(I, st, a, inst):
        if I.printer: I.printer(I, st, a[1], "%s", [a[0]], inst)
        return fresh("n", 32, 0)
    @model('puts')
    def puts(I, st, a, inst):
        if I.printer: I.printer(I, st, None, "%s\n", [a[0]], inst)
        return fresh("n", 32, 0)
    @model('fputc', 'putc')
    def fputc(I, st, a, inst):
        if I.on_write: return I.on_write(I, st, a[1], [a[0]], 1, inst, 'putc')
        st.event('write', a[1], a[0] if a[0] is UNDEF else I_bits8(st, a[0]), 1, I.where(inst))
        return I_bits8(st, a[0])
    I.printer = None
    I.on_write = None
    def I_bits8(st, v):
        from .ai import bits
        return bits(st, v, 0, 8) if isinstance(v, (int, Lin)) else fresh("b", 8, 0, 255)
    @model('fwrite')
    def fwrite(I, st, a, inst):
        p, sz, n, f = a
        total = scale(n, sz) if isinstance(sz, int) else scale(sz, n) if isinstance(n, int) else fresh("sz", 64, 0)
        if not isinstance(f, Ptr) or I.nullness(st, f) is True: st.event('nullderef', I.where(inst), 'fwrite'); return 0
        I.check_access(st, p, total, inst, 'load')
        if isinstance(total, int) and total <= 64:
            vals = [I.load(st, Ptr(p.o, add(p.off, j)), I8, inst) for j in range(total)]
            ev = [('write', f, I_bits8(st, v), 1, I.where(inst)) for v in vals]
        else:
            ev = [('write', f, p, total, I.where(inst))]
        outs = []
        if I.io_fail:
            s2 = st.fork(); s2.forks += 1; st.forks += 1
            s2.event('writefail', I.where(inst))
            outs.append((s2, fresh("short", 64, 0, max(0, (n if isinstance(n, int) else st.rng(n)[1]) - 1))))
        for e in ev: st.event(*e)
        return [(st, n)] + outs
    @model('fopen')
    def fopen(I, st, a, inst):
        name = cstr(I, st, a[0]) if isinstance(a[0], Ptr) else None
        mode = cstr(I, st, a[1])
        if isinstance(a[0], Ptr) and I.nullness(st, a[0]) is True: st.event('nullderef', I.where(inst), 'fopen')
        o = I.alloc("FILE@" + I.where(inst).split(' ')[0], 'file', 216, 'havoc')
        o.info = mode
        outs = []
        if I.fopen_null:
            s2 = st.fork(); s2.forks += 1; st.forks += 1
            s2.event('fopenfail', I.where(inst), mode, a[0])
            outs.append((s2, NULL))
        st.event('fopen', o.id, a[0], mode, I.where(inst))
        return [(st, Ptr(o.id, 0))] + outs
    @model('fclose')
    def fclose(I, st, a, inst):
        f = a[0]
        if not isinstance(f, Ptr) or I.nullness(st, f) is True:
            st.event('nullderef', I.where(inst), 'fclose'); return 0
        I.check_access(st, f, 1, inst, 'load')
        if f.o in st.freed: st.event('doublefree', I.where(inst), OBJS[f.o].name)
        st.event('fclose', f.o, I.where(inst))
        if OBJS[f.o].kind == 'file': st.freed = st.freed | {f.o}
        if I.io_fail:
            s2 = st.fork(); s2.forks += 1; st.forks += 1
            s2.event('writefail', I.where(inst), 'fclose', f.o)
            return [(st, 0), (s2, -1)]
        return 0
    def usefile(I, st, f, inst, what):
        if not isinstance(f, Ptr) or I.nullness(st, f) is True:
            st.event('nullderef', I.where(inst), what); return
        I.check_access(st, f, 1, inst, 'load')
    @model('fflush')
    def fflush(I, st, a, inst):
        st.event('fflush', a[0].o if isinstance(a[0], Ptr) else None, I.where(inst))
        if I.io_fail:
            s2 = st.fork(); s2.forks += 1; st.forks += 1
            s2.event('writefail', I.where(inst), 'fflush', a[0].o if isinstance(a[0], Ptr) else None)
            return [(st, 0), (s2, -1)]
        return 0
    @model('fseek', 'ftell', 'feof', 'clearerr', 'fileno', 'isatty', 'fgetc', 'getc')
    def fmisc(I, st, a, inst):
        n = inst.x.f.base if inst is not None else ''
        if isinstance(a[0], Ptr): usefile(I, st, a[0], inst, n)
        if n in ('fgetc', 'getc'): return fresh("ch", 32, -1, 255)
        if n in ('feof',): return fresh(n, 32, 0, 1)
        if n in ('fileno', 'isatty'): return fresh(n, 32, 0, 100)
        if n == 'clearerr': return None
        return fresh(n, 64)
    @model('ferror')
    def ferror(I, st, a, inst):
        usefile(I, st, a[0], inst, 'ferror')
        return fresh("ferror", 32, 0, 1)
    @model('fgets')
    def fgets(I, st, a, inst):
        usefile(I, st, a[2], inst, 'fgets')
        s2 = st.fork(); s2.forks += 1; st.forks += 1
        p = a[0]
        if text_write(I, st, p, a[1], inst, 'fgets'):
            st.slen[(p.o, p.off)] = fresh("linelen", 64, 1, max(1, st.rng(a[1])[1] - 1))
            st.tags.pop(('txt', p.o, p.off), None)
        return [(st, p), (s2, NULL)]
    @model('fread')
    def fread(I, st, a, inst):
        usefile(I, st, a[3], inst, 'fread')
        n = a[2]
        if isinstance(a[0], Ptr) and a[0].o is not None: text_write(I, st, a[0], n, inst, 'fread')
        return fresh("nread", 64, 0, st.rng(n)[1])
    @model('exit', '_exit', 'abort', '_Exit', 'quick_exit')
    def exit_(I, st, a, inst):
        code = a[0] if a else 134
        I.exits.append((st, code, I.where(inst), tuple(f.base for f in I.stack)))
        return []
    @model('__assert_fail')
    def assert_fail(I, st, a, inst): return []
    def fold(lo, hi, d):
        lo_, hi_ = ord(lo), ord(hi)
        def f(I, st, a, inst):
            v = a[0]
            if isinstance(v, int): return v + d if lo_ <= v <= hi_ else v
            if v is UNDEF: return fresh("fold", 32)
            r = st.rset(v)
            if r and not inter(r, ((lo_, hi_),)): return v
            if r and subset(r, ((lo_, hi_),)): return add(v, d)
            l, h = st.rng(v)
            n = 'tolower' if d > 0 else 'toupper'
            return lin_atom(atom((n, v), min(l, h), max(l, h) + (32 if d > 0 else 0), "%s(%r)" % (n, v)))
        return f
    M['tolower'] = fold('A', 'Z', 32); M['toupper'] = fold('a', 'z', -32)
    def cls(name, pred):
        T = tuple((c, c) for c in range(256) if pred(chr(c)) and c < 128)
        T = union(T, ())
        def f(I, st, a, inst):
            v = a[0]
            if isinstance(v, int): return 1 if 0 <= v < 128 and pred(chr(v)) else 0
            if v is UNDEF: return fresh(name, 32, 0, 1)
            return [(s, 1 if y else 0) for s, y in I.split(st, v, T)]
        M[name] = f
    cls('isprint', lambda c: ' ' <= c <= '~')
    cls('isxdigit', lambda c: c in '0123456789abcdefABCDEF')
    cls('isdigit', str.isdigit)
    cls('isalpha', lambda c: c.isalpha())
    cls('isalnum', lambda c: c.isalnum())
    cls('isspace', lambda c: c in ' \t\n\r\v\f')
    cls('isupper', str.isupper)
    cls('islower', str.islower)
    @model('strtol', '__isoc23_strtol', 'strtoul', '__isoc23_strtoul', 'strtoll', '__isoc23_strtoll')
    def strtol(I, st, a, inst):
        s = cstr(I, st, a[0])
        end = a[1]
        base = a[2]
        if s is not None and isinstance(base, int):
            m = {10: r'\s*[-+]?\d+', 16: r'\s*[-+]?(0[xX])?[0-9a-fA-F]+', 2: r'\s*[-+]?(0[bB])?[01]+', 8: r'\s*[-+]?[0-7]+'}.get(base)
            v = None; k = 0
            if m:
                g = re.match(m, s)
                if g:
                    k = g.end()
                    try: v = int(g.group(0), base)
                    except ValueError: v = None
                else: v = 0
            if v is not None:
                v = max(-(1 << 63), min((1 << 63) - 1, v))
                if isinstance(end, Ptr) and end.o is not None: I.store(st, end, Ptr(a[0].o, add(a[0].off, k)), PT, inst)
                return v
        n = str_len(I, st, a[0], inst)
        if isinstance(end, Ptr) and end.o is not None:
            I.store(st, end, Ptr(a[0].o, add(a[0].off, fresh("numlen", 64, 0, st.rng(n)[1]))), PT, inst)
        txt = get_txt(I, st, a[0])
        return lin_atom(atom(('strtol', repr(a[0]), repr(txt), base if isinstance(base, int) else repr(base)), -(1 << 63), (1 << 63) - 1, "strtol(%r,%r)" % (a[0], base)))
    @model('atoi', 'atol')
    def atoi(I, st, a, inst):
        s = cstr(I, st, a[0])
        if s is not None:
            g = re.match(r'\s*[-+]?\d+', s); return int(g.group(0)) if g else 0
        str_len(I, st, a[0], inst)
        return fresh("atoi", 32)
    @model('abs', 'labs')
    def abs_(I, st, a, inst):
        r = I.cmp(st, 'slt', a[0], 0, I64)
        return [(s, neg(a[0]) if v else a[0]) for s, v in r]
    I.exact_sort = False
    @model('qsort')
    def qsort(I, st, a, inst):
        st.event('qsort', I.where(inst))
        if I.exact_sort and isinstance(a[1], int) and isinstance(a[2], int) and a[1] <= 8 and isinstance(a[0], Ptr) and a[0].o is not None and isinstance(a[0].off, int):
            return sort_exact(I, st, a[0], a[1], a[2], a[3], inst)
        if isinstance(a[0], Ptr) and a[0].o is not None:
            st.mem[a[0].o] = {'D': ((0, None, None),)}; st.own.add(a[0].o)
    def sort_exact(I, st, base, n, size, cmpf, inst):
        """insertion sort driven by the program's own comparison function"""
        from .llvm import Ty
        fn = OBJS[cmpf.o].ref
        o = I.alloc("sortkey", 'heap', size, 'undef'); key = Ptr(o.id, 0)
        def at(k): return Ptr(base.o, add(base.off, k * size))
        todo = [(st, 1)]; done = []
        while todo:
            s, i = todo.pop()
            if i >= n: done.append((s, None)); continue
            I.memcpy(s, key, at(i), size, inst)
            lev = [(s, i)]
            while lev:
                s, j = lev.pop()
                if j == 0:
                    I.memcpy(s, at(0), key, size, inst); todo.append((s, i + 1)); continue
                for t, r in I.call(fn, [at(j - 1), key], s):
                    for u, gt in I.cmp(t, 'sgt', r, 0, Ty('i', 32, 4, None)):
                        if gt:
                            I.memcpy(u, at(j), at(j - 1), size, inst); lev.append((u, j - 1))
                        else:
                            I.memcpy(u, at(j), key, size, inst); todo.append((u, i + 1))
        return done
    @model('__errno_location')
    def errno(I, st, a, inst):
        o = dom.new_obj("errno", 'global', 4, 'havoc', key=('errno',))
        return Ptr(o.id, 0)
    M['__cxa_atexit'] = lambda I, st, a, inst: 0
    def shift_out(I, st, a, inst): return a[0]
    for n in ('_ZNSolsEPFRSoS_E', '_ZNSolsEPFRSt8ios_baseS0_E', '_ZNSolsEPKv', '_ZNSolsEb', '_ZNSolsEi',
              '_ZSt4endlIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_', '_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_PKc',
              '_ZStlsIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_St5_Setw',
              '_ZStlsIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_St8_SetfillIS3_E'):
        M[n] = shift_out
    M['_ZNSt14basic_ofstreamIcSt11char_traitsIcEE7is_openEv'] = lambda I, st, a, inst: I.stream_open(I, st, a, inst)
    I.stream_open = lambda I, st, a, inst: 0
    for n in ('_ZNSt14basic_ofstreamIcSt11char_traitsIcEE4openEPKcSt13_Ios_Openmode', '_ZNSt14basic_ofstreamIcSt11char_traitsIcEE5closeEv',
              '_ZNSt14basic_ofstreamIcSt11char_traitsIcEEC1Ev', '_ZNSt14basic_ofstreamIcSt11char_traitsIcEED1Ev', '_ZSt21ios_base_library_initv'):
        M[n] = lambda I, st, a, inst: None

def install_numbers(I):
    """unsigned conversions: one term per (text, base), whatever function converts"""
    def conv(I, st, a, inst):
        s = cstr(I, st, a[0]); base = a[2]
        if s is not None and isinstance(base, int):
            digs = {10: r'\d+', 16: r'(?:0[xX])?[0-9a-fA-F]+', 2: r'[01]+', 8: r'[0-7]+'}.get(base)
            if digs:
                g = re.match(r'\s*\+?(%s)' % digs, s)
                if not re.match(r'\s*-', s):
                    v = min(int(g.group(1), base), (1 << 64) - 1) if g else 0
                    if v <= (1 << 63) - 1: return v
        str_len(I, st, a[0], inst)
        return lin_atom(atom(('strtoul', repr(a[0]), base if isinstance(base, int) else repr(base)), 0, (1 << 64) - 1, "strtoul(%r,%r)" % (a[0], base)))
    for n in ('strtoul', '__isoc23_strtoul', 'strtoull', '__isoc23_strtoull'): I.models[n] = conv
