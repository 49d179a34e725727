"""C16: the dictionary finds the latest entry of a key after any history."""
import itertools
from .common import *
from .common import _ai
from . import scen
from engine import libc, dom
EXPLANATION = ("Abstract interpretation of dictionary.cc (LLVM IR of /repo's current sources) with the hash and the key comparison as uninterpreted functions of the key "
               "(C15 decides these): a bucket at an unknown index holds any list of up to three entries with any pattern of equal and different keys, another unknown bucket "
               "holds a further key; then one insertion or one or two deletions of each kind of key follow, and a search for every key must return the value block of its "
               "latest remaining entry (none if there is none) with the bytes it was given; nothing else may be released. For growth the capacity is set to four and every "
               "pattern of keys whose buckets stay shared, split or wrap around is inserted past the limit.")
ASSUMPTIONS = ["any list in a bucket can be reached by insertions, and a deletion leaves such a list again, so one step from every such list stands for every history",
               "lists of up to three entries (deletion treats a position only as first/later); growth from capacity four, at the first and the second limit"]
PROBES = ["O(dict,size)", "O(dict,number_elements)", "Z(dict)"]
ESIZE = 24

class Keys:
    """opaque keys: classes of equal keys, two spellings each"""
    def __init__(self, S, kt):
        self.S, self.I, self.kt = S, S.I, kt
        self.cls = {}; self.hash = {}
        I = self.I
        def khash(I, st, a, inst): return self.hash[self.of(st, a[0])]
        def kcmp(I, st, a, inst):
            x, y = self.of(st, a[0]), self.of(st, a[1])
            if x == y: return 0
            return lin_atom(atom(("kcmp", min(x, y), max(x, y)), 1, 255, "cmp"))
        for n in ("hash_function", "hash_pointer_function"): I.models[n] = khash
        for n in ("stricmp", "strcasecmp"): I.models[n] = kcmp
        if kt == 0:
            def scmp(I, st, a, inst):
                # an exact comparison: only the very same spelling is certain to be equal
                x, y = self.of(st, a[0]), self.of(st, a[1])
                if x != y: return 1
                return 0 if self.txt(st, a[0]) == self.txt(st, a[1]) else lin_atom(atom(("strcmp",), -255, 255, "strcmp"))
            I.models["strcmp"] = scmp
    def txt(self, st, p): return tuple(x[1] if x[0] == 'str' else x for x in libc.get_txt(self.I, st, p))
    def of(self, st, p):
        k = p if self.kt else self.txt(st, p)
        if k not in self.cls: raise _ai.AnalysisError("a key that was never passed in is hashed or compared")
        return self.cls[k]
    def key(self, st, c):
        o = self.I.alloc("key%d" % c, 'heap', None, 'havoc'); st.nonnull = st.nonnull | {o.id}
        p = Ptr(o.id, 0)
        if self.kt: self.cls[p] = c
        else: self.cls[self.txt(st, p)] = c
        return p

def run(ctx):
    ctx.rule = "search == value block of the latest entry of that key (same address, same bytes), absent if deleted; only the deleted entry is released"
    S = scen.Scn(ctx, PROBES); I = S.I
    I.unroll_decided = 64
    n = [0]
    def setup(kt):
        st = S.start()
        st, d = S.one("dict_create", [ESIZE, kt], st)
        h = I.alloc("handle", 'heap', 8, 'undef'); st.nonnull = st.nonnull | {h.id}
        I.store(st, Ptr(h.id, 0), d, scen.PT)
        return st, Ptr(h.id, 0), d
    def insert(st, h, key):
        o = I.alloc("in", 'heap', ESIZE, 'undef'); st.nonnull = st.nonnull | {o.id}
        ws = [fresh("w", 64) for _ in range(ESIZE // 8)]
        for j, w in enumerate(ws): I.store(st, Ptr(o.id, 8 * j), w, scen.I64)
        out = []
        for s, v in S.call("dict_insert", [h, key, Ptr(o.id, 0)], st): out.append((s, v, ws))
        return out
    def search(st, h, key):
        return S.call("dict_search", [I.load(st, h, scen.PT), key], st.fork())
    def verify(st, h, K, keys, want, key, ev):
        """want: class -> (value ptr, words) or None"""
        for c, k in keys.items():
            for s, got in search(st, h, k):
                n[0] += 1
                w = want.get(c)
                if w is None:
                    ctx.ob(key + "/absent", got == NULL, "a key without entry is found")
                else:
                    ctx.ob(key + "/latest", got == w[0], "a search does not yield the latest entry of its key (%r)" % (got,))
                    if got == w[0]:
                        ctx.ob(key + "/content", all(I.load(s, Ptr(got.o, add(got.off, 8 * j)), scen.I64) == x for j, x in enumerate(w[1])), "the value found is not the value inserted")
                        ctx.ob(key + "/alive", got.o not in s.freed, "the value found was released")
                for e in ev_bad(s): ctx.ob(key + "/memory", False, "%s" % (e,), e[1] if len(e) > 1 else "")
    def ev_bad(s):
        return [e for e in s.events() if e[0] in ('uaf', 'doublefree', 'badfree', 'nullderef', 'wild-load', 'wild-store')]
    for kt in (0, 1):
        kn = "text keys" if kt == 0 else "address keys"
        # one step from every bucket
        for m in range(0, 4):
            for pat in itertools.product((0, 1), repeat=m):
                if m and pat[0] == 1: continue       # classes 0 and 1 are interchangeable
                for op in ["none"] + ["ins%d" % c for c in range(4)] + ["del%d" % c for c in range(4)] + ["deldel0", "deldel1", "del01"]:
                    st, h, d = setup(kt)
                    K = Keys(S, kt)
                    hA = fresh("hash", 32); hB = fresh("hash", 32)
                    low = fresh("hashlow", 32, 0, 1023); high = fresh("hashhigh", 32, 0, (1 << 20) - 1)
                    K.hash = {0: low, 1: add(low, scale(high, 1024)), 2: hB, 3: low}
                    # the other key lives in another bucket
                    if not st.assume(sub(_ai.bits(st, hB, 0, 10), low), ((-INF, -1), (1, INF))): raise Broken("buckets")
                    K2 = {c: K.key(st, c) for c in range(4)}
                    K3 = {c: (K.key(st, c) if kt == 0 else K2[c]) for c in range(4)}
                    def seq(st, ops):
                        """run a list of operations, tracking the entries per key"""
                        cur = [(st, {c: () for c in range(4)}, [])]
                        for o, c in ops:
                            nxt = []
                            for s, stk, al in cur:
                                if o == 'i':
                                    for t, v, ws in insert(s, h, K2[c]):
                                        nxt.append((t, dict(stk, **{}) | {c: stk[c] + ((v, ws),)}, al))
                                else:
                                    f0 = set(s.freed)
                                    n0 = S.rd(s, I.load(s, h, scen.PT), "dict", "number_elements", scen.I64)
                                    for t, _ in S.call("dict_delete", [I.load(s, h, scen.PT), K3[c]], s):
                                        new = set(t.freed) - f0
                                        had = stk[c]
                                        live = {v[0].o for cc in stk for v in stk[cc]} - ({had[-1][0].o} if had else set())
                                        ctx.ob(kn + "/deletion releases", not (new & live), "a deletion releases the value of an entry that remains")
                                        if had: ctx.ob(kn + "/deletion releases", had[-1][0].o in new, "the deleted value is not released")
                                        else: ctx.ob(kn + "/deletion releases", not new, "deleting a key without entry releases something")
                                        n1 = S.rd(t, I.load(t, h, scen.PT), "dict", "number_elements", scen.I64)
                                        ctx.ob(kn + "/count", sub(n0, n1) == (1 if had else 0), "a deletion changes the entry count by %r" % (sub(n1, n0),))
                                        nxt.append((t, dict(stk) | {c: had[:-1]}, al))
                            cur = nxt
                        return cur
                    ops = [('i', 2)] + [('i', c) for c in pat]
                    if op.startswith("ins"): ops += [('i', int(op[3:]))]
                    elif op.startswith("deldel"): ops += [('d', int(op[6:]))] * 2
                    elif op == "del01": ops += [('d', 0), ('d', 1)]
                    elif op.startswith("del"): ops += [('d', int(op[3:]))]
                    for s, stk, _ in seq(st, ops):
                        want = {c: (v[-1] if v else None) for c, v in stk.items()}
                        verify(s, h, K, K3, want, "%s/%s" % (kn, op), None)
        # growth
        for m, limit in ((3, 4), (4, 4), (5, 4)) + (((8, 4),) if kt == 0 else ()):
            for pat in rgs(m, 3 if m < 8 else 2):
                if m == 8 and pat[:4] != (0, 1, 0, 1): continue
                for h1, h2 in itertools.product((1, 5, 9, -14), repeat=2) if m < 5 else ((5, 9), (1, 5), (9, 1), (-14, 5)):
                    if max(pat) < 2 and h2 != 1 and m < 5: continue
                    if m == 5 and max(pat) < 2: continue
                    st, h, d = setup(kt)
                    K = Keys(S, kt); K.hash = {0: 1, 1: h1, 2: h2}
                    I.store(st, Ptr(d.o, add(d.off, S.fld("dict", "size"))), limit, scen.I64)
                    keys = {c: K.key(st, c) for c in range(3)}
                    cur = [(st, {})]
                    for c in pat:
                        nxt = []
                        for s, w in cur:
                            for t, v, ws in insert(s, h, keys[c]): nxt.append((t, dict(w) | {c: (v, ws)}))
                        cur = nxt
                    for s, w in cur:
                        grown = I.load(s, h, scen.PT) != d
                        n[0] += 1
                        verify(s, h, K, keys, w, "%s/growth" % kn, None)
                        cnt = S.rd(s, I.load(s, h, scen.PT), "dict", "number_elements", scen.I64)
                        ctx.ob("%s/growth/count" % kn, cnt == m, "after %d insertions the dictionary counts %r entries" % (m, cnt))
                        if grown:
                            # the entries remain deletable, latest first
                            c = pat[-1]
                            for t, _ in S.call("dict_delete", [I.load(s, h, scen.PT), keys[c]], s.fork()):
                                w2 = dict(w)
                                verify_deleted(ctx, t, h, keys, c, pat, w, search, kn)
    ctx.need(n[0], "searches")
    ctx.extra["searches"] = n[0]

def verify_deleted(ctx, st, h, keys, c, pat, w, search, kn):
    for s, got in search(st, h, keys[c]):
        ctx.ob("%s/growth/deletion" % kn, got != w[c][0], "a deleted entry is still found after the dictionary grew")
        ctx.ob("%s/growth/deletion" % kn, (got == NULL) == (pat.count(c) == 1), "an older entry of the key is lost")

def rgs(n, k):
    out = []
    def rec(p, m):
        if len(p) == n: out.append(tuple(p)); return
        for c in range(min(m + 1, k)): rec(p + [c], max(m, c + 1))
    rec([], 0)
    return out
