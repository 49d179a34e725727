"""C15: names that differ only in letter case are one name, all others differ."""
import itertools
from .common import *
from .common import _ai
from . import labels, scen, chartext
from engine import libc
EXPLANATION = ("Abstract interpretation of hash_function, stricmp and the symbol/macro lookup code (LLVM IR of /repo's current sources). Names are character arrays with "
               "symbolic characters: every position is an arbitrary upper-case letter, lower-case letter or other character. Two spellings that differ in case only "
               "must give the identical hash term and compare equal; on every path on which the comparison yields 0 the folded characters must be equal; names of "
               "different length never compare equal. An entry inserted under one spelling must be the one found (and deleted) under any other spelling, and "
               "definitions of constants, labels, local labels and section members must be visible under every spelling of name and scope.")
ASSUMPTIONS = ["letters are the ASCII letters (C locale)", "names up to 8 characters for equal spellings, 3 for unequal ones: the loops treat every position by its parity only"]
OTHER = compl(((-INF, -129), (0, 0), (65, 90), (97, 122), (128, INF)))

class Names:
    def __init__(self, S): self.S = S; self.I = S.I
    def arr(self, st, cs, name):
        o = self.I.alloc(name, 'heap', len(cs) + 1, 'undef'); st.nonnull = st.nonnull | {o.id}
        for j, c in enumerate(list(cs) + [0]): self.I.store(st, Ptr(o.id, j), c, scen.I8)
        return Ptr(o.id, 0)
    def ch(self, st, cls, j):
        """character of class U/L/O; (value, folded)"""
        if cls == 'O':
            c = fresh("c%d" % j, 8)
            if not st.assume(c, OTHER): raise Broken("character class")
            return c, c
        k = fresh("k%d" % j, 8, 0, 25)
        return (add(k, 65), add(k, 97)) if cls == 'U' else (add(k, 97), add(k, 97))

def variants(N, st, pat):
    a, b = [], []
    for j, p in enumerate(pat):
        c, f = N.ch(st, 'U' if p != 'O' else 'O', j)
        if p == 'O': a.append(c); b.append(c)
        elif p == 'UL': a.append(c); b.append(f)
        elif p == 'LU': a.append(f); b.append(c)
        elif p == 'UU': a.append(c); b.append(c)
    return a, b

def run(ctx):
    ctx.rule = "case variants: same hash term, comparison 0; comparison 0 implies equal folded characters; lookups under any spelling find the same entry"
    L = labels.Labels(ctx); S = L.S; I = S.I; N = Names(S)
    n = 0
    pats = [list(p) for k in range(0, 4) for p in itertools.product(("UL", "LU", "O"), repeat=k)]
    pats += [["UL", "O"] * 4, ["LU"] * 8, ["O", "O", "O", "LU", "UL", "UL", "O", "LU"], ["O"] * 7 + ["UL"], ["O"] * 6 + ["LU"], ["UL", "LU", "O"] * 24, ["O"] * 40 + ["UL"], ["O"] * 70 + ["LU", "UL"]]
    for pat in pats:
        key = "%d chars" % len(pat)
        st = S.start()
        a, b = variants(N, st, pat)
        pa, pb = N.arr(st, a, "A"), N.arr(st, b, "B")
        for s, ha in S.call("hash_function", [pa], st):
            for t, hb in S.call("hash_function", [pb], s):
                n += 1
                ctx.ob("hash of case variants, " + key, same_bits(t, ha, hb, 32), "two spellings of one name (%s) hash differently" % " ".join(pat))
        st = S.start()
        a, b = variants(N, st, pat)
        pa, pb = N.arr(st, a, "A"), N.arr(st, b, "B")
        for s, r in S.call("stricmp", [pa, pb], st):
            n += 1
            ctx.ob("comparison of case variants, " + key, r == 0 or s.rset(r) == ((0, 0),), "two spellings of one name (%s) may compare as different (%r)" % (" ".join(pat), r))
    # unequal names
    un = [(p, q) for k in (1, 2) for p in itertools.product("ULO", repeat=k) for q in itertools.product("ULO", repeat=k)]
    un += [(("U", "L", x), ("L", "L", y)) for x in "ULO" for y in "ULO"] + [((x, "U", "O"), (y, "L", "O")) for x in "ULO" for y in "ULO"]
    for p, q in un:
        st = S.start()
        A = [N.ch(st, c, j) for j, c in enumerate(p)]; B = [N.ch(st, c, j) for j, c in enumerate(q)]
        pa, pb = N.arr(st, [c for c, _ in A], "A"), N.arr(st, [c for c, _ in B], "B")
        for s, r in S.call("stricmp", [pa, pb], st):
            n += 1
            if not inter(s.rset(r), ((0, 0),)): continue
            s = s.fork(); s.assume(r, ((0, 0),))
            for j, ((_, f), (_, g)) in enumerate(zip(A, B)):
                d = s.rset(sub(f, g))
                ctx.ob("different names, %d chars" % len(p), d in ((), ((0, 0),)), "names compare equal although character %d may differ (by %s, classes %s/%s)" % (j, d, p, q))
    for la in range(0, 4):
        for lb in range(0, 4):
            if la == lb: continue
            for cl in "ULO":
                st = S.start()
                A = [N.ch(st, cl, j) for j in range(max(la, lb))]
                pa, pb = N.arr(st, [c for c, _ in A[:la]], "A"), N.arr(st, [f for _, f in A[:lb]], "B")
                for s, r in S.call("stricmp", [pa, pb], st):
                    n += 1
                    ctx.ob("names of different length", not inter(s.rset(r), ((0, 0),)), "a name and its beginning compare equal (lengths %d, %d)" % (la, lb))
    # an entry is found and deleted under another spelling
    saved = dict(I.models); chartext.install(I)
    for pat in (["UL"], ["LU", "O"], ["O", "UL", "LU"], ["UL", "UL", "O", "LU", "O"]):
        st = S.start()
        a, b = variants(N, st, pat)
        pa, pb = N.arr(st, a, "A"), N.arr(st, b, "B")
        o = I.alloc("value", 'heap', 8, 'undef'); st.nonnull = st.nonnull | {o.id}
        I.store(st, Ptr(o.id, 0), fresh("value", 64), scen.I64)
        st, d = S.one("dict_create", [8, 0], st)
        h = I.alloc("handle", 'heap', 8, 'undef'); I.store(st, Ptr(h.id, 0), d, scen.PT)
        for s, v in S.call("dict_insert", [Ptr(h.id, 0), pa, Ptr(o.id, 0)], st):
            for t, w in S.call("dict_search", [I.load(s, Ptr(h.id, 0), scen.PT), pb], s.fork()):
                n += 1
                ctx.ob("search under another spelling", w == v, "an entry is not found under another spelling of its key")
            for t, _ in S.call("dict_delete", [I.load(s, Ptr(h.id, 0), scen.PT), pb], s.fork()):
                for u, w in S.call("dict_search", [I.load(t, Ptr(h.id, 0), scen.PT), pa], t):
                    n += 1
                    ctx.ob("deletion under another spelling", w == NULL, "an entry survives deletion under another spelling of its key")
    I.models.clear(); I.models.update(saved)
    # names through the symbol code
    def val(st, got, want, key, what):
        ctx.ob(key, got == want or st.rset(sub(got, want)) == ((0, 0),), what + " yields %r instead of the defined value" % (got,))
    sp = {"foo": ("foo", "FOO", "fOo", "Foo"), "bar9_z": ("BAR9_Z", "bar9_Z"), "@loop": ("@LOOP", "@Loop"), "sec.foo": ("SEC.foo", "sec.FOO")}
    for kind in ("const", "assign", "label"):
        for name, others in sp.items():
            if '.' in name or (kind == "const" and name[0] == '@'): continue
            for scope, scope2, label, label2 in ((None, None, "start", "START"), ("sec", "Sec", "start", "Start"), ("a.B", "A.b", "x1", "X1")):
                for other in others:
                    v = fresh("v", 16, 0, 0xFFFF)
                    st = L.start(scope, label)
                    st, node = L.statement(st, kind, name, v)
                    for t, err, c, m in L.run(st, node):
                        key = "%s %s" % (kind, "in a section" if scope else "outside")
                        ctx.ob(key, not err, "the definition of %s is rejected" % name)
                        if kind != "label" or name[0] == '@':
                            S.set(t, "last_label", S.text(t, label2))
                        S.set(t, "current_scope", S.text(t, scope2) if scope2 else NULL)
                        for u, g, _ in L.reference(t, other):
                            n += 1
                            val(u, g, v, key, "%s read as %s" % (name, other))
                        if name[0] != '@' and scope:
                            S.set(t, "current_scope", NULL)
                            for u, g, _ in L.reference(t, (scope2 + "." + other)):
                                n += 1
                                val(u, g, v, key + " by full name", "%s.%s read as %s.%s" % (scope, name, scope2, other))
    ctx.need(n, "comparisons")
    ctx.extra["paths"] = n
