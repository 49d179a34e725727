"""C27: escape sequences and strings."""
from .common import *
from .common import _ai
from . import scen, bounds
from .scen import I8, I32, PT
import itertools
from engine.dom import OBJS, sub
EXPLANATION = ("The real conversion of string texts is followed on texts built from every kind of piece (ordinary characters as symbols standing for all of them, every escape letter in both cases, "
               "every other letter behind a backslash, hexadecimal escapes with every pair of digits and with missing digits, a backslash at the end), alone, in pairs and in triples; "
               "the text's and the copy's memory have their exact sizes, and every read and write must stay inside. The result must be the characters denoted, in order.")
ASSUMPTIONS = ["each turn of the conversion depends only on the characters from its position on, so pieces in longer texts behave as in triples"]
ESC = {'a': 7, 'b': 8, 'f': 12, 'v': 11, 'r': 13, 'n': 10, 't': 9, "'": 39, '"': 34, '\\': 92}
HEX = [ord(c) for c in "0123456789abcdefABCDEF"]
PROBES = []

def run(ctx):
    ctx.rule = "converted text == the characters its pieces denote; unknown or unfinished escapes => an error is reported; no access outside text and copy"
    S = scen.Scn(ctx, PROBES); I = S.I
    I.unroll_decided = 5000; I.unroll = 5000
    I.models.pop("yymessage", None)
    I.models["yymessage"] = lambda I, st, a, inst: None
    ctx.need(ctx.fn("sanitize_string") is not None, "sanitize_string")
    W = bounds.Bounds(I, loads=True, only=lambda o: o.kind == 'heap')
    
    esc = sorted({ord(c) for c in ESC} | {ord(c.upper()) for c in ESC} | {ord('x'), ord('X'), 0})
    def sym(name, drop, keep=None):
        if keep is None: keep = [k for k in range(1, 256) if k not in drop]
        rs = []
        for k in keep:
            if rs and rs[-1][1] == k - 1: rs[-1][1] = k
            else: rs.append([k, k])
        # signed bytes
        out = []
        for a, b in rs:
            if a <= 127: out.append((a, min(b, 127)))
            if b >= 128: out.append((max(a, 128) - 256, b - 256))
        v = fresh(name, 8, min(a for a, b in out), max(b for a, b in out))
        return v, tuple(sorted(out))
    # pieces: (name, [cell], [denoted], error)  cells are ints or 'P' (ordinary) / 'U' (unknown escape letter)
    pieces = [("ordinary", ['P'], ['P'], False), ("digit", [HEX[7]], [HEX[7]], False), ("letter", [ord('n')], [ord('n')], False)]
    for c, v in ESC.items():
        for l in {c, c.upper()}: pieces.append(("\\" + l, [92, ord(l)], [v], False))
    pieces.append(("unknown escape", [92, ord('q')], None, True))
    for l in "xX":
        pieces.append(("\\%s41" % l, [92, ord(l), 0x34, 0x31], [0x41], False))
    pieces.append(("\\x0aFf", [92, 120, 0x30, ord('a'), ord('F'), ord('f')], [10, -1], False))
    cases = [[p] for p in pieces] + [list(p) for p in itertools.product(pieces, repeat=2)]
    small = [p for p in pieces if p[0] in ("ordinary", "digit", "\\n", "\\\\", "unknown escape", "\\x41", "\\x0aFf", '\\"')]
    cases += [list(p) for p in itertools.product(small, repeat=3)] + [[]]
    ends = [("", [], False), ("\\ at the end", [92], True), ("\\x at the end", [92, 120], True), ("\\x4 at the end", [92, 120, 0x34], True), ("\\xg", [92, 120, ord('g')], True), ("\\x4g", [92, 120, 0x34, ord('g')], True)]
    n = 0
    def text(st, cells):
        vals = []; conds = []
        for k, c in enumerate(cells):
            if c == 'P': v, keep = sym("c%d" % k, set(HEX) | {92, 0}); conds.append((v, keep))
            else: v = c
            vals.append(v)
        o = I.alloc("text", 'heap', len(cells) + 1, 'undef'); st.nonnull = st.nonnull | {o.id}
        for k, v in enumerate(vals): I.store(st, Ptr(o.id, k), v if not isinstance(v, int) or v < 128 else v - 256, I8)
        I.store(st, Ptr(o.id, len(vals)), 0, I8)
        for v, keep in conds: st.assume(v, keep)
        st.slen[(o.id, 0)] = len(vals)
        return Ptr(o.id, 0), vals
    def once(key, label, cells, want, err):
        nonlocal n
        st = S.start(); p, vals = text(st, cells)
        e0 = S.get(st, "error_count"); mark = st.ev
        I.exits.clear()
        res = W.call(ctx, S, key + "/inside", "sanitize_string", [p], st)
        n += 1
        if res: ctx.ob(key + "/returns", not I.exits, "%s: no result" % label, "str.cc")
        I.exits.clear()
        for s, q in res:
            bad = W.bad(s, mark)
            ctx.ob(key + "/inside", not bad, "%s: %s" % (label, W.tell(bad[0])) if bad else "", bad[0][1] if bad else "")
            reported = S.get(s, "error_count") != e0
            ctx.ob(key + ("/reported" if err else "/accepted"), reported == err, "%s is %sreported" % (label, "" if reported else "not "), "str.cc")
            if err or want is None: continue
            exp = [vals[w[1]] if isinstance(w, tuple) else w for w in want] + [0]
            size = OBJS[q.o].size if isinstance(q, Ptr) and q.o is not None else None
            room = sub(size, len(exp)) if size is not None else 0
            ctx.ob(key + "/room", (room if isinstance(room, int) else s.rng(room)[0]) >= 0, "%s: no room for the terminator" % label, "str.cc")
            got = [I.load(s, Ptr(q.o, add(q.off, k)), I8) for k in range(len(exp))] if isinstance(q, Ptr) and q.o is not None else []
            ok = len(got) == len(exp) and all(same_bits(s, a, b, 8) for a, b in zip(got, exp))
            ctx.ob(key + "/text", ok, "%s becomes %r instead of %r" % (label, got, exp), "str.cc")
    for ps in cases:
        for nm, tail, bad in (ends if len(ps) < 2 else ends[:2]):
            cells = []; want = []; err = bad
            for k, (pn, c, d, e) in enumerate(ps):
                base = len(cells); cells += c; err = err or e
                if d is None: want = None
                elif want is not None: want += [('at', base + c.index('P')) if x == 'P' else x for x in d]
            cells += tail
            # digits behind a hexadecimal escape belong to it in pairs
            if any(a[0].startswith("\\x") or a[0].startswith("\\X") for a in ps):
                want = hexed(cells) if want is not None and not err else want
            label = " ".join([p[0] for p in ps] + ([nm] if nm else [])) or "nothing"
            once("piece" if len(ps) < 2 else "%d pieces" % len(ps), label, cells, want, err)
    # every pair of digits
    for a in HEX:
        for b in HEX:
            v = int(chr(a) + chr(b), 16)
            once("hexadecimal", "\\x%c%c" % (a, b), [92, 120, a, b], [v if v < 128 else v - 256], False)
    # every letter without a meaning
    for a in range(1, 256):
        if a not in esc: once("unknown", "backslash and character %d" % a, [92, a], None, True); once("unknown", "backslash and character %d, then text" % a, [92, a, 65], None, True)
    # long texts
    for k in (63, 64, 255, 256, 1023): once("long", "%d characters" % k, [65 + j % 26 for j in range(k)], [65 + j % 26 for j in range(k)], False)
    ctx.extra["texts"] = n; ctx.extra["accesses checked"] = W.count
    ctx.need(W.count > 1000, "accesses")

def hexed(cells):
    """independent reading of the text"""
    out = []; k = 0
    while k < len(cells):
        c = cells[k]
        if c != 92: out.append(('at', k)); k += 1; continue
        l = cells[k + 1]
        if l in (120, 88):
            k += 2
            while k + 1 < len(cells) and cells[k] in HEX and cells[k + 1] in HEX:
                v = int(chr(cells[k]) + chr(cells[k + 1]), 16); out.append(v if v < 128 else v - 256); k += 2
        else: out.append(ESC[chr(l).lower()]); k += 2
    return out
