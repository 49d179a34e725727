"""C30: anonymous labels resolve to the right entry or to none."""
from .common import *
from . import labels, scen
EXPLANATION = ("Abstract interpretation of anonymous label definitions and references (operator_node/label_node/id_node, expand_node with the real tables and the real "
               "sort comparison; LLVM IR of /repo's current sources): up to four definitions at arbitrary increasing lines of the file, among definitions of files whose names "
               "sort before and after it, are recorded in two insertion orders; a reference with one to four signs at an arbitrary line must on every path yield the address "
               "of the n-th definition at or before (after) the reference, as implied by the path's facts about the lines, or none; every table access is checked to lie within the recorded entries.")
ASSUMPTIONS = ["tables of up to six entries, references of up to four signs stand for all sizes (the search loops are uniform in the index)", "qsort sorts by the given comparison function", "the dictionary keeps what is inserted (C16)"]
ZERO = ((0, 0),)
LE = ((-INF, 0),); GT = ((1, INF),)
def run(ctx):
    ctx.rule = "result == address of the n-th definition in the stated direction in the same file, or none if there are fewer; no entry outside the table is read"
    L = labels.Labels(ctx); S, I = L.S, L.I
    L.opaque_names()
    tabs = {"-": ("minus_symbol_table", "minus_symbol_table_index"), "+": ("plus_symbol_table", "plus_symbol_table_index")}
    bad = []; seen = [0]
    state = {}
    def load(I, st, p, size, inst):
        if not isinstance(p, Ptr) or p.o is None: return
        if not state.get("on"): return
        tp = state["objs"]
        k = tp.get(p.o)
        if k is None: return
        seen[0] += 1
        lo, hi = st.rng(p.off) if isinstance(p.off, (int, Lin)) else (-1, -1)
        if lo < 0 or hi + size > k: bad.append((p.off, k, I.where(inst)))
    I.on_load = load
    # (file, index of the file's definition) in the order in which they are recorded
    plans = {"none": [], "one": ["m0"], "two": ["m0", "m1"], "three": ["m0", "m1", "m2"], "four": ["m0", "m1", "m2", "m3"],
             "two, other files first": ["a0", "z0", "m0", "m1"], "two, other files later": ["m0", "z0", "m1", "a0"], "two, recorded in reverse": ["m1", "m0"],
             "two, other files twice": ["a0", "z0", "z1", "m0", "a1", "m1"], "only in other files": ["a0", "z0"]}
    cnt = 0
    NAMES = {"": {"a": "a.asm", "m": "m.asm", "z": "z.asm"}, " of neighbouring names": {"a": "l.asm", "m": "m.asm", "z": "n.asm"},
             " of long names": {"a": "modules/display_1.asm", "m": "modules/display_2.asm", "z": "modules/display_3.asm"},
             " of names that begin alike": {"a": "m", "m": "m.asm", "z": "m.asm.inc"}}
    for sign, names, pn, plan, base, step in [(x, y, k, v, b, t) for x in "-+" for y in NAMES for k, v in plans.items() for b, t in ((0x1010, 16), (0, 1), (0xFFFF, -1)) if (not y or "a0" in v) and (b == 0x1010 or not y and len(v) in (1, 3))]:
        if True:
            file = NAMES[names]; pn += names
            st = L.start()
            lines = {}
            for f in "amz":
                prev = None
                for k in range(4):
                    v = fresh("line_%s%d" % (f, k), 32, 1, 1 << 20); lines[f + str(k)] = v
                    if prev is not None: st.assume(sub(v, prev), GT)
                    prev = v
            vals = {}
            sts = [st]
            for k, d in enumerate(plan):
                vals[d] = base + step * k
                nxt = []
                for s in sts:
                    S.set(s, "current_file_name", S.text(s, file[d[0]])); S.set(s, "yylineno", lines[d])
                    s, node = L.statement(s, "label", sign, vals[d])
                    e0 = S.get(s, "error_count")
                    for t, _ in S.call("expand_node", [node], s):
                        ctx.ob("%s/%s/recorded" % (sign, pn), S.get(t, "error_count") == e0, "recording a label reports an error")
                        nxt.append(t)
                sts = nxt
            mine = [d for d in sorted(plan, key=lambda d: (d[0], int(d[1:]))) if d[0] == "m"]
            N = len(mine)
            for depth in range(1, 5):
                key = "%s/%s" % (sign * depth, pn)
                for s0 in sts:
                    s = s0.fork()
                    ref = fresh("refline", 32, 1, 1 << 20)
                    S.set(s, "current_file_name", S.text(s, file["m"])); S.set(s, "yylineno", ref)
                    state["objs"] = {}
                    for t, ix in tabs.values():
                        p = S.get(s, t, scen.PT); n = S.get(s, ix)
                        if isinstance(p, Ptr) and p.o is not None and isinstance(n, int): state["objs"][p.o] = n * 16
                    state["on"] = True; del bad[:]
                    outs = L.reference(s, sign * depth)
                    state["on"] = False
                    ctx.ob(key + "/within the table", not bad, bad and "an entry outside the recorded ones is read (offset %r of %r)" % bad[0][:2] or "", bad[0][2] if bad else "")
                    for t, v, node in outs:
                        cnt += 1
                        nd = [e for e in t.events() if e[0] == 'nullderef']
                        ctx.ob(key + "/within the table", not nd, nd and "null entry used" or "", nd[0][1] if nd else "")
                        od = labels.Order(t, [ref] + [lines[m] for m in mine])
                        if not od.feasible: continue
                        def le(k): return od.upper(lines[mine[k]], ref) <= 0     # definition k at or before the reference
                        def gt(k): return od.upper(ref, lines[mine[k]]) <= -1
                        y = S.rd(t, node, "parse_node", "id_i", scen.PT)
                        known = S.rd(t, y, "symbol_table", "is_initialized", scen.I8)
                        hit = [k for k in range(N) if v == vals[mine[k]] and (known == 1 or v != 0)]
                        ctx.ob(key + "/known", known == (1 if hit else 0), "the reference counts as %s" % ("resolved although there is no such definition" if not hit else "unresolved although it has an address"))
                        if hit:
                            k = hit[0]
                            if sign == "-":       # k is the depth-th before
                                j = k + depth - 1
                                ok = j < N and le(j) and (j + 1 == N or gt(j + 1))
                            else:
                                j = k - depth + 1
                                ok = j >= 0 and gt(j) and (j == 0 or le(j - 1))
                            ctx.ob(key, ok, "resolves to definition %d of %d although the path allows reference lines %s" %
                                   (k + 1, N, ", ".join("def%d-ref in %s" % (q + 1, t.rset(sub(lines[mine[q]], ref))) for q in range(N))))
                        elif v == 0:
                            if sign == "-": ok = N < depth or gt(depth - 1)
                            else: ok = N < depth or le(N - depth)
                            ctx.ob(key, ok, "stays unresolved although there may be enough definitions (%s)" %
                                   ", ".join("def%d-ref in %s" % (q + 1, t.rset(sub(lines[mine[q]], ref))) for q in range(N)))
                        else:
                            ctx.ob(key, False, "yields %r, which is no definition of this file (definitions %s)" % (v, {hex(x): d for d, x in vals.items()}))
    ctx.need(cnt, "references"); ctx.need(seen[0], "table accesses")
    ctx.extra["reference_paths"] = cnt; ctx.extra["table_accesses"] = seen[0]
